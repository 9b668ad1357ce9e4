//! A case is everything that decides one simulated run: parameters and content seed of the
//! simulated world, the operation history, the fault plan and the schedule. It is what the
//! minimiser shrinks and what a replay file contains.

use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub id: u32,
    pub actor: u32,
    pub kind: String,
    pub a: Vec<i64>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    /// Operation in which the fault fires (id).
    pub op: u32,
    /// Index of the I/O call within that operation.
    pub io: u32,
    pub kind: String,
    pub arg: i64,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub prop: String,
    pub scenario: String,
    pub seed: u64,
    pub params: BTreeMap<String, i64>,
    pub ops: Vec<Op>,
    pub faults: Vec<Fault>,
    /// Scheduling decisions (index into the sorted list of runnable actors, per decision point);
    /// past the end: keep running the current actor.
    pub sched: Vec<u32>,
}

impl Case {
    pub fn new(prop: &str, scenario: &str, seed: u64) -> Self {
        Case {
            prop: prop.to_string(),
            scenario: scenario.to_string(),
            seed,
            params: BTreeMap::new(),
            ops: Vec::new(),
            faults: Vec::new(),
            sched: Vec::new(),
        }
    }
    pub fn p(&self, name: &str) -> i64 {
        *self.params.get(name).unwrap_or(&0)
    }
    pub fn set(&mut self, name: &str, v: i64) {
        self.params.insert(name.to_string(), v);
    }
    pub fn op(&mut self, kind: &str, a: &[i64]) -> u32 {
        self.op_by(0, kind, a)
    }
    pub fn op_by(&mut self, actor: u32, kind: &str, a: &[i64]) -> u32 {
        // id 0 is the set up (open) phase
        let id = self.ops.iter().map(|o| o.id).max().unwrap_or(0) + 1;
        self.ops.push(Op {
            id,
            actor,
            kind: kind.to_string(),
            a: a.to_vec(),
        });
        id
    }
    pub fn fault(&mut self, op: u32, io: u32, kind: &str, arg: i64) {
        if !self.faults.iter().any(|f| f.op == op && f.io == io) {
            self.faults.push(Fault {
                op,
                io,
                kind: kind.to_string(),
                arg,
            });
        }
    }

    pub fn to_json(&self) -> String {
        let mut s = String::new();
        s.push('{');
        write!(
            s,
            "\"property\":{},\"scenario\":{},\"seed\":\"{}\",",
            jstr(&self.prop),
            jstr(&self.scenario),
            self.seed
        )
        .unwrap();
        s.push_str("\"params\":{");
        for (i, (k, v)) in self.params.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            write!(s, "{}:{}", jstr(k), v).unwrap();
        }
        s.push_str("},\n\"ops\":[");
        for (i, o) in self.ops.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            let args: Vec<String> = o.a.iter().map(|x| x.to_string()).collect();
            write!(
                s,
                "\n  {{\"id\":{},\"actor\":{},\"kind\":{},\"a\":[{}]}}",
                o.id,
                o.actor,
                jstr(&o.kind),
                args.join(",")
            )
            .unwrap();
        }
        s.push_str("],\n\"faults\":[");
        for (i, f) in self.faults.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            write!(
                s,
                "\n  {{\"op\":{},\"io\":{},\"kind\":{},\"arg\":{}}}",
                f.op,
                f.io,
                jstr(&f.kind),
                f.arg
            )
            .unwrap();
        }
        let sched: Vec<String> = self.sched.iter().map(|x| x.to_string()).collect();
        write!(s, "],\n\"sched\":[{}]}}", sched.join(",")).unwrap();
        s
    }

    pub fn from_json(v: &Json) -> Option<Case> {
        let o = v.obj()?;
        let mut c = Case::new(
            o.get("property")?.str()?,
            o.get("scenario")?.str()?,
            o.get("seed")?.str()?.parse().ok()?,
        );
        for (k, v) in o.get("params")?.obj()? {
            c.params.insert(k.clone(), v.num()?);
        }
        for e in o.get("ops")?.arr()? {
            let e = e.obj()?;
            let mut a = Vec::new();
            for x in e.get("a")?.arr()? {
                a.push(x.num()?);
            }
            c.ops.push(Op {
                id: e.get("id")?.num()? as u32,
                actor: e.get("actor")?.num()? as u32,
                kind: e.get("kind")?.str()?.to_string(),
                a,
            });
        }
        for e in o.get("faults")?.arr()? {
            let e = e.obj()?;
            c.faults.push(Fault {
                op: e.get("op")?.num()? as u32,
                io: e.get("io")?.num()? as u32,
                kind: e.get("kind")?.str()?.to_string(),
                arg: e.get("arg")?.num()?,
            });
        }
        for x in o.get("sched")?.arr()? {
            c.sched.push(x.num()? as u32);
        }
        Some(c)
    }
}

pub fn jstr(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            '\r' => r.push_str("\\r"),
            '\t' => r.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(r, "\\u{:04x}", c as u32);
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

#[derive(Clone, Debug)]
pub enum Json {
    Null,
    Bool(bool),
    Num(f64, i64),
    Str(String),
    Arr(Vec<Json>),
    Obj(BTreeMap<String, Json>),
}

impl Json {
    pub fn obj(&self) -> Option<&BTreeMap<String, Json>> {
        if let Json::Obj(o) = self { Some(o) } else { None }
    }
    pub fn arr(&self) -> Option<&Vec<Json>> {
        if let Json::Arr(o) = self { Some(o) } else { None }
    }
    pub fn str(&self) -> Option<&str> {
        if let Json::Str(o) = self { Some(o) } else { None }
    }
    pub fn num(&self) -> Option<i64> {
        if let Json::Num(_, i) = self { Some(*i) } else { None }
    }
    pub fn parse(text: &str) -> Option<Json> {
        let b = text.as_bytes();
        let mut i = 0;
        parse_value(b, &mut i)
    }
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && (b[*i] as char).is_ascii_whitespace() {
        *i += 1;
    }
}

fn parse_value(b: &[u8], i: &mut usize) -> Option<Json> {
    ws(b, i);
    match *b.get(*i)? {
        b'{' => {
            *i += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, i);
                if *b.get(*i)? == b'}' {
                    *i += 1;
                    return Some(Json::Obj(m));
                }
                if *b.get(*i)? == b',' {
                    *i += 1;
                    continue;
                }
                let k = match parse_value(b, i)? {
                    Json::Str(s) => s,
                    _ => return None,
                };
                ws(b, i);
                if *b.get(*i)? != b':' {
                    return None;
                }
                *i += 1;
                let v = parse_value(b, i)?;
                m.insert(k, v);
            }
        }
        b'[' => {
            *i += 1;
            let mut v = Vec::new();
            loop {
                ws(b, i);
                match *b.get(*i)? {
                    b']' => {
                        *i += 1;
                        return Some(Json::Arr(v));
                    }
                    b',' => {
                        *i += 1;
                    }
                    _ => v.push(parse_value(b, i)?),
                }
            }
        }
        b'"' => {
            *i += 1;
            let mut s: Vec<u8> = Vec::new();
            loop {
                match *b.get(*i)? {
                    b'"' => {
                        *i += 1;
                        return Some(Json::Str(String::from_utf8(s).ok()?));
                    }
                    b'\\' => {
                        *i += 1;
                        match *b.get(*i)? {
                            b'n' => s.push(b'\n'),
                            b't' => s.push(b'\t'),
                            b'r' => s.push(b'\r'),
                            b'u' => {
                                let h = std::str::from_utf8(b.get(*i + 1..*i + 5)?).ok()?;
                                let c = char::from_u32(u32::from_str_radix(h, 16).ok()?)?;
                                let mut t = [0u8; 4];
                                s.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
                                *i += 4;
                            }
                            c => s.push(c),
                        }
                        *i += 1;
                    }
                    c => {
                        s.push(c);
                        *i += 1;
                    }
                }
            }
        }
        b't' => {
            *i += 4;
            Some(Json::Bool(true))
        }
        b'f' => {
            *i += 5;
            Some(Json::Bool(false))
        }
        b'n' => {
            *i += 4;
            Some(Json::Null)
        }
        _ => {
            let st = *i;
            while *i < b.len() && matches!(b[*i], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                *i += 1;
            }
            let t = std::str::from_utf8(&b[st..*i]).ok()?;
            let n: i64 = t.parse().unwrap_or_else(|_| t.parse::<f64>().unwrap_or(0.0) as i64);
            Some(Json::Num(t.parse().ok()?, n))
        }
    }
}
