//! C05: signature scanning reports true matches only, and misses none.

use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

use keramics_sigscan::{PatternType, ScanContext, Scanner, Signature};

use crate::case::Case;
use crate::env;
use crate::rng::{Rng, hash_i64, mix};
use crate::runner::{Prop, RunResult, Violation};
use crate::sched;

pub struct C05Sigscan;
pub static C05: C05Sigscan = C05Sigscan;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Sig {
    name: String,
    kind: i64,
    offset: usize,
    pattern: Vec<u8>,
}

impl Sig {
    /// Absolute offset of a bound signature, if it fits in the data.
    fn place(&self, size: usize) -> Option<usize> {
        let o = match self.kind {
            0 => self.offset,
            1 => size.checked_sub(self.offset)?,
            _ => return None,
        };
        if o + self.pattern.len() <= size { Some(o) } else { None }
    }
}

fn alphabet(case: &Case) -> Vec<u8> {
    match case.p("alphabet") {
        0 => vec![0x00, 0x41],
        1 => vec![0x91, 0x92, 0x93],
        2 => vec![b'a', b'b', b'c', b'd'],
        3 => vec![0x00, 0xff, 0x55, 0xaa, 0x90],
        _ => (0..=255).collect(),
    }
}

fn sigs(case: &Case) -> Vec<(u32, Sig)> {
    let al = alphabet(case);
    let mut v: Vec<(u32, Sig)> = Vec::new();
    for op in &case.ops {
        if op.kind != "sig" {
            continue;
        }
        let len = op.a[2].clamp(1, 64) as usize;
        let mut rng = Rng::new(mix(&[case.p("patterns") as u64, op.a[3] as u64]));
        let p: Vec<u8> = (0..len).map(|_| *rng.pick(&al)).collect();
        let s = Sig {
            name: format!("s{}", op.id),
            kind: op.a[0],
            offset: if op.a[0] == 2 { 0 } else { op.a[1].max(0) as usize },
            pattern: p,
        };
        v.push((op.id, s));
    }
    v
}

fn content(case: &Case, sigs: &[(u32, Sig)]) -> Vec<u8> {
    let n = case.p("data").max(0) as usize;
    let al = alphabet(case);
    let mut rng = Rng::new(case.seed);
    let mut d: Vec<u8> = match case.p("fill") {
        0 => vec![al[0]; n],
        _ => (0..n).map(|_| *rng.pick(&al)).collect(),
    };
    for op in &case.ops {
        if op.kind != "plant" {
            continue;
        }
        if let Some((_, s)) = sigs.iter().find(|(id, _)| *id as i64 == op.a[0]) {
            let o = match s.kind {
                2 => op.a[1].max(0) as usize,
                _ => match s.place(n) {
                    Some(o) => o,
                    None => continue,
                },
            };
            if o + s.pattern.len() <= n {
                d[o..o + s.pattern.len()].copy_from_slice(&s.pattern);
                // damage one byte of it
                if op.a[2] > 0 {
                    let k = (op.a[2] as usize - 1) % s.pattern.len();
                    d[o + k] = d[o + k].wrapping_add(1);
                }
            }
        }
    }
    d
}

/// (data offset, bytes) of every buffer that is scanned.
fn buffers(case: &Case, data: &[u8], header: usize, footer: usize) -> Vec<(usize, Vec<u8>)> {
    let n = data.len();
    if case.p("style") == 1 {
        // the way the format scanner does it: header range, zero extended, then footer range
        let mut h = vec![0u8; header];
        let k = header.min(n);
        h[..k].copy_from_slice(&data[..k]);
        let start = n.saturating_sub(footer);
        return vec![(0, h), (start, data[start..].to_vec())];
    }
    let mut v = Vec::new();
    let mut o = 0usize;
    for op in &case.ops {
        if op.kind == "buf" && o < n {
            let l = (op.a[0].max(1) as usize).min(n - o);
            v.push((o, data[o..o + l].to_vec()));
            o += l;
        }
    }
    if o < n || v.is_empty() {
        v.push((o, data[o..].to_vec()));
    }
    v
}

type Results = BTreeMap<u64, String>;

/// Builds a scanner from the signatures in the given order and scans.
fn scan(order: &[Sig], case: &Case, data: &[u8]) -> Result<(Results, u64, u64, Vec<(usize, Vec<u8>)>), String> {
    let mut scanner = Scanner::new();
    for s in order {
        let t = match s.kind {
            0 => PatternType::BoundToStart,
            1 => PatternType::BoundToEnd,
            _ => PatternType::Unbound,
        };
        scanner.add_signature(Signature::new(&s.name, t, s.offset, &s.pattern));
    }
    if let Err(e) = scanner.build() {
        return Err(format!("{e:?}"));
    }
    let mut ctx = ScanContext::new(&scanner, data.len() as u64);
    let (h, f) = (ctx.header_range_size, ctx.footer_range_size);
    let bufs = buffers(case, data, h as usize, f as usize);
    for (o, b) in &bufs {
        ctx.data_offset = *o as u64;
        ctx.scan_buffer(b);
    }
    let r: Results = ctx.results.iter().map(|(k, s)| (*k, s.identifier.clone())).collect();
    Ok((r, h, f, bufs))
}

impl C05Sigscan {
    fn judge(&self, case: &Case, sigs: &[Sig], data: &[u8], r: &Results, h: u64, f: u64, bufs: &[(usize, Vec<u8>)]) -> RunResult {
        let n = data.len();
        let bad = |class: &str, what: String| {
            Err(Violation::new(class, &format!("sigscan:{class}"), format!("{what}; results {r:?}; data size {n}, header range {h}, footer range {f}, buffers {:?}", bufs.iter().map(|b| (b.0, b.1.len())).collect::<Vec<_>>())))
        };
        // soundness
        for (o, name) in r {
            env::checked(1);
            let Some(s) = sigs.iter().find(|s| &s.name == name) else {
                return bad("unknown-signature", format!("{name} was never added"));
            };
            let o = *o as usize;
            let there = o + s.pattern.len() <= n && data[o..o + s.pattern.len()] == s.pattern[..];
            let placed = s.kind == 2 || s.place(n) == Some(o);
            if !there || !placed {
                return bad("false-match", format!("{s:?} reported at {o}"));
            }
        }
        // completeness of the header and the footer
        let first = &bufs[0];
        let last = &bufs[bufs.len() - 1];
        if first.0 == 0 && first.1.len() as u64 >= h.min(n as u64) {
            let want: BTreeSet<usize> = sigs
                .iter()
                .filter(|s| s.kind == 0)
                .filter_map(|s| s.place(n).filter(|o| data[*o..*o + s.pattern.len()] == s.pattern[..]))
                .collect();
            if !want.is_empty() {
                env::probe("header-match");
                env::checked(1);
                if !want.iter().any(|o| r.contains_key(&(*o as u64))) {
                    return bad("missed-header", format!("start-bound signatures are present at {want:?}"));
                }
            }
        }
        if last.0 as u64 <= (n as u64).saturating_sub(f) && last.0 + last.1.len() == n {
            let want: BTreeSet<usize> = sigs
                .iter()
                .filter(|s| s.kind == 1)
                .filter_map(|s| s.place(n).filter(|o| data[*o..*o + s.pattern.len()] == s.pattern[..]))
                .collect();
            if !want.is_empty() {
                env::probe("footer-match");
                env::checked(1);
                if !want.iter().any(|o| r.contains_key(&(*o as u64))) {
                    return bad("missed-footer", format!("end-bound signatures are present at {want:?}"));
                }
            }
        }
        // completeness of the unbound signatures inside every buffer
        for (bo, b) in bufs {
            for s in sigs.iter().filter(|s| s.kind == 2) {
                let l = s.pattern.len();
                if b.len() < l {
                    continue;
                }
                for k in 0..=b.len() - l {
                    if b[k..k + l] != s.pattern[..] || bo + k + l > n {
                        continue;
                    }
                    env::probe("unbound-match");
                    let o = bo + k;
                    if r.contains_key(&(o as u64)) {
                        continue;
                    }
                    // overlapped by an earlier match
                    let over = r.range(..o as u64).any(|(q, name)| {
                        sigs.iter()
                            .any(|x| &x.name == name && x.kind == 2 && *q as usize + x.pattern.len() > o)
                    });
                    // a match that another binding's report at the same offset replaced
                    let replaced = sigs.iter().any(|x| {
                        x.kind == 2
                            && (o.saturating_sub(x.pattern.len() - 1)..o).any(|q| {
                                r.get(&(q as u64)).is_some_and(|nm| {
                                    sigs.iter().any(|y| &y.name == nm && y.kind != 2)
                                }) && q + x.pattern.len() <= n
                                    && data[q..q + x.pattern.len()] == x.pattern[..]
                            })
                    });
                    if !over && !replaced {
                        return bad("missed-unbound", format!("{s:?} is present at {o} (buffer at {bo})"));
                    }
                }
            }
        }
        let _ = case;
        Ok(())
    }
}

impl Prop for C05Sigscan {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn quick_runs(&self) -> u64 {
        120_000
    }
    fn gen_case(&self, rng: &mut Rng, _index: u64, thorough: bool) -> Case {
        let mut c = Case::new("C05", "scan", rng.next());
        c.set("alphabet", rng.below(5) as i64);
        c.set("patterns", rng.below(1 << 30) as i64);
        c.set("fill", rng.chance(2, 3) as i64);
        c.set("hashseed", rng.below(1 << 30) as i64);
        c.set("permute", rng.below(1 << 30) as i64);
        let far = rng.chance(1, 5);
        let max_off = if far { 4096 } else { *rng.pick(&[4u64, 12, 40]) };
        let style = rng.chance(1, 4);
        let kinds: &[i64] = if style {
            &[0, 0, 1]
        } else {
            *rng.pick(&[&[0i64][..], &[1][..], &[2][..], &[0, 1][..], &[0, 1, 2][..], &[0, 2][..]])
        };
        let ns = if rng.chance(1, 12) { 0 } else { rng.range(1, if thorough { 24 } else { 12 }) };
        let same_size = rng.chance(1, 3);
        let sz = rng.range(1, 8);
        let mut ids = Vec::new();
        let seeds = *rng.pick(&[2u64, 6, 1000]);
        for _ in 0..ns {
            let kind = *rng.pick(kinds);
            let len = if same_size { sz } else { rng.range(1, 10) };
            let mut off = rng.below(max_off + 1);
            if kind == 1 && rng.chance(9, 10) {
                off += len;
            }
            ids.push(c.op("sig", &[kind, off as i64, len as i64, rng.below(seeds) as i64]));
        }
        let n = match rng.below(6) {
            0 => rng.range(0, 3),
            1 => rng.range(0, 30),
            2 => rng.range(0, max_off * 2 + 20),
            _ => rng.range(max_off, max_off + 600),
        };
        c.set("data", n as i64);
        for _ in 0..rng.below(6) {
            if ids.is_empty() {
                break;
            }
            let id = *rng.pick(&ids) as i64;
            let pos = rng.below(n + 1) as i64;
            let dmg = if rng.chance(1, 5) { rng.range(1, 10) as i64 } else { 0 };
            c.op("plant", &[id, pos, dmg]);
        }
        c.set("style", style as i64);
        if rng.chance(2, 3) {
            for _ in 0..rng.range(1, 8) {
                let l = match rng.below(4) {
                    0 => 1,
                    1 => rng.range(1, 16),
                    _ => rng.range(1, n.max(1)),
                };
                c.op("buf", &[l as i64]);
            }
        }
        c
    }
    fn run(&self, case: &Case) -> RunResult {
        let ids = sigs(case);
        let data = content(case, &ids);
        let list: Vec<Sig> = ids.iter().map(|x| x.1.clone()).collect();
        for op in &case.ops {
            env::log(|| format!("  {} {:?}", op.kind, op.a), hash_i64(&op.a));
        }
        let fail = |e: String| {
            Err(Violation::new("build-error", "sigscan:build-error", format!("building the scan trees failed: {e}")))
        };
        let (r, h, f, bufs) = match scan(&list, case, &data) {
            Ok(x) => x,
            Err(e) => return fail(e),
        };
        env::log(|| format!("results {r:?}"), hash_i64(&r.keys().map(|k| *k as i64).collect::<Vec<_>>()));
        self.judge(case, &list, &data, &r, h, f, &bufs)?;
        // another process, thread, and order of adding the signatures
        let mut order = list.clone();
        Rng::new(case.p("permute") as u64).shuffle(&mut order);
        let out: Arc<Mutex<Vec<Result<Results, String>>>> = Arc::new(Mutex::new(Vec::new()));
        let mut actors: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
        for k in 0..2 {
            let o = if k == 0 { list.clone() } else { order.clone() };
            let (c, d, out) = (case.clone(), data.clone(), out.clone());
            actors.push(Box::new(move || {
                let r = scan(&o, &c, &d).map(|x| x.0);
                sched::yield_point();
                out.lock().unwrap().push(r);
            }));
        }
        if case.seed % 4 == 0 {
            sched::run_actors(&case.sched, actors);
            let out = out.lock().unwrap();
            for (k, x) in out.iter().enumerate() {
                env::checked(1);
                match x {
                    Err(e) => return fail(e.clone()),
                    Ok(x) if *x != r => {
                        return Err(Violation::new(
                            "not-deterministic",
                            "sigscan:not-deterministic",
                            format!("the same scan gives {r:?} and, with other hash map seeds{}, {x:?}", if k == 1 { " and another order of signatures" } else { "" }),
                        ));
                    }
                    _ => {}
                }
            }
        }
        Ok(())
    }
    fn shrink_params(&self) -> Vec<(&'static str, i64)> {
        vec![("data", 0), ("fill", 0)]
    }
    fn rule(&self) -> &'static str {
        "a case is a set of 0-12 random signatures (start-bound, end-bound, unbound; small alphabets so that patterns collide), a content with planted complete and damaged matches, a division into buffers (including the format scanner's header and footer ranges), and hash map seeds; oracle: naive search at every offset; a quarter of the cases repeat the scan on two further scheduled threads with other hash seeds and another signature order and compare the results"
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["keramics-sigscan"]
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec!["getrandom (hash map seeds drawn from the case)", "thread scheduler"]
    }
}
