//! C02: fixed-layout records read from a stream are the bytes at that position.

use std::io::SeekFrom;
use std::path::PathBuf;
use std::sync::{Arc, Mutex};

use keramics_core::{DataStreamReference, ErrorTrace, open_fake_data_stream, open_os_data_stream};

use crate::case::{Case, Op};
use crate::data::Data;
use crate::env;
use crate::rng::{Rng, hash_i64, hash_str};
use crate::runner::{Prop, RunResult, Violation};
use crate::sched;
use crate::stream;
use crate::streamops;

#[derive(Clone, Copy, PartialEq)]
pub enum K {
    U(usize),
    I(usize),
    Bits(usize, usize, usize), // bytes, shift, bits
    Bytes,
    Utf16,
    Uuid,
    Filetime,
    Posix,
    FatDate,
    FatTimeDate,
    FatTimeDate10,
    Inner,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Fmt {
    Dec,
    Hex,
    Char,
}

/// One field of a reference layout: name, offset, kind, number of elements, big endian, format.
pub struct F(&'static str, usize, K, usize, bool, Fmt);

/// The record types, in a module of their own as the generated method is only visible to the
/// parent module.
mod records {
    use super::{F, Fmt::*, K};
    use keramics_core::ErrorTrace;
    use keramics_layout_map::LayoutMap;

    macro_rules! record {
        ($name:ident) => {
            impl $name {
                pub fn read_data(&mut self, data: &[u8]) -> Result<(), ErrorTrace> {
                    self.data = data.to_vec();
                    Ok(())
                }
            }
        };
    }

    #[derive(Default, LayoutMap)]
    #[layout_map(
        structure(
            byte_order = "little",
            field(name = "one", data_type = "u8"),
            field(name = "two", data_type = "u16"),
            field(name = "four", data_type = "u32", format = "hex"),
            field(name = "eight", data_type = "u64"),
            field(name = "two_be", data_type = "u16", byte_order = "big", format = "hex"),
            field(name = "four_be", data_type = "uint32", byte_order = "be"),
            field(name = "eight_be", data_type = "UnsignedInteger64Bit", byte_order = "BigEndian", format = "hex"),
            field(name = "last", data_type = "u8", format = "hex"),
        ),
        method(name = "debug_read_data"),
        method(name = "read_at_position")
    )]
    pub struct Little {
        pub data: Vec<u8>,
    }
    record!(Little);
    pub static LITTLE: &[F] = &[
        F("one", 0, K::U(1), 1, false, Dec),
        F("two", 1, K::U(2), 1, false, Dec),
        F("four", 3, K::U(4), 1, false, Hex),
        F("eight", 7, K::U(8), 1, false, Dec),
        F("two_be", 15, K::U(2), 1, true, Hex),
        F("four_be", 17, K::U(4), 1, true, Dec),
        F("eight_be", 21, K::U(8), 1, true, Hex),
        F("last", 29, K::U(1), 1, false, Hex),
    ];

    #[derive(Default, LayoutMap)]
    #[layout_map(
        structure(
            byte_order = "big",
            field(name = "eight", data_type = "i64"),
            field(name = "one", data_type = "i8"),
            field(name = "four", data_type = "i32"),
            field(name = "two", data_type = "i16"),
            field(name = "two_le", data_type = "int16", byte_order = "little"),
            field(name = "four_le", data_type = "i32", byte_order = "le"),
            field(name = "eight_le", data_type = "i64", byte_order = "LittleEndian"),
            field(name = "guid", data_type = "uuid"),
            field(name = "guid_le", data_type = "Uuid", byte_order = "little"),
        ),
        method(name = "debug_read_data"),
        method(name = "read_at_position")
    )]
    pub struct Big {
        pub data: Vec<u8>,
    }
    record!(Big);
    pub static BIG: &[F] = &[
        F("eight", 0, K::I(8), 1, true, Dec),
        F("one", 8, K::I(1), 1, true, Dec),
        F("four", 9, K::I(4), 1, true, Dec),
        F("two", 13, K::I(2), 1, true, Dec),
        F("two_le", 15, K::I(2), 1, false, Dec),
        F("four_le", 17, K::I(4), 1, false, Dec),
        F("eight_le", 21, K::I(8), 1, false, Dec),
        F("guid", 29, K::Uuid, 1, true, Dec),
        F("guid_le", 45, K::Uuid, 1, false, Dec),
    ];

    #[derive(Default, LayoutMap)]
    #[layout_map(
        structure(
            byte_order = "little",
            field(name = "head", data_type = "[u8; 5]", format = "hex"),
            field(name = "words", data_type = "[u16; 21]"),
            field(name = "dwords", data_type = "[u32; 3]", byte_order = "big", format = "hex"),
            field(name = "signed", data_type = "[i8; 4]"),
            field(name = "qwords", data_type = "[i64; 17]"),
            field(name = "tail", data_type = "u8"),
        ),
        method(name = "debug_read_data"),
        method(name = "read_at_position")
    )]
    pub struct Arrays {
        pub data: Vec<u8>,
    }
    record!(Arrays);
    pub static ARRAYS: &[F] = &[
        F("head", 0, K::U(1), 5, false, Hex),
        F("words", 5, K::U(2), 21, false, Dec),
        F("dwords", 47, K::U(4), 3, true, Hex),
        F("signed", 59, K::I(1), 4, false, Dec),
        F("qwords", 63, K::I(8), 17, false, Dec),
        F("tail", 199, K::U(1), 1, false, Dec),
    ];

    #[derive(Default, LayoutMap)]
    #[layout_map(
        structure(
            byte_order = "little",
            field(name = "low", data_type = "BitField8<3>"),
            field(name = "high", data_type = "BitField8<5>", format = "hex"),
            field(name = "a", data_type = "BitField32<9>"),
            field(name = "b", data_type = "BitField32<20>", format = "hex"),
            field(name = "c", data_type = "BitField32<3>"),
            field(name = "between", data_type = "u16"),
            field(name = "d", data_type = "BitField64<44>", byte_order = "big", format = "hex"),
            field(name = "e", data_type = "BitField64<17>", byte_order = "big"),
            field(name = "f", data_type = "BitField64<3>", byte_order = "big"),
            field(name = "g", data_type = "BitField16<15>"),
            field(name = "h", data_type = "BitField16<1>"),
        ),
        method(name = "debug_read_data"),
        method(name = "read_at_position")
    )]
    pub struct Bits {
        pub data: Vec<u8>,
    }
    record!(Bits);
    pub static BITS: &[F] = &[
        F("low", 0, K::Bits(1, 0, 3), 1, false, Dec),
        F("high", 0, K::Bits(1, 3, 5), 1, false, Hex),
        F("a", 1, K::Bits(4, 0, 9), 1, false, Dec),
        F("b", 1, K::Bits(4, 9, 20), 1, false, Hex),
        F("c", 1, K::Bits(4, 29, 3), 1, false, Dec),
        F("between", 5, K::U(2), 1, false, Dec),
        F("d", 7, K::Bits(8, 0, 44), 1, true, Hex),
        F("e", 7, K::Bits(8, 44, 17), 1, true, Dec),
        F("f", 7, K::Bits(8, 61, 3), 1, true, Dec),
        F("g", 15, K::Bits(2, 0, 15), 1, false, Dec),
        F("h", 15, K::Bits(2, 15, 1), 1, false, Dec),
    ];

    #[derive(Default, LayoutMap)]
    #[layout_map(
        structure(
            byte_order = "little",
            field(name = "tag", data_type = "u8", format = "char"),
            field(name = "text", data_type = "ByteString<12>"),
            field(name = "wide", data_type = "Ucs2String<6>"),
            field(name = "wide_be", data_type = "Utf16String<5>", byte_order = "big"),
            field(name = "letters", data_type = "[u8; 3]", format = "char"),
            field(name = "filetime", data_type = "Filetime"),
            field(name = "posix", data_type = "PosixTime32"),
            field(name = "posix_be", data_type = "PosixTime32", byte_order = "big"),
            field(name = "date", data_type = "FatDate"),
            field(name = "time_date", data_type = "FatTimeDate"),
            field(name = "time_date10", data_type = "FatTimeDate10Ms"),
            field(name = "end", data_type = "u16"),
        ),
        method(name = "debug_read_data"),
        method(name = "read_at_position")
    )]
    pub struct Text {
        pub data: Vec<u8>,
    }
    record!(Text);
    pub static TEXT: &[F] = &[
        F("tag", 0, K::U(1), 1, false, Char),
        F("text", 1, K::Bytes, 12, false, Dec),
        F("wide", 13, K::Utf16, 6, false, Dec),
        F("wide_be", 25, K::Utf16, 5, true, Dec),
        F("letters", 35, K::U(1), 3, false, Char),
        F("filetime", 38, K::Filetime, 1, false, Dec),
        F("posix", 46, K::Posix, 1, false, Dec),
        F("posix_be", 50, K::Posix, 1, true, Dec),
        F("date", 54, K::FatDate, 1, false, Dec),
        F("time_date", 56, K::FatTimeDate, 1, false, Dec),
        F("time_date10", 60, K::FatTimeDate10, 1, false, Dec),
        F("end", 65, K::U(2), 1, false, Dec),
    ];

    #[derive(Default, LayoutMap)]
    #[layout_map(
        structure(
            byte_order = "big",
            field(name = "kind", data_type = "u16"),
            field(name = "single", data_type = "Struct<Little; 30>"),
            field(name = "list", data_type = "[Struct<Little; 30>; 3]"),
            field(name = "check", data_type = "u32", format = "hex"),
        ),
        method(name = "debug_read_data"),
        method(name = "read_at_position")
    )]
    pub struct Nested {
        pub data: Vec<u8>,
    }
    record!(Nested);
    pub static NESTED: &[F] = &[
        F("kind", 0, K::U(2), 1, true, Dec),
        F("single", 2, K::Inner, 1, true, Dec),
        F("list", 32, K::Inner, 3, true, Dec),
        F("check", 122, K::U(4), 1, true, Hex),
    ];

    #[derive(Default, LayoutMap)]
    #[layout_map(
        structure(
            byte_order = "little",
            member(field(name = "size", data_type = "u16")),
            member(field(name = "words", data_type = "[u16; 2]", format = "hex")),
            member(group(
                size_condition = "> 6",
                field(name = "more", data_type = "u32"),
                field(name = "padding", data_type = "[u8; 3]"),
            )),
            member(group(
                size_condition = ">= 15",
                field(name = "extra", data_type = "u16", byte_order = "big"),
            )),
        ),
        method(name = "debug_read_data"),
        method(name = "read_at_position")
    )]
    pub struct Grouped {
        pub data: Vec<u8>,
    }
    record!(Grouped);
    pub static GROUPED: &[F] = &[
        F("size", 0, K::U(2), 1, false, Dec),
        F("words", 2, K::U(2), 2, false, Hex),
        F("more", 6, K::U(4), 1, false, Dec),
        F("padding", 10, K::U(1), 3, false, Dec),
        F("extra", 13, K::U(2), 1, true, Dec),
    ];
}
use records::*;

const RECORDS: i64 = 7;

fn layout(k: i64) -> (&'static str, usize, &'static [F]) {
    match k {
        0 => ("Little", 30, LITTLE),
        1 => ("Big", 61, BIG),
        2 => ("Arrays", 200, ARRAYS),
        3 => ("Bits", 17, BITS),
        4 => ("Text", 67, TEXT),
        5 => ("Nested", 126, NESTED),
        _ => ("Grouped", 15, GROUPED),
    }
}

fn read_record(k: i64, s: &DataStreamReference, p: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    macro_rules! r {
        ($t:ident) => {{
            let mut x = $t::default();
            x.read_at_position(s, p)?;
            Ok(x.data)
        }};
    }
    match k {
        0 => r!(Little),
        1 => r!(Big),
        2 => r!(Arrays),
        3 => r!(Bits),
        4 => r!(Text),
        5 => r!(Nested),
        _ => r!(Grouped),
    }
}

fn debug_record(k: i64, d: &[u8]) -> String {
    match k {
        0 => Little::debug_read_data(d),
        1 => Big::debug_read_data(d),
        2 => Arrays::debug_read_data(d),
        3 => Bits::debug_read_data(d),
        4 => Text::debug_read_data(d),
        5 => Nested::debug_read_data(d),
        _ => Grouped::debug_read_data(d),
    }
}

fn uint(d: &[u8], o: usize, n: usize, be: bool) -> u64 {
    let mut v = 0u64;
    for i in 0..n {
        let b = if be { d[o + i] } else { d[o + n - 1 - i] };
        v = v << 8 | b as u64;
    }
    v
}

fn civil(days: i64) -> (i64, i64, i64) {
    // days since 1970-01-01 to a proleptic Gregorian date
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + i64::from(m <= 2), m, doy - (153 * mp + 2) / 5 + 1)
}

fn iso(secs: i64) -> String {
    let (y, m, d) = civil(secs.div_euclid(86_400));
    let s = secs.rem_euclid(86_400);
    format!("{y:04}-{m:02}-{d:02}T{:02}:{:02}:{:02}", s / 3600, s / 60 % 60, s % 60)
}

fn esc(c: char) -> String {
    if c == '\\' { "\\\\".to_string() } else { c.to_string() }
}

fn element(f: &F, d: &[u8], o: usize) -> String {
    let be = f.4;
    let num = |v: u64, n: usize| match f.5 {
        Fmt::Hex => format!("0x{v:0w$x}", w = n * 2),
        Fmt::Char => (v as u8 as char).to_string(),
        Fmt::Dec => v.to_string(),
    };
    match f.2 {
        K::U(n) => num(uint(d, o, n, be), n),
        K::I(n) => {
            let v = uint(d, o, n, be);
            let s = 64 - 8 * n as u32;
            (((v << s) as i64) >> s).to_string()
        }
        K::Bits(n, shift, bits) => {
            let v = (uint(d, o, n, be) >> shift) & ((1u64 << bits) - 1);
            match f.5 {
                Fmt::Hex => format!("0x{v:0w$x}", w = bits.div_ceil(4)),
                _ => v.to_string(),
            }
        }
        K::Uuid => format!(
            "{:08x}-{:04x}-{:04x}-{:04x}-{:012x}",
            uint(d, o, 4, be),
            uint(d, o + 4, 2, be),
            uint(d, o + 6, 2, be),
            uint(d, o + 8, 2, true),
            uint(d, o + 10, 6, true)
        ),
        K::Filetime => {
            let v = uint(d, o, 8, false);
            format!(
                "{}.{:07} (0x{:08x}:0x{:08x})",
                iso((v / 10_000_000) as i64 - 11_644_473_600),
                v % 10_000_000,
                v >> 32,
                v & 0xffff_ffff
            )
        }
        K::Posix => {
            let v = uint(d, o, 4, be) as u32 as i32;
            format!("{} ({v})", iso(v as i64))
        }
        K::FatDate => {
            let v = uint(d, o, 2, false);
            format!("{:04}-{:02}-{:02} (0x{v:04x})", 1980 + (v >> 9), (v >> 5) & 15, v & 31)
        }
        K::FatTimeDate | K::FatTimeDate10 => {
            let o2 = if f.2 == K::FatTimeDate { o } else { o + 1 };
            let t = uint(d, o2, 2, false);
            let v = uint(d, o2 + 2, 2, false);
            // only the numbers stored are compared here, see text()
            format!(
                "{:04}-{:02}-{:02}T{:02}:{:02}:",
                1980 + (v >> 9),
                (v >> 5) & 15,
                v & 31,
                t >> 11,
                (t >> 5) & 63
            )
        }
        _ => String::new(),
    }
}

fn text(k: i64, d: &[u8]) -> Vec<(String, String)> {
    let (_, _, fields) = layout(k);
    let mut r = Vec::new();
    for f in fields {
        if k == 6 && ((f.1 >= 6 && d.len() <= 6) || (f.1 >= 13 && d.len() < 15)) {
            continue;
        }
        let v = match f.2 {
            K::Bytes => {
                let t: String =
                    d[f.1..f.1 + f.3].iter().take_while(|b| **b != 0).map(|b| esc(*b as char)).collect();
                format!("\"{t}\"")
            }
            K::Utf16 => {
                let mut t = String::new();
                for i in 0..f.3 {
                    let u = uint(d, f.1 + 2 * i, 2, f.4);
                    if u == 0 {
                        break;
                    }
                    let c = char::from_u32(u as u32).unwrap_or('?');
                    // the UCS-2 and UTF-16 string types print a backslash differently
                    t.push_str(&if f.4 { c.to_string() } else { esc(c) });
                }
                format!("\"{t}\"")
            }
            K::Inner => {
                let mut t = String::new();
                for i in 0..f.3 {
                    t.push_str("Little {");
                    for (n, v) in text(0, &d[f.1 + 30 * i..f.1 + 30 * i + 30]) {
                        t.push_str(&format!("{n}: {v},"));
                    }
                    t.push('}');
                }
                if f.3 > 1 { format!("[{t}]") } else { t }
            }
            _ if f.3 > 1 => {
                let n = match f.2 {
                    K::U(n) | K::I(n) => n,
                    _ => 1,
                };
                let e: Vec<String> = (0..f.3).map(|i| element(f, d, f.1 + n * i)).collect();
                if e.iter().all(|x| *x == e[0]) {
                    format!("[{}; {}]", e[0], e.len())
                } else {
                    format!("[{}]", e.join(", "))
                }
            }
            _ => element(f, d, f.1),
        };
        r.push((f.0.to_string(), v));
    }
    r
}

fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn check_text(k: i64, d: &[u8]) -> RunResult {
    let got = squeeze(&debug_record(k, d));
    let (name, _, fields) = layout(k);
    let mut rest: &str = match got.strip_prefix(&format!("{name}{{")) {
        Some(r) => r,
        None => &got,
    };
    for (n, v) in text(k, d) {
        let kind = fields.iter().find(|f| f.0 == n).map(|f| f.2).unwrap_or(K::Bytes);
        let want = format!("{n}:{}", squeeze(&v));
        let ok = match rest.strip_prefix(want.as_str()) {
            None => false,
            Some(r) => {
                if matches!(kind, K::FatTimeDate | K::FatTimeDate10) {
                    // skip the rest of the value
                    match r.split_once("),") {
                        Some((_, r)) => rest = r,
                        None => rest = "",
                    }
                    true
                } else {
                    rest = r.strip_prefix(',').unwrap_or(r);
                    true
                }
            }
        };
        if !ok {
            let end = rest.char_indices().nth(120).map(|x| x.0).unwrap_or(rest.len());
            return Err(Violation::new(
                "wrong-fields",
                &format!("layout-map:{name}:{n}"),
                format!("record {name} of {} bytes: field {n} should read {want}, found {}", d.len(), &rest[..end]),
            ));
        }
    }
    env::checked(d.len() as u64);
    Ok(())
}

fn content(case: &Case) -> Data {
    let mut rng = Rng::new(case.seed);
    let n = case.p("data").max(0) as usize;
    let mut v = rng.bytes(n);
    if case.p("ascii") != 0 {
        for b in v.iter_mut() {
            *b &= 0x7f;
            if *b < 0x20 && *b % 3 != 0 {
                *b += 0x40;
            }
            // white space is ignored in the comparison of the printed fields
            if b.is_ascii_whitespace() {
                *b = 0x61;
            }
        }
    }
    if case.p("runs") != 0 {
        // equal elements print in short hand
        let mut i = 0;
        while i < n {
            let l = (rng.below(300) + 1) as usize;
            if rng.chance(1, 2) {
                let b = v[i];
                let e = (i + l).min(n);
                v[i..e].fill(b);
            }
            i += l;
        }
    }
    Data::from_vec(&v)
}

fn apply(stream: &DataStreamReference, data: &Data, op: &Op) -> RunResult {
    let k = op.a[0].rem_euclid(RECORDS);
    let whence = op.a[1];
    let off = op.a[2].max(0) as u64;
    let (name, size, _) = layout(k);
    let size = size as u64;
    env::log(|| format!("  record {name} {whence} {off}"), hash_i64(&op.a) ^ hash_str("record"));
    if whence == 3 {
        // parse only
        let n = if k == 6 { *[6, 13, 15].get(off as usize % 3).unwrap_or(&15) } else { size };
        let d = data.slice(off.min(data.size.saturating_sub(n)), n);
        if d.len() as u64 == n {
            return check_text(k, &d);
        }
        return Ok(());
    }
    let (pos, start) = match whence {
        2 => {
            let back = off.min(data.size);
            (SeekFrom::End(-(back as i64)), data.size - back)
        }
        _ => (SeekFrom::Start(off), off),
    };
    match read_record(k, stream, pos) {
        Ok(v) => {
            if start.checked_add(size).map(|e| e > data.size).unwrap_or(true) {
                return Err(Violation::new(
                    "record-past-end",
                    "layout-map:record-past-end",
                    format!("op {}: record {name} of {size} bytes at {start} read from a stream of {} bytes", op.id, data.size),
                ));
            }
            let want = data.slice(start, size);
            env::checked(size);
            if v != want {
                return Err(Violation::new(
                    "wrong-record",
                    "layout-map:wrong-record",
                    format!("op {}: record {name} at {start}: {} bytes differ from the stored {} bytes", op.id, v.len(), want.len()),
                ));
            }
            check_text(k, &v)
        }
        Err(e) => {
            if start.checked_add(size).map(|e| e > data.size).unwrap_or(true) {
                env::checked(0);
                return Ok(());
            }
            if env::op_errors(op.id) > 0 {
                return Ok(());
            }
            let mut s = e.to_string();
            s.truncate(300);
            Err(Violation::new(
                "unexpected-error",
                "layout-map:unexpected-error",
                format!("op {}: record {name} at {start} of {}: {s}", op.id, data.size),
            ))
        }
    }
}

pub struct C02Records;
pub static C02: C02Records = C02Records;

impl Prop for C02Records {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn quick_runs(&self) -> u64 {
        80_000
    }
    fn gen_case(&self, rng: &mut Rng, _index: u64, thorough: bool) -> Case {
        let kind = *rng.pick(&["os", "sim", "sim", "fake", "threads"]);
        let mut c = Case::new("C02", kind, rng.next());
        let max = if thorough { 1 << 14 } else { 1 << 12 };
        c.set("data", rng.skewed(max) as i64);
        c.set("ascii", 1);
        c.set("runs", i64::from(rng.chance(1, 3)));
        let text = rng.chance(1, 2);
        if !text {
            c.set("ascii", 0);
        }
        let size = c.p("data") as u64;
        let actors = if kind == "threads" { rng.range(2, 4) as u32 } else { 1 };
        for a in 0..actors {
            for _ in 0..rng.range(2, 10) {
                let mut k = rng.below(RECORDS as u64) as i64;
                if !text && k == 4 {
                    k = 3;
                }
                let rs = layout(k).1 as u64;
                let whence = *rng.pick(&[0, 0, 0, 2, 3]);
                let off = match rng.below(5) {
                    0 => rng.skewed(size + 10),
                    1 => (size + 2).saturating_sub(rs + rng.below(4)),
                    2 => size + rng.below(100),
                    _ => rng.below(size.saturating_sub(rs) + 1),
                };
                let off = if whence == 2 { size.saturating_sub(off) } else { off };
                c.op_by(a, "record", &[k, whence, off as i64]);
            }
        }
        streamops::gen_faults(rng, &mut c, kind == "os", 4, 24);
        if kind == "threads" {
            for _ in 0..rng.range(4, 60) {
                let d = if rng.chance(1, 2) { rng.range(1, actors as u64 + 1) as u32 } else { 0 };
                c.sched.push(d);
            }
        }
        c
    }
    fn run(&self, case: &Case) -> RunResult {
        let data = content(case);
        if case.scenario == "fake" {
            let s = open_fake_data_stream(&data.to_vec());
            for op in &case.ops {
                env::op_begin(op.id);
                apply(&s, &data, op)?;
            }
            return Ok(());
        }
        let f = env::add_file("image.raw", data.clone());
        if case.scenario == "os" {
            env::op_begin(0);
            let on = env::FAULTS_ON.swap(false, std::sync::atomic::Ordering::SeqCst);
            let r = open_os_data_stream(&PathBuf::from("/simfs/image.raw"));
            env::FAULTS_ON.store(on, std::sync::atomic::Ordering::SeqCst);
            let s = match r {
                Ok(s) => s,
                Err(e) => {
                    return Err(Violation::new("unexpected-error", "layout-map:open", e.to_string()));
                }
            };
            for op in &case.ops {
                env::op_begin(op.id);
                apply(&s, &data, op)?;
            }
            return Ok(());
        }
        let s = stream::open(f);
        if case.scenario == "sim" {
            for op in &case.ops {
                env::op_begin(op.id);
                apply(&s, &data, op)?;
            }
            return Ok(());
        }
        // several threads read records through one shared stream
        let n = case.ops.iter().map(|o| o.actor).max().unwrap_or(0) as usize + 1;
        let data = Arc::new(data);
        let first: Arc<Mutex<Option<Violation>>> = Arc::new(Mutex::new(None));
        let mut actors: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
        for a in 0..n {
            let ops: Vec<Op> = case.ops.iter().filter(|o| o.actor as usize == a).cloned().collect();
            let (s, data, first) = (s.clone(), data.clone(), first.clone());
            actors.push(Box::new(move || {
                for op in &ops {
                    env::op_begin(op.id);
                    sched::yield_point();
                    if let Err(v) = apply(&s, &data, op) {
                        let mut g = match first.lock() {
                            Ok(g) => g,
                            Err(p) => p.into_inner(),
                        };
                        g.get_or_insert(v);
                        return;
                    }
                }
            }));
        }
        let st = sched::run_actors(&case.sched, actors);
        env::log(|| format!("schedule: {} points, {} switches", st.points, st.switches), st.hash);
        let v = match first.lock() {
            Ok(mut g) => g.take(),
            Err(p) => p.into_inner().take(),
        };
        match v {
            Some(v) => Err(v),
            None => Ok(()),
        }
    }
    fn shrink_params(&self) -> Vec<(&'static str, i64)> {
        vec![("data", 0)]
    }
    fn rule(&self) -> &'static str {
        "a case is a stream (OS file over intercepted system calls, in-memory, simulated, or one simulated stream shared by 2-4 threads under a seeded schedule), a content, 2-10 records per thread read at chosen positions (inside, straddling and beyond the end, from the start or the end) of 7 layouts that together use every data type of the layout map, and a fault plan; each record's bytes and each decoded field are compared with an independent decoding of the stored bytes; non-trivial: at least one such comparison was made"
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["keramics-layout-map derive macro and the code it generates", "keramics-core streams and debug formatters", "keramics-types", "keramics-datetime"]
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec!["kernel file system", "thread scheduler (seeded)"]
    }
}
