//! Calls that put records into the output, each with the exact bytes it promises.

use crate::qirworld::{is_one, qir_string, qp};
use crate::rng::Rng;
use qir_backend::output_recording::{self as rec, legacy};
use qir_backend::result_bool::{__quantum__rt__result_get_one, __quantum__rt__result_get_zero};
use qir_backend::{__quantum__rt__message, __quantum__rt__string_update_reference_count, legacy_output};
use std::collections::BTreeMap;
use std::ffi::{CString, c_char};

pub const KINDS: i64 = 18;

/// A label: -1 is none; otherwise its length and style.
pub fn gen_tag(r: &mut Rng, long: bool) -> i64 {
    if r.pct(25) {
        return -1;
    }
    let len = match r.below(if long { 8 } else { 5 }) {
        0 => 0,
        1..=4 => r.range(1, 20),
        5 => r.range(980, 1040),
        6 => r.range(1000, 4200),
        _ => r.range(4000, 20000),
    };
    len * 4 + r.range(0, 3)
}

fn bytes_of(code: i64) -> Vec<u8> {
    let (len, style) = ((code / 4) as usize, code % 4);
    let mut r = Rng::new(code as u64);
    (0..len)
        .map(|_| match style {
            0 => b'a' + r.below(26) as u8,
            1 => *r.pick(b"x\ty\n \"\\%{}"),
            2 => 1 + r.below(255) as u8,
            _ => b'0' + r.below(10) as u8,
        })
        .collect()
}

pub fn text_of(code: i64) -> String {
    let (len, style) = ((code.max(0) / 4) as usize, code & 3);
    let mut r = Rng::new(code as u64 ^ 77);
    (0..len)
        .map(|_| match style {
            0 => (b'a' + r.below(26) as u8) as char,
            1 => *r.pick(&['x', '\t', '\n', '"', '\'', '\\', '\r', '{', '%']),
            2 => *r.pick(&['é', '量', '\u{1F600}', 'z', '\u{7f}', '\u{1}']),
            _ => (b' ' + r.below(90) as u8) as char,
        })
        .collect()
}

/// What a message looks like in the output: one line, everything unprintable escaped.
fn escaped(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\t' => o.push_str("\\t"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\'' => o.push_str("\\'"),
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            ' '..='~' => o.push(c),
            c => o.push_str(&format!("\\u{{{:x}}}", c as u32)),
        }
    }
    o
}

fn double(v: i64) -> (f64, String) {
    let k = v % 1_000_000;
    let d = k as f64 / 8.0;
    let (i, f) = (k.abs() / 8, k.abs() % 8 * 125);
    let sign = if k < 0 { "-" } else { "" };
    let frac = format!("{f:03}");
    let frac = frac.trim_end_matches('0');
    (d, format!("{sign}{i}.{}", if frac.is_empty() { "0" } else { frac }))
}

/// One output call, prepared: the bytes it must produce, and the call itself.
pub struct Emit {
    kind: i64,
    v: i64,
    tag: Option<CString>,
    text: String,
    res: usize,
    pub want: Vec<u8>,
}

impl Emit {
    /// `store` is the result store (static results); when empty, results are values.
    pub fn new(kind: i64, v: i64, tag: i64, store: &BTreeMap<usize, bool>) -> Emit {
        let tag = (tag >= 0).then(|| CString::new(bytes_of(tag)).unwrap_or_default());
        let b = v & 1 == 1;
        let text = if matches!(kind, 6 | 7) { text_of(v) } else { String::new() };
        let (res, rv) = if store.is_empty() {
            (usize::from(b), b)
        } else {
            let id = v.unsigned_abs() as usize % 70;
            (id, store.get(&id).copied().unwrap_or(false))
        };
        let (ty, val) = match kind {
            0 => ("INT", v.to_string()),
            1 => ("DOUBLE", double(v).1),
            2 => ("BOOL", b.to_string()),
            3 => ("ARRAY", v.to_string()),
            4 => ("TUPLE", v.to_string()),
            5 => ("RESULT", i64::from(rv).to_string()),
            6 | 7 => ("", format!("INFO\t{}", escaped(&text))),
            8 => ("", "RESULT\tARRAY_START".into()),
            9 => ("", "RESULT\tARRAY_END".into()),
            10 => ("", "RESULT\tTUPLE_START".into()),
            11 => ("", "RESULT\tTUPLE_END".into()),
            12 => ("", format!("RESULT\t{v}")),
            13 => ("", format!("RESULT\t{}", double(v).1)),
            14 => ("", format!("RESULT\t{b}")),
            15 => ("", format!("OUTPUT\tARRAY\t{v}")),
            16 => ("", format!("OUTPUT\tTUPLE\t{v}")),
            _ => ("", format!("RESULT\t{}", i64::from(rv))),
        };
        let mut want = vec![];
        if ty.is_empty() {
            want.extend(val.as_bytes());
        } else {
            want.extend(format!("OUTPUT\t{ty}\t{val}").as_bytes());
            if let Some(t) = &tag {
                want.push(b'\t');
                want.extend(t.as_bytes());
            }
        }
        want.push(b'\n');
        Emit { kind, v, tag, text, res, want }
    }
    pub fn call(&self, by_value: bool) {
        let t: *mut c_char = self.tag.as_ref().map_or(std::ptr::null_mut(), |t| t.as_ptr().cast_mut());
        let b = self.v & 1 == 1;
        let res = || {
            if by_value {
                if b { __quantum__rt__result_get_one() } else { __quantum__rt__result_get_zero() }
            } else {
                qp(self.res)
            }
        };
        unsafe {
            match self.kind {
                0 => rec::__quantum__rt__int_record_output(self.v, t),
                1 => rec::__quantum__rt__double_record_output(double(self.v).0, t),
                2 => rec::__quantum__rt__bool_record_output(b, t),
                3 => rec::__quantum__rt__array_record_output(self.v, t),
                4 => rec::__quantum__rt__tuple_record_output(self.v, t),
                5 => qir_backend::__quantum__rt__result_record_output(res(), t),
                6 => {
                    let s = qir_string(&self.text);
                    __quantum__rt__message(s);
                    __quantum__rt__string_update_reference_count(s, -1);
                }
                7 => {
                    let s = qir_string(&self.text);
                    rec::__quantum__rt__message_record_output(s);
                    __quantum__rt__string_update_reference_count(s, -1);
                }
                8 => legacy::__quantum__rt__array_start_record_output(),
                9 => legacy::__quantum__rt__array_end_record_output(),
                10 => legacy::__quantum__rt__tuple_start_record_output(),
                11 => legacy::__quantum__rt__tuple_end_record_output(),
                12 => legacy::__quantum__rt__int_record_output(self.v),
                13 => legacy::__quantum__rt__double_record_output(double(self.v).0),
                14 => legacy::__quantum__rt__bool_record_output(b),
                15 => legacy::__quantum__rt__array_record_output(self.v),
                16 => legacy::__quantum__rt__tuple_record_output(self.v),
                _ => legacy_output::__quantum__rt__result_record_output(res()),
            }
        }
        let _ = is_one;
    }
}

/// Arguments of a "rec" operation.
pub fn gen_rec(r: &mut Rng, long: bool) -> Vec<i64> {
    let kind = match r.below(10) {
        0..=6 => r.range(0, 7),
        _ => r.range(8, KINDS - 1),
    };
    let v = match kind {
        6 | 7 => gen_tag(r, long).max(0),
        _ => match r.below(6) {
            0 => *r.pick(&[0, 1, -1, i64::MAX, i64::MIN]),
            1..=3 => r.range(-100, 100),
            4 => r.range(-1_000_000, 1_000_000),
            _ => r.u64() as i64,
        },
    };
    vec![kind, v, gen_tag(r, long)]
}
