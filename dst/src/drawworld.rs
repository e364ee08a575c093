//! Classical random draws under an operating system whose entropy is simulated: scarce, interrupted,
//! constant or failing. Each run is a forked process, so that the generator starts from that entropy.

use crate::driver::World;
use crate::rng::Rng;
use crate::seams::{self, E_EINTR, E_ERR, E_FULL, E_ONES, E_SHORT, E_ZEROS, End};
use crate::stats::{Cx, Violation, viol};
use crate::trace::Trace;
use qir_backend::*;
use std::ptr::null_mut;
use std::sync::atomic::Ordering::SeqCst;

pub struct DrawWorld;

const ENDS: [i64; 14] = [
    0, 1, -1, 2, 7, -7, 100, -100, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, 1 << 53, -(1 << 62),
];
const DENDS: [f64; 28] = [
    0.0, -0.0, 1.0, -1.0, 0.5, 1e-300, -1e-300, 5e-324, 1e300, -1e300, 0.1, 3.25, f64::MAX / 4.0, -f64::MAX / 4.0, 1e16, -2.5, 1.000_000_000_000_000_2,
    f64::MIN_POSITIVE, f64::MAX, -f64::MAX, f64::MAX / 2.0, -f64::MAX / 2.0, 1.5e308, -1.5e308, 9e307, -9e307, 1e293, -1e293,
];

/// Places far out, around which ranges of any width are drawn from.
const BASES: [i64; 18] = [
    1 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 40, 1 << 53, 1 << 62, i64::MAX, -(1 << 8), -(1 << 15), -(1 << 16), -(1 << 31), -(1 << 32), -(1 << 40),
    -(1 << 53), -(1 << 62), i64::MIN,
];
const WIDTHS: [u64; 19] = [
    0, 1, 2, 3, 7, 9, 99, 254, 255, 256, 1000, 0xffff, 0x7fff_ffff, 0xffff_ffff, 0x1_0000_0000, 1 << 40, 1 << 53, 1 << 62, 1 << 63,
];

fn int_end(c: i64) -> i64 {
    match c {
        0..14 => ENDS[c as usize],
        // 10000 + 4096 * base + 2048 + offset
        10000.. => BASES[((c - 10000) / 4096) as usize % 18].saturating_add((c - 10000) % 4096 - 2048),
        _ => c - 1000,
    }
}
/// The upper bound: that of the code, or else (100000 + w) the lower one plus a width.
fn int_ends(a: i64, b: i64) -> (i64, i64) {
    let a = int_end(a);
    if (100_000..200_000).contains(&b) {
        return (a, a.saturating_add_unsigned(WIDTHS[(b - 100_000) as usize % 19]));
    }
    let b = int_end(b);
    (a.min(b), a.max(b))
}
fn dbl_end(c: i64) -> f64 {
    match c {
        0..28 => DENDS[c as usize],
        // 10000 + 100 * exponent of two + mantissa in hundredths above one
        10000.. => (1.0 + ((c - 10000) % 100) as f64 / 100.0) * 2f64.powi(((c - 10000) / 100 % 1000 - 500) as i32),
        ..=-10000 => -dbl_end(-c),
        _ => (c - 1000) as f64 / 16.0,
    }
}
fn dbl_ends(a: i64, b: i64) -> (f64, f64) {
    let (a, b) = (dbl_end(a), dbl_end(b));
    if a <= b { (a, b) } else { (b, a) }
}

/// The kind of a range, for the statistics: a generator that is wrong for one kind only is not hidden by the rest.
fn kind(a: i64, b: i64) -> String {
    let w = b.abs_diff(a);
    let w = match w {
        0..=1 => "2",
        2..=15 => "<=16",
        16..=254 => "<=255",
        255 => "256",
        256..=0xffff_fffe => "<2^32",
        0xffff_ffff => "2^32",
        0x1_0000_0000..=0xff_ffff_ffff_ffff => "<2^56",
        _ => ">2^56",
    };
    let m = match a.unsigned_abs().max(b.unsigned_abs()) {
        0..=2047 => "near zero",
        2048..=0x7fff_ffff => "below 2^31",
        0x8000_0000..=0x1f_ffff_ffff_ffff => "below 2^53",
        _ => "beyond",
    };
    let s = if a >= 0 {
        "+"
    } else if b < 0 {
        "-"
    } else {
        "+-"
    };
    format!("(width {w}, {m}, {s})")
}

impl World for DrawWorld {
    fn name(&self) -> &'static str {
        "draw"
    }
    fn gen_run(&self, _prop: &str, r: &mut Rng) -> Trace {
        let mut t = Trace::new("draw");
        t.set("entropy", r.u64() as i64);
        for _ in 0..r.below(4) {
            let k = match r.below(12) {
                0..=2 => E_SHORT,
                3 | 4 => E_EINTR,
                5 | 6 => E_ZEROS,
                7 | 8 => E_ONES,
                9 => E_ERR,
                _ => E_FULL,
            };
            let a = if k == E_ERR { i64::from(*r.pick(&[libc::EIO, libc::EPERM])) } else { r.below(40) as i64 };
            t.push("ent", &[k as i64, a]);
        }
        // long runs reach the generator's reseeding from the operating system
        let len = if r.one_in(400) { 3 } else { r.range(1, 25) };
        let long = len == 3 && r.pct(50);
        for _ in 0..len {
            let n = if long { 3000 } else { r.range(1, 12) };
            if r.pct(55) {
                let (a, b) = match r.below(6) {
                    0 => (r.below(14) as i64, r.below(14) as i64),
                    1 | 2 => {
                        let lo = 10000 + 4096 * r.below(18) as i64 + 2048 + r.range(-260, 260);
                        (lo, 100_000 + if r.pct(60) { r.below(11) as i64 } else { r.below(19) as i64 })
                    }
                    _ => {
                        let a = r.range(-50, 50);
                        (1000 + a, 1000 + a + *r.pick(&[0, 1, 1, 2, 3, 7, 9, 99, 255, 1000]))
                    }
                };
                t.push("int", &[a, b, n]);
            } else {
                let (a, b) = match r.below(6) {
                    0 => (r.below(28) as i64, r.below(28) as i64),
                    // wider than a double can say
                    5 => (19 + 2 * r.below(4) as i64, 18 + 2 * r.below(5) as i64),
                    1 => {
                        // the sign, the magnitude and the width of either end
                        let far = |r: &mut Rng, e: i64| (10000 + 100 * (e + 500) + r.below(100) as i64) * if r.pct(40) { -1 } else { 1 };
                        let e = r.range(-400, 450);
                        let e2 = e + r.range(-6, 6);
                        (far(r, e), far(r, e2))
                    }
                    _ => {
                        let a = r.range(-50, 50);
                        (1000 + a, 1000 + a + *r.pick(&[0, 1, 2, 8, 16, 160]))
                    }
                };
                t.push("double", &[a, b, n]);
            }
            match r.below(8) {
                0 => t.push("shot", &[]),
                1 => t.push("seed", &[r.below(4) as i64]),
                _ => (),
            }
        }
        t
    }
    fn exec(&self, t: &Trace, cx: &mut Cx) -> Result<(), Violation> {
        let plan: Vec<(u64, u64)> = t.ops.iter().filter(|o| o.k == "ent").map(|o| (o.arg(0) as u64, o.arg(1) as u64)).collect();
        seams::stdout_begin(&[], false);
        let ops = &t.ops;
        let seed = t.get("entropy") as u64;
        let end = seams::in_child(|| {
            let s = seams::shared();
            seams::entropy(seed, &plan);
            OUTPUT.with(|o| o.borrow_mut().use_std_out(false));
            let keep = || {
                for k in 0..8 {
                    s.reg[16 + k].store(seams::ENT_FIRED[k].load(SeqCst), SeqCst);
                }
            };
            let mut n = 0usize;
            let bad = |i: usize, v: u64| {
                s.reg[1].store(i as u64 + 1, SeqCst);
                s.reg[2].store(v, SeqCst);
                1
            };
            for (i, o) in ops.iter().enumerate() {
                s.reg[0].store(i as u64, SeqCst);
                match o.k.as_str() {
                    "int" => {
                        let (a, b) = int_ends(o.arg(0), o.arg(1));
                        for _ in 0..o.u(2) {
                            let v = __quantum__qis__drawrandomint__body(a, b);
                            if v < a || v > b {
                                return bad(i, v as u64);
                            }
                            if n < 4000 {
                                seams::mark(v as u64);
                            }
                            n += 1;
                            s.reg[3].store(n as u64, SeqCst);
                        }
                    }
                    "double" => {
                        let (a, b) = dbl_ends(o.arg(0), o.arg(1));
                        for _ in 0..o.u(2) {
                            let v = __quantum__qis__drawrandomdouble__body(a, b);
                            if !(v >= a && v <= b) {
                                return bad(i, v.to_bits());
                            }
                            if n < 4000 {
                                seams::mark(v.to_bits());
                            }
                            n += 1;
                            s.reg[3].store(n as u64, SeqCst);
                        }
                    }
                    // neither a new shot nor the simulation's seed has a say in classical draws' ranges
                    "shot" => __quantum__rt__initialize(null_mut()),
                    "seed" => set_rng_seed(o.arg(0) as u64),
                    _ => (),
                }
                keep();
            }
            0
        });
        let s = seams::shared();
        let reg: Vec<u64> = s.reg.iter().map(|r| r.load(SeqCst)).collect();
        let drawn = seams::marks();
        let _ = seams::stdout_end();
        cx.say(|| format!("ended {end:?} at op {}, {} draws", reg[0], reg[3]));
        for (k, n) in [
            (E_SHORT, "short entropy read"),
            (E_EINTR, "interrupted entropy read"),
            (E_ERR, "failed entropy read"),
            (E_ZEROS, "all-zero entropy"),
            (E_ONES, "all-one entropy"),
        ] {
            cx.st.add(&format!("fault.{n}"), reg[16 + k as usize]);
        }
        cx.at = reg[0] as usize;
        if reg[1] > 0 {
            let o = &t.ops[reg[1] as usize - 1];
            let what = if o.k == "int" {
                {
                let (a, b) = int_ends(o.arg(0), o.arg(1));
                format!("drawrandomint({a}, {b}) gave {}", reg[2] as i64)
            }
            } else {
                let (a, b) = dbl_ends(o.arg(0), o.arg(1));
                format!("drawrandomdouble({a:e}, {b:e}) gave {:e}", f64::from_bits(reg[2]))
            };
            return viol("range", what);
        }
        let failing = plan.iter().any(|p| p.0 == E_ERR);
        if failing && end != End::Exit(0) && reg[16 + E_ERR as usize] == 0 {
            cx.st.inc("fault.failed entropy read"); // which ended the process before it could say so
        }
        if end != End::Exit(0) && !failing {
            let o = &t.ops[reg[0] as usize];
            return viol("died", format!("the process ended with {end:?} at {} {:?} although nothing failed", o.k, o.a));
        }
        cx.st.add("check.draw in range", reg[3]);
        for d in &drawn {
            cx.ev(*d);
        }
        cx.nontrivial = reg[3] > 0;
        // frequencies, over the whole batch; only where the entropy was not constant
        if plan.iter().any(|p| matches!(p.0, E_ZEROS | E_ONES)) {
            return Ok(());
        }
        let mut it = drawn.into_iter();
        for o in &t.ops {
            let mut last = None;
            for _ in 0..if matches!(o.k.as_str(), "int" | "double") { o.u(2) } else { 0 } {
                let Some(v) = it.next() else { return Ok(()) };
                let fine; // so many different values that none comes twice in a row
                if o.k == "int" {
                    let (a, b) = int_ends(o.arg(0), o.arg(1));
                    let w = b.abs_diff(a);
                    fine = w >= 1 << 53;
                    if w == 0 {
                        continue;
                    }
                    let (k, n, at) = (kind(a, b), w as f64 + 1.0, (v as i64).abs_diff(a));
                    if w <= 2000 {
                        cx.st.obs(&format!("drawrandomint is the minimum {k}"), at == 0, 1.0 / n);
                        cx.st.obs(&format!("drawrandomint is the maximum {k}"), at == w, 1.0 / n);
                    }
                    let half = w / 2; // of 0..=w, those at most half
                    cx.st.obs(&format!("drawrandomint in the lower half {k}"), at <= half, (half as f64 + 1.0) / n);
                    if w >= 15 {
                        cx.st.obs(&format!("drawrandomint in the lowest eighth {k}"), at <= w / 8, ((w / 8) as f64 + 1.0) / n);
                        cx.st.obs(&format!("drawrandomint in the highest eighth {k}"), w - at <= w / 8, ((w / 8) as f64 + 1.0) / n);
                    }
                    let odds = (w / 2) as f64 + if w & 1 == 1 { 1.0 } else { 0.0 };
                    cx.st.obs(&format!("drawrandomint is at an odd distance {k}"), at & 1 == 1, odds / n);
                } else {
                    let (a, b) = dbl_ends(o.arg(0), o.arg(1));
                    let x = f64::from_bits(v);
                    let wide = b - a > 1e-280 && (b - a) / a.abs().max(b.abs()) > 1e-3;
                    fine = wide;
                    if wide {
                        let k = match b - a {
                            w if w < 1e-30 => "(tiny)",
                            w if w < 1e-3 => "(small)",
                            w if w < 1e4 => "(common)",
                            w if w < 1e30 => "(large)",
                            f64::INFINITY => "(overflowing)",
                            _ => "(huge)",
                        };
                        let k = format!("{k}{}", if a >= 0.0 { "+" } else if b <= 0.0 { "-" } else { "+-" });
                        let f = (x / 2.0 - a / 2.0) / (b / 2.0 - a / 2.0);
                        cx.st.obs(&format!("drawrandomdouble in the lower half {k}"), f < 0.5, 0.5);
                        cx.st.obs(&format!("drawrandomdouble in the lowest tenth {k}"), f < 0.1, 0.1);
                        cx.st.obs(&format!("drawrandomdouble in the highest tenth {k}"), f >= 0.9, 0.1);
                        cx.st.obs(&format!("drawrandomdouble in an odd thousandth {k}"), (f * 1000.0) as i64 & 1 == 1, 0.5);
                    }
                }
                if fine && last == Some(v) {
                    return viol("repeats", format!("{} {:?} gave the same value twice in a row: {v:#x}", o.k, o.a));
                }
                last = Some(v);
            }
        }
        Ok(())
    }
}
