//! Whole histories of intrinsics, allocations, results, records and shots, three times over with the same
//! seed, with the allocator behind the seam: what a history leaves allocated once its shot has ended must not
//! grow from one time to the next, and no call may touch memory it has freed. Answers are not judged here.

use crate::driver::World;
use crate::qirworld::{QirWorld, buffered, drain, pauli, qir_string};
use crate::rng::Rng;
use crate::seams;
use crate::stats::{Cx, Res, Stats, Violation, viol};
use crate::trace::{Op, Trace};
use qir_backend::*;
use std::ffi::{c_char};

pub struct SteadyWorld;

unsafe fn text(s: *const std::ffi::CString) {
    unsafe {
        let _ = std::hint::black_box(*__quantum__rt__string_get_data(s));
        __quantum__rt__string_update_reference_count(s, -1);
    }
}

/// Library calls that belong to no register: each gives back all it takes.
fn library(o: &Op) {
    let (a, b) = (o.u(0), o.arg(1));
    let s = format!("text {b}");
    unsafe {
        match a % 12 {
            0 => {
                let m = qir_string(&s);
                __quantum__rt__message(m);
                __quantum__rt__string_update_reference_count(m, -1);
            }
            1 => text(__quantum__rt__int_to_string(b)),
            2 => text(__quantum__rt__double_to_string(b as f64 / 7.0)),
            3 => text(__quantum__rt__bool_to_string(b & 1 == 1)),
            4 => text(__quantum__rt__pauli_to_string(pauli((b & 3) as u8))),
            5 => {
                let x = __quantum__rt__bigint_create_i64(b);
                let y = __quantum__rt__bigint_create_i64(b | 1);
                let z = __quantum__rt__bigint_multiply(x, y);
                text(__quantum__rt__bigint_to_string(z));
                for v in [x, y, z] {
                    __quantum__rt__bigint_update_reference_count(v, -1);
                }
            }
            6 => {
                let tag = crate::qirworld::cstr("a");
                __quantum__rt__int_record_output(b, tag.as_ptr() as *mut c_char);
            }
            7 => __quantum__rt__double_record_output(b as f64, std::ptr::null_mut()),
            8 => {
                __quantum__rt__tuple_record_output(b & 7, std::ptr::null_mut());
                __quantum__rt__array_record_output(b & 7, std::ptr::null_mut());
            }
            9 => {
                let _ = __quantum__qis__drawrandomint__body(-5, 5);
            }
            10 => {
                let x = qir_string(&s);
                let y = qir_string("other");
                let z = __quantum__rt__string_concatenate(x, y);
                let _ = __quantum__rt__string_equal(x, z);
                for v in [x, y, z] {
                    __quantum__rt__string_update_reference_count(v, -1);
                }
            }
            _ => {
                let x = __quantum__rt__array_create_1d(8, (b & 7) as u64);
                let y = __quantum__rt__array_copy(x, true);
                let z = __quantum__rt__array_concatenate(x, y);
                for v in [x, y, z] {
                    __quantum__rt__array_update_reference_count(v, -1);
                }
            }
        }
    }
}

fn round(t: &Trace, st: &mut Stats) -> (u64, Res) {
    let mut cx = Cx::new(st, false);
    let r = QirWorld.run(t, &mut cx, &mut |i, o| {
        seams::tag(1 + i as u64);
        if o.k == "lib" {
            library(o);
            return true;
        }
        false
    });
    __quantum__rt__initialize(std::ptr::null_mut());
    drain();
    (cx.log, r)
}

impl World for SteadyWorld {
    fn name(&self) -> &'static str {
        "steady"
    }
    fn gen_run(&self, _prop: &str, r: &mut Rng) -> Trace {
        let base = *r.pick(&["C02", "C03", "C05", "C08", "C09", "C18"]);
        let t = QirWorld.gen_run(base, r);
        let mut n = Trace::new("steady");
        n.cfg.clone_from(&t.cfg);
        let lib = *r.pick(&[0, 10, 40]);
        for o in t.ops {
            if r.pct(lib) {
                n.push("lib", &[r.below(12) as i64, r.below(1 << 20) as i64]);
            }
            n.ops.push(o);
        }
        n
    }
    fn exec(&self, t: &Trace, cx: &mut Cx) -> Result<(), Violation> {
        buffered();
        __quantum__rt__initialize(std::ptr::null_mut());
        drain();
        let mut st = Stats::default();
        seams::mem_begin();
        let mut last = 0;
        let r = (|| -> Res {
            for k in 0..3 {
                let before: u64 = seams::mem_counts().0;
                let (log, r) = seams::track(1, || round(t, &mut st));
                cx.ev(log);
                seams::mem_scan();
                if let Some((e, b, at)) = seams::mem_error() {
                    return viol("memory", format!("{e:?} of a block allocated at {}, at or after {}", at_op(t, b), at_op(t, at)));
                }
                if r.is_err() {
                    cx.st.inc("steady.run with a wrong answer, not judged here");
                    return Ok(());
                }
                let live = seams::mem_live();
                if k == 2 && live.len() > last {
                    let first = live.iter().filter(|b| b.2 > before).map(|b| (b.0, b.1)).min();
                    let (tag, size) = first.unwrap_or((0, 0));
                    return viol(
                        "leak",
                        format!("{} blocks more are allocated than after the same history a time earlier, the first ({size} bytes) since {}", live.len() - last, at_op(t, tag)),
                    );
                }
                last = live.len();
            }
            Ok(())
        })();
        let (a, f) = seams::mem_counts();
        cx.st.add("steady.watched allocations", a);
        cx.st.add("steady.watched frees", f);
        cx.st.inc("check.nothing more is allocated after the same shot again");
        cx.nontrivial |= !t.ops.is_empty();
        // what is still live belongs to the runtime's own state
        seams::mem_end(false);
        r
    }
}

fn at_op(t: &Trace, tag: u64) -> String {
    match tag.checked_sub(1).and_then(|i| t.ops.get(i as usize)) {
        Some(o) => format!("step {} ({})", tag - 1, o.k),
        None => "the end of the shot".into(),
    }
}
