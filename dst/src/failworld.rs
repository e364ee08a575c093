//! Programs that die: each run is a forked process whose standard output, allocator and program errors
//! are simulated. The parent sees only how the process ended and what reached file descriptor 1.

use crate::driver::World;
use crate::emit::{Emit, gen_rec, text_of};
use crate::outworld::plan_of;
use crate::qirworld::{AssertArgs, drop_arr, parr, qarr, qir_string, qp, with_tuple};
use crate::rng::Rng;
use crate::seams::{self, End, W_EINTR, W_ERR, W_FULL, W_KILL, W_SHORT, W_ZERO, track};
use crate::stats::{Cx, Violation, viol};
use crate::trace::{Op, Trace};
use num_bigint::BigInt;
use qir_backend::exp::__quantum__qis__exp__body;
use qir_backend::result_bool::{__quantum__rt__result_get_one, __quantum__rt__result_get_zero};
use qir_backend::*;
use std::collections::BTreeMap;
use std::ffi::CString;
use std::io::Write;
use std::ptr::null_mut;
use std::sync::atomic::Ordering::SeqCst;

pub struct FailWorld;

const DEATHS: i64 = 16;

fn death_name(k: i64) -> &'static str {
    match k {
        0 => "program calls fail",
        1 => "gate on a released qubit",
        2 => "controlled gate with equal qubits",
        3 => "concatenation of arrays of different element size",
        4 => "failing probability assertion",
        5 => "drawrandomint with an empty range",
        6 => "drawrandomdouble with an empty range",
        7 => "big integer division by zero",
        8 => "dump to a location",
        9 => "message that is not UTF-8",
        10 => "joint measurement with mismatched lists",
        11 => "release of a released qubit",
        12 => "array, tuple or block larger than memory",
        13 => "exponential with mismatched lists",
        14 => "big integer remainder by zero",
        _ => "measurement of a released qubit",
    }
}

/// Asserts a probability that the register does not have, by more than the tolerance.
fn wrong_assertion(v: i64) {
    let mut r = Rng::new(v as u64);
    let n = r.range(1, 3) as usize;
    let ids: Vec<usize> = (0..n).map(|_| __quantum__rt__qubit_allocate() as usize).collect();
    let flip = r.pct(50);
    let mut ps = vec![3u8; n];
    ps[0] = *r.pick(&[1, 2, 3]);
    match ps[0] {
        // |+> or |->, |i> or |-i>, |0> or |1>
        1 => __quantum__qis__h__body(qp(ids[0])),
        3 => (),
        _ => __quantum__qis__rx__body(-std::f64::consts::FRAC_PI_2, qp(ids[0])),
    }
    // or anywhere between, along the circle through both
    let mid = r.pct(40).then(|| r.unit() * 3.0 + 0.07);
    if flip {
        if ps[0] == 3 { __quantum__qis__x__body(qp(ids[0])) } else { __quantum__qis__z__body(qp(ids[0])) }
    }
    let one = r.pct(50);
    // the probability of the outcome is 0 or 1, up to rounding
    let mut real = f64::from(flip == one);
    if let Some(x) = mid {
        match ps[0] {
            1 => __quantum__qis__rz__body(x, qp(ids[0])),
            3 => __quantum__qis__ry__body(x, qp(ids[0])),
            _ => __quantum__qis__rx__body(x, qp(ids[0])),
        }
        let away = (x / 2.0).sin().powi(2);
        real = if flip == one { 1.0 - away } else { away };
    }
    let tol = *r.pick(&[0.0, 0.0, 1e-9, 1e-3, 0.25, 0.5]);
    let by = tol + *r.pick(&[1e-8, 1e-6, 1e-3, 0.4]);
    let prob = match r.below(10) {
        0..=2 => 1.0 - real,
        3..=5 => real + by,
        6..=8 => real - by,
        _ => real + by * if real > 0.5 { -1.0 } else { 1.0 },
    };
    // what is asserted is false by more than rounding
    let prob = if (prob - real).abs() > tol + 5e-9 { prob } else { real + 0.5 + tol };
    let (p, a, msg) = (parr(&ps), qarr(&ids), qir_string("assertion\tfailed"));
    let res = if one { __quantum__rt__result_get_one() } else { __quantum__rt__result_get_zero() };
    unsafe {
        if r.pct(30) {
            let args = AssertArgs { paulis: p, qubits: a, result: res, prob, msg, tol };
            with_tuple(args, |t| __quantum__qis__assertmeasurementprobability__ctl(qarr(&[]), t));
        } else {
            __quantum__qis__assertmeasurementprobability__body(p, a, res, prob, msg, tol);
        }
    }
}

/// Makes the program do something it must not survive. Runs in the child.
fn die(k: i64, v: i64) {
    unsafe {
        let two = || {
            let (a, b) = (__quantum__rt__qubit_allocate(), __quantum__rt__qubit_allocate());
            __quantum__qis__h__body(a);
            __quantum__qis__cx__body(a, b);
            (a, b)
        };
        match k {
            0 => __quantum__rt__fail(qir_string(&text_of(v.max(0)))),
            1 => {
                let (a, b) = two();
                __quantum__rt__qubit_release(b);
                match v & 7 {
                    0 => __quantum__qis__x__body(b),
                    1 => __quantum__qis__h__body(b),
                    2 => __quantum__qis__rx__body(0.3, b),
                    3 => __quantum__qis__cx__body(a, b),
                    4 => __quantum__qis__swap__body(a, b),
                    5 => __quantum__qis__rzz__body(0.3, b, a),
                    6 => __quantum__qis__t__adj(b),
                    _ => __quantum__qis__ry__body(0.3, b),
                }
            }
            2 => {
                let (a, b) = two();
                match v & 3 {
                    0 => __quantum__qis__cx__body(a, a),
                    1 => __quantum__qis__ccx__body(a, b, b),
                    2 => __quantum__qis__cz__body(b, b),
                    _ => __quantum__qis__ccx__body(a, a, b),
                }
            }
            3 => {
                let x = __quantum__rt__array_create_1d(8, (v & 3) as u64);
                let y = __quantum__rt__array_create_1d(1 + (v & 4) as u32, 3);
                let _ = __quantum__rt__array_concatenate(x, y);
            }
            4 => wrong_assertion(v),
            5 => {
                let _ = __quantum__qis__drawrandomint__body([5, i64::MAX, 0][(v & 15) as usize % 3], [4, i64::MIN, -1][(v & 15) as usize % 3]);
            }
            6 => {
                let _ = __quantum__qis__drawrandomdouble__body(1.0, [0.5, -1.0][(v & 1) as usize]);
            }
            7 | 14 => {
                let (x, z) = (__quantum__rt__bigint_create_i64(v), __quantum__rt__bigint_create_i64(0));
                let _ = if k == 7 { __quantum__rt__bigint_divide(x, z) } else { __quantum__rt__bigint_modulus(x, z) };
            }
            8 => __quantum__qis__dumpmachine__body(8 as *mut _),
            9 => {
                let c = CString::new(vec![b'x', 0xff, 0xfe]).unwrap_or_default();
                let s = __quantum__rt__string_create(c.as_ptr().cast_mut());
                __quantum__rt__message(s);
            }
            10 => {
                let (a, b) = two();
                let _ = __quantum__qis__measure__body(parr(&[3]), qarr(&[a as usize, b as usize]));
            }
            11 => {
                let (_, b) = two();
                __quantum__rt__qubit_release(b);
                __quantum__rt__qubit_release(b);
            }
            12 => {
                // sizes that no memory holds, and sizes no number of bytes expresses
                let (size, count) = if v & 8 == 0 { (8, u64::MAX >> (v & 7)) } else { (8 << (v & 3), (1 << (61 - (v & 3))) + (v as u64 >> 4 & 7)) };
                match v >> 7 & 3 {
                    0 | 1 => {
                        let _ = __quantum__rt__array_create_1d(size, count);
                    }
                    2 => {
                        let _ = __quantum__rt__tuple_create(u64::MAX - (v as u64 >> 4 & 7));
                    }
                    _ => {
                        let _ = __quantum__rt__memory_allocate(u64::MAX - (v as u64 >> 4 & 7));
                    }
                }
            }
            13 => {
                let (a, b) = two();
                __quantum__qis__exp__body(parr(&[1, 1, 3]), 0.3, qarr(&[a as usize, b as usize]));
            }
            _ => {
                let (_, b) = two();
                __quantum__rt__qubit_release(b);
                match v & 3 {
                    0 => {
                        let _ = __quantum__qis__m__body(b);
                    }
                    1 => __quantum__qis__mz__body(b, qp(3)),
                    2 => __quantum__qis__reset__body(b),
                    _ => {
                        let _ = __quantum__qis__measure__body(parr(&[1]), qarr(&[b as usize]));
                    }
                }
            }
        }
    }
}

/// Classical work whose answer is known: returns false when an answer is wrong.
fn work(k: i64, v: i64) -> bool {
    let mut r = Rng::new(v as u64);
    unsafe {
        match k % 4 {
            0 => {
                let n = r.range(1, 40);
                let x: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect();
                let y: Vec<u8> = (0..n / 2).map(|_| r.u64() as u8).collect();
                track(1, || {
                    let mk = |b: &[u8]| {
                        let a = __quantum__rt__array_create_1d(1, b.len() as u64);
                        for (i, c) in b.iter().enumerate() {
                            *__quantum__rt__array_get_element_ptr_1d(a, i as u64) = *c as i8;
                        }
                        a
                    };
                    let (a, b) = (mk(&x), mk(&y));
                    let c = __quantum__rt__array_concatenate(a, b);
                    let d = __quantum__rt__array_copy(c, true);
                    let m = __quantum__rt__array_get_size_1d(d);
                    let mut ok = m as usize == x.len() + y.len();
                    for i in 0..m.min(100) {
                        let w = x.iter().chain(&y).nth(i as usize).copied().unwrap_or(0);
                        ok &= *__quantum__rt__array_get_element_ptr_1d(d, i) as u8 == w;
                    }
                    for p in [a, b, c, d] {
                        drop_arr(p);
                    }
                    ok
                })
            }
            1 => {
                let (x, y) = (BigInt::from(r.u64()), BigInt::from(r.u64() >> 3));
                let w = (&x * &y).to_signed_bytes_le();
                let (bx, by) = (x.to_signed_bytes_le(), y.to_signed_bytes_le());
                track(1, || {
                    let p = __quantum__rt__bigint_create_array(bx.len() as u32, bx.as_ptr());
                    let q = __quantum__rt__bigint_create_array(by.len() as u32, by.as_ptr());
                    let m = __quantum__rt__bigint_multiply(p, q);
                    let t = __quantum__rt__bigint_create_array(w.len() as u32, w.as_ptr());
                    let ok = __quantum__rt__bigint_equal(m, t);
                    for b in [p, q, m, t] {
                        __quantum__rt__bigint_update_reference_count(b, -1);
                    }
                    ok
                })
            }
            2 => {
                let (x, y) = (text_of(40 * 4 + 3), "tail");
                let (cx, cy) = (CString::new(x).unwrap_or_default(), CString::new(y).unwrap_or_default());
                let mut w = cx.as_bytes().to_vec();
                w.extend(cy.as_bytes());
                track(1, || {
                    let s = __quantum__rt__string_create(cx.as_ptr().cast_mut());
                    let t = __quantum__rt__string_create(cy.as_ptr().cast_mut());
                    let u = __quantum__rt__string_concatenate(s, t);
                    let n = __quantum__rt__string_get_length(u) as usize;
                    let d = __quantum__rt__string_get_data(u).cast::<u8>();
                    let ok = n == w.len() && (0..n).all(|i| *d.add(i) == w[i]);
                    for p in [s, t, u] {
                        __quantum__rt__string_update_reference_count(p, -1);
                    }
                    ok
                })
            }
            _ => track(1, || {
                // a pair of qubits, entangled and undone: both are zero again
                let a = __quantum__rt__qubit_allocate();
                let b = __quantum__rt__qubit_allocate();
                __quantum__qis__h__body(a);
                __quantum__qis__cx__body(a, b);
                __quantum__qis__ry__body(0.7, b);
                __quantum__qis__ry__body(-0.7, b);
                __quantum__qis__cx__body(a, b);
                __quantum__qis__h__body(a);
                let ok = qubit_is_zero(a) && qubit_is_zero(b);
                __quantum__rt__qubit_release(a);
                __quantum__rt__qubit_release(b);
                ok
            }),
        }
    }
}

fn child(ops: &[Op], emits: &[Option<Emit>]) -> i32 {
    let s = seams::shared();
    for (i, o) in ops.iter().enumerate() {
        seams::mark((i as u64) << 2);
        let cut = s.fired[W_SHORT as usize].load(SeqCst);
        match o.k.as_str() {
            "rec" => {
                if let Some(e) = &emits[i] {
                    track(2, || e.call(true));
                }
            }
            "oom" => seams::fail_alloc_in(o.u(0) as u64),
            "die" => die(o.arg(0), o.arg(1)),
            "work" => {
                if !work(o.arg(0), o.arg(1)) {
                    return 3;
                }
            }
            _ => (),
        }
        let was_cut = u64::from(s.fired[W_SHORT as usize].load(SeqCst) != cut);
        seams::mark((i as u64) << 2 | 1 | was_cut << 1);
    }
    // the program returns from main: its runtime flushes standard output, retrying what was interrupted
    for _ in 0..1000 {
        match std::io::stdout().flush() {
            Ok(()) => return 0,
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => (),
            Err(_) => return 4,
        }
    }
    5
}

impl World for FailWorld {
    fn name(&self) -> &'static str {
        "fail"
    }
    fn gen_run(&self, _prop: &str, r: &mut Rng) -> Trace {
        let mut t = Trace::new("fail");
        let what = r.below(10);
        let n = r.range(0, 14);
        // hard write faults, killed processes, or none
        for _ in 0..r.below(10) {
            match r.below(6) {
                0 => t.push("plan", &[W_SHORT as i64, r.below(3000) as i64]),
                1 => t.push("plan", &[W_SHORT as i64, 0]),
                2 => t.push("plan", &[W_EINTR as i64, 0]),
                _ => t.push("plan", &[W_FULL as i64, 0]),
            }
        }
        match what {
            0 | 1 => {
                let e = *r.pick(&[libc::ENOSPC, libc::EIO, libc::EPIPE, libc::EAGAIN, libc::EFBIG, libc::EDQUOT]);
                t.push("plan", &[W_ERR as i64, i64::from(e)]);
            }
            2 => t.push("plan", &[W_KILL as i64, if r.pct(30) { 0 } else { r.below(60) as i64 }]),
            3 => t.push("plan", &[W_ZERO as i64, 0]),
            _ => (),
        }
        let long = r.pct(20);
        for _ in 0..n {
            match r.below(6) {
                0 => t.push("work", &[r.below(4) as i64, r.below(1 << 20) as i64]),
                _ => t.push("rec", &gen_rec(r, long)),
            }
        }
        match what {
            4 | 5 => {
                let at = r.idx(t.ops.len() + 1);
                let near = if r.pct(50) { 4 } else { 40 };
                t.ops.insert(at, Op::new("oom", &[1 + r.below(near) as i64]));
                t.push("work", &[r.below(4) as i64, r.below(1 << 20) as i64]);
            }
            6..=8 => {
                let k = r.range(0, DEATHS - 1);
                let v = if k == 0 { crate::emit::gen_tag(r, false).max(0) } else { r.below(1 << 20) as i64 };
                t.push("die", &[k, v]);
                for _ in 0..r.below(4) {
                    t.push("rec", &gen_rec(r, false));
                }
            }
            _ => (),
        }
        t
    }
    fn exec(&self, t: &Trace, cx: &mut Cx) -> Result<(), Violation> {
        let store = BTreeMap::new();
        let emits: Vec<Option<Emit>> = t
            .ops
            .iter()
            .map(|o| (o.k == "rec").then(|| Emit::new(o.arg(0), o.arg(1), o.arg(2), &store)))
            .collect();
        while std::io::stdout().flush().is_err() {}
        set_rng_seed(5);
        __quantum__rt__initialize(null_mut());
        OUTPUT.with(|x| x.borrow_mut().use_std_out(true));
        seams::stdout_begin(&plan_of(t), false);
        let end = seams::in_child(|| {
            seams::mem_begin();
            child(&t.ops, &emits)
        });
        let s = seams::shared();
        let fired: Vec<u64> = s.fired.iter().map(|x| x.load(SeqCst)).collect();
        let oom = s.reg[63].load(SeqCst);
        let marks = seams::marks();
        let over = s.overflow.load(SeqCst) == 1;
        let got = seams::stdout_end();
        if over {
            return viol("harness", "the output of one run exceeds the simulator's disk");
        }
        cx.st.add("fault.short write", fired[W_SHORT as usize]);
        cx.st.add("fault.interrupted write", fired[W_EINTR as usize]);
        cx.st.add("fault.failed write", fired[W_ERR as usize]);
        cx.st.add("fault.write that transfers nothing", fired[W_ZERO as usize]);
        cx.st.add("fault.killed inside a write", fired[W_KILL as usize]);
        cx.st.add("fault.failed allocation", oom);
        cx.say(|| format!("ended {end:?}; {} bytes of output; marks {marks:?}", got.len()));

        let begun: Vec<usize> = marks.iter().filter(|m| *m & 1 == 0).map(|m| (m >> 2) as usize).collect();
        let ended: Vec<(usize, bool)> = marks.iter().filter(|m| *m & 1 == 1).map(|m| ((m >> 2) as usize, m & 2 != 0)).collect();
        let last = begun.last().copied();
        let open = last.filter(|i| !ended.iter().any(|e| e.0 == *i));
        let dead = t.ops.iter().position(|o| o.k == "die");
        let hard = fired[W_ERR as usize] + fired[W_ZERO as usize] > 0;
        let ok = end == End::Exit(0);
        cx.ev(ended.len() as u64);
        cx.ev_s(&got);
        cx.ev(u64::from(ok));
        cx.nontrivial = true;

        // 1. nothing goes on after a call that had to fail
        if let Some(d) = dead {
            if begun.contains(&d) {
                cx.st.inc(&format!("fault.{}", death_name(t.ops[d].arg(0))));
            }
            if ended.iter().any(|e| e.0 >= d) {
                return viol("went-on", format!("the program went on after: {}", death_name(t.ops[d].arg(0))));
            }
        }
        if end == End::Exit(3) {
            return viol("wrong-answer", "a computation gave a wrong answer instead of failing");
        }
        // 2. a program that died had a reason to
        let reason = dead.is_some_and(|d| begun.contains(&d)) || hard || oom > 0 || fired[W_KILL as usize] > 0;
        if !ok && !reason {
            return viol("unexpected-death", format!("the process ended with {end:?} although nothing failed"));
        }
        if end == End::Signal(libc::SIGALRM) {
            return viol("hang", "the process did not end");
        }
        if ok && dead.is_some() {
            return viol("went-on", "the process reported success although a call had to fail");
        }
        // 3. what reached the output: the finished records, complete and in order, then at most a part of
        // the one being written
        let mut done = vec![];
        let mut due = 0;
        for (i, cut) in &ended {
            if let Some(e) = &emits[*i] {
                done.extend(&e.want);
                if !cut {
                    due = done.len();
                }
            }
        }
        cx.st.inc("check.output of a finished process");
        if ok {
            return crate::outworld::same("standard output of a process that reported success", &got, &done);
        }
        cx.st.inc("check.output of a dead process");
        if got.len() < due {
            return crate::outworld::same("standard output of a dead process (finished records)", &got, &done[..due]);
        }
        let n = got.len().min(done.len());
        crate::outworld::same("standard output of a dead process", &got[..n], &done[..n])?;
        let rest = &got[n..];
        let want: Vec<u8> = match open {
            Some(i) if emits[i].is_some() => emits[i].as_ref().map(|e| e.want.clone()).unwrap_or_default(),
            Some(i) if t.ops[i].k == "die" => {
                // the reason, if the call states one: one complete message
                let exact = match t.ops[i].arg(0) {
                    0 => Some(Emit::new(6, t.ops[i].arg(1), -1, &store).want),
                    4 => Some(b"INFO\tassertion\\tfailed\n".to_vec()),
                    _ => None,
                };
                match exact {
                    Some(w) => {
                        let quiet = fired[1..].iter().sum::<u64>() == 0;
                        if quiet {
                            crate::outworld::same("the failure message", rest, &w)?;
                            cx.st.inc("check.failure message");
                        }
                        w
                    }
                    None => {
                        let one = rest.is_empty()
                            || b"INFO\t".starts_with(&rest[..rest.len().min(5)]) && rest.iter().filter(|c| **c == b'\n').count() <= 1;
                        if !one {
                            return viol("output", format!("{} bytes after the last record: {:?}", rest.len(), String::from_utf8_lossy(rest)));
                        }
                        rest.to_vec()
                    }
                }
            }
            _ => vec![],
        };
        if !want.starts_with(rest) {
            let k = rest.len().min(want.len());
            return crate::outworld::same("the record being written when the process died", rest, &want[..k]);
        }
        Ok(())
    }
}
