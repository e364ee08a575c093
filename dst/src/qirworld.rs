//! The QIR runtime driven through its C interface, the way compiled programs drive it.

use crate::driver::World;
use crate::model::{Gate, K};
use crate::quantum::{Exec, Profile, State, Sut, alloc_size, gen_ops};
use crate::rng::Rng;
use crate::simworld::swarm;
use crate::stats::{Cx, Res, Violation, viol};
use crate::trace::{Op, Trace};
use qir_backend as q;
use qir_backend::exp::*;
use qir_backend::result_bool::*;
use qir_backend::*;
use std::collections::BTreeMap;
use std::ffi::{CString, c_char, c_void};

pub type Arr = *const QirArray;

pub fn qp(id: usize) -> *mut c_void {
    id as *mut c_void
}

pub fn qarr(ids: &[usize]) -> Arr {
    unsafe {
        let a = __quantum__rt__array_create_1d(8, ids.len() as u64);
        for (i, id) in ids.iter().enumerate() {
            *__quantum__rt__array_get_element_ptr_1d(a, i as u64).cast::<*mut c_void>() = qp(*id);
        }
        a
    }
}

pub fn qir_pauli(p: u8) -> i8 {
    // the runtime's own numbering: I 0, X 1, Z 2, Y 3
    match p {
        1 => 1,
        2 => 3,
        3 => 2,
        _ => 0,
    }
}

pub fn pauli(p: u8) -> q::Pauli {
    match p {
        1 => q::Pauli::X,
        2 => q::Pauli::Y,
        3 => q::Pauli::Z,
        _ => q::Pauli::I,
    }
}

pub fn parr(ps: &[u8]) -> Arr {
    unsafe {
        let a = __quantum__rt__array_create_1d(1, ps.len() as u64);
        for (i, p) in ps.iter().enumerate() {
            *__quantum__rt__array_get_element_ptr_1d(a, i as u64) = qir_pauli(*p);
        }
        a
    }
}

pub fn drop_arr(a: Arr) {
    unsafe { __quantum__rt__array_update_reference_count(a, -1) }
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct RotArgs {
    pub theta: f64,
    pub qubit: *mut c_void,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct RArgs {
    pub pauli: i8,
    pub theta: f64,
    pub qubit: *mut c_void,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct ExpArgs {
    pub paulis: Arr,
    pub theta: f64,
    pub qubits: Arr,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct AssertArgs {
    pub paulis: Arr,
    pub qubits: Arr,
    pub result: *mut c_void,
    pub prob: f64,
    pub msg: *const CString,
    pub tol: f64,
}

pub fn with_tuple<T: Copy>(v: T, f: impl FnOnce(*mut *const Vec<u8>)) {
    unsafe {
        let t = __quantum__rt__tuple_create(size_of::<T>() as u64);
        t.cast::<T>().write_unaligned(v);
        f(t);
        __quantum__rt__tuple_update_reference_count(t, -1);
    }
}

pub fn cstr(s: &str) -> CString {
    CString::new(s).expect("no NUL")
}

pub fn qir_string(s: &str) -> *const CString {
    let c = cstr(s);
    unsafe { __quantum__rt__string_create(c.as_ptr() as *mut c_char) }
}

/// Applies a gate through one of the spellings the interface has for it.
pub fn qir_gate(g: &Gate, c: &[usize], t: &[usize]) {
    let v = g.variant;
    let p = qp(t[0]);
    let plain = c.is_empty() && v & 1 == 0;
    unsafe {
        let ctl = |f: unsafe extern "C" fn(Arr, *mut c_void)| {
            let a = qarr(c);
            f(a, p);
            drop_arr(a);
        };
        let ctl_rot = |f: unsafe extern "C" fn(Arr, *mut *const Vec<u8>)| {
            let a = qarr(c);
            with_tuple(RotArgs { theta: g.theta, qubit: p }, |t| f(a, t));
            drop_arr(a);
        };
        match (g.k, g.adj) {
            (K::X, _) if plain => __quantum__qis__x__body(p),
            (K::X, _) if c.len() == 1 && v % 3 == 0 => __quantum__qis__cnot__body(qp(c[0]), p),
            (K::X, _) if c.len() == 1 && v % 3 == 1 => __quantum__qis__cx__body(qp(c[0]), p),
            (K::X, _) if c.len() == 2 && v & 1 == 0 => __quantum__qis__ccx__body(qp(c[0]), qp(c[1]), p),
            (K::X, _) => ctl(__quantum__qis__x__ctl),
            (K::Y, _) if plain => __quantum__qis__y__body(p),
            (K::Y, _) if c.len() == 1 && v & 1 == 0 => __quantum__qis__cy__body(qp(c[0]), p),
            (K::Y, _) => ctl(__quantum__qis__y__ctl),
            (K::Z, _) if plain => __quantum__qis__z__body(p),
            (K::Z, _) if c.len() == 1 && v & 1 == 0 => __quantum__qis__cz__body(qp(c[0]), p),
            (K::Z, _) => ctl(__quantum__qis__z__ctl),
            (K::H, _) if plain => __quantum__qis__h__body(p),
            (K::H, _) => ctl(__quantum__qis__h__ctl),
            (K::S, false) if plain => __quantum__qis__s__body(p),
            (K::S, true) if plain => __quantum__qis__s__adj(p),
            (K::S, false) => ctl(__quantum__qis__s__ctl),
            (K::S, true) => ctl(__quantum__qis__s__ctladj),
            (K::T, false) if plain => __quantum__qis__t__body(p),
            (K::T, true) if plain => __quantum__qis__t__adj(p),
            (K::T, false) => ctl(__quantum__qis__t__ctl),
            (K::T, true) => ctl(__quantum__qis__t__ctladj),
            (K::Sx, _) => __quantum__qis__sx__body(p),
            (K::Rx, _) if plain => __quantum__qis__rx__body(g.theta, p),
            (K::Rx, _) => ctl_rot(__quantum__qis__rx__ctl),
            (K::Ry, _) if plain => __quantum__qis__ry__body(g.theta, p),
            (K::Ry, _) => ctl_rot(__quantum__qis__ry__ctl),
            (K::Rz, _) if plain => __quantum__qis__rz__body(g.theta, p),
            (K::Rz, _) => ctl_rot(__quantum__qis__rz__ctl),
            (K::R, adj) => {
                let pl = pauli(g.paulis[0]);
                // with an empty control list, the controlled spelling about I is a global phase
                if plain {
                    if adj { __quantum__qis__r__adj(pl, g.theta, p) } else { __quantum__qis__r__body(pl, g.theta, p) }
                } else {
                    let a = qarr(c);
                    let args = RArgs { pauli: qir_pauli(g.paulis[0]), theta: g.theta, qubit: p };
                    with_tuple(args, |t| {
                        if adj { __quantum__qis__r__ctladj(a, t) } else { __quantum__qis__r__ctl(a, t) }
                    });
                    drop_arr(a);
                }
            }
            (K::Exp, adj) => {
                let (ps, qs) = (parr(&g.paulis), qarr(t));
                if plain {
                    if adj { __quantum__qis__exp__adj(ps, g.theta, qs) } else { __quantum__qis__exp__body(ps, g.theta, qs) }
                } else {
                    let a = qarr(c);
                    with_tuple(ExpArgs { paulis: ps, theta: g.theta, qubits: qs }, |t| {
                        if adj { __quantum__qis__exp__ctladj(a, t) } else { __quantum__qis__exp__ctl(a, t) }
                    });
                    drop_arr(a);
                }
                drop_arr(ps);
                drop_arr(qs);
            }
            (K::Swap, _) => __quantum__qis__swap__body(p, qp(t[1])),
            (K::Rxx, _) => __quantum__qis__rxx__body(g.theta, p, qp(t[1])),
            (K::Ryy, _) => __quantum__qis__ryy__body(g.theta, p, qp(t[1])),
            (K::Rzz, _) => __quantum__qis__rzz__body(g.theta, p, qp(t[1])),
            (K::Ph | K::U, _) => unreachable!("not offered"),
        }
    }
    if v & 12 == 4 {
        __quantum__qis__barrier__body();
    }
}

pub fn is_one(r: *mut c_void) -> bool {
    __quantum__rt__result_equal(r, __quantum__rt__result_get_one())
}

pub fn drain() -> Vec<u8> {
    OUTPUT.with(|o| o.borrow_mut().drain().collect())
}

pub fn buffered() {
    OUTPUT.with(|o| o.borrow_mut().use_std_out(false));
}

pub struct Qir {
    pub is_fixed: bool,
    /// Qubits that must exist by now (lo) and that may (hi), under static addressing.
    lo: usize,
    hi: usize,
    queue: Vec<usize>,
    pub arrays: Vec<(Arr, Vec<usize>)>,
    /// Scratch result used when measuring into the result store: model of the store.
    pub res: BTreeMap<usize, bool>,
    pub res_any: bool,
    pub out: Vec<u8>,
    pub res_err: Option<String>,
    pub use_store: bool,
    pub nmeas: usize,
}

impl Qir {
    pub fn new(seed: u64, fixed: bool) -> Qir {
        buffered();
        q::set_rng_seed(seed);
        __quantum__rt__initialize(std::ptr::null_mut());
        Qir { is_fixed: fixed, ..Qir::new_unseeded() }
    }
    pub fn new_unseeded() -> Qir {
        Qir {
            is_fixed: false,
            lo: 0,
            hi: 0,
            queue: vec![],
            arrays: vec![],
            res: BTreeMap::new(),
            res_any: false,
            out: vec![],
            res_err: None,
            use_store: false,
            nmeas: 0,
        }
    }
    fn touch(&mut self, ids: &[usize]) {
        for i in ids {
            self.lo = self.lo.max(i + 1);
            self.hi = self.hi.max(i + 1);
        }
    }
    fn mention(&mut self, ids: &[usize]) {
        for i in ids {
            self.hi = self.hi.max(i + 1);
        }
    }
    fn store(&mut self, r: usize, v: bool) {
        self.res.insert(r, v);
        self.res_any = true;
    }
    pub fn read(&mut self, r: usize, v: u64) -> bool {
        self.res_any = true;
        self.res.entry(r).or_insert(false);
        if v & 1 == 0 { __quantum__rt__read_result(qp(r)) } else { __quantum__qis__read_result__body(qp(r)) }
    }
}

impl Sut for Qir {
    fn alloc(&mut self, variant: u64) -> usize {
        if let Some(id) = self.queue.pop() {
            return id;
        }
        if variant > 0 {
            // several at once: the caller asks as many times
            let a = __quantum__rt__qubit_allocate_array(alloc_size(variant) as u64);
            let ids: Vec<usize> = unsafe {
                (0..__quantum__rt__array_get_size_1d(a))
                    .map(|i| *__quantum__rt__array_get_element_ptr_1d(a, i).cast::<*mut c_void>() as usize)
                    .collect()
            };
            self.queue = ids.iter().rev().copied().collect();
            self.arrays.push((a, ids));
            return self.queue.pop().unwrap_or(usize::MAX);
        }
        __quantum__rt__qubit_allocate() as usize
    }
    fn release(&mut self, id: usize, _v: u64) {
        __quantum__rt__qubit_release(qp(id));
    }
    fn gate(&mut self, g: &Gate, c: &[usize], t: &[usize]) {
        if g.k == K::R && g.paulis[0] == 0 {
            if !c.is_empty() {
                self.mention(t);
                self.mention(c);
            } else {
                self.mention(t);
            }
        } else {
            self.touch(c);
            self.touch(t);
        }
        qir_gate(g, c, t);
    }
    fn measure(&mut self, id: usize, v: u64) -> bool {
        self.touch(&[id]);
        if self.use_store {
            // mz, mresetz excepted: it also resets (see the "mr" operation)
            let n = self.nmeas;
            let r = if n % 2 == 0 { n / 2 % 7 } else { res_id((n * 11 + id * 7) % 24) };
            self.nmeas += 1;
            __quantum__qis__mz__body(qp(id), qp(r));
            let got = self.read(r, v);
            self.store(r, got);
            return got;
        }
        match v {
            1 => {
                let (p, a) = (parr(&[3]), qarr(&[id]));
                let r = unsafe { __quantum__qis__measure__body(p, a) };
                drop_arr(p);
                drop_arr(a);
                is_one(r)
            }
            _ => is_one(__quantum__qis__m__body(qp(id))),
        }
    }
    fn joint(&mut self, ps: &[u8], ids: &[usize]) -> bool {
        self.mention(ids);
        let on: Vec<usize> = ps.iter().zip(ids).filter(|x| *x.0 != 0).map(|x| *x.1).collect();
        self.touch(&on);
        let (p, a) = (parr(ps), qarr(ids));
        let r = unsafe { __quantum__qis__measure__body(p, a) };
        drop_arr(p);
        drop_arr(a);
        is_one(r)
    }
    fn state(&mut self) -> (State, usize) {
        let (st, n) = capture_quantum_state();
        if self.is_fixed {
            // static addressing: qubits come into being when first used
            if n >= self.lo && n <= self.hi { (st, 0) } else { (st, 1_000_000 + n) }
        } else {
            (st, n)
        }
    }
    fn dump(&mut self) -> String {
        drain();
        __quantum__qis__dumpmachine__body(std::ptr::null_mut());
        let mut s = String::from_utf8_lossy(&drain()).into_owned();
        if self.res_any {
            match s.split_once('\n') {
                Some((l, rest)) if l.starts_with("Global Results: ") => {
                    let bits: Vec<bool> =
                        l["Global Results: ".len()..].chars().filter(|c| "01".contains(*c)).map(|c| c == '1').collect();
                    let max = self.res.keys().next_back().map_or(0, |x| x + 1);
                    if bits.len() < max {
                        self.res_err = Some(format!("dump shows {} results, {max} are in use", bits.len()));
                    }
                    for (i, b) in bits.iter().enumerate() {
                        if *b != self.res.get(&i).copied().unwrap_or(false) {
                            self.res_err = Some(format!("dump shows result {i} as {b}; line {l:?}"));
                        }
                    }
                    s = rest.to_string();
                }
                _ => self.res_err = Some(format!("no results line in {s:?}")),
            }
        }
        s
    }
    fn is_zero(&mut self, id: usize) -> bool {
        self.touch(&[id]);
        qubit_is_zero(qp(id))
    }
    fn restart(&mut self) {
        for (a, _) in self.arrays.drain(..) {
            drop_arr(a);
        }
        __quantum__rt__initialize(std::ptr::null_mut());
        self.lo = 0;
        self.hi = 0;
        self.res.clear();
        self.res_any = false;
    }
    fn prob(&mut self, _p: &[u8], _i: &[usize]) -> Option<f64> {
        None
    }
    fn force(&mut self, _v: bool, _i: usize) -> Option<f64> {
        None
    }
    fn reset(&mut self, id: usize) {
        self.touch(&[id]);
        __quantum__qis__reset__body(qp(id));
    }
    fn write_result(&mut self, r: usize, v: bool) {
        __quantum__rt__write_result(v, qp(r));
    }
    fn read_result(&mut self, r: usize) -> Option<bool> {
        Some(q::__quantum__rt__read_result(qp(r)))
    }
    fn bad(&mut self, _k: i64, _l: &[usize], _d: usize, _r: &mut Rng) -> Option<bool> {
        None
    }
    fn assert_prob(&mut self, ps: &[u8], ids: &[usize], one: bool, prob: f64, tol: f64, ctl: bool) {
        self.mention(ids);
        let on: Vec<usize> = ps.iter().zip(ids).filter(|x| *x.0 != 0).map(|x| *x.1).collect();
        self.touch(&on);
        let (p, a) = (parr(ps), qarr(ids));
        let msg = qir_string("assertion of a true probability failed");
        let r = if one { __quantum__rt__result_get_one() } else { __quantum__rt__result_get_zero() };
        unsafe {
            if ctl {
                let c = qarr(&[]);
                let args = AssertArgs { paulis: p, qubits: a, result: r, prob, msg, tol };
                with_tuple(args, |t| __quantum__qis__assertmeasurementprobability__ctl(c, t));
                drop_arr(c);
            } else {
                __quantum__qis__assertmeasurementprobability__body(p, a, r, prob, msg, tol);
            }
            __quantum__rt__string_update_reference_count(msg, -1);
        }
        drop_arr(p);
        drop_arr(a);
    }
    fn offers(&self, k: K, nctl: usize) -> bool {
        match k {
            K::Ph | K::U => false,
            K::Sx | K::Swap | K::Rxx | K::Ryy | K::Rzz => nctl == 0,
            _ => true,
        }
    }
    fn joint_paulis(&self) -> bool {
        true
    }
    fn fixed(&self) -> bool {
        self.is_fixed
    }
}

pub struct QirWorld;

/// Operations of this world that the generic executor does not know.
pub fn qir_step(e: &mut Exec<Qir>, o: &Op) -> Res {
    match o.k.as_str() {
        "rela" => {
            // release a whole array, all of whose qubits are still allocated
            let live = e.live();
            let ok: Vec<usize> = (0..e.sut.arrays.len())
                .filter(|i| e.sut.arrays[*i].1.iter().all(|q| live.contains(q)))
                .collect();
            if ok.is_empty() {
                return Ok(());
            }
            let (a, ids) = e.sut.arrays.remove(ok[o.u(0) % ok.len()]);
            e.cx.st.inc("op.release array");
            if o.arg(1) & 1 == 1 {
                unsafe {
                    __quantum__rt__array_update_alias_count(a, 1);
                    __quantum__rt__array_update_alias_count(a, -1);
                }
            }
            unsafe { __quantum__rt__qubit_release_array(a) };
            e.released(&ids)
        }
        "mr" => {
            let live = e.live();
            if live.is_empty() || !e.sut.use_store {
                return Ok(());
            }
            let id = live[o.u(0) % live.len()];
            let r = res_id(o.u(1));
            e.cx.st.inc("op.mresetz");
            e.sut.touch(&[id]);
            __quantum__qis__mresetz__body(qp(id), qp(r));
            let got = e.sut.read(r, o.u(2) as u64);
            e.sut.store(r, got);
            e.measured_and_reset(id, got)
        }
        "w" => {
            if e.sut.use_store {
                let (r, v) = (res_id(o.u(0)), o.arg(1) & 1 == 1);
                e.cx.st.inc("op.write result");
                __quantum__rt__write_result(v, qp(r));
                e.sut.store(r, v);
            }
            Ok(())
        }
        "r" => {
            if !e.sut.use_store {
                return Ok(());
            }
            let r = res_id(o.u(0));
            let want = e.sut.res.get(&r).copied().unwrap_or(false);
            let got = e.sut.read(r, o.u(1) as u64);
            e.cx.st.inc("check.result read");
            e.cx.nontrivial = true;
            e.cx.ev(r as u64 * 2 + u64::from(got));
            if got != want {
                return viol("result", format!("result {r} reads {got}, last written {want}"));
            }
            Ok(())
        }
        "ro" => {
            if !e.sut.use_store || !e.sut.res_any {
                return Ok(());
            }
            let r = res_id(o.u(0));
            let want = e.sut.res.get(&r).copied().unwrap_or(false);
            e.sut.res.entry(r).or_insert(false);
            drain();
            let v = i64::from(want);
            let expect = match o.arg(1) {
                0 => {
                    q::legacy_output::__quantum__rt__result_record_output(qp(r));
                    format!("RESULT\t{v}\n")
                }
                1 => unsafe {
                    __quantum__rt__result_record_output(qp(r), std::ptr::null_mut());
                    format!("OUTPUT\tRESULT\t{v}\n")
                },
                t => unsafe {
                    let tag = cstr(&format!("t{t}_{r}"));
                    __quantum__rt__result_record_output(qp(r), tag.as_ptr() as *mut c_char);
                    format!("OUTPUT\tRESULT\t{v}\tt{t}_{r}\n")
                },
            };
            let got = drain();
            e.cx.st.inc("check.result recorded");
            e.cx.nontrivial = true;
            if got != expect.as_bytes() {
                return viol("record", format!("recorded {:?}, expected {expect:?}", String::from_utf8_lossy(&got)));
            }
            Ok(())
        }
        "rd" => {
            // results as values (no store in use): record one
            if e.sut.use_store || e.sut.res_any {
                return Ok(());
            }
            let b = o.arg(0) & 1 == 1;
            let r = if b { __quantum__rt__result_get_one() } else { __quantum__rt__result_get_zero() };
            drain();
            let expect = if o.arg(1) == 0 {
                q::legacy_output::__quantum__rt__result_record_output(r);
                format!("RESULT\t{}\n", i64::from(b))
            } else {
                unsafe { __quantum__rt__result_record_output(r, std::ptr::null_mut()) };
                format!("OUTPUT\tRESULT\t{}\n", i64::from(b))
            };
            let got = drain();
            if got != expect.as_bytes() {
                return viol("record", format!("recorded {:?}, expected {expect:?}", String::from_utf8_lossy(&got)));
            }
            Ok(())
        }
        "store" => {
            e.sut.use_store = true;
            Ok(())
        }
        _ => {
            e.step(o)?;
            if o.k == "restart" {
                e.cx.nontrivial = true;
            }
            if let Some(m) = e.sut.res_err.take() {
                return viol("dump-results", m);
            }
            Ok(())
        }
    }
}

/// Result identifiers cluster around word sizes and run up to a few thousand, a few beyond.
fn res_id(x: usize) -> usize {
    const IDS: [usize; 31] = [
        0, 1, 2, 3, 4, 5, 6, 7, 8, 31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129, 255, 256, 1000, 4095,
        // rare ones
        5000, 65_535, 65_536, 65_599, 70_000, 131_075, 1_048_576,
    ];
    IDS[x % IDS.len()]
}

pub fn qir_profile(prop: &str, r: &mut Rng) -> Profile {
    let kinds: &[(&str, u64)] = &[
        ("X", 10), ("Y", 8), ("Z", 8), ("H", 14), ("S", 6), ("T", 6), ("Sx", 4), ("Rx", 8), ("Ry", 8), ("Rz", 8),
        ("R", 8), ("Exp", 7), ("Swap", 6), ("Rxx", 4), ("Ryy", 4), ("Rzz", 4),
    ];
    let (ops, gate): (Vec<(&str, u64)>, u64) = match prop {
        "C08" => (vec![("restart", 4), ("m", 5), ("jm", 2), ("st", 5), ("du", 2), ("alloc", 6), ("rel", 3), ("rs", 2)], 40),
        "C09" => (vec![("m", 12), ("jm", 2), ("du", 3), ("st", 1), ("rs", 2), ("restart", 1)], 25),
        "C18" => (vec![("as", 14), ("z", 8), ("st", 8), ("du", 8), ("m", 6), ("jm", 3), ("alloc", 1), ("rel", 1)], 45),
        "C03" => (vec![("m", 14), ("jm", 12), ("st", 3), ("alloc", 1), ("rel", 1), ("rs", 2)], 45),
        "C05" => (vec![("alloc", 14), ("rel", 12), ("m", 3), ("st", 4), ("du", 1), ("z", 2), ("rs", 3), ("restart", 1)], 35),
        _ => (vec![("m", 3), ("jm", 4), ("as", 3), ("z", 1), ("st", 3), ("du", 1), ("rel", 1), ("alloc", 1), ("rs", 2)], 80),
    };
    let mut ops = if r.pct(40) { swarm(r, &ops) } else { ops };
    if prop == "C03" && r.one_in(15) {
        ops.push(("rare", 4));
    }
    Profile {
        kinds: swarm(r, kinds),
        gate,
        ctl: *r.pick(&[0, 25, 50, 75]),
        adj: true,
        tiny: false,
        ops,
        variants: 16,
        paulis: true,
        many: false,
    }
}

impl World for QirWorld {
    fn name(&self) -> &'static str {
        "qir"
    }
    fn gen_run(&self, prop: &str, r: &mut Rng) -> Trace {
        let mut t = Trace::new("qir");
        t.set("rngseed", r.u64() as i64 >> 1);
        let fixed = match prop {
            "C05" => false,
            "C09" => r.pct(75),
            _ => r.pct(40),
        };
        // now and then a long life of a small register
        let long = r.one_in(200);
        let wide = !long && r.pct(12);
        let many = !long && !wide && r.pct(10);
        let n = if wide && fixed && r.pct(40) { r.range(60, 90) } else if wide { r.range(12, 60) } else if many { r.range(4, 8) } else { r.range(1, if long { 4 } else { 6 }) };
        t.set("fixed", i64::from(fixed));
        t.set("qubits", n);
        t.set("cap", if wide { 64 } else { 256 });
        let store = match prop {
            "C09" => r.pct(85),
            "C08" => r.pct(60),
            _ => r.pct(30),
        };
        let mut p = qir_profile(prop, r);
        p.many = many || wide && r.pct(30);
        if store {
            t.push("store", &[]);
        }
        if !fixed {
            let mut k = 0;
            while k < n {
                if wide && r.pct(6) {
                    let v = r.range(2, 8);
                    t.push("alloc", &[v]);
                    k += alloc_size(v as u64) as i64;
                } else if r.pct(30) {
                    t.push("alloc", &[1]);
                    k += 3;
                } else {
                    t.push("alloc", &[0]);
                    k += 1;
                }
            }
        }
        let far = prop == "C09" && r.one_in(40);
        let len = match r.below(10) {
            _ if long => r.range(400, 2500),
            0..=4 => r.range(3, 14),
            5..=8 => r.range(15, 50),
            _ => r.range(50, 140),
        };
        for _ in 0..len {
            let extra = match prop {
                "C09" => 55,
                "C08" => 25,
                "C05" => 12,
                _ => 10,
            };
            if r.pct(extra) {
                let top = if r.one_in(8) { 30 } else { 29 };
                let res = if far && r.pct(30) { r.range(24, top) } else { r.below(24) as i64 };
                match r.weighted(&[3, 3, 4, 4, 3, 2]) {
                    0 => t.push("rela", &[r.below(4) as i64, r.below(2) as i64]),
                    1 => t.push("mr", &[r.below(64) as i64, res, r.below(2) as i64]),
                    2 => t.push("w", &[res, r.below(2) as i64]),
                    3 => t.push("r", &[res, r.below(2) as i64]),
                    4 => t.push("ro", &[res, r.below(5) as i64]),
                    _ => t.push("rd", &[r.below(2) as i64, r.below(2) as i64]),
                }
            } else {
                gen_ops(&mut t, r, &p, 1, n);
            }
        }
        t
    }
    fn exec(&self, t: &Trace, cx: &mut Cx) -> Result<(), Violation> {
        self.run(t, cx, &mut |_, _| false)
    }
}

impl QirWorld {
    /// Executes a history; `first` sees each operation before it is carried out and may take it over.
    pub fn run(&self, t: &Trace, cx: &mut Cx, first: &mut dyn FnMut(usize, &Op) -> bool) -> Result<(), Violation> {
        let sut = Qir::new(t.get("rngseed") as u64, t.get("fixed") == 1);
        let mut e = Exec::new(sut, cx, t.get("cap").max(16) as usize);
        if t.get("fixed") == 1 {
            for i in 0..t.get("qubits").clamp(1, 90) as usize {
                e.reg.ids.insert(i, None);
            }
        }
        for (i, o) in t.ops.iter().enumerate() {
            e.cx.at = i;
            e.cx.say(|| format!("{} {:?}", o.k, o.a));
            if !first(i, o) {
                qir_step(&mut e, o)?;
            }
        }
        e.cx.at = t.ops.len();
        e.finish()?;
        e.sut.restart();
        Ok(())
    }
}
