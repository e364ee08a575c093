//! Generated QIR programs. A program is resolved once, call by call, and rendered twice: as LLVM text for
//! the runner, and as direct calls of the runtime's functions, which is what its records are predicted from.

use dst::rng::Rng;
use dst::trace::{Op, angle};
use qir_backend::output_recording::{self as rec, legacy};
use qir_backend::*;
use qir_backend::{exp::*, result_bool::*};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;

/// A runtime function: its name, its signature and its address. Signature: result, then one letter per
/// parameter. v nothing, Q qubit, M static result, h result value, i i64, n small i64, k small i32, d double, b bool,
/// p Pauli, L label, s string, S fresh string, g big integer, G fresh big integer, a array, t tuple, z null,
/// e the same integer again, f finite double, D the same double again, r range, w i32 (returned).
pub struct F {
    pub name: &'static str,
    pub sig: &'static str,
    pub at: usize,
    /// Output recording: 1 only in legacy programs, 2 only in current ones.
    pub era: u8,
    /// May put a basis state into superposition.
    pub mixes: bool,
}

macro_rules! f {
    ($n:ident, $s:expr) => { F { name: stringify!($n), sig: $s, at: $n as *const () as usize, era: 0, mixes: false } };
    ($n:ident, $s:expr, mixes) => { F { name: stringify!($n), sig: $s, at: $n as *const () as usize, era: 0, mixes: true } };
    (old $($p:ident)::+, $n:ident, $s:expr) => { F { name: stringify!($n), sig: $s, at: $($p::)+$n as *const () as usize, era: 1, mixes: false } };
    (new $($p:ident)::+, $n:ident, $s:expr) => { F { name: stringify!($n), sig: $s, at: $($p::)+$n as *const () as usize, era: 2, mixes: false } };
}

pub fn table() -> Vec<F> {
    vec![
        f!(__quantum__qis__h__body, "vQ", mixes),
        f!(__quantum__qis__x__body, "vQ"),
        f!(__quantum__qis__y__body, "vQ"),
        f!(__quantum__qis__z__body, "vQ"),
        f!(__quantum__qis__s__body, "vQ"),
        f!(__quantum__qis__s__adj, "vQ"),
        f!(__quantum__qis__t__body, "vQ"),
        f!(__quantum__qis__t__adj, "vQ"),
        f!(__quantum__qis__sx__body, "vQ", mixes),
        f!(__quantum__qis__rx__body, "vdQ", mixes),
        f!(__quantum__qis__ry__body, "vdQ", mixes),
        f!(__quantum__qis__rz__body, "vdQ"),
        f!(__quantum__qis__rxx__body, "vdQQ", mixes),
        f!(__quantum__qis__ryy__body, "vdQQ", mixes),
        f!(__quantum__qis__rzz__body, "vdQQ"),
        f!(__quantum__qis__cx__body, "vQQ"),
        f!(__quantum__qis__cnot__body, "vQQ"),
        f!(__quantum__qis__cy__body, "vQQ"),
        f!(__quantum__qis__cz__body, "vQQ"),
        f!(__quantum__qis__swap__body, "vQQ"),
        f!(__quantum__qis__ccx__body, "vQQQ"),
        f!(__quantum__qis__r__body, "vpdQ", mixes),
        f!(__quantum__qis__r__adj, "vpdQ", mixes),
        f!(__quantum__qis__barrier__body, "v"),
        f!(__quantum__qis__reset__body, "vQ"),
        f!(__quantum__qis__mz__body, "vQM"),
        f!(__quantum__qis__mresetz__body, "vQM"),
        f!(__quantum__qis__read_result__body, "bM"),
        f!(__quantum__rt__read_result, "bM"),
        f!(__quantum__rt__write_result, "vbM"),
        f!(__quantum__qis__dumpmachine__body, "vz"),
        f!(__quantum__rt__result_equal, "bhh"),
        f!(__quantum__rt__result_to_string, "sh"),
        f!(__quantum__rt__result_update_reference_count, "vhk"),
        f!(__quantum__rt__result_get_zero, "h"),
        f!(__quantum__rt__result_get_one, "h"),
        f!(__quantum__rt__qubit_to_string, "sQ"),
        f!(__quantum__rt__message, "vs"),
        f!(__quantum__rt__message_record_output, "vs"),
        F { name: "__quantum__qis__m__body", sig: "vQM", at: __quantum__qis__mz__body as *const () as usize, era: 0, mixes: false },
        f!(__quantum__qis__m__body, "hQ"),
        f!(__quantum__qis__drawrandomdouble__body, "dfD"),
        f!(__quantum__rt__string_create, "sL"),
        f!(__quantum__rt__string_concatenate, "ssS"),
        f!(__quantum__rt__string_equal, "bss"),
        f!(__quantum__rt__int_to_string, "si"),
        f!(__quantum__rt__double_to_string, "sd"),
        f!(__quantum__rt__bool_to_string, "sb"),
        f!(__quantum__rt__pauli_to_string, "sp"),
        f!(__quantum__qis__arccos__body, "dd"),
        f!(__quantum__qis__arcsin__body, "dd"),
        f!(__quantum__qis__arctan__body, "dd"),
        f!(__quantum__qis__arctan2__body, "ddd"),
        f!(__quantum__qis__cos__body, "dd"),
        f!(__quantum__qis__cosh__body, "dd"),
        f!(__quantum__qis__sin__body, "dd"),
        f!(__quantum__qis__sinh__body, "dd"),
        f!(__quantum__qis__tan__body, "dd"),
        f!(__quantum__qis__tanh__body, "dd"),
        f!(__quantum__qis__sqrt__body, "dd"),
        f!(__quantum__qis__log__body, "dd"),
        f!(__quantum__qis__ieeeremainder__body, "ddd"),
        f!(__quantum__qis__infinity__body, "d"),
        f!(__quantum__qis__nan__body, "d"),
        f!(__quantum__qis__isinf__body, "bd"),
        f!(__quantum__qis__isnan__body, "bd"),
        f!(__quantum__qis__isnegativeinfinity__body, "bd"),
        f!(__quantum__qis__drawrandomint__body, "iie"),
        f!(__quantum__rt__bigint_create_i64, "gi"),
        f!(__quantum__rt__bigint_add, "ggG"),
        f!(__quantum__rt__bigint_subtract, "ggG"),
        f!(__quantum__rt__bigint_multiply, "ggG"),
        f!(__quantum__rt__bigint_divide, "ggG"),
        f!(__quantum__rt__bigint_modulus, "ggG"),
        f!(__quantum__rt__bigint_bitand, "ggg"),
        f!(__quantum__rt__bigint_bitor, "ggg"),
        f!(__quantum__rt__bigint_bitxor, "ggg"),
        f!(__quantum__rt__bigint_bitnot, "gg"),
        f!(__quantum__rt__bigint_negate, "gg"),
        f!(__quantum__rt__bigint_shiftleft, "ggn"),
        f!(__quantum__rt__bigint_shiftright, "ggn"),
        f!(__quantum__rt__bigint_power, "gGk"),
        f!(__quantum__rt__bigint_equal, "bgg"),
        f!(__quantum__rt__bigint_greater, "bgg"),
        f!(__quantum__rt__bigint_greater_eq, "bgg"),
        f!(__quantum__rt__bigint_to_string, "sg"),
        f!(__quantum__rt__array_create_1d, "akn"),
        f!(__quantum__rt__array_get_size_1d, "ia"),
        f!(__quantum__rt__array_copy, "aab"),
        f!(__quantum__rt__tuple_create, "tn"),
        f!(__quantum__rt__tuple_copy, "ttb"),
        f!(new rec, __quantum__rt__int_record_output, "viL"),
        f!(new rec, __quantum__rt__double_record_output, "vdL"),
        f!(new rec, __quantum__rt__bool_record_output, "vbL"),
        f!(new rec, __quantum__rt__array_record_output, "viL"),
        f!(new rec, __quantum__rt__tuple_record_output, "viL"),
        f!(new qir_backend, __quantum__rt__result_record_output, "vRL"),
        f!(old legacy, __quantum__rt__int_record_output, "vi"),
        f!(old legacy, __quantum__rt__double_record_output, "vd"),
        f!(old legacy, __quantum__rt__bool_record_output, "vb"),
        f!(old legacy, __quantum__rt__array_start_record_output, "v"),
        f!(old legacy, __quantum__rt__array_end_record_output, "v"),
        f!(old legacy, __quantum__rt__tuple_start_record_output, "v"),
        f!(old legacy, __quantum__rt__tuple_end_record_output, "v"),
        f!(old legacy_output, __quantum__rt__result_record_output, "vR"),
        // called by the compound steps below, never on their own
        f!(__quantum__rt__fail, "vs"),
        f!(__quantum__rt__qubit_allocate, "q"),
        f!(__quantum__rt__qubit_release, "vq"),
        f!(__quantum__rt__qubit_allocate_array, "an"),
        f!(__quantum__rt__qubit_release_array, "va"),
        f!(__quantum__rt__string_update_reference_count, "vsk"),
        f!(__quantum__rt__bigint_update_reference_count, "vgk"),
        f!(__quantum__rt__array_update_reference_count, "vak"),
        f!(__quantum__rt__array_update_alias_count, "vak"),
        f!(__quantum__rt__tuple_update_reference_count, "vtk"),
        f!(__quantum__rt__tuple_update_alias_count, "vtk"),
        f!(__quantum__rt__callable_update_reference_count, "vtk"),
        f!(__quantum__rt__callable_update_alias_count, "vtk"),
        f!(__quantum__rt__callable_create, "tzzz"),
        f!(__quantum__rt__callable_copy, "ttb"),
        f!(__quantum__rt__callable_make_adjoint, "vt"),
        f!(__quantum__rt__callable_invoke, "vttz"),
        f!(__quantum__rt__array_get_element_ptr_1d, "zan"),
        f!(__quantum__rt__array_concatenate, "aaa"),
        f!(__quantum__qis__measure__body, "haa"),
        f!(__quantum__qis__exp__body, "vada", mixes),
        f!(__quantum__qis__exp__adj, "vada", mixes),
        f!(__quantum__qis__h__ctl, "vaQ", mixes),
        f!(__quantum__qis__x__ctl, "vaQ"),
        f!(__quantum__qis__y__ctl, "vaQ"),
        f!(__quantum__qis__z__ctl, "vaQ"),
        f!(__quantum__qis__s__ctl, "vaQ"),
        f!(__quantum__qis__s__ctladj, "vaQ"),
        f!(__quantum__qis__t__ctl, "vaQ"),
        f!(__quantum__qis__t__ctladj, "vaQ"),
        f!(__quantum__rt__initialize, "vz"),
        f!(__quantum__qis__assertmeasurementprobability__body, "vaahdsd"),
        f!(__quantum__qis__assertmeasurementprobability__ctl, "vat"),
        f!(__quantum__qis__exp__ctl, "vat", mixes),
        f!(__quantum__qis__exp__ctladj, "vat", mixes),
        f!(__quantum__qis__r__ctl, "vat", mixes),
        f!(__quantum__qis__r__ctladj, "vat", mixes),
        f!(quantum__rt__array_slice_1d, "aarb"),
        f!(quantum__rt__range_to_string, "sr"),
        f!(__quantum__rt__bigint_create_array, "gkz"),
        f!(__quantum__rt__bigint_get_data, "zg"),
        f!(__quantum__rt__bigint_get_length, "wg"),
        f!(__quantum__rt__string_get_data, "zs"),
        f!(__quantum__rt__string_get_length, "ws"),
        f!(__quantum__rt__callable_make_controlled, "vt"),
        f!(__quantum__rt__capture_update_alias_count, "vtk"),
        f!(__quantum__rt__capture_update_reference_count, "vtk"),
        f!(__quantum__rt__memory_allocate, "zn"),
        f!(__quantum__qis__rx__ctl, "vat", mixes),
        f!(__quantum__qis__ry__ctl, "vat", mixes),
        f!(__quantum__qis__rz__ctl, "vat"),
    ]
}

/// How many functions of the table stand for steps of their own.
pub fn plain(tab: &[F]) -> usize {
    tab.iter().position(|f| f.name == "__quantum__rt__fail").unwrap_or(tab.len())
}

#[derive(Clone, Debug)]
pub enum V {
    I(i64),
    J(i32),
    D(f64),
    B(bool),
    P(u8),
    /// A constant address: a static qubit or result.
    At(usize),
    Null,
    Text(Vec<u8>),
    Reg(usize),
    /// The function table of the program's one callable.
    Table,
    Range(i64, i64, i64),
}

/// One of the two renderings.
pub trait Machine {
    fn call(&mut self, f: &F, args: &[V], out: Option<usize>, dies: bool);
    /// Stores into an array element (through its address) or, with no function, into a tuple.
    fn store(&mut self, elem: Option<&F>, obj: usize, at: usize, v: &V);
    /// Reads an integer from an array element.
    fn load(&mut self, elem: &F, obj: usize, at: usize, out: usize);
    /// A 32-bit count as an integer.
    fn widen(&mut self, from: usize, out: usize);
    fn begin_if(&mut self, cond: usize);
    fn end_if(&mut self);
    fn begin_helper(&mut self);
    fn end_helper(&mut self);
    fn dead(&self) -> bool {
        false
    }
}

/// What the whole program is like (from the trace's configuration).
#[derive(Clone, Debug)]
pub struct Shape {
    pub legacy: bool,
    pub dynamic: bool,
    pub basis: bool,
    pub qubits: usize,
    pub results: usize,
}

pub struct Gen<'a> {
    pub tab: &'a [F],
    pub sh: Shape,
    by: BTreeMap<(&'static str, u8), usize>,
    regs: Vec<(usize, char)>,
    next: usize,
    fresh: Vec<(usize, char)>,
    depth: usize,
    helper: bool,
}

fn dval(c: i64) -> f64 {
    match c.rem_euclid(9) {
        0 => 0.0,
        1 => 1.5,
        2 => -0.25,
        3 => 1e10,
        4 => angle(c / 9 % 64),
        5 => f64::INFINITY,
        6 => (c / 9 % 1000) as f64 / 7.0,
        _ => angle((c / 9).rem_euclid(4000)),
    }
}

pub fn text(c: i64) -> Vec<u8> {
    let mut r = Rng::new(c as u64);
    let n = r.below(14);
    (0..n).map(|_| if r.pct(85) { b'a' + r.below(26) as u8 } else { *r.pick(b" \t\"\\'_.:\n{%") }).collect()
}

impl<'a> Gen<'a> {
    pub fn new(tab: &'a [F], sh: &Shape) -> Gen<'a> {
        let by = tab.iter().enumerate().map(|(i, f)| ((f.name, f.era), i)).collect();
        Gen { tab, sh: sh.clone(), by, regs: vec![], next: 0, fresh: vec![], depth: 0, helper: false }
    }
    fn f(&self, n: &'static str) -> &'a F {
        &self.tab[self.by.get(&(n, 0)).or_else(|| self.by.get(&(n, 2))).copied().unwrap_or_else(|| panic!("no function {n}"))]
    }
    fn reg(&mut self, kind: char) -> usize {
        let r = self.next;
        self.next += 1;
        self.regs.push((r, kind));
        r
    }
    fn pick(&self, kind: char, c: i64) -> Option<usize> {
        let v: Vec<usize> = self.regs.iter().filter(|r| r.1 == kind).map(|r| r.0).collect();
        if v.is_empty() { None } else { Some(v[c.rem_euclid(v.len() as i64) as usize]) }
    }
    fn qubit(&self, i: usize) -> V {
        let i = i % self.sh.qubits;
        if self.sh.dynamic {
            let q: Vec<usize> = self.regs.iter().filter(|r| r.1 == 'q').map(|r| r.0).collect();
            V::Reg(q[i])
        } else {
            V::At(i)
        }
    }
    fn call(&mut self, m: &mut dyn Machine, n: &'static str, args: &[V]) -> Option<usize> {
        let f = self.f(n);
        let k = f.sig.chars().next().unwrap_or('v');
        let out = (k != 'v').then(|| self.reg(k));
        m.call(f, args, out, false);
        out
    }
    pub fn begin(&mut self, m: &mut dyn Machine) {
        if self.sh.dynamic {
            for _ in 0..self.sh.qubits {
                self.call(m, "__quantum__rt__qubit_allocate", &[]);
            }
        } else {
            // a program with static results has measured into one before it records any
            for i in 0..self.sh.results {
                let q = self.qubit(i);
                self.call(m, "__quantum__qis__mz__body", &[q, V::At(i)]);
            }
        }
    }
    fn release(&mut self, m: &mut dyn Machine, r: usize, kind: char) {
        let n = match kind {
            's' => "__quantum__rt__string_update_reference_count",
            'g' => "__quantum__rt__bigint_update_reference_count",
            'a' => "__quantum__rt__array_update_reference_count",
            't' => "__quantum__rt__tuple_update_reference_count",
            _ => return,
        };
        self.call(m, n, &[V::Reg(r), V::J(-1)]);
    }
    pub fn end(&mut self, m: &mut dyn Machine) {
        while self.depth > 0 {
            m.end_if();
            self.depth -= 1;
        }
        if self.helper {
            m.end_helper();
            self.helper = false;
        }
        let rs = self.regs.clone();
        for (r, k) in rs {
            self.release(m, r, k);
            if k == 'q' {
                // the program leaves its qubits clean
                self.call(m, "__quantum__qis__reset__body", &[V::Reg(r)]);
                self.call(m, "__quantum__rt__qubit_release", &[V::Reg(r)]);
            }
        }
    }
    fn operand(&mut self, m: &mut dyn Machine, k: char, c: i64, qs: &mut Vec<usize>, last: &V) -> Option<V> {
        let by_reg = c & 1 == 1 && !self.helper;
        let c2 = c >> 1;
        let reg = |g: &Gen, k| if by_reg { g.pick(k, c2).map(V::Reg) } else { None };
        Some(match k {
            'Q' => {
                let mut i = c.rem_euclid(self.sh.qubits as i64) as usize;
                while qs.contains(&i) {
                    i = (i + 1) % self.sh.qubits;
                    if qs.len() >= self.sh.qubits {
                        return None;
                    }
                }
                qs.push(i);
                self.qubit(i)
            }
            'M' => {
                if self.sh.dynamic || self.sh.results == 0 {
                    return None;
                }
                V::At(c.rem_euclid(self.sh.results as i64) as usize)
            }
            'h' => {
                if !self.sh.dynamic || self.helper {
                    return None;
                }
                V::Reg(self.pick('h', c)?)
            }
            'R' => {
                if self.sh.dynamic {
                    if self.helper {
                        return None;
                    }
                    V::Reg(self.pick('h', c)?)
                } else if self.sh.results > 0 {
                    V::At(c.rem_euclid(self.sh.results as i64) as usize)
                } else {
                    return None;
                }
            }
            'i' => reg(self, 'i').unwrap_or(V::I(match c2.rem_euclid(5) {
                0 => i64::MAX,
                1 => i64::MIN,
                _ => c2.rem_euclid(1000) - 500,
            })),
            'e' => last.clone(),
            'n' => V::I(c2.rem_euclid(20)),
            'k' => V::J(1 + c2.rem_euclid(4) as i32),
            'd' => reg(self, 'd').unwrap_or(V::D(dval(c2))),
            'f' => V::D(angle(c2.rem_euclid(4000))),
            'D' => last.clone(),
            'b' => reg(self, 'b').unwrap_or(V::B(c2 & 1 == 1)),
            'p' => V::P(c2.rem_euclid(4) as u8),
            'L' => {
                if c2.rem_euclid(4) == 0 {
                    V::Null
                } else {
                    V::Text(text(c2))
                }
            }
            'z' => V::Null,
            's' | 'S' | 'g' | 'G' | 'a' | 't' => {
                if self.helper {
                    return None;
                }
                let old = if k.is_lowercase() { self.pick(k, c) } else { None };
                match old {
                    Some(r) => V::Reg(r),
                    None => {
                        let lower = k.to_ascii_lowercase();
                        let r = match lower {
                            's' => self.call(m, "__quantum__rt__string_create", &[V::Text(text(c))]),
                            'g' => self.call(m, "__quantum__rt__bigint_create_i64", &[V::I(if c2 == 0 { 17 } else { c2 })]),
                            'a' => self.call(m, "__quantum__rt__array_create_1d", &[V::J(8), V::I(c2.rem_euclid(6))]),
                            _ => self.call(m, "__quantum__rt__tuple_create", &[V::I(8 + c2.rem_euclid(20))]),
                        }?;
                        if self.depth > 0 {
                            // made inside a block: it does not outlive the call
                            self.regs.retain(|x| x.0 != r);
                            self.fresh.push((r, lower));
                        }
                        V::Reg(r)
                    }
                }
            }
            _ => return None,
        })
    }
    fn qubit_array(&mut self, m: &mut dyn Machine, ids: &[usize]) -> Option<usize> {
        let a = self.call(m, "__quantum__rt__array_create_1d", &[V::J(8), V::I(ids.len() as i64)])?;
        self.regs.retain(|x| x.0 != a);
        for (i, q) in ids.iter().enumerate() {
            let v = self.qubit(*q);
            m.store(Some(self.f("__quantum__rt__array_get_element_ptr_1d")), a, i, &v);
        }
        Some(a)
    }
    fn pauli_array(&mut self, m: &mut dyn Machine, ps: &[u8]) -> Option<usize> {
        let a = self.call(m, "__quantum__rt__array_create_1d", &[V::J(1), V::I(ps.len() as i64)])?;
        self.regs.retain(|x| x.0 != a);
        for (i, p) in ps.iter().enumerate() {
            m.store(Some(self.f("__quantum__rt__array_get_element_ptr_1d")), a, i, &V::P(*p));
        }
        Some(a)
    }
    fn some_qubits(&self, c: i64, at_least: usize, at_most: usize) -> Vec<usize> {
        let mut r = Rng::new(c as u64);
        let mut v: Vec<usize> = (0..self.sh.qubits).collect();
        for i in (1..v.len()).rev() {
            v.swap(i, r.idx(i + 1));
        }
        let n = at_least + r.idx(at_most.saturating_sub(at_least) + 1);
        v.truncate(n.min(self.sh.qubits));
        v
    }
    /// One step of the program. Steps that do not apply are skipped, by both renderings alike.
    pub fn step(&mut self, m: &mut dyn Machine, o: &Op) {
        let base = self.regs.len();
        match o.k.as_str() {
            "c" => {
                let i = o.u(1) % plain(self.tab);
                let f = &self.tab[i];
                let k = f.sig.chars().next().unwrap_or('v');
                if f.era == 1 && !self.sh.legacy || f.era == 2 && self.sh.legacy || f.mixes && self.sh.basis {
                    return;
                }
                if (self.depth > 0 || self.helper) && k != 'v' || f.name == "__quantum__rt__string_create" && o.arg(2) >> 1 & 3 == 0 {
                    return;
                }
                if k == 'h' && !self.sh.dynamic {
                    return;
                }
                let (mut qs, mut args, mut last) = (vec![], vec![], V::Null);
                for (j, p) in f.sig.chars().skip(1).enumerate() {
                    let Some(v) = self.operand(m, p, o.arg(2 + j), &mut qs, &last) else {
                        self.drop_fresh(m);
                        return;
                    };
                    last = v.clone();
                    args.push(v);
                }
                let out = (k != 'v').then(|| self.reg(k));
                m.call(f, &args, out, false);
                self.drop_fresh(m);
            }
            "ctl" => {
                let v = self.some_qubits(o.arg(2), 1, 4);
                if self.helper {
                    return;
                }
                let (t, cs) = (v[0], &v[1..]);
                const PLAIN: [&str; 8] = [
                    "__quantum__qis__x__ctl",
                    "__quantum__qis__y__ctl",
                    "__quantum__qis__z__ctl",
                    "__quantum__qis__s__ctl",
                    "__quantum__qis__s__ctladj",
                    "__quantum__qis__t__ctl",
                    "__quantum__qis__t__ctladj",
                    "__quantum__qis__h__ctl",
                ];
                const ROT: [&str; 3] = ["__quantum__qis__rz__ctl", "__quantum__qis__rx__ctl", "__quantum__qis__ry__ctl"];
                const WIDE: [&str; 5] = [
                    "__quantum__qis__r__ctl",
                    "__quantum__qis__r__ctladj",
                    "__quantum__qis__exp__ctl",
                    "__quantum__qis__exp__ctladj",
                    "__quantum__qis__assertmeasurementprobability__ctl",
                ];
                let g = o.u(1) % 16;
                if self.sh.basis && (g == 7 || (9..15).contains(&g)) {
                    return;
                }
                let Some(a) = self.qubit_array(m, cs) else { return };
                let q = self.qubit(t);
                let th = V::D(angle(o.arg(3).rem_euclid(4000)));
                if g < 8 {
                    self.call(m, PLAIN[g], &[V::Reg(a), q]);
                } else if g == 11 || g == 12 {
                    let Some(tp) = self.call(m, "__quantum__rt__tuple_create", &[V::I(24)]) else { return };
                    self.regs.retain(|x| x.0 != tp);
                    m.store(None, tp, 0, &V::P((o.arg(3).rem_euclid(97) % 4) as u8));
                    m.store(None, tp, 8, &th);
                    m.store(None, tp, 16, &q);
                    self.call(m, WIDE[g - 11], &[V::Reg(a), V::Reg(tp)]);
                    self.release(m, tp, 't');
                } else if g > 12 {
                    let ps: Vec<u8> = if self.sh.basis { vec![2] } else { vec![(o.arg(3).rem_euclid(101) % 4) as u8] };
                    let (Some(pa), Some(qa)) = (self.pauli_array(m, &ps), self.qubit_array(m, &[t])) else { return };
                    let size = if g == 15 { 48 } else { 24 };
                    let Some(tp) = self.call(m, "__quantum__rt__tuple_create", &[V::I(size)]) else { return };
                    self.regs.retain(|x| x.0 != tp);
                    m.store(None, tp, 0, &V::Reg(pa));
                    if g == 15 {
                        let Some(z) = self.call(m, "__quantum__rt__result_get_zero", &[]) else { return };
                        let Some(s) = self.call(m, "__quantum__rt__string_create", &[V::Text(text(o.arg(3)))]) else { return };
                        self.regs.retain(|x| x.0 != z && x.0 != s);
                        m.store(None, tp, 8, &V::Reg(qa));
                        m.store(None, tp, 16, &V::Reg(z));
                        m.store(None, tp, 24, &V::D(0.5));
                        m.store(None, tp, 32, &V::Reg(s));
                        m.store(None, tp, 40, &V::D(1.0));
                        self.call(m, WIDE[4], &[V::Reg(a), V::Reg(tp)]);
                        self.release(m, s, 's');
                    } else {
                        m.store(None, tp, 8, &th);
                        m.store(None, tp, 16, &V::Reg(qa));
                        self.call(m, WIDE[g - 11], &[V::Reg(a), V::Reg(tp)]);
                    }
                    self.release(m, tp, 't');
                    self.release(m, pa, 'a');
                    self.release(m, qa, 'a');
                } else {
                    let Some(tp) = self.call(m, "__quantum__rt__tuple_create", &[V::I(16)]) else { return };
                    self.regs.retain(|x| x.0 != tp);
                    m.store(None, tp, 0, &th);
                    m.store(None, tp, 8, &q);
                    self.call(m, ROT[g - 8], &[V::Reg(a), V::Reg(tp)]);
                    self.release(m, tp, 't');
                }
                self.release(m, a, 'a');
            }
            "exp" | "measure" => {
                if self.helper || (o.k == "exp" && self.sh.basis) || (o.k == "measure" && (!self.sh.dynamic || self.depth > 0)) {
                    return;
                }
                let v = self.some_qubits(o.arg(2), 1, 3);
                let mut r = Rng::new(o.arg(3) as u64);
                let ps: Vec<u8> = v.iter().map(|_| if self.sh.basis { 2 } else { r.range(i64::from(o.k == "measure"), 3) as u8 }).collect();
                let (Some(p), Some(a)) = (self.pauli_array(m, &ps), self.qubit_array(m, &v)) else { return };
                if o.k == "exp" {
                    let n = if o.arg(1) & 1 == 0 { "__quantum__qis__exp__body" } else { "__quantum__qis__exp__adj" };
                    self.call(m, n, &[V::Reg(p), V::D(angle(o.arg(4).rem_euclid(4000))), V::Reg(a)]);
                } else {
                    self.call(m, "__quantum__qis__measure__body", &[V::Reg(p), V::Reg(a)]);
                }
                self.release(m, a, 'a');
                self.release(m, p, 'a');
            }
            "assert" => {
                // within a tolerance that allows anything
                if self.helper {
                    return;
                }
                let v = self.some_qubits(o.arg(1), 1, 3);
                let mut r = Rng::new(o.arg(2) as u64);
                let ps: Vec<u8> = v.iter().map(|_| if self.sh.basis { 2 } else { r.range(1, 3) as u8 }).collect();
                let (Some(p), Some(a)) = (self.pauli_array(m, &ps), self.qubit_array(m, &v)) else { return };
                let which = if o.arg(1) & 1 == 0 { "__quantum__rt__result_get_zero" } else { "__quantum__rt__result_get_one" };
                let Some(z) = self.call(m, which, &[]) else { return };
                let Some(s) = self.call(m, "__quantum__rt__string_create", &[V::Text(text(o.arg(2)))]) else { return };
                self.regs.retain(|x| x.0 != z && x.0 != s);
                self.call(
                    m,
                    "__quantum__qis__assertmeasurementprobability__body",
                    &[V::Reg(p), V::Reg(a), V::Reg(z), V::D(0.5), V::Reg(s), V::D(1.0)],
                );
                self.release(m, s, 's');
                self.release(m, a, 'a');
                self.release(m, p, 'a');
            }
            "init" => {
                // a program may start over itself
                if self.sh.dynamic || self.helper || self.depth > 0 {
                    return;
                }
                self.call(m, "__quantum__rt__initialize", &[V::Null]);
                self.begin(m);
            }
            "data" => {
                if self.helper || self.depth > 0 {
                    return;
                }
                match o.arg(1).rem_euclid(4) {
                    0 => {
                        let Some(a) = self.call(m, "__quantum__rt__string_create", &[V::Text(text(o.arg(2)))]) else { return };
                        let Some(n) = self.call(m, "__quantum__rt__string_get_length", &[V::Reg(a)]) else { return };
                        let Some(p) = self.call(m, "__quantum__rt__string_get_data", &[V::Reg(a)]) else { return };
                        self.call(m, "__quantum__rt__string_create", &[V::Reg(p)]);
                        let w = self.reg('i');
                        m.widen(n, w);
                    }
                    1 => {
                        let Some(a) = self.call(m, "__quantum__rt__bigint_create_i64", &[V::I(o.arg(2) * 0x0123_4567_89AB)]) else { return };
                        let Some(n) = self.call(m, "__quantum__rt__bigint_get_length", &[V::Reg(a)]) else { return };
                        let Some(p) = self.call(m, "__quantum__rt__bigint_get_data", &[V::Reg(a)]) else { return };
                        self.call(m, "__quantum__rt__bigint_create_array", &[V::Reg(n), V::Reg(p)]);
                        let w = self.reg('i');
                        m.widen(n, w);
                    }
                    2 => {
                        let Some(p) = self.call(m, "__quantum__rt__memory_allocate", &[V::I(9 + o.arg(2).rem_euclid(30))]) else { return };
                        m.store(None, p, 0, &V::I(0x2e68_6467_6665_6461 >> (8 * o.arg(2).rem_euclid(8))));
                        self.call(m, "__quantum__rt__string_create", &[V::Reg(p)]);
                    }
                    _ => {
                        let c = o.arg(2);
                        self.call(m, "quantum__rt__range_to_string", &[V::Range(c % 17 - 8, c / 17 % 9 - 4, c / 153 % 99 - 49)]);
                    }
                }
            }
            "slice" => {
                // parts of arrays, put together; two of the elements become integers the program can record
                if self.helper || self.depth > 0 {
                    return;
                }
                let n = 1 + o.arg(1).rem_euclid(6);
                let Some(mut a) = self.call(m, "__quantum__rt__array_create_1d", &[V::J(8), V::I(n)]) else { return };
                self.regs.retain(|x| x.0 != a);
                let el = self.f("__quantum__rt__array_get_element_ptr_1d");
                for i in 0..n {
                    m.store(Some(el), a, i as usize, &V::I(o.arg(2) * 10 + i));
                }
                let mut len = n;
                if o.arg(1) & 64 != 0 {
                    let (x, y) = (o.arg(2).rem_euclid(n), (o.arg(2) / 7).rem_euclid(n));
                    let step = 1 + (o.arg(2) / 49).rem_euclid(3);
                    let (lo, hi) = (x.min(y), x.max(y));
                    let r = if o.arg(1) & 128 == 0 { V::Range(lo, step, hi) } else { V::Range(hi, -step, lo) };
                    let Some(b) = self.call(m, "quantum__rt__array_slice_1d", &[V::Reg(a), r, V::B(true)]) else { return };
                    self.regs.retain(|x| x.0 != b);
                    len = (hi - lo) / step + 1;
                    self.release(m, a, 'a');
                    a = b;
                }
                if o.arg(1) & 256 != 0 {
                    let Some(b) = self.call(m, "__quantum__rt__array_concatenate", &[V::Reg(a), V::Reg(a)]) else { return };
                    self.regs.retain(|x| x.0 != b);
                    self.release(m, a, 'a');
                    a = b;
                    len *= 2;
                }
                for i in [0, len - 1] {
                    let w = self.reg('i');
                    m.load(el, a, i as usize, w);
                }
                self.call(m, "__quantum__rt__array_get_size_1d", &[V::Reg(a)]);
                self.release(m, a, 'a');
            }
            "big" => {
                // many records of one size, which line up with whatever portions the output is moved in
                if self.helper {
                    return;
                }
                let size = (16usize << o.arg(1).rem_euclid(10)).saturating_add_signed([0, 0, 0, 1, -1][(o.arg(1) / 10).rem_euclid(5) as usize]);
                let total = [600, 1100, 2100, 4200, 8300, 16500, 33000][o.arg(2).rem_euclid(7) as usize];
                let count = (total / size + 1).min(300);
                let fill: Vec<u8> = (0..size - 6).map(|i| b'a' + ((i + size) % 23) as u8).collect();
                let Some(s) = self.call(m, "__quantum__rt__string_create", &[V::Text(fill)]) else { return };
                self.regs.retain(|x| x.0 != s);
                for _ in 0..count {
                    self.call(m, "__quantum__rt__message", &[V::Reg(s)]);
                }
                self.release(m, s, 's');
            }
            "tmpq" => {
                // qubits for a while
                if !self.sh.dynamic || self.helper {
                    return;
                }
                let Some(a) = self.call(m, "__quantum__rt__qubit_allocate_array", &[V::I(o.arg(1).rem_euclid(3))]) else { return };
                self.regs.retain(|x| x.0 != a);
                self.call(m, "__quantum__rt__qubit_release_array", &[V::Reg(a)]);
            }
            "rc" => {
                if self.helper {
                    return;
                }
                let k = ['s', 'g', 'a', 't'][o.u(1) % 4];
                let Some(r) = self.pick(k, o.arg(2)) else { return };
                let up = match k {
                    's' => "__quantum__rt__string_update_reference_count",
                    'g' => "__quantum__rt__bigint_update_reference_count",
                    'a' => "__quantum__rt__array_update_reference_count",
                    _ => "__quantum__rt__tuple_update_reference_count",
                };
                self.call(m, up, &[V::Reg(r), V::J(1)]);
                self.call(m, up, &[V::Reg(r), V::J(-1)]);
                if k == 'a' || k == 't' {
                    let al = if k == 'a' { "__quantum__rt__array_update_alias_count" } else { "__quantum__rt__tuple_update_alias_count" };
                    self.call(m, al, &[V::Reg(r), V::J(1)]);
                    self.call(m, al, &[V::Reg(r), V::J(-1)]);
                }
            }
            "fun" => {
                // a function value, perhaps copied and adjoint, called with a number it records
                if self.helper || self.sh.legacy {
                    return;
                }
                let Some(mut c) = self.call(m, "__quantum__rt__callable_create", &[V::Table, V::Null, V::Null]) else { return };
                self.regs.retain(|x| x.0 != c);
                if o.arg(1) & 1 == 1
                    && let Some(d) = self.call(m, "__quantum__rt__callable_copy", &[V::Reg(c), V::B(true)])
                {
                    self.regs.retain(|x| x.0 != d);
                    self.call(m, "__quantum__rt__callable_update_reference_count", &[V::Reg(c), V::J(-1)]);
                    c = d;
                }
                for _ in 0..(o.arg(1) >> 1) & 3 {
                    self.call(m, "__quantum__rt__callable_make_adjoint", &[V::Reg(c)]);
                }
                let levels = (o.arg(1) >> 3).rem_euclid(4);
                for _ in 0..levels {
                    self.call(m, "__quantum__rt__callable_make_controlled", &[V::Reg(c)]);
                }
                self.call(m, "__quantum__rt__capture_update_reference_count", &[V::Reg(c), V::J(1)]);
                self.call(m, "__quantum__rt__capture_update_reference_count", &[V::Reg(c), V::J(-1)]);
                self.call(m, "__quantum__rt__capture_update_alias_count", &[V::Reg(c), V::J(1)]);
                self.call(m, "__quantum__rt__capture_update_alias_count", &[V::Reg(c), V::J(-1)]);
                // innermost: the number; around it, per level, a control list and what is inside
                let (mut inner, mut made) = (V::I(o.arg(2)), vec![]);
                for l in 0..levels {
                    let Some(cs) = self.call(m, "__quantum__rt__array_create_1d", &[V::J(8), V::I((o.arg(2) + l) % 3)]) else { return };
                    let Some(tp) = self.call(m, "__quantum__rt__tuple_create", &[V::I(16)]) else { return };
                    self.regs.retain(|x| x.0 != tp && x.0 != cs);
                    m.store(None, tp, 0, &V::Reg(cs));
                    m.store(None, tp, 8, &inner);
                    inner = V::Reg(tp);
                    made.extend([(tp, 't'), (cs, 'a')]);
                }
                if levels == 0 {
                    let Some(tp) = self.call(m, "__quantum__rt__tuple_create", &[V::I(8)]) else { return };
                    self.regs.retain(|x| x.0 != tp);
                    m.store(None, tp, 0, &inner);
                    inner = V::Reg(tp);
                    made.push((tp, 't'));
                }
                self.call(m, "__quantum__rt__callable_invoke", &[V::Reg(c), inner, V::Null]);
                for (r, k) in made {
                    self.release(m, r, k);
                }
                self.call(m, "__quantum__rt__callable_update_reference_count", &[V::Reg(c), V::J(-1)]);
            }
            "if" => {
                if self.helper || self.depth > 2 {
                    return;
                }
                // only on the path where the condition is set
                let cond = if self.depth > 0 {
                    let Some(c) = self.pick('b', o.arg(1)) else { return };
                    c
                } else if self.sh.dynamic {
                    let (Some(x), Some(one)) = (self.pick('h', o.arg(1)), self.call(m, "__quantum__rt__result_get_one", &[])) else { return };
                    let Some(c) = self.call(m, "__quantum__rt__result_equal", &[V::Reg(x), V::Reg(one)]) else { return };
                    c
                } else {
                    if self.sh.results == 0 {
                        return;
                    }
                    let Some(c) = self.call(m, "__quantum__rt__read_result", &[V::At(o.arg(1).rem_euclid(self.sh.results as i64) as usize)]) else { return };
                    c
                };
                m.begin_if(cond);
                self.depth += 1;
            }
            "fi" => {
                if self.depth > 0 {
                    m.end_if();
                    self.depth -= 1;
                }
            }
            "helper" => {
                if self.depth == 0 && !self.helper && !self.sh.dynamic {
                    m.begin_helper();
                    self.helper = true;
                }
            }
            "back" => {
                if self.helper {
                    m.end_helper();
                    self.helper = false;
                }
            }
            "die" => {
                if self.helper {
                    return;
                }
                match o.arg(1).rem_euclid(3) {
                    0 => {
                        let Some(s) = self.call(m, "__quantum__rt__string_create", &[V::Text(text(o.arg(2)))]) else { return };
                        self.regs.retain(|x| x.0 != s);
                        m.call(self.f("__quantum__rt__fail"), &[V::Reg(s)], None, true);
                    }
                    1 => {
                        let q = self.qubit(0);
                        m.call(self.f("__quantum__qis__cnot__body"), &[q.clone(), q], None, true);
                    }
                    _ => m.call(self.f("__quantum__rt__qubit_release"), &[V::At(1000)], None, true),
                }
            }
            _ => (),
        }
        if self.depth > 0 {
            // nothing made inside a block is known after it
            self.regs.truncate(base.min(self.regs.len()));
        }
    }
    fn drop_fresh(&mut self, m: &mut dyn Machine) {
        for (r, k) in std::mem::take(&mut self.fresh) {
            self.release(m, r, k);
        }
    }
}

// ---- as LLVM text

fn quoted(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b {
        if c.is_ascii_alphanumeric() || *c == b' ' || *c == b'_' {
            s.push(*c as char);
        } else {
            let _ = write!(s, "\\{c:02X}");
        }
    }
    s
}

#[derive(Default)]
pub struct Ir {
    pub body: String,
    pub helpers: Vec<String>,
    saved: Option<String>,
    pub decls: BTreeMap<String, String>,
    pub globals: Vec<String>,
    label: usize,
    open: Vec<usize>,
    fun: bool,
}

fn ty(k: char) -> &'static str {
    match k {
        'v' => "void",
        'i' | 'n' | 'e' => "i64",
        'k' | 'w' => "i32",
        'd' | 'f' | 'D' => "double",
        'b' => "i1",
        'p' => "i8",
        _ => "ptr",
    }
}

fn declared(k: char) -> &'static str {
    match k {
        'b' => "i1 zeroext",
        'p' => "i8 signext",
        'r' => "ptr byval({ i64, i64, i64 }) align 8",
        k => ty(k),
    }
}

impl Ir {
    fn val(&mut self, v: &V) -> String {
        match v {
            V::I(i) => i.to_string(),
            V::J(i) => i.to_string(),
            V::D(d) => format!("0x{:016X}", d.to_bits()),
            V::B(b) => b.to_string(),
            V::P(p) => p.to_string(),
            V::At(i) => format!("inttoptr (i64 {i} to ptr)"),
            V::Null => "null".into(),
            V::Text(t) => {
                let n = self.globals.len();
                self.globals.push(format!("@.s{n} = internal constant [{} x i8] c\"{}\\00\"", t.len() + 1, quoted(t)));
                format!("@.s{n}")
            }
            V::Reg(r) => format!("%r{r}"),
            V::Range(a, b, c) => {
                self.label += 1;
                let g = format!("%g{}", self.label);
                let _ = writeln!(self.body, "  {g} = alloca {{ i64, i64, i64 }}");
                for (i, x) in [a, b, c].iter().enumerate() {
                    let _ = writeln!(self.body, "  {g}.{i} = getelementptr i64, ptr {g}, i64 {i}\n  store i64 {x}, ptr {g}.{i}");
                }
                g
            }
            V::Table => {
                self.fun = true;
                for (n, d) in [("int_record_output", "void @__quantum__rt__int_record_output(i64, ptr)"), ("array_get_size_1d", "i64 @__quantum__rt__array_get_size_1d(ptr)")] {
                    self.decls.insert(format!("__quantum__rt__{n}"), format!("declare {d}"));
                }
                "@.table".into()
            }
        }
    }
    fn vty(v: &V) -> &'static str {
        match v {
            V::I(_) => "i64",
            V::J(_) => "i32",
            V::D(_) => "double",
            V::B(_) => "i1",
            V::P(_) => "i8",
            _ => "ptr",
        }
    }
    fn declare(&mut self, f: &F) {
        let p: Vec<&str> = f.sig.chars().skip(1).map(declared).collect();
        let r = match f.sig.chars().next().unwrap_or('v') {
            'b' => "zeroext i1",
            k => ty(k),
        };
        self.decls.insert(f.name.to_string(), format!("declare {r} @{}({})", f.name, p.join(", ")));
    }
    fn elem(f: &F) -> String {
        f.name.to_string()
    }
    /// The whole module: entry points with their attributes and bodies, helpers, globals.
    pub fn module(&mut self, entries: &[(String, String, String, String)], extra: &str) -> String {
        let mut s = String::new();
        if self.fun {
            let mut x = String::new();
            for (k, n) in ["body", "adj", "ctl", "ctladj"].iter().enumerate() {
                let counted = if k < 2 {
                    "  %p = getelementptr i8, ptr %arg, i64 0\n".to_string()
                } else {
                    format!(
                        "  %p = getelementptr i8, ptr %arg, i64 8\n  %cs = load ptr, ptr %arg\n  %n = call i64 @__quantum__rt__array_get_size_1d(ptr %cs)\n  call void @__quantum__rt__int_record_output(i64 %n, ptr @.{n})\n"
                    )
                };
                let _ = writeln!(
                    x,
                    "define internal void @.w{k}(ptr %cap, ptr %arg, ptr %res) {{\n{counted}  %v = load i64, ptr %p\n  call void @__quantum__rt__int_record_output(i64 %v, ptr @.{n})\n  ret void\n}}"
                );
                self.globals.push(format!("@.{n} = internal constant [{} x i8] c\"{n}\\00\"", n.len() + 1));
            }
            self.globals.push("@.table = internal constant [4 x ptr] [ptr @.w0, ptr @.w1, ptr @.w2, ptr @.w3]".into());
            self.helpers.push(x);
        }
        for g in &self.globals {
            s.push_str(g);
            s.push('\n');
        }
        for (i, (name, _, body, ret)) in entries.iter().enumerate() {
            let r = if ret == "void" { "ret void".to_string() } else { format!("ret {ret} -1") };
            let _ = writeln!(s, "define {ret} @\"{}\"() #{i} {{\nentry:\n{body}  {r}\n}}", quoted(name.as_bytes()));
        }
        for h in &self.helpers {
            s.push_str(h);
        }
        for d in self.decls.values() {
            s.push_str(d);
            s.push('\n');
        }
        s.push_str(extra);
        for (i, (_, attrs, _, _)) in entries.iter().enumerate() {
            let _ = writeln!(s, "attributes #{i} = {{ {attrs} }}");
        }
        s
    }
}

impl Machine for Ir {
    fn call(&mut self, f: &F, args: &[V], out: Option<usize>, _dies: bool) {
        self.declare(f);
        let k = f.sig.chars().next().unwrap_or('v');
        let a: Vec<String> = f.sig.chars().skip(1).zip(args).map(|(p, v)| format!("{} {}", declared(p), self.val(v))).collect();
        let r = if k == 'b' { "zeroext i1" } else { ty(k) };
        let dst = out.map_or(String::new(), |o| format!("%r{o} = "));
        let _ = writeln!(self.body, "  {dst}call {r} @{}({})", f.name, a.join(", "));
    }
    fn store(&mut self, elem: Option<&F>, obj: usize, at: usize, v: &V) {
        self.label += 1;
        let p = format!("%p{}", self.label);
        match elem {
            Some(f) => {
                self.declare(f);
                let _ = writeln!(self.body, "  {p} = call ptr @{}(ptr %r{obj}, i64 {at})", Ir::elem(f));
            }
            None => {
                let _ = writeln!(self.body, "  {p} = getelementptr i8, ptr %r{obj}, i64 {at}");
            }
        }
        let x = self.val(v);
        let _ = writeln!(self.body, "  store {} {x}, ptr {p}", Ir::vty(v));
    }
    fn load(&mut self, elem: &F, obj: usize, at: usize, out: usize) {
        self.label += 1;
        self.declare(elem);
        let p = format!("%p{}", self.label);
        let _ = writeln!(self.body, "  {p} = call ptr @{}(ptr %r{obj}, i64 {at})\n  %r{out} = load i64, ptr {p}", Ir::elem(elem));
    }
    fn widen(&mut self, from: usize, out: usize) {
        let _ = writeln!(self.body, "  %r{out} = zext i32 %r{from} to i64");
    }
    fn begin_if(&mut self, cond: usize) {
        self.label += 1;
        let l = self.label;
        self.open.push(l);
        let _ = writeln!(self.body, "  br i1 %r{cond}, label %then{l}, label %next{l}\nthen{l}:");
    }
    fn end_if(&mut self) {
        if let Some(l) = self.open.pop() {
            let _ = writeln!(self.body, "  br label %next{l}\nnext{l}:");
        }
    }
    fn begin_helper(&mut self) {
        self.saved = Some(std::mem::take(&mut self.body));
    }
    fn end_helper(&mut self) {
        let n = self.helpers.len();
        let b = std::mem::take(&mut self.body);
        self.helpers.push(format!("define internal void @.h{n}() {{\nentry:\n{b}  ret void\n}}\n"));
        self.body = self.saved.take().unwrap_or_default();
        let _ = writeln!(self.body, "  call void @.h{n}()");
    }
}

// ---- as direct calls

extern "C" fn wrap0(_cap: *mut u8, arg: *mut u8, _res: *mut u8) {
    unsafe { rec::__quantum__rt__int_record_output(*arg.cast::<i64>(), c"body".as_ptr().cast_mut()) }
}
unsafe fn counted(arg: *mut u8, tag: &std::ffi::CStr) {
    unsafe {
        let n = arrays::__quantum__rt__array_get_size_1d(*arg.cast());
        rec::__quantum__rt__int_record_output(n as i64, tag.as_ptr().cast_mut());
        rec::__quantum__rt__int_record_output(*arg.cast::<i64>().add(1), tag.as_ptr().cast_mut());
    }
}
extern "C" fn wrap2(_cap: *mut u8, arg: *mut u8, _res: *mut u8) {
    unsafe { counted(arg, c"ctl") }
}
extern "C" fn wrap3(_cap: *mut u8, arg: *mut u8, _res: *mut u8) {
    unsafe { counted(arg, c"ctladj") }
}
extern "C" fn wrap1(_cap: *mut u8, arg: *mut u8, _res: *mut u8) {
    unsafe { rec::__quantum__rt__int_record_output(*arg.cast::<i64>(), c"adj".as_ptr().cast_mut()) }
}

#[derive(Default)]
pub struct Direct {
    regs: BTreeMap<usize, u64>,
    texts: Vec<Box<[u8]>>,
    skip: usize,
    depth: usize,
    pub died: Option<&'static str>,
    table: Option<Box<[*mut u8; 4]>>,
    pub calls: u64,
    pub used: BTreeSet<&'static str>,
}

impl Direct {
    fn bits(&mut self, v: &V) -> u64 {
        match v {
            V::I(i) => *i as u64,
            V::J(i) => *i as u32 as u64,
            V::D(d) => d.to_bits(),
            V::B(b) => u64::from(*b),
            V::P(p) => u64::from(*p),
            V::At(i) => *i as u64,
            V::Null => 0,
            V::Text(t) => {
                let mut x = t.clone();
                x.push(0);
                self.texts.push(x.into_boxed_slice());
                self.texts[self.texts.len() - 1].as_ptr() as u64
            }
            V::Reg(r) => self.regs.get(r).copied().unwrap_or(0),
            V::Range(..) => 0,
            V::Table => {
                let t = self.table.get_or_insert_with(|| {
                    Box::new([wrap0, wrap1, wrap2, wrap3].map(|f: extern "C" fn(*mut u8, *mut u8, *mut u8)| f as *const () as *mut u8))
                });
                t.as_mut_ptr() as u64
            }
        }
    }
}

type I6 = extern "C" fn(u64, u64, u64, u64, u64, u64, f64, f64, f64) -> u64;
type D6 = extern "C" fn(u64, u64, u64, u64, u64, u64, f64, f64, f64) -> f64;

impl Machine for Direct {
    fn call(&mut self, f: &F, args: &[V], out: Option<usize>, dies: bool) {
        if self.skip > 0 || self.died.is_some() {
            return;
        }
        if dies {
            self.died = Some(f.name);
            if f.name == "__quantum__rt__fail" {
                // states its reason the way a message does
                let b = self.bits(&args[0]);
                unsafe { __quantum__rt__message(b as *const _) };
            }
            return;
        }
        self.calls += 1;
        self.used.insert(f.name);
        if let Some(V::Range(start, step, end)) = args.iter().find(|v| matches!(v, V::Range(..))) {
            let r = range_support::Range { start: *start, step: *step, end: *end };
            let p = if f.sig == "sr" {
                range_support::quantum__rt__range_to_string(r) as u64
            } else {
                let a = self.bits(&args[0]);
                unsafe { range_support::quantum__rt__array_slice_1d(a as *const _, r) as u64 }
            };
            if let Some(o) = out {
                self.regs.insert(o, p);
            }
            return;
        }
        let (mut is, mut ds) = (vec![], vec![]);
        for (v, k) in args.iter().zip(f.sig.chars().skip(1)) {
            let b = self.bits(v);
            if matches!(k, 'd' | 'f' | 'D') { ds.push(f64::from_bits(b)) } else { is.push(b) }
        }
        is.resize(6, 0);
        ds.resize(3, 0.0);
        let k = f.sig.chars().next().unwrap_or('v');
        // the C calling convention passes integers and doubles in separate sequences of registers, and
        // a function ignores those it has no parameter for
        let r = unsafe {
            if k == 'd' {
                std::mem::transmute::<usize, D6>(f.at)(is[0], is[1], is[2], is[3], is[4], is[5], ds[0], ds[1], ds[2]).to_bits()
            } else {
                std::mem::transmute::<usize, I6>(f.at)(is[0], is[1], is[2], is[3], is[4], is[5], ds[0], ds[1], ds[2])
            }
        };
        if let Some(o) = out {
            self.regs.insert(
                o,
                match k {
                    'b' => r & 1,
                    'w' => r & 0xFFFF_FFFF,
                    _ => r,
                },
            );
        }
    }
    fn store(&mut self, elem: Option<&F>, obj: usize, at: usize, v: &V) {
        if self.skip > 0 || self.died.is_some() {
            return;
        }
        let (o, b) = (self.regs.get(&obj).copied().unwrap_or(0), self.bits(v));
        unsafe {
            let p = match elem {
                Some(_) => arrays::__quantum__rt__array_get_element_ptr_1d(o as *const _, at as u64).cast::<u8>(),
                None => (o as *mut u8).add(at),
            };
            match v {
                V::P(x) => *p = *x,
                _ => p.cast::<u64>().write_unaligned(b),
            }
        }
    }
    fn load(&mut self, _: &F, obj: usize, at: usize, out: usize) {
        if self.skip > 0 || self.died.is_some() {
            return;
        }
        let o = self.regs.get(&obj).copied().unwrap_or(0);
        let v = unsafe { *arrays::__quantum__rt__array_get_element_ptr_1d(o as *const _, at as u64).cast::<u64>() };
        self.regs.insert(out, v);
    }
    fn widen(&mut self, from: usize, out: usize) {
        let v = self.regs.get(&from).copied().unwrap_or(0);
        self.regs.insert(out, v);
    }
    fn begin_if(&mut self, cond: usize) {
        self.depth += 1;
        if self.skip == 0 && self.regs.get(&cond).copied().unwrap_or(0) == 0 {
            self.skip = self.depth;
        }
    }
    fn end_if(&mut self) {
        if self.skip == self.depth {
            self.skip = 0;
        }
        self.depth -= 1;
    }
    fn begin_helper(&mut self) {}
    fn end_helper(&mut self) {}
    fn dead(&self) -> bool {
        self.died.is_some()
    }
}
