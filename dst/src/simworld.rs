//! The sparse simulator driven through its Rust interface.

use crate::driver::World;
use crate::model::{Gate, K};
use crate::quantum::{Exec, Profile, State, Sut, gen_ops};
use crate::rng::Rng;
use crate::stats::{Cx, Violation};
use crate::trace::{Trace, angle};
use ndarray::Array2;
use num_complex::Complex64;
use quantum_sparse_sim::QuantumSim;
use quantum_sparse_sim::exp::Pauli;
use std::panic::{AssertUnwindSafe, catch_unwind};

pub struct Sim {
    pub s: QuantumSim,
}

impl Sim {
    pub fn new(seed: u64) -> Sim {
        let mut s = QuantumSim::default();
        s.set_rng_seed(seed);
        Sim { s }
    }
}

fn pauli(p: u8) -> Pauli {
    match p {
        1 => Pauli::X,
        2 => Pauli::Y,
        3 => Pauli::Z,
        _ => Pauli::I,
    }
}

pub fn sim_gate(s: &mut QuantumSim, g: &Gate, c: &[usize], t: &[usize]) {
    let q = t[0];
    // without controls both spellings must mean the same
    let plain = c.is_empty() && g.variant & 1 == 0;
    match g.k {
        K::X if plain => s.x(q),
        K::X => s.mcx(c, q),
        K::Y if plain => s.y(q),
        K::Y => s.mcy(c, q),
        K::Z if plain => s.z(q),
        K::Z => s.mcz(c, q),
        K::H if plain => s.h(q),
        K::H => s.mch(c, q),
        K::S if plain && !g.adj => s.s(q),
        K::S if !g.adj => s.mcs(c, q),
        K::S if plain => s.sadj(q),
        K::S => s.mcsadj(c, q),
        K::T if plain && !g.adj => s.t(q),
        K::T if !g.adj => s.mct(c, q),
        K::T if plain => s.tadj(q),
        K::T => s.mctadj(c, q),
        K::Rx if plain => s.rx(g.theta, q),
        K::Rx => s.mcrx(c, g.theta, q),
        K::Ry if plain => s.ry(g.theta, q),
        K::Ry => s.mcry(c, g.theta, q),
        K::Rz if plain => s.rz(g.theta, q),
        K::Rz => s.mcrz(c, g.theta, q),
        K::Ph => s.mcphase(c, Complex64::from_polar(1.0, g.theta), q),
        K::Swap => s.swap_qubit_ids(t[0], t[1]),
        K::Exp => {
            let th = if g.adj { -g.theta } else { g.theta };
            let ps: Vec<Pauli> = g.paulis.iter().map(|p| pauli(*p)).collect();
            if plain { s.exp(&ps, th, t) } else { s.mcexp(c, &ps, th, t) }
        }
        K::U => {
            let d = 1 << t.len();
            let m = Array2::from_shape_vec((d, d), g.u.clone()).expect("square");
            if c.is_empty() {
                s.apply(&m, t, if plain { None } else { Some(&[]) });
            } else {
                s.apply(&m, t, Some(c));
            }
        }
        K::Sx | K::R | K::Rxx | K::Ryy | K::Rzz => unreachable!("not offered"),
    }
}

impl Sut for Sim {
    fn alloc(&mut self, _v: u64) -> usize {
        self.s.allocate()
    }
    fn release(&mut self, id: usize, _v: u64) {
        self.s.release(id);
    }
    fn gate(&mut self, g: &Gate, c: &[usize], t: &[usize]) {
        sim_gate(&mut self.s, g, c, t);
    }
    fn measure(&mut self, id: usize, v: u64) -> bool {
        if v == 1 { self.s.joint_measure(&[id]) } else { self.s.measure(id) }
    }
    fn joint(&mut self, _p: &[u8], ids: &[usize]) -> bool {
        self.s.joint_measure(ids)
    }
    fn state(&mut self) -> (State, usize) {
        self.s.get_state()
    }
    fn dump(&mut self) -> String {
        self.s.dump()
    }
    fn is_zero(&mut self, id: usize) -> bool {
        self.s.qubit_is_zero(id)
    }
    fn restart(&mut self) {
        let r = self.s.take_rng();
        self.s = QuantumSim::new(Some(r));
    }
    fn prob(&mut self, _p: &[u8], ids: &[usize]) -> Option<f64> {
        Some(self.s.joint_probability(ids))
    }
    fn force(&mut self, val: bool, id: usize) -> Option<f64> {
        Some(self.s.force_collapse(val, id))
    }
    fn reset(&mut self, id: usize) {
        if self.s.measure(id) {
            self.s.x(id);
        }
    }
    fn bad(&mut self, kind: i64, live: &[usize], dead: usize, r: &mut Rng) -> Option<bool> {
        let s = &mut self.s;
        let a = live.first().copied();
        let some = |r: &mut Rng| live[r.idx(live.len())];
        let gates = [K::X, K::Y, K::Z, K::H, K::S, K::T, K::Rx, K::Ry, K::Rz, K::Ph];
        let mut g = Gate::new(*r.pick(&gates), &[]);
        g.theta = angle(r.range(0, 200));
        g.adj = r.pct(50);
        let two = live.len() >= 2;
        let mut f: Box<dyn FnMut(&mut QuantumSim)> = match kind % 26 {
            0 | 1 => Box::new(move |s| sim_gate(s, &g, &[], &[dead])),
            2 => {
                let a = a?;
                Box::new(move |s| sim_gate(s, &g, &[dead], &[a]))
            }
            3 => {
                let a = a?;
                Box::new(move |s| sim_gate(s, &g, &[a], &[dead]))
            }
            4 => {
                let a = some_or(live, r)?;
                Box::new(move |s| sim_gate(s, &g, &[a], &[a]))
            }
            5 if live.len() > 2 && r.pct(50) => {
                let (v, k) = (repeated(live, r)?, r.idx(9));
                let k = k % v.len();
                let t = v[k];
                let c: Vec<usize> = v.iter().enumerate().filter(|x| x.0 != k).map(|x| *x.1).collect();
                Box::new(move |s| sim_gate(s, &g, &c, &[t]))
            }
            5 if two => {
                let (a, b) = (live[0], live[1 + r.idx(live.len() - 1)]);
                Box::new(move |s| sim_gate(s, &g, &[a, a], &[b]))
            }
            6 if two => {
                let (a, b) = (live[r.idx(live.len() - 1)], live[live.len() - 1]);
                Box::new(move |s| sim_gate(s, &g, &[b, a], &[b]))
            }
            7 => Box::new(move |s| {
                let _ = s.measure(dead);
            }),
            8 => {
                let v = repeated(live, r)?;
                Box::new(move |s| {
                    let _ = s.joint_measure(&v);
                })
            }
            9 => {
                let a = some_or(live, r)?;
                let first = r.pct(50);
                Box::new(move |s| {
                    let _ = s.joint_measure(&if first { [dead, a] } else { [a, dead] });
                })
            }
            10 => Box::new(move |s| s.release(dead)),
            11 => {
                let a = some_or(live, r)?;
                let first = r.pct(50);
                Box::new(move |s| if first { s.swap_qubit_ids(dead, a) } else { s.swap_qubit_ids(a, dead) })
            }
            12 => {
                let a = some_or(live, r)?;
                let shape = *r.pick(&[(2, 3), (3, 2), (4, 4), (1, 1), (3, 3)]);
                Box::new(move |s| s.apply(&Array2::<Complex64>::zeros(shape), &[a], None))
            }
            13 => {
                let mut v = repeated(live, r)?;
                v.truncate(5);
                if (1..v.len()).all(|i| !v[..i].contains(&v[i])) {
                    v[0] = v[v.len() - 1];
                }
                // all targets, or some of them as controls
                let k = if r.pct(50) { v.len() } else { 1 + r.idx(v.len() - 1) };
                let c = v.split_off(k);
                Box::new(move |s| s.apply(&Array2::<Complex64>::eye(1 << v.len()), &v, if c.is_empty() { None } else { Some(&c) }))
            }
            14 => {
                let a = some_or(live, r)?;
                let v = r.below(3);
                Box::new(move |s| match v {
                    0 => s.apply(&Array2::<Complex64>::eye(2), &[dead], None),
                    1 => s.apply(&Array2::<Complex64>::eye(2), &[a], Some(&[dead])),
                    _ => s.apply(&Array2::<Complex64>::eye(2), &[a], Some(&[a])),
                })
            }
            15 => {
                let a = some_or(live, r)?;
                let v = r.below(6);
                let th = angle(r.range(0, 200));
                let rep = repeated(live, r)?;
                let ps: Vec<Pauli> = rep.iter().map(|_| pauli(r.range(1, 3) as u8)).collect();
                let k = 1 + r.idx(rep.len());
                Box::new(move |s| match v {
                    4 => s.exp(&ps, th, &rep),
                    5 => s.mcexp(&rep[k..], &ps[..k], th, &rep[..k]),
                    0 => s.exp(&[Pauli::X, Pauli::Z], th, &[a, a]),
                    1 => s.exp(&[Pauli::Z, Pauli::Y], th, &[a, dead]),
                    2 => s.mcexp(&[a], &[Pauli::Y], th, &[a]),
                    _ => s.mcexp(&[dead], &[Pauli::X], th, &[a]),
                })
            }
            16 => {
                let a = some_or(live, r)?;
                let v = r.below(3);
                let rep = repeated(live, r)?;
                Box::new(move |s| {
                    let _ = match v {
                        0 => s.joint_probability(&[dead]),
                        1 => s.joint_probability(&rep),
                        _ => s.joint_probability(&[a, dead]),
                    };
                })
            }
            17 => {
                let v = r.pct(50);
                Box::new(move |s| {
                    s.force_collapse(v, dead);
                })
            }
            18 => Box::new(move |s| {
                let _ = s.qubit_is_zero(dead);
            }),
            19 if two => {
                let (a, b) = (some(r), live[0]);
                let _ = b;
                g.k = *r.pick(&[K::Rx, K::Ry]);
                g.theta = angle(*r.pick(&[15, 16, 31, 32]));
                let v = r.pct(50);
                Box::new(move |s| sim_gate(s, &g, &if v { [a] } else { [dead] }, &if v { [a] } else { [a] }))
            }
            20..=22 => {
                // the unallocated qubit anywhere in a longer list
                let v = strange(live, dead, r)?;
                let k = r.idx(v.len());
                let t = v[k];
                let c: Vec<usize> = v.iter().copied().filter(|q| *q != t).collect();
                Box::new(move |s| sim_gate(s, &g, &c, &[t]))
            }
            23 => {
                let v = strange(live, dead, r)?;
                let how = r.below(3);
                let (b, at) = (r.pct(50), 1 + r.idx(v.len()));
                let ps: Vec<Pauli> = v.iter().map(|_| pauli(r.range(0, 3) as u8)).collect();
                Box::new(move |s| match how {
                    0 if b => drop(s.joint_measure(&v)),
                    0 => drop(s.joint_probability(&v)),
                    1 => s.mcexp(&v[at..], &ps[..at], 0.7, &v[..at]),
                    _ => s.exp(&ps, 0.7, &v),
                })
            }
            24 => {
                let mut v = strange(live, dead, r)?;
                v.truncate(5);
                if !v.contains(&dead) {
                    v[0] = dead;
                }
                let c = v.split_off(1 + r.idx(v.len()));
                Box::new(move |s| s.apply(&Array2::<Complex64>::eye(1 << v.len()), &v, if c.is_empty() { None } else { Some(&c) }))
            }
            25 => {
                // a matrix of the wrong size for several targets
                let mut v: Vec<usize> = live.to_vec();
                v.truncate(1 + r.idx(3));
                if v.is_empty() {
                    return None;
                }
                let n = v.len();
                let m = *r.pick(&[(1 << (n + 1), 1 << n), (1 << n, 1 << (n + 1)), (1 << (n + 1), 1 << (n + 1)), (1 << (n - 1), 1 << (n - 1)), ((1 << n) - 1, 1 << n)]);
                let c: Vec<usize> = live[n..].iter().copied().take(r.idx(3)).collect();
                Box::new(move |s| s.apply(&Array2::<Complex64>::eye(m.0.max(m.1)).slice_move(ndarray::s![..m.0, ..m.1]), &v, if c.is_empty() { None } else { Some(&c) }))
            }
            _ => return None,
        };
        Some(catch_unwind(AssertUnwindSafe(|| f(s))).is_err())
    }
    fn assert_prob(&mut self, _p: &[u8], _i: &[usize], _o: bool, _pr: f64, _t: f64, _c: bool) {}
    fn offers(&self, k: K, nctl: usize) -> bool {
        match k {
            K::Sx | K::R | K::Rxx | K::Ryy | K::Rzz => false,
            K::Swap => nctl == 0,
            _ => true,
        }
    }
    fn joint_paulis(&self) -> bool {
        false
    }
}

fn some_or(live: &[usize], r: &mut Rng) -> Option<usize> {
    if live.is_empty() { None } else { Some(live[r.idx(live.len())]) }
}

/// Some allocated qubits, in any order, with the unallocated one somewhere among them.
fn strange(live: &[usize], dead: usize, r: &mut Rng) -> Option<Vec<usize>> {
    if live.is_empty() {
        return None;
    }
    let mut v = live.to_vec();
    for i in (1..v.len()).rev() {
        v.swap(i, r.idx(i + 1));
    }
    v.truncate(1 + r.idx(v.len().min(6)));
    v.insert(r.idx(v.len() + 1), dead);
    Some(v)
}

/// A list of allocated qubits, in any order, one of which occurs twice, anywhere.
fn repeated(live: &[usize], r: &mut Rng) -> Option<Vec<usize>> {
    if live.is_empty() {
        return None;
    }
    let mut v = live.to_vec();
    for i in (1..v.len()).rev() {
        v.swap(i, r.idx(i + 1));
    }
    v.truncate(1 + r.idx(v.len().min(6)));
    let again = *r.pick(&v);
    v.insert(r.idx(v.len() + 1), again);
    Some(v)
}

pub struct SimWorld;

pub fn swarm(r: &mut Rng, all: &[(&'static str, u64)]) -> Vec<(&'static str, u64)> {
    // each run uses its own mixture: some kinds are left out, some dominate
    let mut v: Vec<(&'static str, u64)> =
        all.iter().filter_map(|(k, w)| if r.pct(35) { None } else { Some((*k, w * [1, 1, 2, 6][r.idx(4)])) }).collect();
    if v.is_empty() {
        v.push(all[r.idx(all.len())]);
    }
    v
}

impl World for SimWorld {
    fn name(&self) -> &'static str {
        "sim"
    }
    fn gen_run(&self, prop: &str, r: &mut Rng) -> Trace {
        let mut t = Trace::new("sim");
        t.set("rngseed", r.u64() as i64 >> 1);
        // now and then a long life of a small register
        let long = r.one_in(200);
        let wide = !long && r.pct(8);
        let many = !long && !wide && r.pct(10);
        // or a state of thousands of amplitudes
        let dense = !long && !wide && r.one_in(1200);
        let n = if dense { r.range(10, 13) } else if wide { r.range(20, 90) } else if many { r.range(4, 8) } else { r.range(1, if long { 4 } else { 6 }) };
        t.set("cap", if wide { 64 } else if dense { 8192 } else { 256 });
        t.set("qubits", n);
        let kinds: &[(&str, u64)] = &[
            ("X", 10), ("Y", 8), ("Z", 8), ("H", 14), ("S", 5), ("T", 5), ("Rx", 10), ("Ry", 10), ("Rz", 5),
            ("Exp", 5), ("Swap", 6), ("Ph", 3), ("U", 4),
        ];
        let (ops, gate): (Vec<(&str, u64)>, u64) = match prop {
            "C03" => (vec![("m", 14), ("jm", 10), ("p", 3), ("st", 2), ("rel", 2), ("alloc", 2), ("fc", 2), ("rs", 2)], 50),
            "C05" => (vec![("alloc", 14), ("rel", 14), ("m", 3), ("st", 4), ("du", 2), ("z", 3), ("rs", 2), ("restart", 1)], 40),
            "C06" => (vec![("bad", 20), ("alloc", 4), ("rel", 4), ("m", 4), ("st", 3), ("p", 1)], 50),
            "C18" => (vec![("p", 12), ("z", 8), ("st", 8), ("du", 8), ("m", 8), ("jm", 3), ("rel", 2), ("alloc", 2)], 50),
            _ => (vec![("m", 3), ("jm", 2), ("p", 2), ("z", 1), ("st", 2), ("du", 1), ("fc", 1), ("rel", 1), ("alloc", 1), ("rs", 1)], 90),
        };
        let mut ops = if prop == "C01" || r.pct(50) { swarm(r, &ops) } else { ops };
    if prop == "C03" && r.one_in(15) {
        ops.push(("rare", 4));
    }
        if prop == "C06" && !ops.iter().any(|o| o.0 == "bad") {
            ops.push(("bad", 10));
        }
        if prop == "C05" {
            for k in ["alloc", "rel"] {
                if !ops.iter().any(|o| o.0 == k) {
                    ops.push((k, 10));
                }
            }
        }
        if prop == "C01" && r.one_in(60) {
            ops.push(("flood", 2));
        }
        let p = Profile {
            kinds: swarm(r, kinds),
            gate,
            ctl: *r.pick(&[0, 20, 40, 60, 80]),
            adj: true,
            tiny: r.pct(10),
            ops,
            variants: 2,
            paulis: false,
            many: many || wide && r.pct(30),
        };
        for _ in 0..n {
            t.push("alloc", &[0]);
        }
        if dense {
            let every = r.pct(70);
            for q in 0..n {
                if every || r.pct(85) {
                    let (k, a) = if r.pct(60) { ("g.H", 0) } else { (*r.pick(&["g.Rx", "g.Ry"]), r.range(0, 4000)) };
                    t.push(k, &[0, 0, a, 1, q, 0]);
                }
            }
        }
        let len = match r.below(10) {
            _ if long => r.range(400, 2500),
            _ if dense => r.range(5, 30),
            0..=4 => r.range(3, 14),
            5..=8 => r.range(15, 50),
            _ => r.range(50, 140),
        };
        gen_ops(&mut t, r, &p, len as usize, n.max(1));
        t
    }
    fn exec(&self, t: &Trace, cx: &mut Cx) -> Result<(), Violation> {
        let sim = Sim::new(t.get("rngseed") as u64);
        let mut e = Exec::new(sim, cx, t.get("cap").max(16) as usize);
        for (i, o) in t.ops.iter().enumerate() {
            e.cx.at = i;
            e.step(o)?;
        }
        e.cx.at = t.ops.len();
        e.finish()
    }
}
