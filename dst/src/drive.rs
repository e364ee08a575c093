//! Drives a register through a history without a reference model, writing down everything it answered.
//! Used to compare executions with each other (reproducibility, isolation).

use crate::quantum::{Profile, Sut, decode_gate, gen_ops, pick_slots};
use crate::rng::{Rng, hash_str, mix};
use crate::simworld::swarm;
use crate::trace::{Op, Trace};
use std::collections::BTreeSet;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    /// A measurement outcome.
    Out(bool),
    /// An identifier handed out.
    Id(usize),
    /// The exact bits of a reported state or dump, or of recorded output.
    State(u64),
    /// Recorded output, exactly.
    Text(Vec<u8>),
}

pub struct Drive<S: Sut> {
    pub sut: S,
    pub live: BTreeSet<usize>,
    pub log: Vec<Ev>,
    max: usize,
}

impl<S: Sut> Drive<S> {
    pub fn new(sut: S) -> Self {
        Drive { sut, live: BTreeSet::new(), log: vec![], max: 9 }
    }
    pub fn preset(&mut self, n: usize) {
        self.live = (0..n).collect();
    }
    /// Observes without leaving anything in the log.
    pub fn peek(&mut self, how: u64) {
        match how % 3 {
            0 => {
                let _ = self.sut.state();
            }
            1 => {
                let _ = self.sut.dump();
            }
            _ => {
                if let Some(q) = self.live.iter().nth((how / 3) as usize % self.live.len().max(1)).copied() {
                    let _ = self.sut.is_zero(q);
                    let _ = self.sut.prob(&[3], &[q]);
                }
            }
        }
    }
    pub fn state_bits(&mut self) -> u64 {
        let (st, n) = self.sut.state();
        let mut h = n as u64;
        for (k, a) in &st {
            let mut kb = 0u64;
            for d in k.to_u64_digits() {
                kb = mix(kb ^ d);
            }
            h = mix(h ^ kb);
            h = mix(h ^ a.re.to_bits());
            h = mix(h ^ a.im.to_bits());
        }
        h
    }
    pub fn step(&mut self, o: &Op) {
        let live: Vec<usize> = self.live.iter().copied().collect();
        if o.k.starts_with("g.") {
            let Some((mut g, mut c, t, _)) = decode_gate(o, &live) else { return };
            while !self.sut.offers(g.k, c.len()) {
                if c.pop().is_none() {
                    return;
                }
            }
            g.ctls.clone_from(&c);
            self.sut.gate(&g, &c, &t);
            return;
        }
        let q = if live.is_empty() { None } else { Some(live[o.u(0) % live.len()]) };
        match (o.k.as_str(), q) {
            ("alloc", _) => {
                if self.live.len() < self.max && !self.sut.fixed() {
                    let id = self.sut.alloc(0);
                    self.log.push(Ev::Id(id));
                    self.live.insert(id);
                }
            }
            ("rel", Some(q)) => {
                if !self.sut.fixed() {
                    self.sut.release(q, 0);
                    self.live.remove(&q);
                }
            }
            ("rs", Some(q)) => self.sut.reset(q),
            ("m", Some(q)) => {
                let b = self.sut.measure(q, o.u(1) as u64);
                self.log.push(Ev::Out(b));
            }
            ("jm", _) => {
                let k = o.u(1).clamp(1, 8);
                let slots: Vec<i64> = (0..k).map(|i| o.arg(2 + i)).collect();
                let ids = pick_slots(&live, &slots, &[]);
                if ids.is_empty() {
                    return;
                }
                let jp = self.sut.joint_paulis();
                let ps: Vec<u8> =
                    (0..ids.len()).map(|i| if jp { (o.arg(2 + k + i) & 3) as u8 } else { 3 }).collect();
                let b = self.sut.joint(&ps, &ids);
                self.log.push(Ev::Out(b));
            }
            ("z", Some(q)) => {
                let b = self.sut.is_zero(q);
                self.log.push(Ev::State(u64::from(b)));
            }
            ("st", _) => {
                let h = self.state_bits();
                self.log.push(Ev::State(h));
            }
            ("du", _) => {
                let d = self.sut.dump();
                self.log.push(Ev::State(hash_str(&d)));
            }
            ("restart", _) => {
                self.sut.restart();
                if !self.sut.fixed() {
                    self.live.clear();
                }
            }
            ("w", _) => self.sut.write_result(o.u(0) % 70, o.arg(1) & 1 == 1),
            ("r", _) => {
                if let Some(b) = self.sut.read_result(o.u(0) % 70) {
                    self.log.push(Ev::Out(b));
                }
            }
            ("coins", _) => {
                // fair coins: one bit of the random stream each
                let n = o.u(0).clamp(1, 128);
                let q = match live.first() {
                    Some(q) => *q,
                    None => {
                        let q = self.sut.alloc(0);
                        self.live.insert(q);
                        q
                    }
                };
                let h = crate::model::Gate::new(crate::model::K::H, &[q]);
                for _ in 0..n {
                    self.sut.reset(q);
                    self.sut.gate(&h, &[], &[q]);
                    let b = self.sut.measure(q, 0);
                    self.log.push(Ev::Out(b));
                }
            }
            _ => (),
        }
    }
    pub fn outs(&self) -> Vec<bool> {
        self.log.iter().filter_map(|e| if let Ev::Out(b) = e { Some(*b) } else { None }).collect()
    }
}

/// A history for `n` qubits in which outcomes are frequent and often uncertain.
pub fn gen_history(t: &mut Trace, r: &mut Rng, n: i64, len: i64, qir: bool) {
    let kinds: &[(&str, u64)] = &[
        ("X", 6), ("Y", 4), ("Z", 4), ("H", 16), ("S", 4), ("T", 4), ("Rx", 8), ("Ry", 8), ("Rz", 4), ("Exp", 4), ("Swap", 3),
    ];
    let ops: &[(&str, u64)] = &[("m", 14), ("jm", 6), ("rel", 4), ("alloc", 6), ("rs", 4), ("z", 1), ("st", 1), ("du", 1), ("restart", 1)];
    let mut ops = swarm(r, ops);
    ops.push(("m", 8));
    let p = Profile {
        kinds: swarm(r, kinds),
        gate: 35,
        ctl: *r.pick(&[0, 30, 60]),
        adj: true,
        tiny: false,
        ops,
        variants: 8,
        paulis: qir,
        many: n >= 6,
    };
    // whole shots that touch no qubit lie between others
    let mut left = len;
    while left > 0 {
        let k = if qir && r.pct(35) { r.range(1, left) } else { left };
        gen_ops(t, r, &p, k as usize, n.max(1));
        left -= k;
        if left > 0 {
            for _ in 0..r.range(1, 3) {
                t.push("restart", &[]);
                for _ in 0..r.below(3) {
                    if r.pct(50) {
                        t.push("w", &[r.below(70) as i64, r.below(2) as i64]);
                    } else {
                        t.push("r", &[r.below(70) as i64]);
                    }
                }
            }
            t.push("restart", &[]);
            for _ in 0..r.range(0, n) {
                t.push("alloc", &[0]);
            }
        }
    }
}
