//! Reference model of a register of qubits: a plain map from basis state to amplitude on which every gate
//! takes effect at once, written from the textbook definitions and sharing no code with the simulator
//! under test. Hidden outcomes (a release, a reset) leave several possible states, kept as a weighted set.

use num_bigint::BigUint;
use num_complex::Complex64 as C;
use std::collections::BTreeMap;
use std::f64::consts::{FRAC_1_SQRT_2, PI};

pub const I0: C = C { re: 0.0, im: 0.0 };
pub const R1: C = C { re: 1.0, im: 0.0 };
pub const IM: C = C { re: 0.0, im: 1.0 };

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    X,
    Y,
    Z,
    H,
    S,
    T,
    Sx,
    Rx,
    Ry,
    Rz,
    /// Rotation about a Pauli axis (paulis[0]).
    R,
    /// exp(i theta P)
    Exp,
    Swap,
    Rxx,
    Ryy,
    Rzz,
    /// Phase e^{i theta} on |1>.
    Ph,
    /// Arbitrary unitary.
    U,
}

#[derive(Clone, Debug)]
pub struct Gate {
    pub k: K,
    pub adj: bool,
    pub theta: f64,
    pub paulis: Vec<u8>, // 0 I, 1 X, 2 Y, 3 Z
    pub ctls: Vec<usize>,
    pub tgts: Vec<usize>,
    pub variant: u64,
    pub u: Vec<C>, // row major, for K::U
}

impl Gate {
    pub fn new(k: K, tgts: &[usize]) -> Gate {
        Gate { k, adj: false, theta: 0.0, paulis: vec![], ctls: vec![], tgts: tgts.to_vec(), variant: 0, u: vec![] }
    }
    /// Could add basis states to the support.
    pub fn branches(&self) -> bool {
        match self.k {
            K::H | K::Sx | K::Rx | K::Ry | K::U | K::Rxx | K::Ryy => true,
            K::R => matches!(self.paulis.first(), Some(1 | 2)),
            K::Exp => self.paulis.iter().any(|p| *p == 1 || *p == 2),
            _ => false,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Model {
    pub st: BTreeMap<u128, C>,
    /// Bound on how far the simulator's own rounding may have moved it (L2).
    pub err: f64,
}

fn drop_small(st: &mut BTreeMap<u128, C>) {
    st.retain(|_, v| v.norm_sqr() > 1e-28);
}

impl Default for Model {
    fn default() -> Self {
        let mut st = BTreeMap::new();
        st.insert(0, R1);
        Model { st, err: 0.0 }
    }
}

impl Model {
    fn u1(&mut self, ctl: u128, t: u32, m: [C; 4]) {
        let mut n: BTreeMap<u128, C> = BTreeMap::new();
        let b = 1u128 << t;
        for (k, v) in &self.st {
            if k & ctl == ctl {
                let (lo, hi) = (k & !b, k | b);
                let (c0, c1) = if k & b == 0 { (m[0], m[2]) } else { (m[1], m[3]) };
                if c0 != I0 {
                    *n.entry(lo).or_insert(I0) += c0 * v;
                }
                if c1 != I0 {
                    *n.entry(hi).or_insert(I0) += c1 * v;
                }
            } else {
                *n.entry(*k).or_insert(I0) += v;
            }
        }
        drop_small(&mut n);
        self.st = n;
    }
    fn phase(&mut self, ctl: u128, p: C) {
        for (k, v) in &mut self.st {
            if k & ctl == ctl {
                *v *= p;
            }
        }
    }
    /// exp(i theta P) under controls, one Pauli factor at a time.
    fn pexp(&mut self, ctl: u128, ps: &[u8], t: &[u32], theta: f64) {
        let mut n: BTreeMap<u128, C> = BTreeMap::new();
        for (k, v) in &self.st {
            if k & ctl == ctl {
                *n.entry(*k).or_insert(I0) += v * theta.cos();
                let (mut j, mut a) = (*k, *v);
                for (p, q) in ps.iter().zip(t) {
                    let b = 1u128 << q;
                    let one = j & b != 0;
                    match p {
                        1 => j ^= b,
                        2 => {
                            a *= if one { -IM } else { IM };
                            j ^= b;
                        }
                        3 if one => a = -a,
                        _ => (),
                    }
                }
                *n.entry(j).or_insert(I0) += a * IM * theta.sin();
            } else {
                *n.entry(*k).or_insert(I0) += v;
            }
        }
        drop_small(&mut n);
        self.st = n;
    }
    fn swap(&mut self, a: u32, b: u32) {
        self.st = std::mem::take(&mut self.st)
            .into_iter()
            .map(|(k, v)| {
                let (x, y) = (k >> a & 1, k >> b & 1);
                let k = if x == y { k } else { k ^ (1u128 << a) ^ (1u128 << b) };
                (k, v)
            })
            .collect();
    }
    /// `t[0]` is the most significant index bit of the matrix.
    fn un(&mut self, ctl: u128, t: &[u32], m: &[C]) {
        let d = 1usize << t.len();
        let mut n: BTreeMap<u128, C> = BTreeMap::new();
        for (k, v) in &self.st {
            if k & ctl == ctl {
                let mut col = 0;
                for q in t {
                    col = col << 1 | (k >> q & 1) as usize;
                }
                for row in 0..d {
                    let c = m[row * d + col];
                    if c == I0 {
                        continue;
                    }
                    let mut j = *k;
                    for (i, q) in t.iter().enumerate() {
                        let bit = row >> (t.len() - 1 - i) & 1;
                        j = j & !(1u128 << q) | (bit as u128) << q;
                    }
                    *n.entry(j).or_insert(I0) += c * v;
                }
            } else {
                *n.entry(*k).or_insert(I0) += v;
            }
        }
        drop_small(&mut n);
        self.st = n;
    }

    /// Applies a gate whose qubits are given as bit positions of this model.
    pub fn gate(&mut self, g: &Gate, ctls: &[u32], t: &[u32], tiny: bool) {
        let ctl = ctls.iter().fold(0u128, |a, c| a | 1u128 << c);
        let th = if g.adj { -g.theta } else { g.theta };
        let rot = |p: u8, th: f64| -> [C; 4] {
            let (c, s) = (C::new((th / 2.0).cos(), 0.0), (th / 2.0).sin());
            match p {
                1 => [c, -IM * s, -IM * s, c],
                2 => [c, C::new(-s, 0.0), C::new(s, 0.0), c],
                3 => [C::from_polar(1.0, -th / 2.0), I0, I0, C::from_polar(1.0, th / 2.0)],
                _ => [C::from_polar(1.0, -th / 2.0), I0, I0, C::from_polar(1.0, -th / 2.0)],
            }
        };
        let h = C::new(FRAC_1_SQRT_2, 0.0);
        let ph = |a: f64| C::from_polar(1.0, if g.adj { -a } else { a });
        match g.k {
            K::X => self.u1(ctl, t[0], [I0, R1, R1, I0]),
            K::Y => self.u1(ctl, t[0], [I0, -IM, IM, I0]),
            K::Z => self.u1(ctl, t[0], [R1, I0, I0, -R1]),
            K::H => self.u1(ctl, t[0], [h, h, h, -h]),
            K::S => self.u1(ctl, t[0], [R1, I0, I0, ph(PI / 2.0)]),
            K::T => self.u1(ctl, t[0], [R1, I0, I0, ph(PI / 4.0)]),
            K::Sx => {
                let (a, b) = (C::new(0.5, 0.5), C::new(0.5, -0.5));
                self.u1(ctl, t[0], [a, b, b, a]);
            }
            K::Rx => self.u1(ctl, t[0], rot(1, th)),
            K::Ry => self.u1(ctl, t[0], rot(2, th)),
            K::Rz => self.u1(ctl, t[0], rot(3, th)),
            K::R => self.u1(ctl, t[0], rot(g.paulis[0], th)),
            K::Ph => self.phase(ctl | 1u128 << t[0], C::from_polar(1.0, th)),
            K::Swap => self.swap(t[0], t[1]),
            K::Exp => self.pexp(ctl, &g.paulis, t, th),
            K::Rxx => self.pexp(ctl, &[1, 1], t, -th / 2.0),
            K::Ryy => self.pexp(ctl, &[2, 2], t, -th / 2.0),
            K::Rzz => self.pexp(ctl, &[3, 3], t, -th / 2.0),
            K::U => self.un(ctl, t, &g.u),
        }
        self.err += if tiny { 4e-10 * (self.st.len() as f64).sqrt() } else { 4e-12 };
    }

    pub fn p_odd(&self, mask: u128) -> f64 {
        self.st.iter().filter(|(k, _)| (*k & mask).count_ones() & 1 == 1).map(|(_, v)| v.norm_sqr()).sum()
    }
    pub fn collapse(&mut self, mask: u128, val: bool) -> f64 {
        let p = if val { self.p_odd(mask) } else { 1.0 - self.p_odd(mask) };
        self.st.retain(|k, _| ((k & mask).count_ones() & 1 == 1) == val);
        let n: f64 = self.st.values().map(C::norm_sqr).sum::<f64>().sqrt();
        for v in self.st.values_mut() {
            *v /= n;
        }
        self.err = ((self.err + 1e-13) / p.max(1e-300).sqrt()).min(1e-3);
        p
    }
    pub fn clear_bit(&mut self, b: u32) {
        self.st = std::mem::take(&mut self.st).into_iter().map(|(k, v)| (k & !(1u128 << b), v)).collect();
    }
    pub fn overlap(&self, o: &Model) -> f64 {
        let mut s = I0;
        for (k, v) in &self.st {
            if let Some(w) = o.st.get(k) {
                s += v.conj() * w;
            }
        }
        s.norm()
    }
    fn near(&self, o: &Model) -> bool {
        if self.overlap(o) < 1.0 - 1e-9 {
            return false;
        }
        let v: Vec<(u128, C)> = o.st.iter().map(|(k, a)| (*k, *a)).collect();
        self.distance(&v) < 1e-10
    }
    /// Largest deviation (L2, after removing the global phase) of a reported state from this one.
    pub fn distance(&self, got: &[(u128, C)]) -> f64 {
        let mut ov = I0;
        for (k, g) in got {
            if let Some(v) = self.st.get(k) {
                ov += v.conj() * g;
            }
        }
        let ph = if ov.norm() > 1e-12 { ov / ov.norm() } else { R1 };
        let mut d: f64 = 0.0;
        for (k, g) in got {
            let v = self.st.get(k).copied().unwrap_or(I0) * ph;
            d += (g - v).norm_sqr();
        }
        if got.len() < self.st.len() || got.iter().any(|(k, _)| !self.st.contains_key(k)) {
            let keys: std::collections::BTreeSet<u128> = got.iter().map(|x| x.0).collect();
            d += self.st.iter().filter(|(k, _)| !keys.contains(k)).map(|(_, v)| v.norm_sqr()).sum::<f64>();
        }
        d.sqrt()
    }
}

pub fn tol(m: &Model) -> f64 {
    4e-8 + 10.0 * m.err
}

/// The set of states the register may be in, given everything observed so far.
#[derive(Clone, Debug)]
pub struct Belief {
    pub hs: Vec<(f64, Model)>,
}

impl Default for Belief {
    fn default() -> Self {
        Belief { hs: vec![(1.0, Model::default())] }
    }
}

impl Belief {
    pub fn size(&self) -> usize {
        self.hs.iter().map(|h| h.1.st.len()).max().unwrap_or(0)
    }
    pub fn err(&self) -> f64 {
        self.hs.iter().map(|h| h.1.err).fold(0.0, f64::max)
    }
    pub fn gate(&mut self, g: &Gate, ctls: &[u32], t: &[u32], tiny: bool) {
        for h in &mut self.hs {
            h.1.gate(g, ctls, t, tiny);
        }
    }
    fn norm(&mut self) {
        let s: f64 = self.hs.iter().map(|h| h.0).sum();
        for h in &mut self.hs {
            h.0 /= s;
        }
    }
    pub fn p_odd(&self, mask: u128) -> f64 {
        self.hs.iter().map(|h| h.0 * h.1.p_odd(mask)).sum()
    }
    /// An observed parity outcome. Err with the probability if it was impossible.
    pub fn measured(&mut self, mask: u128, out: bool) -> Result<f64, f64> {
        let p1 = self.p_odd(mask);
        let p = if out { p1 } else { 1.0 - p1 };
        if p < 1e-9 + 4.0 * self.err() * self.err() {
            return Err(p);
        }
        let mut hs = vec![];
        for (w, mut m) in std::mem::take(&mut self.hs) {
            let q = m.collapse(mask, out);
            if q > 1e-13 {
                hs.push((w * q, m));
            }
        }
        self.hs = hs;
        self.norm();
        Ok(p1)
    }
    /// A measurement of one bit whose outcome nobody saw, after which the bit is 0.
    pub fn hidden_reset(&mut self, bit: u32) {
        let mask = 1u128 << bit;
        let mut hs: Vec<(f64, Model)> = vec![];
        for (w, m) in std::mem::take(&mut self.hs) {
            for out in [false, true] {
                let mut c = m.clone();
                let p = if out { m.p_odd(mask) } else { 1.0 - m.p_odd(mask) };
                if p < 1e-11 {
                    continue;
                }
                c.collapse(mask, out);
                c.clear_bit(bit);
                let wc = w * p;
                if let Some(h) = hs.iter_mut().find(|h| h.1.near(&c)) {
                    h.0 += wc;
                    h.1.err = h.1.err.max(c.err);
                } else {
                    hs.push((wc, c));
                }
            }
        }
        self.hs = hs;
        self.norm();
    }
    /// A probability the system reported for odd parity.
    pub fn reported(&mut self, mask: u128, p: f64) -> Result<(), String> {
        let ok = |m: &Model| (m.p_odd(mask) - p).abs() < tol(m);
        if self.hs.iter().any(|h| ok(&h.1)) {
            self.hs.retain(|h| ok(&h.1));
            self.norm();
            Ok(())
        } else {
            Err(format!(
                "reported probability {p}, expected {:?}",
                self.hs.iter().map(|h| h.1.p_odd(mask)).collect::<Vec<_>>()
            ))
        }
    }
    /// A full state the system reported; `bits[i]` is the model bit shown at index bit i.
    pub fn state(&mut self, got: &[(BigUint, C)], bits: &[u32]) -> Result<(), String> {
        let mut v: Vec<(u128, C)> = Vec::with_capacity(got.len());
        let mut nrm = 0.0;
        for (k, a) in got {
            if k.bits() > bits.len() as u64 {
                return Err(format!("basis state {k} is outside a register of {} qubits", bits.len()));
            }
            let mut x = 0u128;
            for (i, b) in bits.iter().enumerate() {
                if k.bit(i as u64) {
                    x |= 1u128 << b;
                }
            }
            if !a.re.is_finite() || !a.im.is_finite() {
                return Err(format!("amplitude of {k} is {a}"));
            }
            nrm += a.norm_sqr();
            v.push((x, *a));
        }
        let mut ks: Vec<u128> = v.iter().map(|x| x.0).collect();
        ks.sort_unstable();
        if ks.windows(2).any(|w| w[0] == w[1]) {
            return Err("a basis state is listed twice".into());
        }
        let e = self.err();
        if (nrm - 1.0).abs() > 1e-7 + 20.0 * e {
            return Err(format!("the norm of the state is {nrm}"));
        }
        let d: Vec<f64> = self.hs.iter().map(|h| h.1.distance(&v)).collect();
        let best = (0..d.len()).min_by(|a, b| d[*a].total_cmp(&d[*b])).unwrap_or(0);
        if d[best] > tol(&self.hs[best].1) {
            let m = &self.hs[best].1;
            let show = |it: Vec<(u128, C)>| {
                it.iter().take(6).map(|(k, v)| format!("{k:b}:({:.4},{:.4})", v.re, v.im)).collect::<Vec<_>>().join(" ")
            };
            v.sort_by_key(|x| x.0);
            return Err(format!(
                "state differs from the reference by {:.3e}; got {} expected {}",
                d[best],
                show(v),
                show(m.st.iter().map(|(k, v)| (*k, *v)).collect())
            ));
        }
        let keep = self.hs.swap_remove(best);
        self.hs = vec![(1.0, keep.1)];
        Ok(())
    }
    /// Moves model bits: bit `from` of every basis state becomes bit `to` (which was unused).
    pub fn any_bit(&self, b: u32) -> bool {
        self.hs.iter().any(|h| h.1.st.keys().any(|k| k >> b & 1 == 1))
    }
}

/// A random unitary on k qubits, a function of its seed.
pub fn unitary(seed: i64, k: usize) -> Vec<C> {
    let d = 1usize << k;
    let mut r = crate::rng::Rng::new(seed as u64 ^ 0x55);
    if seed % 4 == 0 || seed > 4000 {
        // a permutation with phases: exercises exact zeros
        let mut perm: Vec<usize> = (0..d).collect();
        for i in (1..d).rev() {
            perm.swap(i, r.idx(i + 1));
        }
        let mut m = vec![I0; d * d];
        for (c, row) in perm.iter().enumerate() {
            m[row * d + c] = C::from_polar(1.0, (r.below(8) as f64) * PI / 4.0);
        }
        if seed > 4000 {
            // two of its columns turned into each other, ever so little
            let th: f64 = [1e-3, 1e-4, 1e-5, 1e-6, 3e-7, 1e-7, 1e-8, 3e-10][r.idx(8)];
            let (a, b) = (r.idx(d), r.idx(d));
            if a != b {
                for row in 0..d {
                    let (x, y) = (m[row * d + a], m[row * d + b]);
                    m[row * d + a] = x * th.cos() + y * th.sin();
                    m[row * d + b] = y * th.cos() - x * th.sin();
                }
            }
        }
        return m;
    }
    // Gram-Schmidt on random columns
    let mut cols: Vec<Vec<C>> = vec![];
    while cols.len() < d {
        let mut v: Vec<C> = (0..d).map(|_| C::new(r.unit() - 0.5, r.unit() - 0.5)).collect();
        for _ in 0..2 {
            for c in &cols {
                let s: C = c.iter().zip(&v).map(|(a, b)| a.conj() * b).sum();
                for (x, a) in v.iter_mut().zip(c) {
                    *x -= s * a;
                }
            }
        }
        let n: f64 = v.iter().map(C::norm_sqr).sum::<f64>().sqrt();
        if n > 0.05 {
            cols.push(v.iter().map(|x| x / n).collect());
        }
    }
    let mut m = vec![I0; d * d];
    for (c, col) in cols.iter().enumerate() {
        for (row, x) in col.iter().enumerate() {
            m[row * d + c] = *x;
        }
    }
    m
}
