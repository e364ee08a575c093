//! Worlds that drive the quantum side: a register of qubits under a seeded history of allocations,
//! gates, measurements, releases, observations, rejected calls and restarts, judged step by step
//! against the reference model.

use crate::model::{Belief, Gate, K, unitary};
use crate::rng::Rng;
use crate::stats::{Cx, Res, viol};
use crate::trace::{Op, Trace, angle, gen_angle, is_tiny};
use num_bigint::BigUint;
use num_complex::Complex64;
use std::collections::BTreeMap;

pub type State = Vec<(BigUint, Complex64)>;

/// A system under test holding a register of qubits.
pub trait Sut {
    fn alloc(&mut self, variant: u64) -> usize;
    fn release(&mut self, id: usize, variant: u64);
    fn gate(&mut self, g: &Gate, ctls: &[usize], t: &[usize]);
    fn measure(&mut self, id: usize, variant: u64) -> bool;
    fn joint(&mut self, paulis: &[u8], ids: &[usize]) -> bool;
    fn state(&mut self) -> (State, usize);
    fn dump(&mut self) -> String;
    fn is_zero(&mut self, id: usize) -> bool;
    fn restart(&mut self);
    /// Reported probability of odd parity, if the interface has one.
    fn prob(&mut self, paulis: &[u8], ids: &[usize]) -> Option<f64>;
    fn force(&mut self, val: bool, id: usize) -> Option<f64>;
    fn reset(&mut self, id: usize);
    /// A call that must be refused. Some(true): it was; Some(false): it was accepted; None: not applicable.
    fn bad(&mut self, kind: i64, live: &[usize], dead: usize, rng: &mut Rng) -> Option<bool>;
    fn assert_prob(&mut self, paulis: &[u8], ids: &[usize], one: bool, p: f64, tol: f64, ctl: bool);
    /// Does this interface offer the gate with this many controls?
    fn offers(&self, k: K, nctl: usize) -> bool;
    fn joint_paulis(&self) -> bool;
    /// Fixed register (static addressing): never allocates or releases explicitly.
    fn fixed(&self) -> bool {
        false
    }
    fn ensure(&mut self, _id: usize) {}
    fn write_result(&mut self, _r: usize, _v: bool) {}
    fn read_result(&mut self, _r: usize) -> Option<bool> {
        None
    }
}

pub const KINDS: &[(&str, K)] = &[
    ("X", K::X),
    ("Y", K::Y),
    ("Z", K::Z),
    ("H", K::H),
    ("S", K::S),
    ("T", K::T),
    ("Sx", K::Sx),
    ("Rx", K::Rx),
    ("Ry", K::Ry),
    ("Rz", K::Rz),
    ("R", K::R),
    ("Exp", K::Exp),
    ("Swap", K::Swap),
    ("Rxx", K::Rxx),
    ("Ryy", K::Ryy),
    ("Rzz", K::Rzz),
    ("Ph", K::Ph),
    ("U", K::U),
];

pub fn kind(s: &str) -> Option<K> {
    KINDS.iter().find(|k| k.0 == s).map(|k| k.1)
}

/// Weights of the things a run may do.
pub struct Profile {
    pub kinds: Vec<(&'static str, u64)>,
    pub gate: u64,
    pub ctl: u64,
    pub adj: bool,
    pub tiny: bool,
    pub ops: Vec<(&'static str, u64)>,
    pub variants: u64,
    pub paulis: bool,
    /// Gates with many controls and products over many qubits are frequent.
    pub many: bool,
}

pub fn gen_gate(t: &mut Trace, r: &mut Rng, p: &Profile, n: i64) {
    let w: Vec<u64> = p.kinds.iter().map(|k| k.1).collect();
    let (name, _) = p.kinds[r.weighted(&w)];
    let k = kind(name).expect("kind");
    let nt = match k {
        K::Swap | K::Rxx | K::Ryy | K::Rzz => 2,
        K::Exp if p.many && r.pct(40) => r.range(4, 6),
        K::Exp => r.range(1, 4),
        K::U => r.range(1, 3),
        _ => 1,
    };
    let nc = match k {
        K::Swap | K::Rxx | K::Ryy | K::Rzz | K::Sx => 0,
        _ if p.many && r.pct(30) => r.range(3, 7),
        _ if p.ctl == 0 => 0,
        _ if r.pct(p.ctl) => 1 + i64::from(r.pct(35)) + i64::from(r.pct(12)),
        _ => 0,
    };
    let ang = match k {
        K::Rx | K::Ry | K::Rz | K::R | K::Exp | K::Rxx | K::Ryy | K::Rzz | K::Ph => gen_angle(r, p.tiny),
        K::U if p.tiny && r.pct(30) => r.range(4001, 4999),
        K::U => r.range(0, 4000),
        K::Swap => i64::from(r.pct(30)),
        _ => 0,
    };
    let adj = i64::from(p.adj && matches!(k, K::S | K::T | K::R | K::Exp) && r.pct(45));
    let mut a = vec![adj, r.below(p.variants.max(1)) as i64, ang, nt];
    for _ in 0..nt {
        a.push(r.below(n as u64) as i64);
    }
    for _ in 0..nt {
        a.push(match k {
            K::R => r.range(0, 3),
            K::Exp => r.weighted(&[1, 3, 3, 3]) as i64,
            _ => 0,
        });
    }
    for _ in 0..nc {
        a.push(r.below(n as u64) as i64);
    }
    t.push(&format!("g.{name}"), &a);
}

pub fn gen_ops(t: &mut Trace, r: &mut Rng, p: &Profile, len: usize, n: i64) {
    let w: Vec<u64> = p.ops.iter().map(|k| k.1).chain([p.gate]).collect();
    for _ in 0..len {
        let i = r.weighted(&w);
        if i == p.ops.len() {
            gen_gate(t, r, p, n);
            continue;
        }
        let q = |r: &mut Rng| r.below(n as u64) as i64;
        let name = p.ops[i].0;
        match name {
            "alloc" | "st" | "du" | "restart" => {
                let v = if name == "alloc" && r.one_in(300) { r.range(4, 8) } else { r.below(4) as i64 };
                t.push(name, &[v]);
            }
            "rel" | "m" | "z" | "rs" => {
                let a = [q(r), r.below(4) as i64];
                t.push(name, &a);
            }
            "fc" => {
                let a = [q(r), r.below(2) as i64];
                t.push(name, &a);
            }
            "jm" | "p" | "as" => {
                let k = if p.many && r.pct(50) { r.range(4, 8) } else { r.range(1, 3) };
                let mut a = vec![r.below(8) as i64, k];
                for _ in 0..k {
                    a.push(q(r));
                }
                for _ in 0..k {
                    a.push(if p.paulis { r.weighted(&[1, 3, 3, 4]) as i64 } else { 3 });
                }
                t.push(name, &a);
            }
            "rare" => {
                let a = [q(r), r.below(RARE.len() as u64) as i64, r.below(2) as i64, r.range(20, 100)];
                t.push(name, &a);
            }
            "bad" => {
                let a = [r.below(64) as i64, r.below(1 << 20) as i64];
                t.push(name, &a);
            }
            "flood" => {
                // fills the queue of pending operations to around its limit
                let a = [*r.pick(&[9_998, 10_000, 10_001, 10_003, 20_001]), r.below(1 << 30) as i64, q(r), q(r)];
                t.push(name, &a);
            }
            _ => panic!("op {name}"),
        }
    }
}

/// Probabilities that a few outcomes would not tell from certainty.
const RARE: [f64; 8] = [3e-4, 4e-4, 1.3e-3, 0.01, 1.0 - 3e-4, 1.0 - 4e-4, 1.0 - 1.3e-3, 0.99];

pub struct Reg {
    pub ids: BTreeMap<usize, Option<u32>>,
    pub used: u128,
    pub b: Belief,
}

impl Default for Reg {
    fn default() -> Self {
        Reg { ids: BTreeMap::new(), used: 0, b: Belief::default() }
    }
}

const NOBIT: u32 = 127;

impl Reg {
    pub fn bit(&mut self, id: usize) -> u32 {
        if let Some(Some(b)) = self.ids.get(&id) {
            return *b;
        }
        let b = (!self.used).trailing_zeros();
        assert!(b < NOBIT, "model register full");
        self.used |= 1 << b;
        self.ids.insert(id, Some(b));
        b
    }
    /// The bit of a qubit that has just been released or reset: known to be zero.
    fn drop_bit(&mut self, id: usize) {
        if let Some(Some(b)) = self.ids.get(&id).copied() {
            self.used &= !(1u128 << b);
            self.ids.insert(id, None);
        }
    }
    fn room(&self) -> bool {
        self.used.count_ones() < 120
    }
    pub fn bits(&self) -> Vec<u32> {
        self.ids.values().map(|b| b.unwrap_or(NOBIT)).collect()
    }
    pub fn check(&mut self, st: &State, n: usize) -> Result<(), String> {
        if n != self.ids.len() {
            return Err(format!("{n} qubits reported, {} allocated", self.ids.len()));
        }
        let bits = self.bits();
        self.b.state(st, &bits)
    }
}

/// Distinct live qubits for the given slots; the slot counts over the live ids in order.
pub fn pick_slots(live: &[usize], slots: &[i64], skip: &[usize]) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    for s in slots {
        if live.is_empty() {
            break;
        }
        let mut i = (s.unsigned_abs() as usize) % live.len();
        for _ in 0..live.len() {
            if !v.contains(&live[i]) && !skip.contains(&live[i]) {
                v.push(live[i]);
                break;
            }
            i = (i + 1) % live.len();
        }
    }
    v
}

pub fn parse_dump(s: &str) -> Result<State, String> {
    let e = |m: &str| format!("{m} in dump {:?}", s.chars().take(200).collect::<String>());
    let body = s.strip_prefix("STATE: [ ").ok_or_else(|| e("no STATE"))?;
    let body = body.strip_suffix("]\n").or_else(|| body.strip_suffix("]\r\n")).ok_or_else(|| e("no end"))?;
    let mut v = vec![];
    for item in body.split(", ") {
        if item.is_empty() {
            continue;
        }
        let item = item.strip_prefix('|').ok_or_else(|| e("no ket"))?;
        let (k, a) = item.split_once("\u{27e9}: ").ok_or_else(|| e("no amplitude"))?;
        v.push((k.parse::<BigUint>().map_err(|_| e("bad index"))?, parse_c(a).ok_or_else(|| e("bad amplitude"))?));
    }
    Ok(v)
}

fn parse_c(a: &str) -> Option<Complex64> {
    let a = a.strip_suffix('i')?;
    // the sign that separates the parts: not the first character and not part of an exponent
    let b = a.as_bytes();
    let i = (1..b.len()).rev().find(|i| (b[*i] == b'+' || b[*i] == b'-') && b[*i - 1] != b'e')?;
    // "1+-0i" is how a negative zero is printed
    let (re, im) = if b[i - 1] == b'+' { (&a[..i - 1], &a[i..]) } else { (&a[..i], &a[i..]) };
    Some(Complex64::new(re.parse().ok()?, im.parse().ok()?))
}

pub fn decode_gate(o: &Op, live: &[usize]) -> Option<(Gate, Vec<usize>, Vec<usize>, bool)> {
    let k = kind(o.k.strip_prefix("g.")?)?;
    let nt = match k {
        K::Swap | K::Rxx | K::Ryy | K::Rzz => 2,
        K::Exp => o.u(3).clamp(1, 6),
        K::U => o.u(3).clamp(1, 3),
        _ => 1,
    };
    let ts: Vec<i64> = (0..nt).map(|i| o.arg(4 + i)).collect();
    let mut t = pick_slots(live, &ts, &[]);
    // a qubit exchanged with itself
    if k == K::Swap && o.arg(2) == 1 && ts[0] == ts[1] && !t.is_empty() {
        t = vec![t[0]; 2];
    }
    if t.len() < nt {
        return None;
    }
    let mut g = Gate::new(k, &t);
    g.adj = o.arg(0) == 1 && matches!(k, K::S | K::T | K::R | K::Exp);
    g.variant = o.u(1) as u64;
    g.theta = angle(o.arg(2));
    g.paulis = (0..nt).map(|i| (o.arg(4 + nt + i) & 3) as u8).collect();
    if k == K::U {
        g.u = unitary(o.arg(2), nt);
    }
    let cs: Vec<i64> = o.a.iter().skip(4 + 2 * nt).copied().collect();
    let c = pick_slots(live, &cs, &t);
    let tiny = matches!(k, K::Rx | K::Ry | K::Rz | K::R | K::Exp | K::Rxx | K::Ryy | K::Rzz | K::Ph) && is_tiny(o.arg(2)) || k == K::U && o.arg(2) > 4000;
    Some((g, c, t, tiny))
}

fn pauli_gates(ps: &[u8], ids: &[usize]) -> (Vec<usize>, Vec<(u8, usize)>) {
    let on: Vec<(u8, usize)> = ps.iter().zip(ids).filter(|x| *x.0 != 0).map(|x| (*x.0, *x.1)).collect();
    (on.iter().map(|x| x.1).collect(), on)
}

/// Rotates the model so that the given Pauli product becomes a Z parity (or back).
fn basis(reg: &mut Reg, on: &[(u8, usize)], back: bool) {
    use std::f64::consts::PI;
    for (p, id) in on {
        let b = reg.bit(*id);
        let (k, th) = match p {
            1 => (K::Ry, -PI / 2.0),
            2 => (K::Rx, PI / 2.0),
            _ => continue,
        };
        let mut g = Gate::new(k, &[]);
        g.theta = if back { -th } else { th };
        reg.b.gate(&g, &[], &[b], false);
    }
}

fn bucket(p: f64) -> u32 {
    (p * 8.0).floor().clamp(0.0, 7.0) as u32
}

pub struct Exec<'a, 'b, S: Sut> {
    pub sut: S,
    pub reg: Reg,
    pub cx: &'a mut Cx<'b>,
    pub cap: usize,
    /// Previous random outcome: outcomes must not depend on it.
    last: u64,
    pub pending: bool,
    pub observe: bool,
    /// Qubits the runtime may hold in a rotated basis with the way back still pending: the states it
    /// carries grow with 2 to this power, so an observation is forced when it gets large.
    lazy: usize,
    /// Nothing but exchanges of basis states has happened: probabilities are zero or one without rounding.
    exact: bool,
}

impl<'a, 'b, S: Sut> Exec<'a, 'b, S> {
    pub fn new(sut: S, cx: &'a mut Cx<'b>, cap: usize) -> Self {
        Exec { sut, reg: Reg::default(), cx, cap, last: 2, pending: false, observe: true, lazy: 0, exact: true }
    }

    pub fn live(&self) -> Vec<usize> {
        self.reg.ids.keys().copied().collect()
    }

    fn outcome(&mut self, api: &str, mask: u128, out: bool) -> Res {
        match self.reg.b.measured(mask, out) {
            Ok(p) => {
                if p > 1e-6 && p < 1.0 - 1e-6 {
                    self.cx.st.obs(&format!("{api} p{} prev{}", bucket(p), self.last), out, p);
                    self.last = u64::from(out);
                } else {
                    self.cx.st.inc("check.certain outcome");
                }
                self.cx.ev(u64::from(out) + 10);
                Ok(())
            }
            Err(p) => viol("impossible-outcome", format!("{api} returned {out}, which has probability {p:.3e}")),
        }
    }

    pub fn see_state(&mut self, dump: bool) -> Res {
        let (st, n) = if dump {
            let d = self.sut.dump();
            match parse_dump(&d) {
                Ok(s) => (s, self.reg.ids.len()),
                Err(e) => return viol("dump-format", e),
            }
        } else {
            self.sut.state()
        };
        if st.len() <= 64 {
            for (k, a) in &st {
                self.cx.ev_s(&k.to_bytes_le());
                self.cx.ev_f(a.re);
                self.cx.ev_f(a.im);
            }
        } else {
            self.cx.ev(st.len() as u64);
        }
        self.cx.st.inc("check.state");
        if self.pending {
            self.cx.nontrivial = true;
        }
        self.pending = false;
        self.lazy = 0;
        self.cx.say(|| {
            let v: Vec<String> = st.iter().take(8).map(|(k, a)| format!("{k}:{a}")).collect();
            format!("state of {n} qubits, {} terms: {}", st.len(), v.join(" "))
        });
        if st.windows(2).any(|w| w[0].0 >= w[1].0) {
            return viol("state-order", "the basis states are not listed in ascending order");
        }
        let n = if self.sut.fixed() && n == 0 { self.reg.ids.len() } else { n };
        match self.reg.check(&st, n) {
            Ok(()) => Ok(()),
            Err(e) => viol("state", e),
        }
    }

    fn be_lazy(&mut self, n: usize) -> Res {
        self.lazy += n;
        if self.lazy > 6 && self.sut.joint_paulis() {
            self.see_state(false)?;
            self.lazy = n;
        }
        Ok(())
    }

    fn hidden(&mut self, id: usize) -> Res {
        if let Some(Some(b)) = self.reg.ids.get(&id).copied() {
            self.reg.b.hidden_reset(b);
            self.reg.drop_bit(id);
        }
        Ok(())
    }

    fn cap_hyps(&mut self) -> Res {
        if self.reg.b.hs.len() > 16 {
            return self.see_state(false);
        }
        Ok(())
    }

    pub fn step(&mut self, o: &Op) -> Res {
        let live = self.live();
        self.cx.say(|| format!("{} {:?} live {:?}{}", o.k, o.a, &live[..live.len().min(12)], if live.len() > 12 { ".." } else { "" }));
        if o.k.starts_with("g.") {
            let Some((mut g, mut c, t, tiny)) = decode_gate(o, &live) else { return Ok(()) };
            while !self.sut.offers(g.k, c.len()) {
                if c.pop().is_none() {
                    return Ok(());
                }
            }
            if g.branches() && self.reg.b.size() >= self.cap || !self.reg.room() {
                self.cx.st.inc("op.skipped-too-big");
                return Ok(());
            }
            g.ctls.clone_from(&c);
            self.exact &= matches!(g.k, K::X | K::Y | K::Z | K::Swap);
            match g.k {
                K::Rxx | K::Ryy => self.be_lazy(2)?,
                K::Sx => self.be_lazy(1)?,
                _ => (),
            }
            self.sut.gate(&g, &c, &t);
            let cb: Vec<u32> = c.iter().map(|q| self.reg.bit(*q)).collect();
            let tb: Vec<u32> = t.iter().map(|q| self.reg.bit(*q)).collect();
            self.reg.b.gate(&g, &cb, &tb, tiny);
            self.pending = true;
            self.cx.st.inc(&format!("op.{}{}", if c.is_empty() { "" } else { "c" }, &o.k[2..]));
            if tiny {
                self.cx.st.inc("fault.amplitude near the zero threshold");
            }
            return Ok(());
        }
        self.cx.st.inc(&format!("op.{}", o.k));
        self.exact &= matches!(o.k.as_str(), "alloc" | "rel" | "p" | "as" | "st" | "du" | "z");
        let q = if live.is_empty() { None } else { Some(live[o.u(0) % live.len()]) };
        match o.k.as_str() {
            "alloc" => {
                if self.sut.fixed() || live.len() >= 400 {
                    return Ok(());
                }
                let n = alloc_size(o.u(0) as u64);
                if live.len() + n > 500 {
                    return Ok(());
                }
                for _ in 0..n {
                    let want = (0..).find(|i| !self.reg.ids.contains_key(i)).unwrap_or(0);
                    let id = self.sut.alloc(o.u(0) as u64);
                    if self.reg.ids.contains_key(&id) {
                        return viol("id-in-use", format!("allocate returned {id}, which is already allocated"));
                    }
                    if id != want {
                        return viol("id-order", format!("allocate returned {id}, lowest free is {want}"));
                    }
                    if want < self.reg.ids.len() {
                        self.cx.nontrivial = true;
                        self.cx.st.inc("check.identifier reused");
                    }
                    self.reg.ids.insert(id, None);
                    self.cx.ev(id as u64);
                }
            }
            "rel" => {
                let Some(q) = q else { return Ok(()) };
                if self.sut.fixed() {
                    return Ok(());
                }
                self.sut.release(q, o.u(1) as u64);
                if live.len() == 1 {
                    self.reg = Reg::default();
                } else {
                    self.hidden(q)?;
                    self.reg.ids.remove(&q);
                }
                self.cap_hyps()?;
            }
            "rs" => {
                let Some(q) = q else { return Ok(()) };
                self.sut.reset(q);
                if self.reg.b.hs.len() == 1 && self.reg.ids.get(&q).is_some_and(Option::is_some) {
                    self.cx.st.inc("check.reset");
                }
                self.hidden(q)?;
                self.cap_hyps()?;
            }
            "m" => {
                let Some(q) = q else { return Ok(()) };
                if !self.reg.room() {
                    return Ok(());
                }
                let v = o.u(1) as u64;
                let out = self.sut.measure(q, v);
                let b = self.reg.bit(q);
                self.outcome("m", 1 << b, out)?;
            }
            "jm" | "p" | "as" => {
                let k = o.u(1).clamp(1, 8);
                let slots: Vec<i64> = (0..k).map(|i| o.arg(2 + i)).collect();
                let ids = pick_slots(&live, &slots, &[]);
                if ids.is_empty() || !self.reg.room() || self.reg.b.size() * 4 > self.cap.max(8) * 4 {
                    return Ok(());
                }
                let jp = self.sut.joint_paulis();
                let ps: Vec<u8> =
                    (0..ids.len()).map(|i| if jp { (o.arg(2 + k + i) & 3) as u8 } else { 3 }).collect();
                let (on_ids, on) = pauli_gates(&ps, &ids);
                if on.iter().any(|x| x.0 != 3) && self.reg.b.size() * (1 << on.len()) > self.cap.max(64) * 2 {
                    return Ok(());
                }
                self.be_lazy(on.iter().filter(|x| x.0 != 3).count())?;
                self.exact &= on.iter().all(|x| x.0 == 3);
                match o.k.as_str() {
                    "jm" => {
                        let out = self.sut.joint(&ps, &ids);
                        basis(&mut self.reg, &on, false);
                        let mask = on_ids.iter().fold(0u128, |m, q| m | 1 << self.reg.bit(*q));
                        self.outcome("joint", mask, out)?;
                        basis(&mut self.reg, &on, true);
                    }
                    "p" => {
                        if let Some(p) = self.sut.prob(&ps, &ids) {
                            basis(&mut self.reg, &on, false);
                            let mask = on_ids.iter().fold(0u128, |m, q| m | 1 << self.reg.bit(*q));
                            self.cx.st.inc("check.probability");
                            self.cx.ev_f(p);
                            if let Err(e) = self.reg.b.reported(mask, p) {
                                return viol("probability", e);
                            }
                            basis(&mut self.reg, &on, true);
                        }
                    }
                    _ => {
                        // an assertion that is true: must pass and must not disturb anything
                        basis(&mut self.reg, &on, false);
                        let mask = on_ids.iter().fold(0u128, |m, q| m | 1 << self.reg.bit(*q));
                        let one = o.arg(0) & 1 == 1;
                        let ps1: Vec<f64> = self.reg.b.hs.iter().map(|h| h.1.p_odd(mask)).collect();
                        let lo = ps1.iter().copied().fold(1.0, f64::min);
                        let hi = ps1.iter().copied().fold(0.0, f64::max);
                        let mid = f64::midpoint(lo, hi);
                        let mut tol = (hi - lo) / 2.0 + 1e-9 + 40.0 * self.reg.b.err();
                        let mut p = if one { mid } else { 1.0 - mid };
                        if self.exact && (p == 0.0 || p == 1.0) {
                            // off by exactly the tolerance
                            tol = [0.0, 0.25, 0.5, 1.0][o.u(1 + ids.len()) % 4];
                            p = (p - tol).abs();
                            self.cx.st.inc("check.assertion off by exactly its tolerance");
                        }
                        basis(&mut self.reg, &on, true);
                        self.cx.st.inc("check.assertion");
                        self.sut.assert_prob(&ps, &ids, one, p, tol, o.arg(0) & 2 == 2);
                    }
                }
            }
            "z" => {
                let Some(q) = q else { return Ok(()) };
                if !self.reg.room() {
                    return Ok(());
                }
                let got = self.sut.is_zero(q);
                let b = self.reg.bit(q);
                let fuzzy = |p: f64, e: f64| p > 1e-12 && p < 1e-8 + 100.0 * (e + e * e);
                let hs = &self.reg.b.hs;
                if hs.iter().any(|h| fuzzy(h.1.p_odd(1 << b), h.1.err)) {
                    return Ok(());
                }
                self.cx.st.inc("check.is zero");
                self.reg.b.hs.retain(|h| (h.1.p_odd(1 << b) < 1e-9) == got);
                if self.reg.b.hs.is_empty() {
                    return viol("is-zero", format!("qubit_is_zero({q}) = {got}"));
                }
                let s: f64 = self.reg.b.hs.iter().map(|h| h.0).sum();
                for h in &mut self.reg.b.hs {
                    h.0 /= s;
                }
            }
            "fc" => {
                let Some(q) = q else { return Ok(()) };
                if !self.reg.room() {
                    return Ok(());
                }
                if self.reg.b.hs.len() > 1 {
                    self.see_state(false)?;
                }
                let val = o.arg(1) & 1 == 1;
                let b = self.reg.bit(q);
                let p1 = self.reg.b.p_odd(1 << b);
                let p = if val { p1 } else { 1.0 - p1 };
                let e = self.reg.b.err();
                // amplitudes at the zero threshold leave it open whether there is anything to collapse to
                if (p > 1e-12 || e > 1e-13) && p < 1e-6 + 1000.0 * (e + e * e) {
                    return Ok(());
                }
                let Some(got) = self.sut.force(val, q) else { return Ok(()) };
                self.cx.st.inc("check.forced collapse");
                if (got - p).abs() > 1e-7 + 20.0 * e {
                    return viol("forced-collapse", format!("force_collapse({val},{q}) returned {got}, expected {p}"));
                }
                if p > 1e-12 {
                    let _ = self.reg.b.measured(1 << b, val);
                }
            }
            "st" => self.see_state(false)?,
            "du" => self.see_state(true)?,
            "flood" => {
                if live.is_empty() || !self.reg.room() || self.reg.b.size() > 64 {
                    return Ok(());
                }
                if self.reg.b.hs.len() > 1 {
                    self.see_state(false)?;
                }
                let n = o.u(0).min(25_000);
                let mut r = Rng::new(o.arg(1) as u64);
                let qs = pick_slots(&live, &[o.arg(2), o.arg(3)], &[]);
                let bs: Vec<u32> = qs.iter().map(|q| self.reg.bit(*q)).collect();
                for _ in 0..n {
                    let j = r.idx(qs.len());
                    let mut g = Gate::new(*r.pick(&[K::X, K::Y, K::Z, K::S, K::T, K::Rz, K::X, K::T]), &[]);
                    g.theta = 0.1;
                    g.adj = matches!(g.k, K::S | K::T) && r.pct(50);
                    let (mut c, mut cb) = (vec![], vec![]);
                    if qs.len() == 2 && r.pct(30) && self.sut.offers(g.k, 1) {
                        c.push(qs[1 - j]);
                        cb.push(bs[1 - j]);
                    }
                    self.sut.gate(&g, &c, &[qs[j]]);
                    self.reg.b.gate(&g, &cb, &[bs[j]], false);
                }
                self.pending = true;
                self.cx.st.inc("fault.pending-operation queue filled past its limit");
            }
            "rare" => {
                let Some(q) = q else { return Ok(()) };
                if !self.reg.room() || self.reg.b.size() > 16 {
                    return Ok(());
                }
                self.sut.reset(q);
                self.hidden(q)?;
                self.cap_hyps()?;
                let p = RARE[o.u(1) % RARE.len()];
                let api = o.arg(2) & 1;
                let mut g = Gate::new(K::Ry, &[q]);
                g.theta = 2.0 * p.sqrt().asin();
                let flip = Gate::new(K::X, &[q]);
                for _ in 0..o.u(3).min(200) {
                    self.sut.gate(&g, &[], &[q]);
                    let out = if api == 0 { self.sut.measure(q, 0) } else { self.sut.joint(&[3], &[q]) };
                    self.cx.st.obs(&format!("{} p {p}", ["rarely or nearly always measured", "rare or nearly certain parity"][api as usize]), out, p);
                    if out {
                        self.sut.gate(&flip, &[], &[q]);
                    }
                }
                self.pending = true;
            }
            "bad" => {
                let dead = (0..).filter(|i| !self.reg.ids.contains_key(i)).nth(o.u(1) % 3).unwrap_or(0);
                let mut r = Rng::new(o.arg(1) as u64);
                let Some(refused) = self.sut.bad(o.arg(0), &live, dead, &mut r) else { return Ok(()) };
                self.cx.st.inc("fault.invalid call");
                self.cx.nontrivial = true;
                self.cx.ev(u64::from(refused));
                if !refused {
                    return viol(
                        "accepted-invalid",
                        format!("an invalid call (kind {}) was accepted; live {live:?}, unallocated {dead}", o.arg(0)),
                    );
                }
            }
            "restart" => {
                if self.sut.fixed() {
                    let ids: Vec<usize> = self.live();
                    self.sut.restart();
                    self.reg = Reg::default();
                    for id in ids {
                        self.sut.ensure(id);
                        self.reg.ids.insert(id, None);
                    }
                } else {
                    self.sut.restart();
                    self.reg = Reg::default();
                }
                self.cx.st.inc("fault.restart");
            }
            _ => return viol("harness", format!("unknown op {}", o.k)),
        }
        Ok(())
    }

    /// The given qubits have just been released, in this order.
    pub fn released(&mut self, ids: &[usize]) -> Res {
        for q in ids {
            if self.reg.ids.len() == 1 {
                self.reg = Reg::default();
            } else {
                self.hidden(*q)?;
                self.reg.ids.remove(q);
            }
        }
        self.cap_hyps()
    }

    /// One qubit has just been measured with this outcome and then reset.
    pub fn measured_and_reset(&mut self, id: usize, out: bool) -> Res {
        if !self.reg.room() {
            return Ok(());
        }
        let b = self.reg.bit(id);
        self.outcome("m", 1 << b, out)?;
        self.hidden(id)?;
        self.cap_hyps()
    }

    /// Releases everything in id order, checking that no qubit's removal disturbs the rest.
    pub fn finish(&mut self) -> Res {
        if self.observe {
            self.see_state(false)?;
        }
        Ok(())
    }
}

/// How many qubits one allocation takes: one, or an array of them.
pub fn alloc_size(variant: u64) -> usize {
    [1, 3, 2, 5, 64, 65, 70, 100, 130].get(variant as usize).copied().unwrap_or(1)
}
