//! One seed, one history: the same seeded program is executed several times under different
//! surroundings (other threads, other entropy, other programs before it, observations in between), and
//! every answer must come out the same; other seeds must give other answers.

use crate::drive::{Drive, Ev, gen_history};
use crate::driver::World;
use crate::qirworld::Qir;
use crate::quantum::Sut;
use crate::rng::Rng;
use crate::seams;
use crate::simworld::Sim;
use crate::stats::{Cx, Res, Violation, viol};
use crate::trace::{Op, Trace};
use quantum_sparse_sim::QuantumSim;

pub struct SeedWorld;

/// Where a run of the program happens.
#[derive(Clone, Copy, Debug)]
struct Ctx {
    kind: i64,
    arg: i64,
}

fn drive<S: Sut>(mut d: Drive<S>, t: &Trace, body: &[Op], peek: Option<u64>) -> (Vec<Ev>, u64) {
    let mut r = Rng::new(peek.unwrap_or(0));
    if d.sut.fixed() {
        d.preset(t.get("qubits").clamp(1, 8) as usize);
    }
    for o in body {
        if peek.is_some() && r.pct(40) {
            let how = r.u64() >> 8;
            d.peek(how);
        }
        d.step(o);
    }
    let h = d.state_bits();
    d.sut.restart();
    (d.log, h)
}

fn sim_seeded(seed: u64) -> Sim {
    let mut s = QuantumSim::default();
    s.set_rng_seed(seed);
    Sim { s }
}

fn run_in(t: &Trace, body: &[Op], seed: u64, c: Ctx) -> (Vec<Ev>, u64) {
    let qir = t.get("qir") == 1;
    let fixed = t.get("fixed") == 1 && qir;
    let peek = if c.kind == 3 { Some(c.arg as u64) } else { None };
    let go = move || {
        if qir { drive(Drive::new(Qir::new(seed, fixed)), t, body, peek) } else { drive(Drive::new(sim_seeded(seed)), t, body, peek) }
    };
    match c.kind {
        // a new thread, whose entropy is another stream
        1 => std::thread::scope(|s| {
            seams::entropy(c.arg as u64, &[]);
            s.spawn(go).join().unwrap_or_else(|_| (vec![], 0))
        }),
        // another program ran here before, with another seed
        2 => {
            let other = Rng::new(c.arg as u64).u64();
            let n = (c.arg as usize % 7).min(body.len());
            if qir {
                let _ = drive(Drive::new(Qir::new(other, fixed)), t, &body[..n], None);
            } else {
                let _ = drive(Drive::new(sim_seeded(other)), t, &body[..n], None);
            }
            go()
        }
        // the seed is set after the simulator was already used to draw
        4 if qir => {
            let mut d = Drive::new(Qir::new(c.arg as u64, fixed));
            if fixed {
                d.preset(t.get("qubits").clamp(1, 8) as usize);
            }
            d.step(&Op::new("coins", &[c.arg & 7]));
            d.sut.restart();
            d.live.clear();
            d.log.clear();
            qir_backend::set_rng_seed(seed);
            drive(d, t, body, None)
        }
        // the seed is set while the program before lies abandoned, operations still pending
        6 if qir => {
            let mut d = Drive::new(Qir::new(c.arg as u64, fixed));
            if fixed {
                d.preset(t.get("qubits").clamp(1, 8) as usize);
            }
            let n = (c.arg as usize % 40).min(body.len());
            for o in &body[..n] {
                d.step(o);
            }
            qir_backend::set_rng_seed(seed);
            d.sut.restart();
            d.live.clear();
            d.log.clear();
            drive(d, t, body, None)
        }
        4 | 6 => {
            let mut d = Drive::new(sim_seeded(c.arg as u64));
            d.step(&Op::new("coins", &[c.arg & 7]));
            for q in d.live.clone() {
                d.sut.s.release(q);
            }
            d.live.clear();
            d.log.clear();
            d.sut.s.set_rng_seed(seed);
            drive(d, t, body, None)
        }
        // entropy sources that fail softly or return constants, on a new thread
        5 => std::thread::scope(|s| {
            seams::entropy(c.arg as u64, &[(seams::E_EINTR, 0), (seams::E_SHORT, 3), (seams::E_ZEROS + (c.arg as u64 & 1), 0)]);
            s.spawn(go).join().unwrap_or_else(|_| (vec![], 0))
        }),
        _ => go(),
    }
}

impl World for SeedWorld {
    fn name(&self) -> &'static str {
        "seed"
    }
    fn gen_run(&self, prop: &str, r: &mut Rng) -> Trace {
        let mut t = Trace::new("seed");
        let qir = r.pct(60) || prop == "C08";
        t.set("qir", i64::from(qir));
        t.set("fixed", i64::from(r.pct(40)));
        let seed = match r.below(4) {
            0 => r.below(4) as i64,
            1 => (1i64 << r.below(63)) - i64::from(r.pct(50)),
            2 => -(r.below(3) as i64) - 1,
            _ => r.u64() as i64,
        };
        t.set("progseed", seed);
        t.set("bit", r.below(64) as i64);
        let n = r.range(1, 6);
        t.set("qubits", n);
        // surroundings first, then the program
        for _ in 0..r.range(1, 3) {
            t.push("ctx", &[r.below(7) as i64, r.below(1 << 40) as i64]);
        }
        if r.pct(30) {
            t.push("other", &[r.below(3) as i64]);
        }
        if r.pct(30) {
            t.push("shots", &[r.range(2, 5)]);
        }
        if r.pct(15) {
            t.push("unseeded", &[r.below(1 << 40) as i64]);
        }
        let k = t.ops.len() as i64;
        t.set("head", k);
        for _ in 0..n {
            t.push("alloc", &[0]);
        }
        let len = r.range(4, 50);
        gen_history(&mut t, r, n, len, qir);
        t
    }
    fn exec(&self, t: &Trace, cx: &mut Cx) -> Result<(), Violation> {
        seams::entropy(t.seed ^ 0xABCD, &[]);
        let is_head = |o: &&Op| matches!(o.k.as_str(), "ctx" | "other" | "shots" | "unseeded");
        let head: Vec<Op> = t.ops.iter().filter(is_head).cloned().collect();
        let body: Vec<Op> = t.ops.iter().filter(|o| !is_head(o)).cloned().collect();
        let seed = t.get("progseed") as u64;
        let base = run_in(t, &body, seed, Ctx { kind: 0, arg: 0 });
        for e in &base.0 {
            match e {
                Ev::Out(b) => cx.ev(u64::from(*b)),
                Ev::Id(i) => cx.ev(*i as u64 + 2),
                Ev::State(s) => cx.ev(*s),
                Ev::Text(x) => cx.ev_s(x),
            }
        }
        let uncertain = base.0.iter().filter(|e| matches!(e, Ev::Out(_))).count();
        cx.st.add("check.outcomes replayed", uncertain as u64);
        for (i, o) in head.iter().enumerate() {
            cx.at = i;
            cx.st.inc(&format!("sched.{} {}", o.k, if o.k == "ctx" { o.arg(0) } else { 0 }));
            match o.k.as_str() {
                "ctx" => {
                    let c = Ctx { kind: o.arg(0), arg: o.arg(1) };
                    let again = run_in(t, &body, seed, c);
                    cx.nontrivial |= uncertain > 0;
                    if c.kind == 3 {
                        // observing rounds differently, but every outcome and identifier must be the same
                        let f = |v: &[Ev]| -> Vec<Ev> { v.iter().filter(|e| !matches!(e, Ev::State(_))).cloned().collect() };
                        same(&f(&base.0), &f(&again.0), c)?;
                        cx.st.inc("fault.observation inserted");
                    } else {
                        same(&base.0, &again.0, c)?;
                        if base.1 != again.1 {
                            return viol("irreproducible-state", format!("final states differ in surroundings {c:?}"));
                        }
                    }
                }
                "other" => {
                    // a different seed gives a different stream, whichever bit of the seed differs
                    let coins = [Op::new("coins", &[96])];
                    let other = match o.arg(0) {
                        0 => seed ^ 1u64 << (t.get("bit") & 63),
                        1 => seed.wrapping_add(1),
                        _ => seed.rotate_left(32) ^ 0x8000_0000_0000_0001,
                    };
                    let a = run_in(t, &coins, seed, Ctx { kind: 0, arg: 0 });
                    let b = run_in(t, &coins, other, Ctx { kind: 0, arg: 0 });
                    cx.st.inc("check.seeds told apart");
                    let first = |x: &[Ev], i: usize| matches!(x.get(i), Some(Ev::Out(true)));
                    // only seeds that were drawn at random make a fair sample
                    let fair = (20..=44).contains(&seed.count_ones()) && seed & seed.wrapping_add(1) != 0;
                    for (i, k) in [(0, "1st"), (1, "2nd"), (7, "8th"), (95, "96th")].into_iter().filter(|_| fair) {
                        cx.st.obs(&format!("{k} coin of a seeded stream"), first(&a.0, i), 0.5);
                        cx.st.obs(&format!("{k} coins of related seeds agree"), first(&a.0, i) == first(&b.0, i), 0.5);
                    }
                    if a.0 == b.0 && other != seed {
                        return viol("seed-ignored", format!("seeds {seed} and {other} give the same 96 outcomes"));
                    }
                }
                "shots" => {
                    // the stream continues from one shot into the next
                    let n = o.u(0).clamp(2, 6);
                    let mut v = vec![];
                    for i in 0..n {
                        if i > 0 {
                            v.push(Op::new("restart", &[]));
                        }
                        v.push(Op::new("coins", &[64]));
                    }
                    let a = run_in(t, &v, seed, Ctx { kind: 0, arg: 0 });
                    let b = run_in(t, &v, seed, Ctx { kind: 1, arg: o.arg(0) });
                    same(&a.0, &b.0, Ctx { kind: 1, arg: o.arg(0) })?;
                    let outs: Vec<bool> =
                        a.0.iter().filter_map(|e| if let Ev::Out(b) = e { Some(*b) } else { None }).collect();
                    let shots: Vec<&[bool]> = outs.chunks(64).collect();
                    cx.st.inc("check.shots continue the stream");
                    for i in 0..shots.len() {
                        for j in 0..i {
                            if shots[i] == shots[j] {
                                return viol("shot-repeats", format!("shots {j} and {i} of one run had the same 64 outcomes"));
                            }
                        }
                    }
                }
                _ => {
                    // no seed at all: two simulators must not share a stream
                    let qir = t.get("qir") == 1;
                    let one = |e: u64| -> Vec<bool> {
                        seams::entropy(e, &[]);
                        std::thread::scope(|s| {
                            s.spawn(|| {
                                let v = [Op::new("coins", &[96])];
                                if qir {
                                    crate::qirworld::buffered();
                                    qir_backend::__quantum__rt__initialize(std::ptr::null_mut());
                                    let mut d = Drive::new(Qir::new_unseeded());
                                    d.step(&v[0]);
                                    d.sut.restart();
                                    d.outs()
                                } else {
                                    let mut d = Drive::new(Sim { s: QuantumSim::default() });
                                    d.step(&v[0]);
                                    d.outs()
                                }
                            })
                            .join()
                            .unwrap_or_default()
                        })
                    };
                    let (a, b) = (one(o.arg(0) as u64), one(o.arg(0) as u64 ^ 0x55_5555));
                    cx.st.inc("check.unseeded streams differ");
                    cx.st.obs("coin of an unseeded stream", a.get(3) == Some(&true), 0.5);
                    if a == b {
                        return viol("entropy-ignored", "two unseeded simulators produced the same 96 outcomes");
                    }
                }
            }
        }
        Ok(())
    }
}

fn same(a: &[Ev], b: &[Ev], c: Ctx) -> Res {
    if a == b {
        return Ok(());
    }
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    viol(
        "irreproducible",
        format!(
            "the same seed gave another history in surroundings {c:?}: answer {i} is {:?}, was {:?}",
            b.get(i),
            a.get(i)
        ),
    )
}
