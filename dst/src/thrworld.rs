//! Several programs at once: each has its own thread (or its own simulator object), a seeded scheduler
//! decides at every step whose turn it is, and each must answer exactly as if it had run alone.

use crate::drive::{Drive, Ev, gen_history};
use crate::driver::World;
use crate::qirworld::{Qir, buffered, cstr, drain, qir_string};
use crate::quantum::Sut;
use crate::rng::{Rng, mix};
use crate::seams;
use crate::simworld::Sim;
use crate::stats::{Cx, Violation, viol};
use crate::trace::{Op, Trace};
use qir_backend as q;
use std::collections::BTreeMap;
use std::io::Write;
use std::cell::RefCell;
use std::sync::mpsc::{Receiver, Sender, channel};

pub struct ThrWorld;

/// Steps that only exist on a whole runtime (per thread): output, results, classical objects.
fn qir_extra(d: &mut Drive<Qir>, o: &Op, lane: i64) -> bool {
    match o.k.as_str() {
        "out" => unsafe {
            let tag = cstr(&format!("lane{lane}"));
            q::__quantum__rt__int_record_output(o.arg(0), tag.as_ptr() as *mut _);
        },
        "msg" => unsafe {
            let s = qir_string(&format!("lane {lane} says {}", o.arg(0)));
            q::__quantum__rt__message(s);
            q::__quantum__rt__string_update_reference_count(s, -1);
        },
        "drain" => {
            let b = drain();
            d.log.push(Ev::Text(b));
        }
        _ => return false,
    }
    true
}

/// One step of a program on a simulator object; a call that is refused is over for this program only.
fn sim_step(d: &mut Drive<Sim>, o: &Op) {
    if o.k != "bad" {
        d.step(o);
        return;
    }
    let live: Vec<usize> = d.live.iter().copied().collect();
    let dead = (0..).filter(|i| !d.live.contains(i)).nth(o.u(1) % 3).unwrap_or(0);
    if let Some(refused) = d.sut.bad(o.arg(0), &live, dead, &mut Rng::new(o.arg(1) as u64)) {
        d.log.push(Ev::Out(refused));
    }
}

enum Lane {
    /// With whether its output goes to standard output.
    Q(Drive<Qir>, bool),
    S(Drive<Sim>),
}

/// What reached standard output since `from`.
fn arrived(from: u64) -> Vec<u8> {
    while std::io::stdout().flush().is_err() {}
    seams::stdout_bytes()[from as usize..].to_vec()
}

impl Lane {
    fn new(c: &Cfg) -> Lane {
        let Cfg { qir, raw, seed, fixed, n } = *c;
        if qir {
            // without a seed the operating system's entropy decides: each program is given its own
            seams::entropy(seed, &[]);
            let mut sut = if raw { Qir::new_unseeded() } else { Qir::new(seed, fixed) };
            sut.is_fixed = fixed;
            let mut d = Drive::new(sut);
            if fixed {
                d.preset(n);
            }
            Lane::Q(d, false)
        } else {
            Lane::S(Drive::new(Sim::new(seed)))
        }
    }
    fn step(&mut self, o: &Op, lane: i64) {
        match self {
            Lane::Q(d, std) => {
                let from = seams::stdout_len();
                if o.k == "sink" {
                    *std = o.arg(0) & 1 == 1;
                    let s = *std;
                    q::output_recording::OUTPUT.with(|x| x.borrow_mut().use_std_out(s));
                } else if o.k == "du" && *std {
                    q::__quantum__qis__dumpmachine__body(std::ptr::null_mut());
                } else if o.k == "du" {
                    // a dump drains the output as a side effect: keep what was there
                    let b = drain();
                    d.log.push(Ev::Text(b));
                    d.step(o);
                } else if !qir_extra(d, o, lane) {
                    d.step(o);
                }
                // only one lane runs at a time: what arrived is this lane's
                let b = arrived(from);
                if !b.is_empty() {
                    d.log.push(Ev::Text(b));
                }
            }
            Lane::S(d) => sim_step(d, o),
        }
    }
    fn finish(self) -> Vec<Ev> {
        match self {
            Lane::Q(mut d, _) => {
                buffered();
                let b = drain();
                d.log.push(Ev::Text(b));
                let h = d.state_bits();
                d.log.push(Ev::State(h));
                d.sut.restart();
                d.log
            }
            Lane::S(mut d) => {
                let h = d.state_bits();
                d.log.push(Ev::State(h));
                d.log
            }
        }
    }
}

thread_local! {
    /// How a lane's thread gives its turn back in the middle of a call, and gets it again.
    static TURN: RefCell<Option<(Sender<u8>, Receiver<u8>)>> = const { RefCell::new(None) };
}

fn hand_over(kind: u8) -> u8 {
    TURN.with(|t| {
        let t = t.borrow();
        let Some((tx, rx)) = t.as_ref() else { return seams::TO_THE_END };
        let _ = tx.send(kind);
        rx.recv().unwrap_or(seams::TO_THE_END)
    })
}

/// The scheduler's view of the lanes that run in threads.
struct Turns {
    to: Vec<Option<Sender<Option<(Op, u64, u64)>>>>,
    back: Vec<Receiver<u8>>,
    go: Vec<Sender<u8>>,
    /// Stopped in the middle of a call.
    stopped: Vec<bool>,
    /// Being finished because somebody waits for a lock.
    busy: Vec<bool>,
    dead: Vec<bool>,
    stops: u64,
    waits: u64,
    wakes: u64,
    deadlock: bool,
}

impl Turns {
    /// Waits until lane l ends its step or stops in it.
    fn until(&mut self, l: usize) {
        loop {
            match self.back[l].recv() {
                Ok(seams::H_DONE) => {
                    self.stopped[l] = false;
                    return;
                }
                Ok(seams::H_STOPPED) => {
                    self.stopped[l] = true;
                    self.stops += 1;
                    return;
                }
                Ok(seams::H_WOKE) => {
                    // the lane that waits for the lock goes on first
                    self.stopped[l] = true;
                    self.wakes += 1;
                    return;
                }
                Ok(_) => {
                    // it waits for a lock that a lane stopped in the middle of a call holds
                    self.waits += 1;
                    self.busy[l] = true;
                    let other = (0..self.stopped.len()).find(|m| self.stopped[*m] && !self.busy[*m]);
                    if let Some(m) = other {
                        let _ = self.go[m].send(seams::TO_THE_END);
                        self.until(m);
                    } else {
                        self.deadlock = true;
                    }
                    self.busy[l] = false;
                    let _ = self.go[l].send(if other.is_none() { seams::DEADLOCK } else { seams::GO_ON });
                }
                Err(_) => {
                    self.stopped[l] = false;
                    self.dead[l] = true;
                    return;
                }
            }
        }
    }
    /// Lets a lane that was stopped end its step.
    fn finish(&mut self, l: usize) {
        while self.stopped[l] {
            let _ = self.go[l].send(seams::TO_THE_END);
            self.until(l);
        }
    }
    /// Lets a lane that was stopped go on to the next place where it stops, or the end of its step.
    fn resume(&mut self, l: usize) {
        if self.stopped[l] {
            let _ = self.go[l].send(seams::GO_ON);
            self.until(l);
        }
    }
    fn step(&mut self, l: usize, o: &Op, n: u64, again: u64) {
        self.finish(l);
        if let Some(tx) = &self.to[l] {
            let _ = tx.send(Some((o.clone(), n, again)));
            self.until(l);
        }
    }
    fn end(&mut self, l: usize) {
        self.finish(l);
        if let Some(tx) = self.to[l].take() {
            let _ = tx.send(None);
            let _ = self.back[l].recv();
        }
    }
}

#[derive(Clone, Copy)]
struct Cfg {
    qir: bool,
    /// Sets no seed and does not initialise: starts with the runtime its thread has.
    raw: bool,
    seed: u64,
    fixed: bool,
    n: usize,
}

fn alone(c: &Cfg, ops: &[Op], lane: i64) -> Vec<Ev> {
    std::thread::scope(|s| {
        s.spawn(|| {
            buffered();
            let mut l = Lane::new(c);
            for (i, o) in ops.iter().enumerate() {
                seams::entropy(mix(c.seed ^ i as u64), &[]);
                l.step(o, lane);
            }
            l.finish()
        })
        .join()
        .unwrap_or_default()
    })
}

impl World for ThrWorld {
    fn name(&self) -> &'static str {
        "threads"
    }
    fn gen_run(&self, _prop: &str, r: &mut Rng) -> Trace {
        let mut t = Trace::new("threads");
        // now and then a crowd of short programs
        let crowd = r.one_in(60);
        let lanes = if crowd { r.range(8, 40) } else { r.range(2, 4) };
        t.set("lanes", lanes);
        t.set("migrate", i64::from(r.pct(50)));
        // threads are stopped inside calls too
        let intra = r.pct(40);
        t.set("intra", i64::from(intra));
        let mut per: Vec<Vec<Op>> = vec![];
        let same_seed = r.pct(30);
        let s0 = r.u64() as i64;
        for l in 0..lanes {
            let qir = r.pct(65);
            t.set(&format!("qir{l}"), i64::from(qir));
            if qir && r.pct(25) {
                t.set(&format!("raw{l}"), 1);
            }
            t.set(&format!("fixed{l}"), i64::from(qir && r.pct(50)));
            t.set(&format!("seed{l}"), if same_seed { s0 } else { r.u64() as i64 });
            let n = if crowd { r.range(1, 2) } else if r.pct(85) { r.range(1, 4) } else { r.range(5, 13) };
            t.set(&format!("n{l}"), n);
            let mut h = Trace::new("");
            for _ in 0..n {
                h.push("alloc", &[0]);
            }
            let len = if crowd { r.range(2, 7) } else { r.range(3, 25) };
            for _ in 0..len {
                if crowd && qir && r.pct(20) {
                    // a further shot
                    h.push("restart", &[]);
                    h.push("alloc", &[0]);
                    for _ in 0..4 {
                        h.push("g.H", &[0, 0, 0, 1, 0, 0]);
                        h.push("m", &[0, 0]);
                    }
                } else if qir && r.pct(35) {
                    match r.below(6) {
                        5 if intra => h.push("drain", &[]),
                        5 => h.push("sink", &[r.below(2) as i64]),
                        0 => h.push("out", &[r.range(-99, 99)]),
                        1 => h.push("msg", &[r.range(0, 99)]),
                        2 => h.push("drain", &[]),
                        3 => h.push("w", &[r.below(70) as i64, r.below(2) as i64]),
                        _ => h.push("r", &[r.below(70) as i64]),
                    }
                } else if !qir && r.pct(6) {
                    h.push("bad", &[r.below(64) as i64, r.below(1 << 20) as i64]);
                } else {
                    gen_history(&mut h, r, n, 1, qir);
                }
            }
            per.push(h.ops);
        }
        // the schedule: which lane takes its next step; bursts of random length
        let mut at = vec![0usize; lanes as usize];
        let burst = *r.pick(&[1u64, 1, 2, 5]);
        while at.iter().zip(&per).any(|(a, p)| *a < p.len()) {
            let l = r.idx(lanes as usize);
            for _ in 0..1 + r.below(burst) {
                if at[l] < per[l].len() {
                    if intra && r.pct(40) {
                        let n = if r.pct(80) { r.range(1, 12) } else { r.range(1, 150) };
                        t.push("^arm", &[l as i64, n, if r.pct(60) { 0 } else { r.range(1, 15) }]);
                    }
                    if intra && r.pct(20) {
                        t.push("^on", &[r.idx(lanes as usize) as i64]);
                    }
                    let o = &per[l][at[l]];
                    let mut a = vec![l as i64];
                    a.extend(&o.a);
                    t.push(&format!("@{}", o.k), &a);
                    at[l] += 1;
                }
            }
        }
        t
    }
    fn exec(&self, t: &Trace, cx: &mut Cx) -> Result<(), Violation> {
        let lanes = t.get("lanes").clamp(1, 64) as usize;
        let cfg: Vec<Cfg> = (0..lanes)
            .map(|l| Cfg {
                qir: t.get(&format!("qir{l}")) == 1,
                raw: t.get(&format!("raw{l}")) == 1,
                seed: t.get(&format!("seed{l}")) as u64,
                fixed: t.get(&format!("fixed{l}")) == 1,
                n: t.get(&format!("n{l}")).clamp(1, 16) as usize,
            })
            .collect();
        let sched: Vec<(usize, Op)> = t
            .ops
            .iter()
            .map(|o| (o.u(0) % lanes, Op::new(&o.k[1..], o.a.get(1..).unwrap_or(&[]))))
            .collect();
        // standard output has lines of several programs in it when calls are interrupted: not looked at
        let intra = t.get("intra") == 1;
        let sched: Vec<(usize, Op)> = sched.into_iter().filter(|x| !intra || x.1.k != "sink").collect();
        let control = |o: &Op| matches!(o.k.as_str(), "arm" | "on");
        let mut own: BTreeMap<usize, Vec<Op>> = BTreeMap::new();
        for (l, o) in sched.iter().filter(|x| !control(&x.1)) {
            own.entry(*l).or_default().push(o.clone());
        }
        // standard output is one descriptor for all: what each step adds to it is told apart by whose turn it is
        while std::io::stdout().flush().is_err() {}
        seams::stdout_begin(&[], false);
        let solo: Vec<Vec<Ev>> =
            (0..lanes).map(|l| alone(&cfg[l], own.get(&l).map_or(&[], Vec::as_slice), l as i64)).collect();

        // simulator objects are handed around between two further threads when "migrate" is set
        let migrate = t.get("migrate") == 1;
        let switches = sched.windows(2).filter(|w| w[0].0 != w[1].0).count();
        let (mut stops, mut waits, mut deadlock) = (0, 0, false);
        let got: Vec<Vec<Ev>> = std::thread::scope(|s| {
            let mut tn = Turns {
                to: vec![],
                back: vec![],
                go: vec![],
                stopped: vec![false; lanes],
                busy: vec![false; lanes],
                dead: vec![false; lanes],
                stops: 0,
                waits: 0,
                wakes: 0,
                deadlock: false,
            };
            let mut hs = vec![];
            let mut objs: Vec<Option<Drive<Sim>>> = vec![];
            for (l, c) in cfg.iter().enumerate() {
                let (gtx, grx) = channel::<u8>();
                tn.go.push(gtx);
                if c.qir || intra {
                    let (tx, rx) = channel::<Option<(Op, u64, u64)>>();
                    let (btx, brx) = channel::<u8>();
                    let c = *c;
                    let mut at = 0u64;
                    hs.push(Some(s.spawn(move || {
                        buffered();
                        TURN.with(|t| *t.borrow_mut() = Some((btx.clone(), grx)));
                        // the thread starts its program at its first turn
                        let mut lane: Option<Lane> = None;
                        let mut fin = vec![];
                        while let Ok(m) = rx.recv() {
                            let (n, again) = m.as_ref().map_or((0, 0), |m| (m.1, m.2));
                            let at_now = at;
                            at += 1;
                            let go_on = seams::in_turns(n, again, hand_over, || {
                                let la = lane.get_or_insert_with(|| Lane::new(&c));
                                seams::entropy(mix(c.seed ^ at_now), &[]);
                                if let Some(m) = &m {
                                    la.step(&m.0, l as i64);
                                }
                                m.is_some()
                            });
                            if !go_on && let Some(la) = lane.take() {
                                fin = la.finish();
                            }
                            if btx.send(seams::H_DONE).is_err() || !go_on {
                                break;
                            }
                        }
                        TURN.with(|t| *t.borrow_mut() = None);
                        fin
                    })));
                    tn.to.push(Some(tx));
                    tn.back.push(brx);
                    objs.push(None);
                } else {
                    tn.to.push(None);
                    tn.back.push(channel().1);
                    hs.push(None);
                    objs.push(Some(Drive::new(Sim::new(c.seed))));
                }
            }
            // when a lane has no steps left its program ends, while the others go on
            let mut left: Vec<usize> = (0..lanes).map(|l| own.get(&l).map_or(0, Vec::len)).collect();
            for l in 0..lanes {
                if left[l] == 0 {
                    tn.end(l);
                }
            }
            let mut armed = vec![(0, 0); lanes];
            for (i, (l, o)) in sched.iter().enumerate() {
                cx.at = i;
                if o.k == "arm" {
                    armed[*l] = (o.u(0) as u64, o.u(1) as u64);
                } else if o.k == "on" {
                    tn.resume(*l);
                    if left[*l] == 0 && !tn.stopped[*l] {
                        tn.end(*l);
                    }
                } else if cfg[*l].qir || intra {
                    let (n, again) = std::mem::take(&mut armed[*l]);
                    tn.step(*l, o, n, again);
                    if tn.dead[*l] {
                        break;
                    }
                    left[*l] -= 1;
                    if left[*l] == 0 && !tn.stopped[*l] {
                        tn.end(*l);
                    }
                } else if let Some(d) = objs[*l].take() {
                    let mut d = d;
                    d = if migrate && i % 3 == 0 {
                        let o = o.clone();
                        s.spawn(move || {
                            sim_step(&mut d, &o);
                            d
                        })
                        .join()
                        .expect("migrated step")
                    } else {
                        sim_step(&mut d, o);
                        d
                    };
                    objs[*l] = Some(d);
                }
            }
            for l in 0..lanes {
                tn.end(l);
            }
            stops = tn.stops;
            waits = tn.waits;
            deadlock = tn.deadlock;
            drop(tn);
            hs.into_iter()
                .zip(objs)
                .map(|(h, o)| match (h, o) {
                    (Some(h), _) => h.join().unwrap_or_default(),
                    (None, Some(mut d)) => {
                        let b = d.state_bits();
                        d.log.push(Ev::State(b));
                        d.log
                    }
                    _ => vec![],
                })
                .collect()
        });
        seams::stdout_end();
        if seams::shared().overflow.load(std::sync::atomic::Ordering::SeqCst) == 1 {
            return viol("harness", "the output of one run exceeds the simulator's disk");
        }
        if deadlock {
            return viol("deadlock", "every program waits for a lock another one holds");
        }
        cx.st.add("sched.stops inside a call", stops);
        cx.st.add("sched.waits for a lock", waits);
        cx.st.add("sched.context switches", switches as u64);
        cx.st.add("sched.steps", sched.len() as u64);
        cx.nontrivial = switches > 1;
        for (l, g) in got.iter().enumerate() {
            for e in g {
                match e {
                    Ev::Out(b) => cx.ev(u64::from(*b)),
                    Ev::Id(i) => cx.ev(*i as u64 + 2),
                    Ev::State(s) => cx.ev(*s),
                    Ev::Text(x) => cx.ev_s(x),
                }
            }
            cx.ev(l as u64);
            cx.st.inc("check.lane compared with running alone");
            if *g != solo[l] {
                let i = g.iter().zip(&solo[l]).position(|(a, b)| a != b).unwrap_or(g.len().min(solo[l].len()));
                return viol(
                    "interference",
                    format!(
                        "program {l} of {lanes} (qir {}) answered {:?} at {i}, alone it answers {:?}",
                        cfg[l].qir,
                        g.get(i),
                        solo[l].get(i)
                    ),
                );
            }
        }
        for l in 0..lanes {
            if cfg[l].qir {
                // everything this lane's output contains is its own
                let bad = got[l].iter().any(|e| {
                    if let Ev::Text(x) = e {
                        let s = String::from_utf8_lossy(x);
                        (0..lanes).any(|m| m != l && (s.contains(&format!("lane{m}\n")) || s.contains(&format!("lane {m} "))))
                    } else {
                        false
                    }
                });
                if bad {
                    return viol("interference", format!("program {l} shows another program's output"));
                }
            }
        }
        Ok(())
    }
}
