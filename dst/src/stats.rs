//! What a batch of runs did, counted while it ran.

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write;

#[derive(Clone, Debug, Default)]
pub struct Bern {
    pub n: f64,
    pub o: f64,
    pub p: f64,
    pub v: f64,
}

#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub count: BTreeMap<String, u64>,
    pub bern: BTreeMap<String, Bern>,
    pub distinct: HashSet<u64>,
    pub probes: BTreeMap<String, u64>,
    pub known: BTreeMap<String, u64>,
    pub runs: u64,
    pub nontrivial: u64,
    pub steps: u64,
    pub samples: Vec<String>,
}

impl Stats {
    pub fn inc(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(c) = self.count.get_mut(k) {
            *c += n;
        } else {
            self.count.insert(k.to_string(), n);
        }
    }
    pub fn probe(&mut self, k: &str) {
        if let Some(c) = self.probes.get_mut(k) {
            *c += 1;
        } else {
            self.probes.insert(k.to_string(), 1);
        }
    }
    /// One Bernoulli observation with a known success probability.
    pub fn obs(&mut self, k: &str, outcome: bool, p: f64) {
        let b = self.bern.entry(k.to_string()).or_default();
        b.n += 1.0;
        b.o += f64::from(u8::from(outcome));
        b.p += p;
        b.v += p * (1.0 - p);
    }
    pub fn merge(&mut self, o: &Stats) {
        for (k, v) in &o.count {
            self.add(k, *v);
        }
        for (k, v) in &o.probes {
            *self.probes.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.known {
            *self.known.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.bern {
            let b = self.bern.entry(k.clone()).or_default();
            b.n += v.n;
            b.o += v.o;
            b.p += v.p;
            b.v += v.v;
        }
        self.distinct.extend(o.distinct.iter().copied());
        self.runs += o.runs;
        self.nontrivial += o.nontrivial;
        self.steps += o.steps;
        for s in &o.samples {
            if self.samples.len() < 4 {
                self.samples.push(s.clone());
            }
        }
    }
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "runs {} {} {}", self.runs, self.nontrivial, self.steps);
        for (k, v) in &self.count {
            let _ = writeln!(s, "c {v} {k}");
        }
        for (k, v) in &self.probes {
            let _ = writeln!(s, "p {v} {k}");
        }
        for (k, v) in &self.known {
            let _ = writeln!(s, "k {v} {k}");
        }
        for (k, b) in &self.bern {
            let _ = writeln!(s, "b {:e} {:e} {:e} {:e} {k}", b.n, b.o, b.p, b.v);
        }
        for x in &self.samples {
            let _ = writeln!(s, "s {}", x.replace('\n', "\\n"));
        }
        for h in &self.distinct {
            let _ = writeln!(s, "d {h}");
        }
        s
    }
    pub fn from_text(t: &str) -> Stats {
        let mut s = Stats::default();
        for l in t.lines() {
            let Some((tag, rest)) = l.split_once(' ') else { continue };
            let two = || rest.split_once(' ').unwrap_or((rest, ""));
            match tag {
                "runs" => {
                    let v: Vec<u64> = rest.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
                    s.runs = v[0];
                    s.nontrivial = v[1];
                    s.steps = v[2];
                }
                "c" => {
                    let (n, k) = two();
                    s.count.insert(k.into(), n.parse().unwrap_or(0));
                }
                "p" => {
                    let (n, k) = two();
                    s.probes.insert(k.into(), n.parse().unwrap_or(0));
                }
                "k" => {
                    let (n, k) = two();
                    s.known.insert(k.into(), n.parse().unwrap_or(0));
                }
                "b" => {
                    let mut it = rest.splitn(5, ' ');
                    let mut f = || it.next().and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
                    let (n, o, p, v) = (f(), f(), f(), f());
                    s.bern.insert(it.next().unwrap_or("").into(), Bern { n, o, p, v });
                }
                "s" => s.samples.push(rest.replace("\\n", "\n")),
                "d" => {
                    s.distinct.insert(rest.parse().unwrap_or(0));
                }
                _ => (),
            }
        }
        s
    }
}

/// Execution context of one run: counters plus the event log (kept as a running hash).
pub struct Cx<'a> {
    pub st: &'a mut Stats,
    pub log: u64,
    pub nontrivial: bool,
    pub verbose: bool,
    pub at: usize,
}

impl<'a> Cx<'a> {
    pub fn new(st: &'a mut Stats, verbose: bool) -> Self {
        Cx { st, log: 0x1234_5678, nontrivial: false, verbose, at: 0 }
    }
    /// Appends an event to the event log. Pure bookkeeping: never draws and never reads a clock.
    pub fn ev(&mut self, x: u64) {
        self.log = (self.log.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    pub fn ev_f(&mut self, x: f64) {
        self.ev(x.to_bits());
    }
    pub fn ev_s(&mut self, x: &[u8]) {
        self.ev(x.len() as u64);
        for c in x.chunks(8) {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            self.ev(u64::from_le_bytes(b));
        }
    }
    pub fn say(&self, f: impl FnOnce() -> String) {
        if self.verbose {
            eprintln!("[{:4}] {}", self.at, f());
        }
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    /// What kind of violation it is; minimisation keeps this fixed.
    pub class: String,
    pub detail: String,
}

pub type Res<T = ()> = Result<T, Violation>;

pub fn viol<T>(class: &str, detail: impl Into<String>) -> Res<T> {
    Err(Violation { class: class.to_string(), detail: detail.into() })
}
