//! One run of the simulator, written out: the configuration and the exact sequence of operations and
//! faults. Executing a trace draws nothing at random, so a trace file is a complete replay.

use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub k: String,
    pub a: Vec<i64>,
}

impl Op {
    pub fn new(k: &str, a: &[i64]) -> Self {
        Op { k: k.to_string(), a: a.to_vec() }
    }
    pub fn arg(&self, i: usize) -> i64 {
        self.a.get(i).copied().unwrap_or(0)
    }
    pub fn u(&self, i: usize) -> usize {
        self.arg(i).unsigned_abs() as usize
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Trace {
    pub property: String,
    pub world: String,
    pub seed: u64,
    pub cfg: Vec<(String, i64)>,
    pub ops: Vec<Op>,
}

impl Trace {
    pub fn new(world: &str) -> Self {
        Trace { world: world.to_string(), ..Trace::default() }
    }
    pub fn get(&self, k: &str) -> i64 {
        self.cfg.iter().find(|(n, _)| n == k).map_or(0, |(_, v)| *v)
    }
    pub fn set(&mut self, k: &str, v: i64) {
        if let Some(e) = self.cfg.iter_mut().find(|(n, _)| n == k) {
            e.1 = v;
        } else {
            self.cfg.push((k.to_string(), v));
        }
    }
    pub fn push(&mut self, k: &str, a: &[i64]) {
        self.ops.push(Op::new(k, a));
    }
    pub fn to_text(&self, note: &str) -> String {
        let mut s = String::from("dst-replay 1\n");
        for l in note.lines() {
            let _ = writeln!(s, "# {l}");
        }
        let _ = writeln!(s, "property {}\nworld {}\nseed {}", self.property, self.world, self.seed);
        for (k, v) in &self.cfg {
            let _ = writeln!(s, "cfg {k} {v}");
        }
        for o in &self.ops {
            s.push_str("op ");
            s.push_str(&o.k);
            for a in &o.a {
                let _ = write!(s, " {a}");
            }
            s.push('\n');
        }
        s
    }
    pub fn parse(s: &str) -> Result<Trace, String> {
        let mut t = Trace::default();
        let mut lines = s.lines();
        if lines.next() != Some("dst-replay 1") {
            return Err("not a dst-replay file".into());
        }
        for l in lines {
            let w: Vec<&str> = l.split_whitespace().collect();
            match w.as_slice() {
                [] => (),
                [c, ..] if c.starts_with('#') => (),
                ["property", p] => t.property = (*p).to_string(),
                ["world", p] => t.world = (*p).to_string(),
                ["seed", p] => t.seed = p.parse().map_err(|e| format!("{e}"))?,
                ["cfg", k, v] => t.cfg.push(((*k).to_string(), v.parse().map_err(|e| format!("{e}"))?)),
                ["op", k, rest @ ..] => {
                    let a = rest
                        .iter()
                        .map(|x| x.parse::<i64>().map_err(|e| format!("{l}: {e}")))
                        .collect::<Result<Vec<_>, _>>()?;
                    t.ops.push(Op { k: (*k).to_string(), a });
                }
                _ => return Err(format!("bad line: {l}")),
            }
        }
        Ok(t)
    }
}

/// Angles are written in traces as small integers: 0..=64 multiples of pi/8 around zero, then tiny
/// angles around the simulator's zero threshold, then arbitrary ones.
pub fn angle(code: i64) -> f64 {
    use std::f64::consts::PI;
    match code {
        i64::MIN..=64 => {
            let c = code.clamp(0, 64);
            // 0 -> 0, 1 -> pi/8, 2 -> -pi/8, 3 -> 2pi/8, ...
            let k = (c + 1) / 2;
            let s = if c % 2 == 1 { 1.0 } else { -1.0 };
            s * k as f64 * PI / 8.0
        }
        65..=79 => [
            1e-11, -1e-11, 1e-9, -1e-9, 1e-7, -1e-7, 1e-5, -1e-5, 2e-10, -2e-10, 5e-11, -5e-11, 1e-3,
            -1e-3, 3e-8,
        ][(code - 65) as usize],
        // many turns
        5000..=5099 => {
            let r = crate::rng::mix(code as u64);
            let k = match code % 5 {
                0 => 8.0 * (5.0 + (r % 200) as f64),
                1 => 8.0 * (5.0 + (r % 200) as f64) + 4.0,
                _ => (33 + r % 4000) as f64 + if code % 5 == 4 { (r >> 40) as f64 / 2f64.powi(24) } else { 0.0 },
            };
            k * PI / 8.0 * if r >> 63 == 1 { -1.0 } else { 1.0 }
        }
        _ => {
            let r = crate::rng::mix(code as u64);
            ((r >> 11) as f64 / (1u64 << 53) as f64) * 14.0 - 7.0
        }
    }
}

pub fn is_tiny(code: i64) -> bool {
    (65..=79).contains(&code)
}

pub fn gen_angle(r: &mut crate::rng::Rng, tiny: bool) -> i64 {
    if tiny && r.pct(25) {
        return r.range(65, 79);
    }
    match r.below(10) {
        // exact multiples of pi: the rotation degenerates to a Pauli or to the identity
        0..=2 => *r.pick(&[15, 16, 15, 16, 31, 32, 47, 48, 63, 64, 0]),
        3..=4 => *r.pick(&[7, 8, 23, 24, 39, 40]),
        5..=6 => r.range(0, 64),
        _ if r.one_in(12) => r.range(5000, 5099),
        _ => r.range(80, 4000),
    }
}
