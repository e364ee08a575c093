//! The program's output stream: records, dumps and raw bytes into the buffer or into standard output,
//! with the `write` system call behind a seam that transfers part of the data or is interrupted.

use crate::driver::World;
use crate::emit::{Emit, gen_rec, gen_tag};
use crate::qirworld::qp;
use crate::rng::Rng;
use crate::seams::{self, W_EINTR, W_FULL, W_SHORT};
use crate::stats::{Cx, Res, Violation, viol};
use crate::trace::{Op, Trace};
use qir_backend::*;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::ptr::null_mut;

pub struct OutWorld;

pub fn plan_of(t: &Trace) -> Vec<(u64, u64)> {
    t.ops.iter().filter(|o| o.k == "plan").map(|o| (o.arg(0) as u64, o.arg(1) as u64)).collect()
}

pub fn gen_soft_plan(t: &mut Trace, r: &mut Rng) {
    let n = r.range(0, 12);
    for _ in 0..n {
        match r.below(5) {
            0 | 1 => t.push("plan", &[W_SHORT as i64, r.below(4000) as i64]),
            2 => t.push("plan", &[W_SHORT as i64, 0]),
            3 => t.push("plan", &[W_EINTR as i64, 0]),
            _ => t.push("plan", &[W_FULL as i64, 0]),
        }
    }
    // a plan that only ever interrupts would never end
    t.push("plan", &[W_FULL as i64, 0]);
    t.set("cycle", i64::from(r.pct(60)));
}

fn first_diff(a: &[u8], b: &[u8]) -> usize {
    a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()))
}

fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(&b[..b.len().min(160)]).into_owned();
    format!("{s:?}{}", if b.len() > 160 { "..." } else { "" })
}

pub fn same(what: &str, got: &[u8], want: &[u8]) -> Res {
    if got == want {
        return Ok(());
    }
    let d = first_diff(got, want);
    viol(
        "output",
        format!(
            "{what}: {} bytes, expected {}; first difference at {d}: got {}, expected {}",
            got.len(),
            want.len(),
            show(&got[d..]),
            show(&want[d..])
        ),
    )
}

struct St<'a, 'b> {
    cx: &'a mut Cx<'b>,
    std: bool,
    /// What must be in the buffer, and what must have gone to standard output.
    buf: Vec<u8>,
    out: Vec<u8>,
    /// Bytes of `out` that end with a line break or were flushed: these must have arrived.
    due: usize,
    store: BTreeMap<usize, bool>,
    qubits: usize,
    /// Short writes so far.
    cut: u64,
}

impl St<'_, '_> {
    fn produced(&mut self, b: &[u8], flushed: bool) {
        if self.std {
            self.out.extend(b);
            // when the operating system cut a transfer short during this call, the standard library may
            // keep the tail until the next write: order still holds, immediate delivery does not
            let cut = seams::shared().fired[W_SHORT as usize].load(std::sync::atomic::Ordering::SeqCst);
            let was_cut = std::mem::replace(&mut self.cut, cut) != cut;
            if flushed || !was_cut && b.contains(&b'\n') {
                let n = if flushed { self.out.len() } else { self.out.iter().rposition(|c| *c == b'\n').map_or(0, |p| p + 1) };
                self.due = self.due.max(n);
            }
        } else {
            self.buf.extend(b);
        }
        self.cx.st.add("check.bytes produced", b.len() as u64);
    }
    fn check(&mut self) -> Res {
        let got = seams::stdout_bytes();
        if got.len() < self.due || got.len() > self.out.len() || got != self.out[..got.len()] {
            same("standard output", &got, &self.out[..self.due.max(got.len().min(self.out.len()))])?;
        }
        self.cx.st.inc("check.standard output after a call");
        Ok(())
    }
    fn step(&mut self, o: &Op) -> Res {
        self.cx.st.inc(&format!("op.{}", o.k));
        match o.k.as_str() {
            "plan" => return Ok(()),
            "rec" => {
                let e = Emit::new(o.arg(0), o.arg(1), o.arg(2), &self.store);
                e.call(self.store.is_empty());
                let w = e.want.clone();
                self.produced(&w, false);
                self.cx.nontrivial = true;
            }
            "mode" => {
                self.std = o.arg(0) & 1 == 1;
                let s = self.std;
                OUTPUT.with(|x| x.borrow_mut().use_std_out(s));
            }
            "drain" => {
                let got: Vec<u8> = if o.arg(0) & 3 == 3 {
                    // a drain that is looked at only in part is still a drain
                    let n = o.u(1);
                    let v: Vec<u8> = OUTPUT.with(|x| x.borrow_mut().drain().take(n).collect());
                    let k = n.min(self.buf.len());
                    same("partly consumed drain", &v, &self.buf[..k])?;
                    std::mem::take(&mut self.buf)
                } else {
                    OUTPUT.with(|x| x.borrow_mut().drain().collect())
                };
                if o.arg(0) & 3 != 3 {
                    let w = std::mem::take(&mut self.buf);
                    same("drained buffer", &got, &w)?;
                }
                self.cx.st.inc("check.drain");
                self.cx.ev_s(&got);
            }
            "read" => {
                let n = o.u(0) % 300_000;
                let mut b = vec![0xEEu8; n];
                let k = OUTPUT
                    .with(|x| x.borrow_mut().read(&mut b))
                    .map_err(|e| Violation { class: "output".into(), detail: format!("read failed: {e}") })?;
                let m = n.min(self.buf.len());
                if k > m || k == 0 && m > 0 {
                    return viol("output", format!("read of up to {n} bytes with {} waiting returned {k}", self.buf.len()));
                }
                let w: Vec<u8> = self.buf.drain(..k).collect();
                same("bytes read", &b[..k], &w)?;
                self.cx.st.inc("check.read");
                self.cx.ev_s(&w);
            }
            "raw" => {
                let b = crate::emit::text_of(o.arg(0).max(0)).into_bytes();
                let nl = o.arg(1) & 1 == 1;
                let r = OUTPUT.with(|x| {
                    let mut x = x.borrow_mut();
                    let r = x.write_all(&b);
                    if nl {
                        x.write_newline();
                    }
                    r
                });
                if let Err(e) = r {
                    return viol("output", format!("write_all failed: {e}"));
                }
                self.produced(&b, false);
                if nl {
                    self.produced(b"\n", false);
                }
            }
            "str" => {
                let s = crate::emit::text_of(o.arg(0).max(0));
                if let Err(e) = output_recording::record_output_str(&s) {
                    return viol("output", format!("record_output_str failed: {e}"));
                }
                let mut b = s.into_bytes();
                b.push(b'\n');
                self.produced(&b, false);
            }
            "flush" => {
                // an interrupted flush reports it and is tried again
                for _ in 0..1000 {
                    match OUTPUT.with(|x| x.borrow_mut().flush()) {
                        Err(e) if e.kind() == std::io::ErrorKind::Interrupted => (),
                        Err(e) => return viol("output", format!("flush failed: {e}")),
                        Ok(()) => break,
                    }
                }
                self.produced(b"", true);
            }
            "dump" => {
                // the text of a dump is learnt by dumping into the buffer first
                let was = self.std;
                let kept: Vec<u8> = OUTPUT.with(|x| {
                    let mut x = x.borrow_mut();
                    x.use_std_out(false);
                    x.drain().collect()
                });
                __quantum__qis__dumpmachine__body(null_mut());
                let text: Vec<u8> = OUTPUT.with(|x| {
                    let mut x = x.borrow_mut();
                    let t: Vec<u8> = x.drain().collect();
                    let _ = x.write_all(&kept);
                    x.use_std_out(was);
                    t
                });
                same("buffer before a dump", &kept, &self.buf)?;
                __quantum__qis__dumpmachine__body(null_mut());
                self.produced(&text, false);
            }
            "w" => {
                let id = o.u(0) % 70;
                __quantum__rt__write_result(o.arg(1) & 1 == 1, qp(id));
                self.store.insert(id, o.arg(1) & 1 == 1);
            }
            "gate" => {
                let q = qp(o.u(0) % 3);
                if self.qubits < 3 {
                    for _ in self.qubits..3 {
                        __quantum__rt__qubit_allocate();
                    }
                    self.qubits = 3;
                }
                match o.arg(1) % 4 {
                    0 => __quantum__qis__h__body(q),
                    1 => __quantum__qis__x__body(q),
                    2 => __quantum__qis__t__body(q),
                    _ => __quantum__qis__ry__body(0.3, q),
                }
            }
            "init" => {
                __quantum__rt__initialize(null_mut());
                self.store.clear();
                self.qubits = 0;
            }
            k => return viol("harness", format!("unknown op {k}")),
        }
        self.check()
    }
}

fn flush_std() {
    while std::io::stdout().flush().is_err() {}
}

impl World for OutWorld {
    fn name(&self) -> &'static str {
        "output"
    }
    fn gen_run(&self, _prop: &str, r: &mut Rng) -> Trace {
        let mut t = Trace::new("output");
        gen_soft_plan(&mut t, r);
        let std = r.pct(65);
        // much output, kept for long
        let huge = r.one_in(400);
        t.set("std", i64::from(std && !huge));
        let long = huge || r.pct(35);
        let w = [
            30,
            if !huge && r.pct(50) { 5 } else { 0 },
            if !huge && r.pct(60) { 6 } else { 0 },
            if r.pct(50) { 6 } else { 0 },
            if r.pct(30) { 5 } else { 0 },
            if r.pct(40) { 3 } else { 0 },
            if r.pct(30) { 3 } else { 0 },
            if r.pct(20) { 4 } else { 0 },
            if r.pct(30) { 3 } else { 0 },
            if r.pct(40) { 4 } else { 0 },
            if r.pct(20) { 1 } else { 0 },
        ];
        let len = if r.pct(20) { r.range(40, 150) } else { r.range(3, 40) };
        for _ in 0..len {
            match r.weighted(&w) {
                0 => t.push("rec", &gen_rec(r, long)),
                1 => t.push("mode", &[r.below(2) as i64]),
                2 => t.push("drain", &[r.below(4) as i64, r.below(60) as i64]),
                3 if huge => t.push("read", &[*r.pick(&[65_535, 65_536, 65_537, 99_999, 131_072, 299_999])]),
                3 => t.push("read", &[if r.pct(60) { r.range(0, 40) } else { r.range(0, 2999) }]),
                4 => t.push("raw", &[gen_tag(r, long).max(0), r.below(2) as i64]),
                4 | 5 if huge => t.push("str", &[4 * r.range(20_000, 150_000) + r.range(0, 3)]),
                5 => t.push("str", &[gen_tag(r, long).max(0)]),
                6 => t.push("flush", &[]),
                7 => t.push("dump", &[]),
                8 => t.push("w", &[r.below(70) as i64, r.below(2) as i64]),
                9 => t.push("gate", &[r.below(3) as i64, r.below(4) as i64]),
                _ => t.push("init", &[]),
            }
        }
        t
    }
    fn exec(&self, t: &Trace, cx: &mut Cx) -> Result<(), Violation> {
        flush_std();
        set_rng_seed(1);
        __quantum__rt__initialize(null_mut());
        let std = t.get("std") == 1;
        OUTPUT.with(|x| x.borrow_mut().use_std_out(std));
        seams::stdout_begin(&plan_of(t), t.get("cycle") == 1);
        let mut s = St { cx, std, buf: vec![], out: vec![], due: 0, store: BTreeMap::new(), qubits: 0, cut: 0 };
        let r = (|| -> Res {
            for (i, o) in t.ops.iter().enumerate() {
                s.cx.at = i;
                s.cx.say(|| format!("{} {:?}", o.k, o.a));
                s.step(o)?;
            }
            s.cx.at = t.ops.len();
            Ok(())
        })();
        flush_std();
        let fired: Vec<u64> = seams::shared().fired.iter().map(|x| x.load(std::sync::atomic::Ordering::SeqCst)).collect();
        s.cx.st.add("fault.short write", fired[W_SHORT as usize]);
        s.cx.st.add("fault.interrupted write", fired[W_EINTR as usize]);
        let lost = seams::shared().overflow.load(std::sync::atomic::Ordering::SeqCst) == 1;
        let got = seams::stdout_end();
        r?;
        if lost {
            return viol("harness", "the output of one run exceeds the simulator's disk");
        }
        let want = std::mem::take(&mut s.out);
        same("standard output at the end", &got, &want)?;
        let rest: Vec<u8> = OUTPUT.with(|x| x.borrow_mut().drain().collect());
        same("buffer at the end", &rest, &s.buf)?;
        s.cx.ev_s(&got);
        s.cx.ev_s(&rest);
        Ok(())
    }
}
