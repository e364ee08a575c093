//! Seeds to runs, runs to verdicts: generates and executes runs over a range of seeds in several
//! processes, watches those processes, minimises a failing run, writes the replay file and the evidence.

use crate::rng::{Rng, hash_str, mix};
use crate::stats::{Cx, Stats, Violation};
use crate::trace::{Op, Trace};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub trait World: Sync + Send {
    fn name(&self) -> &'static str;
    /// Draws a whole run (configuration, operations, schedule, faults) from `r`.
    fn gen_run(&self, prop: &str, r: &mut Rng) -> Trace;
    /// Executes a run against the real code and judges it. Draws nothing.
    fn exec(&self, t: &Trace, cx: &mut Cx) -> Result<(), Violation>;
}

pub struct Prop {
    pub id: &'static str,
    pub worlds: &'static [(&'static str, u64)],
    pub quick: u64,
    pub thorough: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// Judgement over the merged counters of the whole batch (statistics).
    pub batch: Option<fn(&Stats) -> Option<Violation>>,
}

pub struct Suite {
    pub worlds: Vec<Box<dyn World>>,
    pub props: Vec<Prop>,
}

const HANG: Duration = Duration::from_secs(200);

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| (*s).to_string()))
            .unwrap_or_else(|| "?".into());
        let loc = i.location().map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
        if std::env::var_os("DST_PANICS").is_some() {
            eprintln!("panic: {m}{loc}");
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{m}{loc}"));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

fn run_seed(base: u64, prop: &str, idx: u64) -> u64 {
    mix(mix(base ^ hash_str(prop)).wrapping_add(idx))
}

impl Suite {
    fn prop(&self, id: &str) -> Option<&Prop> {
        self.props.iter().find(|p| p.id == id)
    }
    fn world(&self, n: &str) -> Option<&dyn World> {
        self.worlds.iter().find(|w| w.name() == n).map(AsRef::as_ref)
    }
    pub fn gen_run(&self, p: &Prop, base: u64, idx: u64) -> Trace {
        let seed = run_seed(base, p.id, idx);
        let mut r = Rng::new(seed);
        let w: Vec<u64> = p.worlds.iter().map(|x| x.1).collect();
        let name = p.worlds[r.weighted(&w)].0;
        let mut t = self.world(name).expect("world").gen_run(p.id, &mut r);
        t.property = p.id.into();
        t.world = name.into();
        t.seed = seed;
        t
    }
    /// Executes one trace in a fresh thread (so thread-local state of the system starts clean).
    pub fn exec(&self, t: &Trace, st: &mut Stats, verbose: bool) -> (Result<(), Violation>, u64, bool) {
        let Some(w) = self.world(&t.world) else {
            return (Err(Violation { class: "harness".into(), detail: format!("no world {}", t.world) }), 0, false);
        };
        let st_ref = &mut *st;
        std::thread::scope(|s| {
            let h = std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    let mut cx = Cx::new(st_ref, verbose);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.exec(t, &mut cx)));
                    let (log, nt, at) = (cx.log, cx.nontrivial, cx.at);
                    let r = match r {
                        Ok(r) => r,
                        Err(_) => Err(Violation {
                            class: "panic".into(),
                            detail: format!("unexpected panic at op {at}: {}", last_panic()),
                        }),
                    };
                    let r = r.map_err(|mut v| {
                        v.detail = format!("op #{at}: {}", v.detail);
                        v
                    });
                    (r, log, nt)
                })
                .expect("thread");
            h.join().expect("run thread")
        })
    }

    pub fn main(&self) -> i32 {
        // a failing allocation would otherwise spend its time on a stack trace
        unsafe { std::env::set_var("RUST_BACKTRACE", "0") };
        quiet_panics();
        let a: Vec<String> = std::env::args().filter(|a| a != "~pad").collect();
        let s: Vec<&str> = a.iter().skip(1).map(String::as_str).collect();
        match s.as_slice() {
            ["list"] => {
                for p in &self.props {
                    println!("{}", p.id);
                }
                0
            }
            ["check", prop] => self.check(prop),
            ["worker", prop, base, start, step, end, dir, id] => self.worker(
                prop,
                base.parse().unwrap(),
                start.parse().unwrap(),
                step.parse().unwrap(),
                end.parse().unwrap(),
                Path::new(dir),
                id,
            ),
            ["exec", file] | ["exec", file, "-v"] => self.exec_file(file, s.len() > 2, false),
            ["replay", file] => self.exec_file(file, true, true),
            ["gen", prop, base, idx] => {
                let t = self.gen_run(self.prop(prop).expect("property"), base.parse().unwrap(), idx.parse().unwrap());
                print!("{}", t.to_text(""));
                0
            }
            ["determinism", prop, n] => self.determinism(prop, n.parse().unwrap()),
            _ => {
                eprintln!("usage: check PROP | replay FILE | exec FILE [-v] | gen PROP SEED INDEX | determinism PROP N | list");
                2
            }
        }
    }

    fn exec_file(&self, file: &str, verbose: bool, replay: bool) -> i32 {
        let t = match std::fs::read_to_string(file).map_err(|e| e.to_string()).and_then(|s| Trace::parse(&s)) {
            Ok(t) => t,
            Err(e) => {
                eprintln!("{file}: {e}");
                return 2;
            }
        };
        let mut st = Stats::default();
        let (r, log) = if t.world == "batch" {
            let p = self.prop(&t.property).expect("property");
            let (from, to, base) = (t.get("from") as u64, t.get("to") as u64, t.get("base") as u64);
            for i in from..to {
                let tr = self.gen_run(p, base, i);
                let _ = self.exec(&tr, &mut st, false);
            }
            (p.batch.and_then(|f| f(&st)).map_or(Ok(()), Err), 0)
        } else if t.world == "runs" {
            // runs that only fail one after the other, in one process
            let p = self.prop(&t.property).expect("property");
            let mut last = (Ok(()), 0);
            for o in &t.ops {
                let tr = self.gen_run(p, t.get("base") as u64, o.arg(0) as u64);
                let (r, log, _) = self.exec(&tr, &mut st, false);
                last = (r, log);
                if last.0.is_err() {
                    break;
                }
            }
            last
        } else {
            let (r, log, _) = self.exec(&t, &mut st, verbose);
            (r, log)
        };
        match r {
            Ok(()) => {
                println!("held; event log {log:016x}");
                0
            }
            Err(v) => {
                println!("CLASS {}", v.class);
                println!("{}", v.detail);
                println!("event log {log:016x}");
                if replay {
                    println!("VIOLATION property={} replay={file}", t.property);
                    1
                } else {
                    10
                }
            }
        }
    }

    /// A worker executes nothing itself: its runs are divided into segments of various lengths, each
    /// executed in a process that has executed nothing before.
    fn worker(&self, prop: &str, base: u64, start: u64, step: u64, end: u64, dir: &Path, id: &str) -> i32 {
        const SEGMENTS: [u64; 8] = [1, 2, 1, 8, 1, 64, 4, 1500];
        crate::seams::no_core();
        let prog = std::fs::File::create(dir.join(format!("prog.{id}"))).expect("progress file");
        let part = dir.join(format!("part.{id}"));
        let mut st = Stats::default();
        let mut hashes = String::new();
        let mut out = String::new();
        let mut i = start;
        let mut n = 0;
        while i < end && !dir.join("stop").exists() {
            let to = end.min(i.saturating_add(SEGMENTS[n % SEGMENTS.len()].saturating_mul(step)));
            n += 1;
            let _ = std::fs::remove_file(&part);
            let me = unsafe { libc::getpid() };
            let pid = unsafe { libc::fork() };
            assert!(pid >= 0, "fork");
            if pid == 0 {
                unsafe {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    if libc::getppid() != me {
                        libc::_exit(1);
                    }
                }
                self.segment(prop, base, i, step, to, dir, &prog, &part);
                unsafe { libc::_exit(0) };
            }
            let mut ws = 0;
            while unsafe { libc::waitpid(pid, &raw mut ws, 0) } < 0 {}
            let Ok(txt) = std::fs::read_to_string(&part) else {
                // die as the segment died, leaving its progress and where it began
                let _ = std::fs::write(dir.join(format!("begun.{id}")), format!("g {i} {step}\n"));
                unsafe {
                    if libc::WIFSIGNALED(ws) {
                        libc::signal(libc::WTERMSIG(ws), libc::SIG_DFL);
                        libc::kill(me, libc::WTERMSIG(ws));
                        std::thread::sleep(Duration::from_secs(1));
                    }
                    libc::_exit(if libc::WIFEXITED(ws) { libc::WEXITSTATUS(ws).max(1) } else { 1 });
                }
            };
            st.merge(&Stats::from_text(&txt));
            for l in txt.lines().filter(|l| l.starts_with("h ")) {
                hashes.push_str(l);
                hashes.push('\n');
            }
            if parse_fail(&txt).is_some() {
                let _ = writeln!(out, "{}\ng {i} {step}", txt.lines().next().unwrap_or(""));
                break;
            }
            i = to;
        }
        let _ = std::fs::remove_file(&part);
        out.push_str(&st.to_text());
        out.push_str(&hashes);
        std::fs::write(dir.join(format!("out.{id}")), out).expect("worker output");
        let _ = prog.write_at(&0u64.to_le_bytes(), 0);
        0
    }

    #[allow(clippy::too_many_arguments)]
    fn segment(&self, prop: &str, base: u64, start: u64, step: u64, end: u64, dir: &Path, prog: &std::fs::File, part: &Path) {
        let p = self.prop(prop).expect("property");
        let known = load_known(prop);
        let mut st = Stats::default();
        let mut hashes = String::new();
        let mut out = String::new();
        let stop = dir.join("stop");
        let slow: Option<u128> = std::env::var("DST_SLOW").ok().and_then(|x| x.parse().ok());
        let mut i = start;
        while i < end {
            let _ = prog.write_at(&(i + 1).to_le_bytes(), 0);
            let t = self.gen_run(p, base, i);
            let began = slow.map(|_| Instant::now());
            let (r, log, nt) = self.exec(&t, &mut st, false);
            if let (Some(ms), Some(b)) = (slow, began) {
                if b.elapsed().as_millis() > ms {
                    eprintln!("slow run {i}: {} ms, {} ops", b.elapsed().as_millis(), t.ops.len());
                }
            }
            st.runs += 1;
            st.steps += t.ops.len() as u64;
            if nt {
                st.nontrivial += 1;
                st.distinct.insert(log);
            }
            if st.samples.len() < 2 && nt && t.ops.len() < 40 {
                st.samples.push(t.to_text(""));
            }
            if i < 2000 {
                let _ = writeln!(hashes, "h {i} {log}");
            }
            if let Err(v) = r {
                if known.iter().any(|k| k.0 == v.class) {
                    *st.known.entry(v.class.clone()).or_default() += 1;
                } else {
                    let _ = writeln!(out, "v {i} {} {}", v.class, v.detail.replace('\n', " "));
                    break;
                }
            }
            i += step;
            if (i / step).is_multiple_of(64) && stop.exists() {
                break;
            }
        }
        out.push_str(&st.to_text());
        out.push_str(&hashes);
        let tmp = part.with_added_extension("tmp");
        std::fs::write(&tmp, out).expect("segment output");
        std::fs::rename(&tmp, part).expect("segment output");
    }

    fn spawn(&self, prop: &str, base: u64, start: u64, step: u64, end: u64, dir: &Path, id: &str) -> Child {
        Command::new(std::env::current_exe().expect("exe"))
            .args(["worker", prop, &base.to_string(), &start.to_string(), &step.to_string(), &end.to_string()])
            .arg(dir)
            .arg(id)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(if std::env::var_os("DST_PANICS").is_some() || std::env::var_os("DST_SLOW").is_some() { Stdio::inherit() } else { Stdio::null() })
            .spawn()
            .expect("spawn worker")
    }

    fn determinism(&self, prop: &str, n: u64) -> i32 {
        let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
        let mut all: Vec<BTreeMap<u64, u64>> = vec![];
        for jobs in [1u64, 3, 8, 13] {
            let dir = tmpdir();
            let mut ch: Vec<Child> =
                (0..jobs).map(|w| self.spawn(prop, base, w, jobs, n, &dir, &w.to_string())).collect();
            for c in &mut ch {
                let _ = c.wait();
            }
            let mut m = BTreeMap::new();
            for w in 0..jobs {
                m.extend(read_hashes(&dir.join(format!("out.{w}"))));
            }
            let _ = std::fs::remove_dir_all(&dir);
            all.push(m);
        }
        let bad = all.iter().skip(1).map(|m| m.iter().filter(|(k, v)| all[0].get(k) != Some(v)).count()).sum::<usize>();
        println!("{prop}: {} runs x {} executions, {bad} event logs differ", all[0].len(), all.len());
        i32::from(bad > 0)
    }

    fn check(&self, prop: &str) -> i32 {
        let t0 = Instant::now();
        let Some(p) = self.prop(prop) else {
            eprintln!("unknown property {prop}");
            return 2;
        };
        let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
        let mut total = if thorough { p.thorough } else { p.quick };
        if let Some(n) = std::env::var("DST_RUNS").ok().and_then(|x| x.parse().ok()) {
            total = n;
        }
        let cap = Duration::from_secs(if thorough { 3000 } else { 420 });
        println!("{prop}: seed {base}, {total} runs");
        let jobs = std::thread::available_parallelism().map_or(4, std::num::NonZero::get).min(8) as u64;
        let dir = tmpdir();
        let mut kids: Vec<(u64, Option<Child>, u64, Instant)> = (0..jobs)
            .map(|w| (w, Some(self.spawn(prop, base, w, jobs, total, &dir, &w.to_string())), 0, Instant::now()))
            .collect();
        let mut fails: Vec<(u64, Violation, Option<(u64, u64)>)> = vec![];
        let mut truncated = false;
        let mut stop_at: Option<Instant> = None;
        let read_prog = |w: u64| -> u64 {
            std::fs::read(dir.join(format!("prog.{w}")))
                .ok()
                .and_then(|b| b.try_into().ok())
                .map_or(0, u64::from_le_bytes)
        };
        let mut harness_error = None;
        while kids.iter().any(|k| k.1.is_some()) {
            std::thread::sleep(Duration::from_millis(20));
            for (w, c, last, since) in &mut kids {
                let Some(ch) = c.as_mut() else { continue };
                if let Ok(Some(status)) = ch.try_wait() {
                    *c = None;
                    let out = dir.join(format!("out.{w}"));
                    if out.exists() {
                        let txt = std::fs::read_to_string(&out).unwrap_or_default();
                        if let Some((i, v)) = parse_fail(&txt) {
                            fails.push((i, v, parse_begun(&txt)));
                            let _ = std::fs::write(dir.join("stop"), "");
                            stop_at.get_or_insert(Instant::now() + Duration::from_secs(20));
                        }
                    } else {
                        // the worker process itself died: the run it was executing killed it
                        let idx = read_prog(*w);
                        if idx == 0 || status.signal() == Some(libc::SIGKILL) {
                            if stop_at.is_none() {
                                harness_error = Some(format!("worker {w} ended with {status} before or after its runs"));
                            }
                        } else {
                            let b = std::fs::read_to_string(dir.join(format!("begun.{w}"))).ok().and_then(|t| parse_begun(&t));
                            fails.push((idx - 1, death(&status), b));
                        }
                        let _ = std::fs::write(dir.join("stop"), "");
                        stop_at.get_or_insert(Instant::now() + Duration::from_secs(20));
                    }
                    continue;
                }
                let idx = read_prog(*w);
                if idx != *last {
                    *last = idx;
                    *since = Instant::now();
                } else if idx > 0 && since.elapsed() > HANG {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    *c = None;
                    fails.push((
                        idx - 1,
                        Violation { class: "hang".into(), detail: format!("no progress for {} s", HANG.as_secs()) },
                        None,
                    ));
                    stop_at.get_or_insert(Instant::now());
                }
            }
            if t0.elapsed() > cap && stop_at.is_none() {
                truncated = true;
                let _ = std::fs::write(dir.join("stop"), "");
                stop_at = Some(Instant::now() + Duration::from_secs(60));
            }
            if stop_at.is_some_and(|t| Instant::now() > t) {
                for k in &mut kids {
                    if let Some(c) = k.1.as_mut() {
                        let _ = c.kill();
                        let _ = c.wait();
                    }
                    k.1 = None;
                }
            }
        }
        let mut st = Stats::default();
        let mut hashes = BTreeMap::new();
        for w in 0..jobs {
            let txt = std::fs::read_to_string(dir.join(format!("out.{w}"))).unwrap_or_default();
            st.merge(&Stats::from_text(&txt));
            hashes.extend(read_hashes(&dir.join(format!("out.{w}"))));
        }
        let search_s = t0.elapsed().as_secs_f64();
        // Re-execute a sample of the runs in another process, at another stride, and compare event logs.
        let (mut redo, mut differ) = (0u64, 0u64);
        if fails.is_empty() && harness_error.is_none() {
            let n = 64.min(total);
            let mut c = self.spawn(prop, base, 0, 1, n, &dir, "again");
            let dl = Instant::now() + Duration::from_secs(60);
            while Instant::now() < dl && matches!(c.try_wait(), Ok(None)) {
                std::thread::sleep(Duration::from_millis(10));
            }
            let _ = c.kill();
            let _ = c.wait();
            for (i, h) in read_hashes(&dir.join("out.again")) {
                if let Some(x) = hashes.get(&i) {
                    redo += 1;
                    differ += u64::from(*x != h);
                }
            }
        }
        let _ = std::fs::remove_dir_all(&dir);

        fails.sort_by_key(|f| f.0);
        let mut replay: Option<(Violation, PathBuf)> = None;
        if let Some((idx, v, begun)) = fails.first() {
            let mut t = self.gen_run(p, base, *idx);
            if let Some((from, step)) = *begun
                && from < *idx
                && !self.fails_as(&t, &v.class)
            {
                // it takes the runs before it in the same process
                t = Trace::new("runs");
                t.property = prop.into();
                t.seed = mix(base ^ *idx);
                t.set("base", base as i64);
                let mut i = from;
                while i <= *idx {
                    t.push("run", &[i as i64]);
                    i += step;
                }
            }
            let (t, v) = self.minimise(&t, v, Duration::from_secs(if thorough { 240 } else { 90 }));
            let path = replay_path(prop, t.seed);
            let note = format!(
                "violated: {}\n{}\nfound by VERIF_SEED={base}, run {idx}; reproduce with: dst replay <this file>",
                v.class, v.detail
            );
            let _ = std::fs::write(&path, t.to_text(&note));
            replay = Some((v, path));
        } else if let Some(v) = p.batch.and_then(|f| f(&st)) {
            let mut t = Trace::new("batch");
            t.property = prop.into();
            t.set("base", base as i64);
            t.set("from", 0);
            t.set("to", total as i64);
            let path = replay_path(prop, base);
            let _ = std::fs::write(&path, t.to_text(&format!("violated: {}\n{}", v.class, v.detail)));
            // shrink the batch: the shortest power-of-two prefix that still shows it
            let mut n = total;
            while n > 64 && fails.is_empty() {
                let mut t2 = t.clone();
                t2.set("to", (n / 2) as i64);
                let f = path.with_extension("try");
                let _ = std::fs::write(&f, t2.to_text(""));
                let hit = self.try_file(&f, Duration::from_secs(60)).is_some_and(|x| x.class == v.class);
                let _ = std::fs::remove_file(&f);
                if !hit {
                    break;
                }
                n /= 2;
                let _ = std::fs::write(&path, t2.to_text(&format!("violated: {}\n{}", v.class, v.detail)));
            }
            replay = Some((v, path));
        }
        let wall = t0.elapsed().as_secs_f64();
        write_evidence(p, base, thorough, &st, search_s, wall, replay.is_some(), truncated, redo, differ, jobs);
        for (class, desc) in load_known(prop) {
            if st.known.contains_key(&class) {
                println!("KNOWN-FINDING: property={prop} {desc}");
            }
        }
        println!(
            "{prop}: {} runs, {} distinct non-trivial, {} steps, {:.1} s; determinism recheck {redo} runs, {differ} differ",
            st.runs, st.distinct.len(), st.steps, wall
        );
        if let Some((v, path)) = replay {
            println!("{}: {}", v.class, v.detail);
            println!("VIOLATION property={prop} replay={}", path.display());
            return 1;
        }
        if let Some(e) = harness_error {
            eprintln!("harness error: {e}");
            return 2;
        }
        0
    }

    fn try_file(&self, f: &Path, limit: Duration) -> Option<Violation> {
        let mut c = Command::new(std::env::current_exe().ok()?)
            .arg("exec")
            .arg(f)
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .ok()?;
        let t0 = Instant::now();
        loop {
            if let Ok(Some(s)) = c.try_wait() {
                let mut out = String::new();
                use std::io::Read;
                let _ = c.stdout.take().map(|mut o| o.read_to_string(&mut out));
                return match s.code() {
                    Some(0) => None,
                    Some(10) => {
                        let mut l = out.lines();
                        let class = l.next()?.strip_prefix("CLASS ")?.to_string();
                        Some(Violation { class, detail: l.next().unwrap_or("").to_string() })
                    }
                    Some(_) => None,
                    None => Some(death(&s)),
                };
            }
            if t0.elapsed() > limit {
                let _ = c.kill();
                let _ = c.wait();
                return Some(Violation { class: "hang".into(), detail: format!("no end within {} s", limit.as_secs()) });
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }

    fn fails_as(&self, t: &Trace, class: &str) -> bool {
        let file = std::env::temp_dir().join(format!("dst-one-{}.trace", std::process::id()));
        let _ = std::fs::write(&file, t.to_text(""));
        let v = self.try_file(&file, Duration::from_secs(if class == "hang" { 15 } else { 60 }));
        let _ = std::fs::remove_file(&file);
        v.is_some_and(|v| v.class == class)
    }

    /// Shrinks a failing run: drops operations, then lowers arguments and configuration values, keeping
    /// only changes under which the same class of violation still occurs.
    fn minimise(&self, t: &Trace, v: &Violation, budget: Duration) -> (Trace, Violation) {
        let t0 = Instant::now();
        let file = std::env::temp_dir().join(format!("dst-min-{}.trace", std::process::id()));
        let limit = Duration::from_secs(if v.class == "hang" { 15 } else { 60 });
        let mut best_v = v.clone();
        let mut test = |c: &Trace| -> bool {
            if std::fs::write(&file, c.to_text("")).is_err() {
                return false;
            }
            match self.try_file(&file, limit) {
                Some(x) if x.class == v.class => {
                    best_v = x;
                    true
                }
                _ => false,
            }
        };
        let mut best = t.clone();
        if !test(&best) {
            // does not reproduce on its own (should not happen): report it unminimised
            let _ = std::fs::remove_file(&file);
            return (best, v.clone());
        }
        let mut n = 2usize;
        while best.ops.len() >= 2 && t0.elapsed() < budget {
            let chunk = best.ops.len().div_ceil(n);
            let mut reduced = false;
            let mut i = 0;
            while i < best.ops.len() && t0.elapsed() < budget {
                let mut c = best.clone();
                let e = (i + chunk).min(c.ops.len());
                c.ops.drain(i..e);
                if test(&c) {
                    best = c;
                    reduced = true;
                } else {
                    i = e;
                }
            }
            if !reduced || chunk == 1 {
                if chunk == 1 && !reduced {
                    break;
                }
                n = if chunk == 1 { best.ops.len().max(1) } else { (n * 2).min(best.ops.len().max(1)) };
            }
        }
        for round in 0..if best.world == "runs" { 0 } else { 2 } {
            for i in 0..best.ops.len() {
                for j in 0..best.ops[i].a.len() {
                    let cur = best.ops[i].a[j];
                    for cand in [0, 1, 15, 7, cur / 2, cur - 1] {
                        if t0.elapsed() > budget || best.ops[i].a[j] == 0 || cand.unsigned_abs() >= best.ops[i].a[j].unsigned_abs() {
                            continue;
                        }
                        let mut c = best.clone();
                        c.ops[i].a[j] = cand;
                        if test(&c) {
                            best = c;
                        }
                    }
                }
            }
            for i in 0..best.cfg.len() {
                if t0.elapsed() > budget || best.cfg[i].1 == 0 || round > 0 {
                    continue;
                }
                let mut c = best.clone();
                c.cfg[i].1 = 0;
                if test(&c) {
                    best = c;
                }
            }
        }
        let _ = test(&best);
        let _ = std::fs::remove_file(&file);
        (best, best_v)
    }
}

fn death(s: &std::process::ExitStatus) -> Violation {
    let sig = s.signal().unwrap_or(0);
    let name = match sig {
        libc::SIGABRT => "SIGABRT",
        libc::SIGSEGV => "SIGSEGV",
        libc::SIGBUS => "SIGBUS",
        libc::SIGILL => "SIGILL",
        libc::SIGFPE => "SIGFPE",
        _ => "other",
    };
    Violation { class: format!("died-{name}"), detail: format!("the process died in this run: {s}") }
}

fn parse_fail(t: &str) -> Option<(u64, Violation)> {
    let l = t.lines().next()?.strip_prefix("v ")?;
    let mut it = l.splitn(3, ' ');
    let i = it.next()?.parse().ok()?;
    let class = it.next()?.to_string();
    Some((i, Violation { class, detail: it.next().unwrap_or("").to_string() }))
}

/// Where the segment of the failing run began, and its stride.
fn parse_begun(t: &str) -> Option<(u64, u64)> {
    let mut it = t.lines().find_map(|l| l.strip_prefix("g "))?.split(' ');
    Some((it.next()?.parse().ok()?, it.next()?.parse().ok()?))
}

fn read_hashes(p: &Path) -> BTreeMap<u64, u64> {
    std::fs::read_to_string(p)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let mut it = l.strip_prefix("h ")?.split(' ');
            Some((it.next()?.parse().ok()?, it.next()?.parse().ok()?))
        })
        .collect()
}

fn root() -> PathBuf {
    std::env::var_os("DST_ROOT").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

fn tmpdir() -> PathBuf {
    use std::sync::atomic::{AtomicU32, Ordering};
    static N: AtomicU32 = AtomicU32::new(0);
    let d = std::env::temp_dir().join(format!("dst-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

fn replay_path(prop: &str, seed: u64) -> PathBuf {
    let d = root().join("replays");
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("{prop}-{seed:016x}.trace"))
}

/// (class, description) of the findings recorded for a property. Read only; never written here.
fn load_known(prop: &str) -> Vec<(String, String)> {
    std::fs::read_to_string(root().join("known_findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let r = l.strip_prefix("finding: property=")?;
            let (id, r) = r.split_once(' ')?;
            let (class, desc) = r.strip_prefix("class=")?.split_once(' ')?;
            (id == prop).then(|| (class.to_string(), desc.to_string()))
        })
        .collect()
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn js_map<'a>(m: impl Iterator<Item = (&'a String, &'a u64)>) -> String {
    let v: Vec<String> = m.map(|(k, v)| format!("{}: {v}", js(k))).collect();
    format!("{{{}}}", v.join(", "))
}

fn js_list(v: &[&str]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "))
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    p: &Prop,
    base: u64,
    thorough: bool,
    st: &Stats,
    search_s: f64,
    wall: f64,
    violated: bool,
    truncated: bool,
    redo: u64,
    differ: u64,
    jobs: u64,
) {
    let per_h = |n: u64| (n as f64 / search_s.max(0.001) * 3600.0).round() as u64;
    let pick = |pre: &str| -> BTreeMap<String, u64> {
        st.count.iter().filter_map(|(k, v)| Some((k.strip_prefix(pre)?.to_string(), *v))).collect()
    };
    let (faults, ops, sched, checks) = (pick("fault."), pick("op."), pick("sched."), pick("check."));
    let bern: Vec<String> = st
        .bern
        .iter()
        .map(|(k, b)| {
            let z = if b.v > 0.0 { (b.o - b.p) / b.v.sqrt() } else { 0.0 };
            format!("{}: {{\"n\": {}, \"observed\": {}, \"expected\": {:.2}, \"z\": {:.3}}}", js(k), b.n, b.o, b.p, z)
        })
        .collect();
    let samples: Vec<String> = st.samples.iter().map(|s| js(s)).collect();
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {base},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"simulated_runs\": {},\n  \"runs_and_seeds_per_hour\": {},\n  \"simulated_steps\": {},\n  \"simulated_time\": \"the system has no clocks or timers; simulated time is counted in steps\",\n  \"faults_injected\": {},\n  \"schedule_events\": {},\n  \"operations_executed\": {},\n  \"oracle_checks\": {},\n  \"probes\": {},\n  \"distinct_probes\": {},\n  \"statistics\": {{{}}},\n  \"known_findings_seen\": {},\n  \"determinism_recheck\": {{\"runs\": {redo}, \"differing_event_logs\": {differ}}},\n  \"worker_processes\": {jobs},\n  \"stopped_at_wall_limit\": {truncated},\n  \"components_real\": {},\n  \"components_stub\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {wall:.2},\n \"violations\": {}\n}}\n",
        js(p.id),
        js(if thorough { "thorough" } else { "quick" }),
        js(p.level),
        st.runs,
        st.distinct.len(),
        js(p.rule),
        samples.join(", "),
        st.runs,
        per_h(st.runs),
        st.steps,
        js_map(faults.iter()),
        js_map(sched.iter()),
        js_map(ops.iter()),
        js_map(checks.iter()),
        js_map(st.probes.iter().take(400)),
        st.probes.len(),
        bern.join(", "),
        js_map(st.known.iter()),
        js_list(p.real),
        js_list(p.stub),
        js_list(p.assumptions),
        u8::from(violated)
    );
    let d = root().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    let _ = std::fs::write(d.join(format!("{}.json", p.id)), s);
}

/// Small helper for worlds: an op list builder with a name check.
pub fn op(k: &str, a: &[i64]) -> Op {
    Op::new(k, a)
}
