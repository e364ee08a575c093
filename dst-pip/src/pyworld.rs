//! The Python package in a simulated interpreter: histories of calls, bound by Python's rules, with callbacks that
//! are the simulator's: they keep what they are given, raise, or call back into the package.

use dst::driver::{Prop, Suite, World};
use dst::rng::{Rng, mix};
use dst::seams::{self, W_EINTR, W_FULL, W_SHORT};
use dst::stats::{Cx, Res, Violation, viol};
use dst::trace::{Op, Trace};
use pyo3::impl_::{Member, Obj};
use pyo3::{PyErr, Python};
use std::cell::RefCell;
use std::io::{self, Read, Seek, Write};
use std::os::fd::FromRawFd;
use std::path::PathBuf;
use std::rc::Rc;

pub struct PyWorld;

// ---- programs

struct Prog {
    text: Vec<u8>,
    bitcode: Vec<u8>,
    /// the output does not depend on chance
    still: bool,
    names: Vec<String>,
}

const LABELS: [&str; 5] = ["", "r", "0_1a", "a label", "\u{e9}\u{4e00}"];
/// Makes pieces of several hundred and several thousand bytes.
const LONG: [usize; 2] = [400, 5000];

fn build(o: &Op) -> Prog {
    let (seed, size, still, entries, defect) = (o.arg(1) as u64, o.u(2) % 12, o.arg(3) & 1 == 1, 1 + o.u(4) % 2, o.u(5) % 5);
    let mut r = Rng::new(mix(seed));
    let names: Vec<String> = ["main", "Other one"][..entries].iter().map(|s| (*s).to_string()).collect();
    let mut s = String::new();
    let long = LONG.map(|n| "long ".repeat(n / 5));
    let lengthy = r.pct(25);
    for (i, l) in LABELS.iter().copied().chain(long.iter().map(String::as_str)).enumerate() {
        let b: String = l.bytes().map(|b| format!("\\{b:02X}")).collect();
        s.push_str(&format!("@l{i} = internal constant [{} x i8] c\"{b}\\00\"\n", l.len() + 1));
    }
    for (e, n) in names.iter().enumerate() {
        let args = if defect == 4 { "i64 %n" } else { "" };
        s.push_str(&format!("define void @\"{n}\"({args}){} {{\n", if defect == 1 { String::new() } else { format!(" #{e}") }));
        for k in 0..size {
            let q = format!("ptr inttoptr (i64 {} to ptr)", r.range(0, 3));
            let some = |r: &mut Rng| if lengthy && r.pct(40) { r.range(5, 6) } else { r.range(0, 4) };
            let l = if r.pct(20) { "ptr null".to_string() } else { format!("ptr @l{}", some(&mut r)) };
            let call = |f: &str, a: &str| format!("  call void @{f}({a})\n");
            s.push_str(&match r.below(11) {
                0 | 1 => call("__quantum__qis__x__body", &q),
                2..=4 if !still => call("__quantum__qis__h__body", &q),
                2..=5 => call("__quantum__qis__mz__body", &format!("{q}, {q}")) + &call("__quantum__rt__result_record_output", &format!("{q}, {l}")),
                6 => call("__quantum__rt__int_record_output", &format!("i64 {}, {l}", r.range(-9, 99))),
                7 => call("__quantum__rt__bool_record_output", &format!("i1 {}, {l}", r.range(0, 1))),
                8 => call("__quantum__rt__double_record_output", &format!("double {}.5, {l}", r.range(-9, 99))),
                9 => call("__quantum__rt__tuple_record_output", &format!("i64 {}, {l}", r.range(0, 4))),
                _ => format!("  %s{k} = call ptr @__quantum__rt__string_create(ptr @l{})\n", some(&mut r))
                    + &call("__quantum__rt__message", &format!("ptr %s{k}"))
                    + &format!("  call void @__quantum__rt__string_update_reference_count(ptr %s{k}, i32 -1)\n"),
            });
        }
        if defect == 3 {
            s.push_str("  call void @__quantum__rt__unheard_of(ptr null)\n");
        }
        s.push_str("  ret void\n}\n");
    }
    s.push_str(
        "declare void @__quantum__qis__x__body(ptr)\ndeclare void @__quantum__qis__h__body(ptr)\ndeclare void @__quantum__qis__mz__body(ptr, ptr)\n\
         declare void @__quantum__rt__result_record_output(ptr, ptr)\ndeclare void @__quantum__rt__int_record_output(i64, ptr)\n\
         declare void @__quantum__rt__bool_record_output(i1, ptr)\ndeclare void @__quantum__rt__double_record_output(double, ptr)\n\
         declare void @__quantum__rt__tuple_record_output(i64, ptr)\ndeclare ptr @__quantum__rt__string_create(ptr)\n\
         declare void @__quantum__rt__string_update_reference_count(ptr, i32)\ndeclare void @__quantum__rt__message(ptr)\n\
         declare void @__quantum__rt__unheard_of(ptr)\n\
         attributes #0 = { \"entry_point\" \"required_num_qubits\"=\"4\" }\nattributes #1 = { \"EntryPoint\" }\n",
    );
    let mut text = s.into_bytes();
    let mut bitcode = vec![];
    if defect == 2 {
        text = b"this is not a program".to_vec();
    } else {
        let c = inkwell::context::Context::create();
        let mut z = text.clone();
        z.push(0);
        let m = c
            .create_module_from_ir(inkwell::memory_buffer::MemoryBuffer::create_from_memory_range(&z[..text.len()], ""))
            .unwrap_or_else(|e| panic!("the generated program does not parse: {e}\n{}", String::from_utf8_lossy(&text)));
        bitcode.extend_from_slice(m.write_bitcode_to_memory().as_slice());
    }
    Prog { text, bitcode, still, names }
}

// ---- calls

const FUNCTIONS: [&str; 3] = ["run", "run_bytes", "main"];

/// What a call passes for one argument: nothing, a good value, or something wrong.
fn shots(c: i64) -> (Option<Obj>, Option<u32>) {
    match c.rem_euclid(14) {
        0 | 1 => (None, Some(1)),
        2 => (Some(Obj::None), Some(1)),
        3 => (Some(Obj::Int(0)), Some(0)),
        4 => (Some(Obj::Int(1)), Some(1)),
        5 | 6 => (Some(Obj::Int(2)), Some(2)),
        7 => (Some(Obj::Int(5)), Some(5)),
        8 => (Some(Obj::Bool(true)), Some(1)),
        9 => (Some(Obj::Int(3)), Some(3)),
        10 => (Some(Obj::Int(-1)), None),
        11 => (Some(Obj::Int(1 << 32)), None),
        12 => (Some(Obj::Str("3".into())), None),
        _ => (Some(Obj::Float(1.5)), None),
    }
}

fn seed(c: i64) -> (Option<Obj>, Option<Option<u64>>) {
    match c.rem_euclid(16) {
        0 => (None, Some(None)),
        1 => (Some(Obj::None), Some(None)),
        2 => (Some(Obj::Int(0)), Some(Some(0))),
        3 => (Some(Obj::Int(i128::from(u64::MAX))), Some(Some(u64::MAX))),
        4 => (Some(Obj::Int(1 << 63)), Some(Some(1 << 63))),
        5 => (Some(Obj::Int(-1)), None),
        6 => (Some(Obj::Int(1 << 64)), None),
        7 => (Some(Obj::Str("x".into())), None),
        n => (Some(Obj::Int(i128::from(n) * 37)), Some(Some(n as u64 * 37))),
    }
}

fn entry(c: i64, p: &Prog) -> (Option<Obj>, Option<Option<String>>) {
    let s = |n: &str| (Some(Obj::Str(n.to_string())), Some(Some(n.to_string())));
    match c.rem_euclid(11) {
        0..=2 => (None, Some(None)),
        3 => (Some(Obj::None), Some(None)),
        4 => s(&p.names[0]),
        5 => s(p.names.last().expect("a name")),
        6 => s("nowhere"),
        8 => s(""),
        9 => s(&format!("{} ", p.names[0])),
        10 => s(&p.names[0].to_uppercase()),
        _ => (Some(Obj::Int(3)), None),
    }
}

/// One call and the calls made out of its callback.
#[derive(Clone, Debug)]
struct Call {
    id: usize,
    op: Op,
    /// at the k-th piece: raise, or make this call
    at: Vec<(usize, Option<Call>)>,
}

fn parse(ops: &[Op]) -> Vec<Call> {
    fn build(v: &[&Op], i: &mut usize, level: i64, id: &mut usize) -> Vec<Call> {
        let mut out: Vec<Call> = vec![];
        while *i < v.len() {
            let o = v[*i];
            let l = if o.k == "call" { o.arg(0).clamp(0, 2) } else { -1 };
            match o.k.as_str() {
                "raise" => {
                    if let Some(c) = out.last_mut() {
                        c.at.push((o.u(0) % 12, None));
                    }
                    *i += 1;
                }
                _ if l > level => {
                    if out.is_empty() {
                        *i += 1;
                        continue;
                    }
                    let subs = build(v, i, level + 1, id);
                    let c = out.last_mut().expect("a call");
                    for s in subs {
                        c.at.push((s.op.u(9) % 12, Some(s)));
                    }
                }
                _ if l == level => {
                    *id += 1;
                    out.push(Call { id: *id, op: o.clone(), at: vec![] });
                    *i += 1;
                }
                _ => return out,
            }
        }
        out
    }
    let v: Vec<&Op> = ops.iter().filter(|o| o.k == "call" || o.k == "raise").collect();
    build(&v, &mut 0, 0, &mut 0)
}

/// What came of one call.
#[derive(Default)]
struct Got {
    /// str() of each piece given to the callback
    pieces: Vec<Obj>,
    stdout: Vec<u8>,
    error: Option<PyErr>,
    raised: bool,
    inner_failed: bool,
}

struct Interp {
    module: pyo3::Bound<'static, pyo3::types::PyModule>,
    progs: Vec<Prog>,
    dir: PathBuf,
    py: Python<'static>,
    done: RefCell<Vec<(Call, Got)>>,
    nested: std::cell::Cell<u64>,
}

fn flushed() -> usize {
    for _ in 0..1000 {
        match io::stdout().flush() {
            Err(e) if e.kind() == io::ErrorKind::Interrupted => (),
            _ => break,
        }
    }
    seams::stdout_len() as usize
}

/// No callback, a callback, None, something that cannot be called.
fn callback(o: &Op) -> usize {
    match o.arg(6).rem_euclid(10) {
        0..=5 => 1,
        6 => 0,
        7 => 2,
        8 => 0,
        _ => 3,
    }
}

impl Interp {
    fn call(self: &Rc<Self>, c: &Call) -> Result<(), PyErr> {
        let py = self.py;
        let o = &c.op;
        let p = &self.progs[o.u(2) % self.progs.len()];
        let which = o.u(1) % 3;
        let bits = o.arg(7) & 1 == 1 && !p.bitcode.is_empty();
        let src = if bits { &p.bitcode } else { &p.text };
        let got = Rc::new(RefCell::new(Got::default()));
        let begin = flushed();
        let path = match o.arg(8).rem_euclid(10) {
            8 if o.arg(7) & 16 != 0 => self.dir.join(format!("p{}.{} ", o.u(2) % self.progs.len(), if bits { "bc" } else { "ll" })),
            9 => self.dir.join("missing.ll"),
            8 => self.dir.join(format!("p{}.txt", o.u(2) % self.progs.len())),
            _ => self.dir.join(format!("p{}.{}", o.u(2) % self.progs.len(), if bits { "bc" } else { "ll" })),
        };
        let path = path.to_string_lossy().into_owned();
        let r = if which == 2 {
            // called without arguments, it takes the process's own
            let bare = o.u(1) / 3 % 2 == 1;
            let from_stdin = bare && o.arg(7) & 4 != 0 && o.arg(8).rem_euclid(10) < 8;
            let mut v = vec!["qir-runner".to_string()];
            if !from_stdin {
                v.extend(["-f".into(), path]);
            }
            if let (_, Some(n)) = shots(o.arg(4)) {
                v.extend(["-s".into(), n.to_string()]);
            } else {
                v.extend(["-s".into(), "-1".into()]);
            }
            match seed(o.arg(5)).1 {
                Some(Some(s)) => v.extend(["-r".into(), s.to_string()]),
                Some(None) => (),
                None => v.extend(["-r".into(), "x".into()]),
            }
            if let Some(Some(n)) = entry(o.arg(3), p).1 {
                v.extend(["-e".into(), n]);
            }
            // an argument nobody asked for
            match o.arg(7).rem_euclid(1024) / 128 {
                5 => v.insert(1, String::new()),
                6 => v.push(String::new()),
                7 => v.push("extra".into()),
                _ => (),
            }
            if bare {
                process(v, if from_stdin { src } else { b"" }, o.arg(7) & 8 != 0)
            } else {
                let v = Obj::List(v.into_iter().map(Obj::Str).collect());
                self.invoke("main", vec![v], vec![])
            }
        } else {
            let cb = match callback(o) {
                0 => None,
                2 => Some(Obj::None),
                3 => Some(Obj::Int(7)),
                _ => {
                    let (me, c, got) = (self.clone(), c.clone(), got.clone());
                    Some(Obj::Function(Rc::new(move |_py, mut args| {
                        let n = got.borrow().pieces.len();
                        if args.len() != 1 {
                            return Err(PyErr::of("TypeError", format!("the callback was given {} arguments", args.len())));
                        }
                        got.borrow_mut().pieces.push(args.remove(0));
                        for (k, what) in &c.at {
                            if *k != n {
                                continue;
                            }
                            match what {
                                None => {
                                    got.borrow_mut().raised = true;
                                    return Err(PyErr::of("ValueError", "the callback raises".into()));
                                }
                                Some(s) => {
                                    me.nested.set(me.nested.get() + 1);
                                    let before = flushed();
                                    let r = me.call(s);
                                    // what the inner call printed is not the outer call's
                                    let after = flushed();
                                    got.borrow_mut().stdout.extend([0xFF, 0xFF]);
                                    got.borrow_mut().stdout.extend((before as u64).to_le_bytes());
                                    got.borrow_mut().stdout.extend((after as u64).to_le_bytes());
                                    if r.is_err() && s.op.arg(9) & 16 != 0 {
                                        // the callback does not handle it
                                        got.borrow_mut().inner_failed = true;
                                        return r.map(|()| Obj::None);
                                    }
                                }
                            }
                        }
                        Ok(if n % 3 == 0 { Obj::Int(5) } else { Obj::None })
                    })))
                }
            };
            let first = if which == 0 {
                match o.arg(8).rem_euclid(10) {
                    7 => Obj::Bytes(path.into_bytes()),
                    _ => Obj::Str(path),
                }
            } else {
                match o.arg(8).rem_euclid(10) {
                    7 => Obj::Str("text".into()),
                    6 => Obj::List(src.iter().map(|b| Obj::Int(i128::from(*b))).collect()),
                    5 => Obj::Bytes(src[..src.len().min(3)].to_vec()),
                    _ => Obj::Bytes(src.clone()),
                }
            };
            // some by position, the rest by name, as the documented signature has them
            let all = [
                (if which == 0 { "path" } else { "bytes" }, Some(first)),
                ("entry_point", entry(o.arg(3), p).0),
                ("shots", shots(o.arg(4)).0),
                ("rng_seed", seed(o.arg(5)).0),
                ("output_fn", cb),
            ];
            let by_position = (o.u(7) / 2) % 6;
            let (mut args, mut kw) = (vec![], vec![]);
            for (i, (n, v)) in all.into_iter().enumerate() {
                if i < by_position {
                    args.push(v.unwrap_or(Obj::None));
                } else if let Some(v) = v {
                    kw.insert(if o.arg(7) & 64 != 0 { 0 } else { kw.len() }, (n.to_string(), v));
                }
            }
            match o.arg(7).rem_euclid(1024) / 128 {
                5 => kw.push(("seed".into(), Obj::Int(1))),
                6 if !args.is_empty() => kw.push((if which == 0 { "path" } else { "bytes" }.into(), Obj::Str("again".into()))),
                7 if by_position == 0 => {
                    kw.retain(|x| x.0 != "path" && x.0 != "bytes");
                }
                _ => (),
            }
            self.invoke(FUNCTIONS[which], args, kw)
        };
        let end = flushed();
        let marks = std::mem::take(&mut got.borrow_mut().stdout);
        let all = seams::stdout_bytes();
        let mut own = vec![];
        let mut at = begin;
        for m in marks.chunks_exact(18) {
            let b = u64::from_le_bytes(m[2..10].try_into().expect("8")) as usize;
            let e = u64::from_le_bytes(m[10..18].try_into().expect("8")) as usize;
            own.extend(&all[at..b]);
            at = e;
        }
        own.extend(&all[at.min(end)..end]);
        {
            let mut g = got.borrow_mut();
            g.stdout = own;
            g.error = r.clone().err();
        }
        let g = std::mem::take(&mut *got.borrow_mut());
        self.done.borrow_mut().push((c.clone(), g));
        let _ = py;
        r
    }

    fn invoke(&self, name: &str, args: Vec<Obj>, kw: Vec<(String, Obj)>) -> Result<(), PyErr> {
        match self.module.member(name) {
            Some(Member::Function(f)) => match f.invoke(self.py, args, kw)? {
                Obj::None => Ok(()),
                _ => Err(PyErr::of("harness", "a call returned a value".into())),
            },
            _ => Err(PyErr::of("AttributeError", format!("the module has no function {name}"))),
        }
    }
}

fn memory_file(data: &[u8]) -> i32 {
    unsafe {
        let fd = libc::memfd_create(c"stream".as_ptr(), libc::MFD_CLOEXEC);
        assert!(fd >= 0, "memfd");
        let mut f = std::mem::ManuallyDrop::new(std::fs::File::from_raw_fd(fd));
        f.write_all(data).and_then(|()| f.rewind()).expect("memfd");
        fd
    }
}

/// The command the package installs: a process of its own, whose arguments `main` finds by itself.
fn process(args: Vec<String>, input: &[u8], none: bool) -> Result<(), PyErr> {
    let c = |s: String| std::ffi::CString::new(s).expect("no zeros");
    let argv: Vec<_> = std::iter::once("/usr/bin/python3".to_string()).chain(args).map(c).collect();
    let mut argv: Vec<_> = argv.iter().map(|s| s.as_ptr()).collect();
    argv.push(std::ptr::null());
    let env: Vec<_> = std::env::vars()
        .filter(|(k, _)| k.starts_with("LD_") || k == "PATH")
        .map(|(k, v)| format!("{k}={v}"))
        .chain([format!("DST_PIP_MAIN={}", if none { "none" } else { "absent" })])
        .map(c)
        .collect();
    let mut env: Vec<_> = env.iter().map(|s| s.as_ptr()).collect();
    env.push(std::ptr::null());
    let (fin, fout) = (memory_file(input), memory_file(b""));
    let end = seams::in_child(|| unsafe {
        libc::dup2(fin, 0);
        libc::dup2(fout, 1);
        libc::execve(c"/proc/self/exe".as_ptr(), argv.as_ptr(), env.as_ptr());
        78
    });
    let mut out = vec![];
    unsafe {
        let mut f = std::fs::File::from_raw_fd(fout);
        f.rewind().and_then(|()| f.read_to_end(&mut out)).expect("memfd");
        libc::close(fin);
    }
    let mut rest = &out[..];
    while !rest.is_empty() {
        match io::stdout().write(rest) {
            Ok(n) => rest = &rest[n..],
            Err(e) if e.kind() == io::ErrorKind::Interrupted => (),
            Err(e) => panic!("{e}"),
        }
    }
    match end {
        seams::End::Exit(0) => Ok(()),
        seams::End::Exit(1) => Err(PyErr::of("RuntimeError", "ended with exit status 1".into())),
        e => Err(PyErr::of("harness", format!("the process ended {e:?}"))),
    }
}

/// Such a process.
pub fn bare_main(none: bool) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    Python::attach(|py| {
        let Ok(m) = crate::python::_native::init(py) else { return 79 };
        let Some(Member::Function(f)) = m.member("main") else { return 79 };
        let r = f.invoke(py, if none { vec![Obj::None] } else { vec![] }, vec![]);
        while io::stdout().flush().is_err() {}
        match r {
            Ok(Obj::None) => 0,
            Err(e) if e.kind == "RuntimeError" => 1,
            _ => 2,
        }
    })
}

/// What must come of a call: None if its arguments are to be refused.
fn want(c: &Call, progs: &[Prog]) -> Option<Result<Vec<u8>, ()>> {
    let o = &c.op;
    let p = &progs[o.u(2) % progs.len()];
    let which = o.u(1) % 3;
    let bits = o.arg(7) & 1 == 1 && !p.bitcode.is_empty();
    let n = shots(o.arg(4)).1?;
    let s = seed(o.arg(5)).1?;
    let e = match entry(o.arg(3), p).1 {
        Some(e) => e,
        None if which == 2 => None,
        None => return None,
    };
    let by_position = (o.u(7) / 2) % 6;
    let odd = o.arg(7).rem_euclid(1024) / 128;
    if which != 2 && (odd == 5 || odd == 6 && by_position > 0 || odd == 7 && by_position == 0) {
        return None;
    }
    if which == 2 && odd > 4 {
        return Some(Err(()));
    }
    let src = if bits { &p.bitcode } else { &p.text };
    let src = match (which, o.arg(8).rem_euclid(10)) {
        (0 | 2, 8 | 9) => return Some(Err(())),
        (0 | 1, 7) => return None,
        (1, 5) => &src[..src.len().min(3)],
        _ => src,
    };
    let src = src.to_vec();
    let r = std::thread::scope(|t| {
        t.spawn(|| {
            qir_backend::output_recording::OUTPUT.with(|o| o.borrow_mut().use_std_out(false));
            let mut w = vec![];
            runner::run_bytes(&src, e.as_deref(), n, s, &mut w).map(|()| w)
        })
        .join()
        .unwrap_or_else(|e| std::panic::resume_unwind(e))
    });
    Some(r.map_err(|_| ()))
}

fn allowed(c: &mut Call, progs: &[Prog]) {
    let p = &progs[c.op.u(2) % progs.len()];
    // the generator is one per thread: what an inner run draws, the outer one does not
    if !p.still {
        c.at.retain(|x| x.1.is_none());
        if !matches!(seed(c.op.arg(5)).1, Some(Some(_)) | None) {
            let a = &mut c.op.a;
            a.resize(a.len().max(10), 0);
            a[5] = 9;
        }
    }
    for (_, s) in &mut c.at {
        if let Some(s) = s {
            allowed(s, progs);
        }
    }
}

fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(&b[..b.len().min(300)]).into_owned()
}

impl World for PyWorld {
    fn name(&self) -> &'static str {
        "python"
    }
    fn gen_run(&self, _prop: &str, r: &mut Rng) -> Trace {
        let mut t = Trace::new("python");
        let progs = r.range(1, 3);
        for p in 0..progs {
            let defect = if r.pct(15) { r.range(1, 4) } else { 0 };
            t.push("prog", &[p, r.below(1 << 40) as i64, r.range(0, 11), i64::from(r.pct(60)), i64::from(r.pct(25)), defect]);
        }
        let wrong = r.pct(35);
        let z = |r: &mut Rng, good: i64, all: i64| if wrong && r.pct(25) { r.range(0, all) } else { r.range(0, good) };
        for _ in 0..r.range(1, 6) {
            let call = |r: &mut Rng, t: &mut Trace, level: i64| {
                let form = r.range(0, 127) + if wrong && r.pct(15) { 128 * r.range(0, 7) } else { 0 };
                let which = if r.one_in(25) { 5 } else { *r.pick(&[0, 0, 1, 1, 1, 2]) };
                let seed = match r.below(10) {
                    0 => z(r, 4, 15),
                    1 => r.range(0, 3),
                    _ => r.range(8, 15),
                };
                let a = [level, which, r.range(0, progs - 1), z(r, 5, 10), z(r, 9, 13), seed, z(r, 8, 9), form, z(r, 4, 9), r.range(0, 11) + 16 * r.range(0, 1) + 96 * r.range(0, 4)];
                t.push("call", &a);
            };
            call(r, &mut t, 0);
            if r.pct(12) {
                t.push("raise", &[r.range(0, 11)]);
            }
            if r.pct(45) {
                for _ in 0..r.range(1, 2) {
                    call(r, &mut t, 1);
                    if r.pct(12) {
                        t.push("raise", &[r.range(0, 11)]);
                    }
                    if r.pct(20) {
                        call(r, &mut t, 2);
                    }
                }
            }
        }
        if r.pct(40) {
            for _ in 0..r.range(1, 40) {
                match r.below(5) {
                    0 | 1 => t.push("wp", &[W_SHORT as i64, r.below(300) as i64]),
                    2 => t.push("wp", &[W_EINTR as i64, 0]),
                    _ => t.push("wp", &[W_FULL as i64, 0]),
                }
            }
        }
        t
    }

    fn exec(&self, t: &Trace, cx: &mut Cx) -> Result<(), Violation> {
        let mut progs: Vec<Prog> = t.ops.iter().filter(|o| o.k == "prog").map(build).collect();
        if progs.is_empty() {
            progs.push(build(&Op::new("prog", &[0])));
        }
        let mut calls = parse(&t.ops);
        for c in &mut calls {
            allowed(c, &progs);
        }
        if cx.verbose {
            for (i, p) in progs.iter().enumerate() {
                cx.say(|| format!("program {i}\n{}", String::from_utf8_lossy(&p.text)));
            }
        }
        let dir = std::env::temp_dir().join(format!("dst-pip-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).expect("scratch");
        for (i, p) in progs.iter().enumerate() {
            for (x, b) in [("ll", &p.text), ("bc", &p.bitcode), ("txt", &p.text)] {
                if calls.iter().any(|c| uses(c, i)) {
                    std::fs::write(dir.join(format!("p{i}.{x}")), b).expect("scratch");
                }
            }
        }
        let plan: Vec<(u64, u64)> = t.ops.iter().filter(|o| o.k == "wp").map(|o| (o.arg(0) as u64, o.arg(1) as u64)).collect();
        while io::stdout().flush().is_err() {}
        seams::stdout_begin(&plan, false);
        // an interpreter that outlives the calls; it ends with the thread
        let py: Python<'static> = Python::attach(|py| unsafe { std::mem::transmute::<Python<'_>, Python<'static>>(py) });
        let module = match crate::python::_native::init(py) {
            Ok(m) => m,
            Err(e) => return viol("import", format!("the module cannot be imported: {e}")),
        };
        let it = Rc::new(Interp { module, progs, dir: dir.clone(), py, done: RefCell::default(), nested: Default::default() });
        for c in &calls {
            let _ = it.call(c);
        }
        let _ = flushed();
        let s = seams::shared();
        for (k, n) in [(W_SHORT, "short write"), (W_EINTR, "interrupted write")] {
            cx.st.add(&format!("fault.{n}"), s.fired[k as usize].load(std::sync::atomic::Ordering::SeqCst));
        }
        let _ = seams::stdout_end();
        let _ = std::fs::remove_dir_all(&dir);
        cx.st.add("sched.calls out of callbacks", it.nested.get());
        let done = std::mem::take(&mut *it.done.borrow_mut());
        for (c, g) in &done {
            cx.at = c.id;
            judge(c, g, &it, cx)?;
        }
        Ok(())
    }
}

fn uses(c: &Call, i: usize) -> bool {
    c.op.u(2) % 3 == i || c.at.iter().any(|x| x.1.as_ref().is_some_and(|s| uses(s, i))) || c.op.u(2) >= i
}

fn judge(c: &Call, g: &Got, it: &Interp, cx: &mut Cx) -> Res {
    let o = &c.op;
    let which = o.u(1) % 3;
    let cb = if which == 2 { 0 } else { callback(o) };
    let what = format!("call {} of {} (callback {cb})", c.id, FUNCTIONS[which]);
    let mut text = vec![];
    for (i, p) in g.pieces.iter().enumerate() {
        let how = ["__str__", "__repr__"][i % 2];
        match p.str(it.py, how) {
            Ok(s) => {
                if !p.str(it.py, "_repr_html_").is_ok_and(|h| h.contains(&s)) {
                    return viol("piece", format!("{what}: the HTML of piece {i} is not that of {s:?}"));
                }
                text.extend(s.into_bytes());
            }
            Err(e) => return viol("piece", format!("{what}: piece {i} has no text: {e}")),
        }
    }
    cx.say(|| format!("{what}: {:?}\npieces {:?}\nstandard output {:?}", g.error, show(&text), show(&g.stdout)));
    cx.st.inc(&format!("way.{}{}", FUNCTIONS[which], if which == 2 && o.u(1) / 3 % 2 == 1 { " without arguments" } else { "" }));
    cx.nontrivial = true;
    cx.ev(c.id as u64);
    cx.ev_s(&text);
    cx.ev_s(&g.stdout);
    cx.ev(u64::from(g.error.is_some()));
    if g.error.as_ref().is_some_and(|e| e.kind == "harness") {
        return viol("result", format!("{what}: {:?}", g.error));
    }
    let (mine, other): (&[u8], &[u8]) = if cb == 1 { (&text, &g.stdout) } else { (&g.stdout, &text) };
    if !other.is_empty() {
        return viol("stray", format!("{what}: output appeared where it was not asked for: {:?}", show(other)));
    }
    match want(c, &it.progs) {
        None => {
            cx.st.inc("check.arguments refused");
            if g.error.is_none() || !mine.is_empty() {
                return viol("accepted", format!("{what}: these arguments are to be refused, but the call ended {:?} with output {:?}", g.error, show(mine)));
            }
        }
        Some(Err(())) => {
            cx.st.inc("check.runs that fail");
            if g.raised || g.inner_failed {
                cx.st.inc("fault.callback raises");
            }
            let ended = mine.windows(4).any(|w| w == b"END\t");
            match &g.error {
                Some(e) if !e.message.is_empty() && !ended => {
                    if e.kind != "RuntimeError" && !g.raised && !g.inner_failed && cb != 3 {
                        return viol("error", format!("{what}: a run that fails raised {e}"));
                    }
                }
                e => return viol("accepted", format!("{what}: to fail, but the call ended {e:?} with output {:?}", show(mine))),
            }
        }
        Some(Ok(out)) => {
            if g.raised || g.inner_failed {
                cx.st.inc("fault.callback raises");
                if g.error.is_none() {
                    return viol("swallowed", format!("{what}: the callback raised, but the call succeeded"));
                }
                if !out.starts_with(mine) {
                    return viol("output", format!("{what}: {:?} instead of a beginning of {:?}", show(mine), show(&out)));
                }
                return Ok(());
            }
            if cb == 3 && !out.is_empty() {
                cx.st.inc("fault.callback that cannot be called");
                if g.error.is_none() || !mine.is_empty() {
                    return viol("swallowed", format!("{what}: its callback cannot be called, but it ended {:?}", g.error));
                }
                return Ok(());
            }
            cx.st.inc("check.output of finished calls");
            if let Some(e) = &g.error {
                return viol("refused", format!("{what}: nothing failed, but it raised {e}"));
            }
            if mine != out {
                return viol("output", format!("{what}: {:?} instead of {:?}", show(mine), show(&out)));
            }
        }
    }
    Ok(())
}

pub fn suite() -> Suite {
    Suite {
        worlds: vec![Box::new(PyWorld), Box::new(crate::handler::HandlerWorld)],
        props: vec![Prop {
            id: "C25",
            worlds: &[("python", 24), ("handler", 1)],
            quick: 12_000,
            thorough: 800_000,
            level: "exploration",
            rule: "a run counts when at least one call was judged; distinct by hash of all pieces, standard output and verdicts",
            real: &[
                "the package's Python part (pip/qirrunner/__init__.py), in a Python interpreter with a stand-in for the native module",
                "the package's native module (pip/src/python.rs) with the runner crate, qir-backend and qir-stdlib",
                "LLVM: its reader, verifier, passes and just-in-time compiler",
            ],
            stub: &[
                "pyo3 and the Python interpreter (a small object model; calls are bound by Python's rules from the declared signatures; a panic becomes an exception)",
                "the callbacks (the simulator's: they keep what they get, raise, or call the package again)",
                "inkwell (a minimal stand-in with the same interface over the installed LLVM's C interface)",
                "the write call on descriptor 1",
            ],
            assumptions: &[
                "what a run gives is predicted by the library's run_bytes in a fresh thread, which C15, C16 and C24 judge",
                "calls out of a callback share the thread's random generator with the call they interrupt: such calls are compared only where the output does not depend on chance",
                "output that fails (as opposed to coming in pieces) when no callback is given ends the process in the program's hands; it is C14's and C15's subject",
            ],
            batch: None,
        }],
    }
}
