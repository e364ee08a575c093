//! The command line as a process: generated argument vectors, in every spelling and with every kind of mistake,
//! against a reference reading of the documented usage; the program's file, standard input, standard output,
//! the terminal, entropy and the end of the process are simulated.

use dst::driver::World;
use dst::rng::Rng;
use dst::seams::{self, E_ONES, E_ZEROS, End, W_EINTR, W_ERR, W_FULL, W_KILL, W_SHORT, W_ZERO};
use dst::stats::{Cx, Res, Violation, viol};
use dst::trace::Trace;
use std::ffi::{CString, OsStr, OsString};
use std::io::{self, Write};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::process::{ExitCode, Termination};
use std::sync::OnceLock;
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering::SeqCst};

pub struct CliWorld;

// ---- the process's own argument vector

/// The program's main function as it is, made callable.
mod real_main {
    include!(concat!(env!("OUT_DIR"), "/cli_main.rs"));
}

static ARGV: AtomicPtr<*mut libc::c_char> = AtomicPtr::new(std::ptr::null_mut());
pub const PAD: &str = "~pad";
pub const ROOM: usize = 64;

extern "C" fn note_argv(_n: i32, v: *mut *mut libc::c_char, _e: *mut *mut libc::c_char) {
    ARGV.store(v, SeqCst);
}
#[used]
#[unsafe(link_section = ".init_array.00001")]
static NOTE: extern "C" fn(i32, *mut *mut libc::c_char, *mut *mut libc::c_char) = note_argv;

/// Puts these arguments where this process's were. Only in a child; the vector has `ROOM` places.
unsafe fn set_argv(args: &[OsString]) {
    unsafe {
        let v = ARGV.load(SeqCst);
        assert!(!v.is_null() && args.len() < ROOM);
        for (i, a) in args.iter().enumerate() {
            *v.add(i) = CString::new(a.as_bytes()).expect("no zero bytes").into_raw();
        }
        *v.add(args.len()) = std::ptr::null_mut();
    }
}

/// 0 for success, as the process would report it.
fn real_program() -> i32 {
    let c: ExitCode = real_main::go().report();
    i32::from(format!("{c:?}") != format!("{:?}", ExitCode::SUCCESS))
}

// ---- the seams of files and the terminal

static FILE_PLAN: [[AtomicU64; 2]; 16] = [const { [const { AtomicU64::new(0) }; 2] }; 16];
static FILE_AT: AtomicU64 = AtomicU64::new(0);
/// 1: the plan is in force; -: the directory it is about
static FILE_ON: AtomicU64 = AtomicU64::new(0);
static FILE_DIR: OnceLock<PathBuf> = OnceLock::new();
static TTY: AtomicU64 = AtomicU64::new(0);

pub fn sim_isatty(fd: i32) -> i32 {
    match TTY.load(SeqCst) {
        // 2: a terminal, 1: none
        1 | 2 if fd == 0 => i32::from(TTY.load(SeqCst) == 2),
        _ => {
            let mut t = std::mem::MaybeUninit::<libc::termios>::uninit();
            i32::from(unsafe { libc::tcgetattr(fd, t.as_mut_ptr()) } == 0)
        }
    }
}

fn next_fault() -> (u64, u64) {
    let i = FILE_AT.fetch_add(1, SeqCst) as usize;
    let x = FILE_PLAN.get(i).map_or((W_FULL, 0), |x| (x[0].load(SeqCst), x[1].load(SeqCst)));
    if x.0 != W_FULL {
        seams::shared().reg[48 + x.0 as usize].fetch_add(1, SeqCst);
    }
    x
}

fn fail(e: i32) -> isize {
    unsafe { *libc::__errno_location() = e };
    -1
}

/// # Safety
/// As for open(2).
pub unsafe fn sim_open(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    unsafe {
        let real = || libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as i32;
        if FILE_ON.load(SeqCst) == 0 || flags & libc::O_ACCMODE != libc::O_RDONLY {
            return real();
        }
        let p = Path::new(OsStr::from_bytes(std::ffi::CStr::from_ptr(path).to_bytes()));
        let about = FILE_DIR.get().is_some_and(|d| p.is_relative() || p.starts_with(d));
        if about {
            match next_fault() {
                (W_EINTR, _) => return fail(libc::EINTR) as i32,
                (W_ERR, a) => return fail(a as i32) as i32,
                _ => (),
            }
        }
        real()
    }
}

/// # Safety
/// As for pread(2).
pub unsafe fn sim_pread(fd: i32, buf: *mut u8, n: usize, at: i64) -> isize {
    unsafe {
        let mut n = n;
        if FILE_ON.load(SeqCst) == 1 {
            let about = std::fs::read_link(format!("/proc/self/fd/{fd}")).is_ok_and(|p| FILE_DIR.get().is_some_and(|d| p.starts_with(d)));
            if about {
                match next_fault() {
                    (W_EINTR, _) => return fail(libc::EINTR),
                    (W_ERR, a) => return fail(a as i32),
                    (W_SHORT, a) if n > 1 => n = 1 + a as usize % (n - 1),
                    _ => (),
                }
            }
        }
        libc::syscall(libc::SYS_pread64, fd, buf, n, at) as isize
    }
}

// ---- the programs and where they lie

fn program(entries: &[&str], records: bool, extra: &str) -> Vec<u8> {
    let mut s = String::new();
    for (i, e) in entries.iter().enumerate() {
        s.push_str(&format!("@l{i} = internal constant [{} x i8] c\"{e}\\00\"\n", e.len() + 1));
        s.push_str(&format!("define void @\"{e}\"() #0 {{\n"));
        for q in 0..6 {
            let p = format!("ptr inttoptr (i64 {q} to ptr)");
            if records {
                s.push_str(&format!("  call void @__quantum__qis__h__body({p})\n"));
            }
            s.push_str(&format!("  call void @__quantum__qis__mz__body({p}, {p})\n  call void @__quantum__rt__result_record_output({p}, ptr @l{i})\n"));
        }
        s.push_str("  ret void\n}\n");
    }
    s.push_str(
        "declare void @__quantum__qis__h__body(ptr)\ndeclare void @__quantum__qis__mz__body(ptr, ptr) #1\n\
         declare void @__quantum__rt__result_record_output(ptr, ptr)\n\
         attributes #0 = { \"entry_point\" \"qir_profiles\"=\"base_profile\" }\nattributes #1 = { \"irreversible\" }\n",
    );
    s.push_str(extra);
    s.into_bytes()
}

fn bitcode(text: &[u8]) -> Vec<u8> {
    let c = inkwell::context::Context::create();
    let mut z = text.to_vec();
    z.push(0);
    let m = c
        .create_module_from_ir(inkwell::memory_buffer::MemoryBuffer::create_from_memory_range(&z[..text.len()], ""))
        .unwrap_or_else(|e| panic!("the fixed program does not parse: {e}"));
    m.write_bitcode_to_memory().as_slice().to_vec()
}

/// Coin tosses; two entry points; no chance in it.
fn programs() -> &'static [[Vec<u8>; 2]; 4] {
    static P: OnceLock<[[Vec<u8>; 2]; 4]> = OnceLock::new();
    P.get_or_init(|| {
        let long = format!("; {}\n", "long ".repeat(6000));
        [
            program(&["main"], true, ""),
            program(&["a", "ab", "-e", "\u{e9} 1"], true, ""),
            program(&["still"], false, ""),
            program(&["long"], true, &long),
        ]
        .map(|t| {
            let b = bitcode(&t);
            [t, b]
        })
    })
}

const NAMES: [(&[u8], i64, usize); 34] = [
    (b"a.ll", 0, 0),
    (b"two.ll", 1, 0),
    (b"b.bc", 0, 1),
    (b"two.bc", 1, 1),
    (b"still.ll", 2, 0),
    (b"long.ll", 3, 0),
    (b"with space.ll", 1, 0),
    (b"x=y.ll", 1, 0),
    (b"=.ll", 0, 0),
    (b"a.b.bc", 0, 1),
    (b"\xff\xfe.ll", 0, 0),
    ("\u{e9}\u{4e00}.bc".as_bytes(), 1, 1),
    (b"-dash.ll", 1, 0),
    (b"--file.ll", 0, 0),
    (b"-", 1, 0),
    (b"UPPER.LL", 0, 0),
    (b"noext", 0, 0),
    (b".ll", 0, 0),
    (b"a.ll.txt", 0, 0),
    (b"missing.ll", -1, 0),
    (b"bad.ll", -2, 0),
    (b"text.bc", -3, 0),
    (b"dir.ll", -4, 0),
    (b"empty.ll", -5, 0),
    (b"missing", -1, 0),
    (b"program", -1, 0),
    (b"stdin", -1, 0),
    (b"missing.", -1, 0),
    (b"missing.bc", -1, 0),
    (b"nodir/a.ll", -1, 0),
    (b" ", -1, 0),
    (b" lead.ll", 1, 0),
    (b"trail.ll ", 1, 0),
    (b"trail.ll", 0, 0),
];
const ENTRIES: [&[u8]; 19] = [b"main", b"a", b"ab", b"still", b"long", b"-e", "\u{e9} 1".as_bytes(), b"nope", b"", b"A", b"\xff", b"main ", b" main", b" a", b"a ", b"ab\n", b"a\t", b"\"a\"", b"@a"];
const SHOTS: [&[u8]; 26] = [
    b"1", b"2", b"3", b"5", b"9", b"14", b"0", b"007", b"+3", b"-1", b"4294967295", b"4294967296", b"18446744073709551617", b"0x10", b"1e3", b"", b"abc",
    b" 3", b"3 ", b"1.0", b"\xd9\xa3", b"\xff", b"1_000", b"-0", b"3,4", b"--",
];
const SEEDS: [&[u8]; 18] = [
    b"0", b"1", b"42", b"007", b"18446744073709551615", b"9223372036854775808", b"4294967296", b"123456789012", b"18446744073709551616", b"-1", b"+5", b"",
    b"x", b"0x1F", b"1.5", b" 1", b"99999999999999999999999999999999999999999999", b"\xff",
];
const LONG: [&str; 4] = ["--file", "--entrypoint", "--shots", "--rngseed"];
const SHORT: [&str; 4] = ["-f", "-e", "-s", "-r"];
const OTHER: [&[u8]; 30] = [
    b"-h", b"--help", b"-V", b"--version", b"--", b"extra", b"a.ll", b"-", b"", b"-x", b"--unknown", b"--unknown=3", b"-F", b"--shot", b"--FILE", b"-hx", b"--help=1",
    b"help", b"\xff", b"--\xff", b"-\xff", b"--rng-seed", b"--entry-point", b"-hV", b"--file", b"-s", b"-e", b"-r", b"--shots", b"---",
];

fn contents(k: i64, form: usize) -> Option<Vec<u8>> {
    match k {
        0.. => Some(programs()[k as usize][form].clone()),
        -2 => Some(b"define void @main( {".to_vec()),
        -3 => Some(programs()[0][0].clone()),
        -5 => Some(vec![]),
        _ => None,
    }
}

// ---- what the arguments mean

#[derive(Debug, Default, Clone)]
struct Asked {
    file: Option<OsString>,
    entry: Option<String>,
    shots: Option<u32>,
    seed: Option<u64>,
    help: bool,
    /// the documented usage leaves it open whether this is accepted
    unsure: bool,
}

fn number(v: &OsStr, max: u64, a: &mut Asked) -> Option<u64> {
    let s = v.to_str()?;
    if !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit()) {
        let t = s.trim_start_matches('0');
        let n: u64 = if t.is_empty() { 0 } else { t.parse().ok()? };
        return (n <= max).then_some(n);
    }
    // other ways of writing a number that a lenient reader may take
    let n: u64 = s.strip_prefix('+').or(if s == "-0" { Some("0") } else { None })?.parse().ok()?;
    a.unsure = true;
    (n <= max).then_some(n)
}

fn understand(args: &[OsString]) -> Option<Asked> {
    let mut a = Asked::default();
    let mut seen = [false; 4];
    let mut it = args.iter().peekable();
    let mut wrong = false;
    while let Some(w) = it.next() {
        let b = w.as_bytes();
        let mut value = |which: usize, given: Option<&[u8]>, a: &mut Asked| -> bool {
            let v = match given {
                Some(v) => OsStr::from_bytes(v).to_os_string(),
                None => match it.peek() {
                    None => return false,
                    Some(n) => {
                        let n = (*n).clone();
                        if n.as_bytes().first() == Some(&b'-') && n != "-" {
                            // an option where a value should be
                            a.unsure = true;
                        }
                        it.next();
                        n
                    }
                },
            };
            if std::mem::replace(&mut seen[which], true) {
                return false;
            }
            match which {
                0 => {
                    if v.is_empty() {
                        return false;
                    }
                    // LLVM takes names of files as text
                    a.unsure |= v.to_str().is_none();
                    a.file = Some(v);
                }
                1 => match v.to_str() {
                    Some(s) => a.entry = Some(s.to_string()),
                    None => return false,
                },
                2 => match number(&v, u64::from(u32::MAX), a) {
                    Some(n) => a.shots = Some(n as u32),
                    None => return false,
                },
                _ => match number(&v, u64::MAX, a) {
                    Some(n) => a.seed = Some(n),
                    None => return false,
                },
            }
            true
        };
        if b == b"--" {
            a.unsure = true;
            wrong |= it.next().is_some();
            break;
        } else if b.starts_with(b"--") {
            let eq = b.iter().position(|c| *c == b'=');
            let name = &b[..eq.unwrap_or(b.len())];
            match LONG.iter().position(|l| l.as_bytes() == name) {
                Some(i) => wrong |= !value(i, eq.map(|e| &b[e + 1..]), &mut a),
                None if (name == b"--help" || name == b"--version") && eq.is_none() => a.help = true,
                None => wrong = true,
            }
        } else if b.len() > 1 && b[0] == b'-' {
            let mut i = 1;
            while i < b.len() {
                match SHORT.iter().position(|s| s.as_bytes()[1] == b[i]) {
                    Some(o) => {
                        let rest = &b[i + 1..];
                        let rest = if rest.is_empty() { None } else { Some(rest.strip_prefix(b"=").unwrap_or(rest)) };
                        wrong |= !value(o, rest, &mut a);
                        break;
                    }
                    None if b[i] == b'h' || b[i] == b'V' => a.help = true,
                    None => wrong = true,
                }
                i += 1;
            }
        } else {
            wrong = true;
        }
    }
    if wrong && a.help {
        // help was asked for in a mistaken way: nothing may run, the rest is open
        a.unsure = true;
        return Some(a);
    }
    if wrong { None } else { Some(a) }
}

fn vector(t: &Trace) -> Vec<OsString> {
    let mut v: Vec<OsString> = vec![];
    for o in &t.ops {
        if v.len() > 40 {
            break;
        }
        match o.k.as_str() {
            "o" => {
                let i = o.u(0) % 4;
                let mut val = match i {
                    0 => NAMES[o.u(1) % NAMES.len()].0,
                    1 => ENTRIES[o.u(1) % ENTRIES.len()],
                    2 => SHOTS[o.u(1) % SHOTS.len()],
                    _ => SEEDS[o.u(1) % SEEDS.len()],
                }
                .to_vec();
                if i == 0 && val != b"-" {
                    match o.u(3) % 4 {
                        1 => val = [b"./", &val[..]].concat(),
                        2 => val = [FILE_DIR.get().expect("scratch").as_os_str().as_bytes(), b"/", &val].concat(),
                        _ => (),
                    }
                }
                let join = |a: &str, m: &str| OsString::from_vec([a.as_bytes(), m.as_bytes(), &val].concat());
                match o.u(2) % 5 {
                    0 => v.extend([SHORT[i].into(), OsString::from_vec(val)]),
                    1 => v.push(join(SHORT[i], "")),
                    2 => v.push(join(SHORT[i], "=")),
                    3 => v.push(join(LONG[i], "=")),
                    _ => v.extend([LONG[i].into(), OsString::from_vec(val)]),
                }
            }
            "x" => v.push(OsString::from_vec(OTHER[o.u(0) % OTHER.len()].to_vec())),
            _ => (),
        }
    }
    v
}

/// What may come of the process.
#[derive(Debug)]
enum Want {
    Refused,
    Nothing,
    Shots { out: Vec<u8>, unsure: bool },
}

fn scratch() -> PathBuf {
    FILE_DIR
        .get_or_init(|| {
            let d = std::env::temp_dir().join(format!("dst-cli-{}", std::process::id()));
            d
        })
        .clone()
}

struct Dir(PathBuf);
impl Dir {
    fn new(needed: Option<&OsStr>) -> Dir {
        let d = scratch();
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("scratch");
        // a file named like standard input is always there
        for (n, k, f) in NAMES {
            let name = OsStr::from_bytes(n);
            if n == b"-" || needed == Some(name) {
                if k == -4 {
                    std::fs::create_dir(d.join(name)).expect("scratch");
                } else if let Some(c) = contents(k, f) {
                    std::fs::write(d.join(name), c).expect("scratch");
                }
            }
        }
        Dir(d)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

const KINDS: [(u64, &str); 5] = [
    (W_SHORT, "short write"),
    (W_EINTR, "interrupted write"),
    (W_ERR, "failed write"),
    (W_ZERO, "write that transfers nothing"),
    (W_KILL, "killed inside a write"),
];

fn plan(t: &Trace, k: &str) -> Vec<(u64, u64)> {
    t.ops.iter().filter(|o| o.k == k).map(|o| (o.arg(0) as u64, o.arg(1) as u64)).collect()
}

impl World for CliWorld {
    fn name(&self) -> &'static str {
        "cli"
    }
    fn gen_run(&self, _prop: &str, r: &mut Rng) -> Trace {
        let mut t = Trace::new("cli");
        t.set("program", i64::from(r.pct(40)));
        t.set("tty", i64::from(r.pct(8)));
        t.set("stdin", r.range(0, 7));
        t.set("entropy", r.range(0, 1));
        t.set("name", r.range(0, 3));
        // mistakes: none, or a few
        let wrong = r.pct(45);
        let good = |r: &mut Rng, n: usize, all: usize| if wrong && r.pct(40) { r.idx(all) as i64 } else { r.idx(n) as i64 };
        let mut opts: Vec<i64> = vec![];
        for (i, p) in [65, 45, 70, 75].into_iter().enumerate() {
            if r.pct(p) {
                opts.push(i as i64);
            }
        }
        if wrong && r.pct(15) {
            opts.push(r.range(0, 3));
        }
        for i in (1..opts.len()).rev() {
            opts.swap(i, r.idx(i + 1));
        }
        let file = good(r, 15, NAMES.len());
        let prog = if opts.contains(&0) && file != 14 { NAMES[file as usize].1 } else { t.get("stdin") / 2 };
        for o in opts {
            let v = match o {
                0 => file,
                1 => match (prog, r.pct(80)) {
                    (1, true) if r.pct(12) => r.range(14, 18),
                    (1, true) => *r.pick(&[1, 2, 5, 6]),
                    (0, true) if r.pct(12) => r.range(11, 12),
                    (0, true) => 0,
                    (2, true) => 3,
                    (3, true) => 4,
                    _ => good(r, 8, ENTRIES.len()),
                },
                2 => good(r, 7, SHOTS.len()),
                _ => good(r, 8, SEEDS.len()),
            };
            if r.pct(if wrong { 10 } else { 3 }) {
                t.push("x", &[r.range(0, 3)]);
            }
            t.push("o", &[o, v, r.range(0, 4), r.range(0, 3)]);
        }
        if wrong && r.pct(40) {
            let at = r.idx(t.ops.len() + 1);
            t.ops.insert(at, dst::trace::Op::new("x", &[r.idx(OTHER.len()) as i64]));
        }
        if r.pct(40) {
            return t;
        }
        for (k, hard) in [("wp", r.pct(25)), ("rp", r.pct(12)), ("fp", r.pct(12))] {
            let lines = k == "rp" && r.pct(30);
            let len = if r.pct(40) { 0 } else { r.below(if k == "wp" || lines { 30 } else { 6 }) };
            for _ in 0..len {
                match r.below(6) {
                    _ if lines => t.push(k, &[W_SHORT as i64, crate::world::LINES as i64 + (r.below(40) & if (r.below(2)) == 0 { 1 } else { 63 }) as i64]),
                    0 | 1 => t.push(k, &[W_SHORT as i64, r.below(300) as i64]),
                    2 => t.push(k, &[W_SHORT as i64, 0]),
                    3 => t.push(k, &[W_EINTR as i64, 0]),
                    _ => t.push(k, &[W_FULL as i64, 0]),
                }
            }
            if hard {
                let e = match k {
                    "wp" => *r.pick(&[libc::EIO, libc::ENOSPC, libc::EPIPE, libc::EAGAIN]),
                    "rp" => *r.pick(&[libc::EIO, libc::EISDIR, libc::EAGAIN, libc::EBADF]),
                    _ => *r.pick(&[libc::EIO, libc::EACCES, libc::EMFILE, libc::ENOENT, libc::ENOMEM]),
                };
                match r.below(if k == "wp" { 4 } else { 2 }) {
                    3 => t.push(k, &[W_KILL as i64, r.below(40) as i64]),
                    2 => t.push(k, &[W_ZERO as i64, 0]),
                    _ => t.push(k, &[W_ERR as i64, i64::from(e)]),
                }
            }
        }
        t
    }

    fn exec(&self, t: &Trace, cx: &mut Cx) -> Result<(), Violation> {
        let _ = scratch();
        let args = vector(t);
        let asked = understand(&args);
        let tty = t.get("tty") == 1;
        let si = t.get("stdin").rem_euclid(8) as usize;
        let stdin = programs()[si / 2][si % 2].clone();
        let (mut wp, rp, fp) = (plan(t, "wp"), plan(t, "rp"), plan(t, "fp"));
        let ent = vec![(if t.get("entropy") == 0 { E_ZEROS } else { E_ONES }, 0); 64];
        // what must come of it
        let mut from_stdin = false;
        let mut name: Option<OsString> = None;
        let mut endless = false;
        let want = match &asked {
            None => Want::Refused,
            Some(a) if a.help => Want::Nothing,
            Some(a) => {
                let bytes = match &a.file {
                    Some(f) if f != "-" => {
                        let f = Path::new(f);
                        let base = f.file_name().map(OsStr::to_os_string);
                        let x = NAMES.iter().find(|n| base.as_deref() == Some(OsStr::from_bytes(n.0)));
                        name = base.clone();
                        let known = f.parent().is_some_and(|p| p == Path::new("") || p == Path::new(".") || p == scratch());
                        match (x, f.extension().and_then(OsStr::to_str)) {
                            (Some(x), Some("ll")) if known => contents(x.1, x.2),
                            (Some(x), Some("bc")) if known && x.1 != -3 => contents(x.1, x.2),
                            _ => None,
                        }
                    }
                    _ => {
                        from_stdin = true;
                        Some(stdin.clone())
                    }
                };
                let shots = a.shots.unwrap_or(1);
                endless = shots > 20;
                match bytes {
                    _ if from_stdin && tty => Want::Nothing,
                    None => Want::Refused,
                    Some(b) => {
                        let (v, out) = std::thread::scope(|s| {
                            s.spawn(|| {
                                seams::entropy(1, &ent);
                                qir_backend::output_recording::OUTPUT.with(|o| o.borrow_mut().use_std_out(false));
                                let mut w = vec![];
                                let v = runner::run_bytes(&b, a.entry.as_deref(), shots.min(20), a.seed, &mut w);
                                (v, w)
                            })
                            .join()
                            .unwrap_or_else(|e| std::panic::resume_unwind(e))
                        });
                        match v {
                            Ok(()) => {
                                let n = out.windows(6).filter(|w| w == b"START\n").count();
                                if n != shots.min(20) as usize {
                                    return viol("shots", format!("{n} shots instead of {}", shots.min(20)));
                                }
                                Want::Shots { out, unsure: a.unsure }
                            }
                            Err(_) => Want::Refused,
                        }
                    }
                }
            }
        };
        if endless && !matches!(want, Want::Refused) {
            // such a process only ends because something stops it
            wp.truncate(18);
            wp.push((W_KILL, 0));
        }
        let _dir = Dir::new(name.as_deref());
        let all = std::iter::once(match t.get("name").rem_euclid(4) {
            0 => OsString::from("qir-runner"),
            1 => OsString::from("/opt/some where/qir-runner"),
            2 => OsString::from(""),
            _ => OsString::from_vec(b"\xff".to_vec()),
        })
        .chain(args.iter().cloned())
        .collect::<Vec<_>>();
        cx.say(|| format!("arguments {args:?}\nunderstood {asked:?}\nterminal {tty} standard input {si}"));

        while io::stdout().flush().is_err() {}
        seams::stdout_begin(&wp, false);
        let as_program = t.get("program") == 1;
        let end = seams::in_child(|| {
            std::env::set_current_dir(scratch()).expect("scratch");
            unsafe {
                let z = libc::open(c"/dev/null".as_ptr(), libc::O_RDONLY);
                libc::dup2(z, 0);
                if std::env::var_os("DST_PANICS").is_none() {
                    let e = libc::open(c"stderr".as_ptr(), libc::O_WRONLY | libc::O_CREAT, 0o600);
                    libc::dup2(e, 2);
                }
            }
            let out = std::thread::scope(|s| {
                s.spawn(|| {
                    crate::world::stdin_is(stdin.clone(), rp.clone());
                    TTY.store(if tty { 2 } else { 1 }, SeqCst);
                    seams::entropy(1, &ent);
                    for (i, x) in fp.iter().take(16).enumerate() {
                        FILE_PLAN[i][0].store(x.0, SeqCst);
                        FILE_PLAN[i][1].store(x.1, SeqCst);
                    }
                    FILE_ON.store(1, SeqCst);
                    if as_program {
                        unsafe { set_argv(&all) };
                        real_program()
                    } else {
                        match runner::main(Some(all.clone())) {
                            Ok(()) => 0,
                            Err(m) => {
                                eprintln!("Error: {m}");
                                i32::from(!m.is_empty()) + if m.is_empty() { 40 } else { 0 }
                            }
                        }
                    }
                })
                .join()
            });
            for _ in 0..1000 {
                match io::stdout().flush() {
                    Err(e) if e.kind() == io::ErrorKind::Interrupted => (),
                    _ => break,
                }
            }
            out.unwrap_or(101)
        });
        let s = seams::shared();
        let fired = |k: u64| s.fired[k as usize].load(SeqCst);
        let read = |k: u64| s.reg[40 + k as usize].load(SeqCst);
        let filed = |k: u64| s.reg[48 + k as usize].load(SeqCst);
        let hard = fired(W_ERR) + fired(W_ZERO) + fired(W_KILL) > 0;
        let held_back = fired(W_SHORT) > 0;
        let unread = read(W_ERR) + filed(W_ERR) > 0;
        for (k, n) in KINDS {
            cx.st.add(&format!("fault.{n}"), fired(k));
        }
        for (k, n) in [(W_SHORT, "short"), (W_EINTR, "interrupted"), (W_ERR, "failed")] {
            cx.st.add(&format!("fault.{n} read"), read(k));
            cx.st.add(&format!("fault.{n} file access"), filed(k));
        }
        let got = seams::stdout_end();
        let err = std::fs::read(scratch().join("stderr")).unwrap_or_default();
        cx.say(|| format!("ended {end:?}\nstandard output {}\nstandard error {}", String::from_utf8_lossy(&got), String::from_utf8_lossy(&err)));
        cx.st.inc(if as_program { "way.the program's main" } else { "way.the library's main" });
        cx.nontrivial = !args.is_empty();
        for a in &args {
            let b = a.as_bytes();
            let d = scratch().into_os_string().into_vec();
            match b.windows(d.len()).position(|w| w == d) {
                // the scratch directory's name is not part of the run
                Some(i) => cx.ev_s(&[&b[..i], &b[i + d.len()..]].concat()),
                None => cx.ev_s(b),
            }
        }
        cx.ev_s(&got);
        cx.ev(u64::from(end == End::Exit(0)));
        self.judge(&want, &got, &err, &end, hard, held_back, unread, &args, cx)
    }
}

impl CliWorld {
    #[allow(clippy::too_many_arguments)]
    fn judge(&self, want: &Want, got: &[u8], err: &[u8], end: &End, hard: bool, held_back: bool, unread: bool, args: &[OsString], cx: &mut Cx) -> Res {
        let what = format!("arguments {args:?}");
        let text = |b: &[u8]| String::from_utf8_lossy(&b[..b.len().min(400)]).into_owned();
        if *end == End::Signal(libc::SIGALRM) {
            return viol("hang", format!("{what}: the process did not end"));
        }
        let ok = *end == End::Exit(0);
        let began = got.windows(6).any(|w| w == b"START\n");
        if *end == End::Exit(40) {
            return viol("no-message", format!("{what}: refused without a message"));
        }
        if unread && !matches!(want, Want::Nothing) {
            cx.st.inc("check.program that could not be read");
            if ok || began {
                return viol("ran-unread", format!("{what}: the program could not be read, yet the process ended {end:?} having written {:?}", text(got)));
            }
            return Ok(());
        }
        match want {
            Want::Refused => {
                cx.st.inc("check.refused");
                if ok || began {
                    return viol("accepted", format!("{what}: to be refused, but the process ended {end:?} having written {:?}", text(got)));
                }
                if *end != End::Exit(1) {
                    return viol("no-error", format!("{what}: to be refused with an error, but the process ended {end:?}"));
                }
                if err.is_empty() && std::env::var_os("DST_PANICS").is_none() {
                    return viol("no-message", format!("{what}: refused without a message"));
                }
                Ok(())
            }
            Want::Nothing => {
                cx.st.inc("check.help, version or a terminal");
                if began {
                    return viol("ran", format!("{what}: nothing was to run, but the process wrote {:?}", text(got)));
                }
                let known = understand(args).is_none_or(|a| a.unsure || !a.help);
                if !known && !hard {
                    if !ok {
                        return viol("help", format!("{what}: the process ended {end:?}"));
                    }
                    if err.is_empty() && got.is_empty() && std::env::var_os("DST_PANICS").is_none() {
                        return viol("help", format!("{what}: nothing was shown"));
                    }
                }
                Ok(())
            }
            Want::Shots { out, unsure } => {
                if *unsure && *end == End::Exit(1) && !began {
                    cx.st.inc("check.left open, refused");
                    return Ok(());
                }
                cx.st.inc("check.shots");
                if hard {
                    if ok {
                        return viol("success-on-failure", format!("{what}: the output failed, yet success was reported"));
                    }
                    let n = got.len().min(out.len());
                    if got[..] != out[..n] {
                        return viol("output", format!("{what}: {:?} instead of a beginning of {:?}", text(got), text(out)));
                    }
                    return Ok(());
                }
                if *unsure && ok && !began && !out.is_empty() {
                    cx.st.inc("check.left open, not run");
                    return Ok(());
                }
                if !ok {
                    return viol("refused", format!("{what}: the process ended {end:?}: {}", text(err)));
                }
                let _ = held_back;
                if got != out {
                    return viol("output", format!("{what}: {:?} instead of {:?}", text(got), text(out)));
                }
                Ok(())
            }
        }
    }
}
