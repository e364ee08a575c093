//! The whole runner: generated programs, run shot by shot by the real `runner` crate under a JIT, by every way
//! in and out it has, with the reader and the writer it is given, its standard input and output, and the
//! interleaving of several runs, all simulated.

use crate::prog::{Direct, F, Gen, Ir, Machine, Shape, V, plain, table};
use dst::driver::{Prop, Suite, World};
use dst::rng::Rng;
use dst::seams::{self, End, W_EINTR, W_ERR, W_FULL, W_KILL, W_SHORT, W_ZERO};
use dst::stats::{Cx, Res, Violation, viol};
use dst::trace::{Op, Trace};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{self, Read, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;
use std::ptr::null_mut;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::mpsc::{Receiver, Sender, channel};
use std::sync::{Mutex, OnceLock};

pub struct RunnerWorld;

const WAYS: [&str; 14] = [
    "file, text",
    "file, bitcode",
    "bytes, text",
    "bytes, bitcode",
    "stream, text",
    "stream, bitcode",
    "run_bitcode, bitcode",
    "run_bitcode, text",
    "command line, text file",
    "command line, bitcode file",
    "command line, text on standard input",
    "command line, bitcode on standard input",
    "bytes, wrapped bitcode",
    "stream, wrapped bitcode",
];

const DEFECTS: [&str; 18] = [
    "",
    "calls a function that does not exist",
    "has no entry point",
    "entry point takes a parameter",
    "cut off in storage",
    "invalid instructions",
    "declares a runtime function with the wrong number of parameters",
    "mixes legacy and current output recording",
    "empty",
    "shorter than any program",
    "file missing",
    "file of an unknown kind",
    "bitcode cut off in storage",
    "entry point returns more than a machine word",
    "calls an intrinsic function that LLVM does not have",
    "uses a global variable that is nowhere defined",
    "declares a function whose name is not text",
    "entry point has an attribute that is not text",
];

/// What LLVM itself says about functions: no part of the output.
const OWN: [&str; 6] = ["nounwind", "noinline", "noinline optnone", "cold uwtable", "norecurse nounwind", "mustprogress nofree"];
/// Where a program may have been compiled for.
const TRIPLES: [&str; 8] = [
    "x86_64-pc-windows-msvc19.33.31629", "x86_64-apple-macosx14.0.0", "arm64-apple-macosx14.0.0", "wasm32-unknown-unknown", "i386-unknown-linux-gnu",
    "x86_64-unknown-linux-gnu", "unheard-of", "aarch64-unknown-linux-gnu",
];
const LAYOUTS: [&str; 4] = ["e-m:o-i64:64-i128:128-n32:64-S128", "e-m:w-p270:32:32-p271:32:32-i64:64-f80:128-n8:16:32:64-S128", "E-m:e-i64:64-n32:64", "e-p:32:32-i64:64-n32-S64"];

/// What compilers say about the whole program.
const QIR_FLAGS: &str = "!llvm.module.flags = !{!80, !81, !82, !83}
!80 = !{i32 1, !\"qir_major_version\", i32 1}
!81 = !{i32 7, !\"qir_minor_version\", i32 0}
!82 = !{i32 1, !\"dynamic_qubit_management\", i1 false}
!83 = !{i32 1, !\"dynamic_result_management\", i1 false}
";

/// What an entry point may not return.
const INTS: [&str; 7] = ["i64", "i1", "i64", "i8", "i16", "i32", "i64"];
/// What a function may be called that a program contains besides its entry points.
const LIBRARY: [&str; 7] = ["library", "main", "library", "start", "entry_point", "EntryPoint", "ENTRYPOINT__main"];
const ODD: [(&str, &str); 9] = [
    ("{ i64, i64 }", "{ i64 1, i64 2 }"),
    ("[3 x i8]", "zeroinitializer"),
    ("<2 x double>", "zeroinitializer"),
    ("{ double, ptr }", "zeroinitializer"),
    ("half", "zeroinitializer"),
    ("fp128", "zeroinitializer"),
    ("i128", "7"),
    ("i33", "1"),
    ("{ }", "zeroinitializer"),
];

fn tab() -> &'static [F] {
    static T: OnceLock<Vec<F>> = OnceLock::new();
    T.get_or_init(table)
}

// ---- the program files

struct Prog {
    shape: Shape,
    entries: usize,
    defect: i64,
    /// It is invalid and carries debug information.
    aborts: bool,
    text: Vec<u8>,
    bitcode: Vec<u8>,
    names: Vec<String>,
    /// Another function it may contain.
    lib: String,
    odd: usize,
    attrs: Vec<BTreeMap<String, String>>,
    steps: Vec<Vec<Op>>,
}

const KEYS: [&str; 8] =
    ["qir_profiles", "required_num_qubits", "output_labeling_schema", "num_required_results", "Zeta", "a key", "irreversible", "entry_points"];
const VALS: [&str; 9] = ["", "base_profile", "3", "some value", "0_1:x", "adaptive, full", "\u{e9}\u{4e00}", "a \"b\" \\22 c", " "];

fn key(i: usize) -> String {
    KEYS.get(i).map_or_else(|| format!("key_{i}"), ToString::to_string)
}

fn val(i: usize) -> String {
    VALS.get(i).map_or_else(|| format!("v{i} ").repeat(i * i), ToString::to_string)
}

/// As it stands between quotes in the text of a program.
fn escaped(s: &str) -> String {
    s.replace('\\', "\\5C").replace('"', "\\22")
}

fn entry_name(p: usize, e: usize, style: i64, c: i64) -> String {
    if style & 7 == 1 && c % 3 == 1 {
        return [["main", "run"], ["Pr\u{fc}fung__\u{1f600}\u{fc}", "Pr\u{fc}fung__\u{1f600}\u{df}"]][(c / 3 % 2) as usize][e].to_string();
    }
    if style & 7 == 5 && c % 3 == 1 {
        return "Long".repeat(120) + ["__body", "__Body"][e];
    }
    if style & 16 != 0 && style & 8 != 0 {
        return [" lead", "trail "][e].to_string();
    }
    match style.rem_euclid(4) {
        0 => format!("ENTRYPOINT__main{e}"),
        1 => ["a", "ab"][e].to_string(),
        2 => format!("Some Program.{p}-{e}"),
        _ => format!("App__Test__{e}"),
    }
}

fn build(t: &Trace, p: usize) -> Prog {
    let o = t.ops.iter().find(|o| o.k == "prog" && o.u(0) == p).cloned().unwrap_or_else(|| Op::new("prog", &[p as i64]));
    let (legacy, dynamic, basis) = (o.arg(1) & 1 == 1, o.arg(2) & 1 == 1, o.arg(3) & 1 == 1);
    let shape = Shape { legacy, dynamic, basis, qubits: o.arg(4).clamp(1, 6) as usize, results: o.arg(5).clamp(0, 9) as usize };
    let entries = o.arg(6).clamp(1, 2) as usize;
    let defect = o.arg(7).rem_euclid(18);
    let (extras, style) = (o.arg(8), o.arg(9));
    let names: Vec<String> = (0..entries).map(|e| entry_name(p, e, style, o.arg(10))).collect();
    let returns = |e: usize| if style & 8 == 0 { "void" } else { INTS[(o.u(10) / 5 + e) % INTS.len()] }.to_string();
    let (mut attrs, mut steps, mut parts) = (vec![], vec![], vec![]);
    let mut ir = Ir::default();
    let mut gen_text = String::new();
    for e in 0..entries {
        let me = (p * 2 + e) as i64;
        let mut a = BTreeMap::new();
        if defect != 2 {
            a.insert(if style & 4 == 0 { "entry_point" } else { "EntryPoint" }.to_string(), if style & 16 == 0 { String::new() } else { val((style / 32) as usize % 40) });
        }
        for x in t.ops.iter().filter(|x| x.k == "at" && x.arg(0) == me) {
            a.insert(key(x.u(1) % 60), val(x.u(2) % 40));
        }
        if a.is_empty() {
            a.insert("Nothing".to_string(), String::new());
        }
        let body: Vec<Op> = t
            .ops
            .iter()
            .filter(|x| {
                matches!(x.k.as_str(), "c" | "ctl" | "exp" | "measure" | "tmpq" | "rc" | "fun" | "if" | "fi" | "helper" | "back" | "die" | "assert" | "init" | "data" | "slice" | "big") && x.arg(0) == me
            })
            .cloned()
            .collect();
        let mut g = Gen::new(tab(), &shape);
        run_steps(&mut g, &mut ir, &body);
        let text: Vec<String> = a
            .iter()
            .map(|(k, v)| if v.is_empty() { format!("\"{k}\"") } else { format!("\"{k}\"=\"{}\"", escaped(v)) })
            .collect();
        let mut b = std::mem::take(&mut ir.body);
        if defect == 5 && e == 0 {
            let (head, tail) = match o.u(10) % 8 {
                0 => ("  %bad1 = add i64 %bad2, 1\n  %bad2 = add i64 0, 1\n", ""),
                1 => (
                    "  br i1 false, label %bad1, label %bad2\nbad1:\n  %bad3 = add i64 1, 2\n  br label %bad2\nbad2:\n  %bad4 = add i64 %bad3, 1\n",
                    "",
                ),
                2 => ("  br label %bad1\nbad1:\n  %bad2 = phi i64 [ 1, %entry ], [ 2, %bad1 ]\n", ""),
                3 => ("  %bad1 = call i32 @llvm.ctpop.i64(i64 3)\n", "declare i32 @llvm.ctpop.i64(i64)\n"),
                4 => ("", "@.bad = common global i32 5\n"),
                5 => ("", "define internal void @.bad() {\nself:\n  br label %self\n}\n"),
                6 => ("", "!llvm.module.flags = !{!99}\n!99 = !{i32 99, !\"bad\", i32 3}\n"),
                _ => ("  %bad1 = add i64 %bad1, 1\n", ""),
            };
            b = format!("{head}{b}");
            gen_text.push_str(tail);
        }
        if (defect == 1 || defect == 14 || defect == 16) && e == 0 {
            let n = match defect {
                1 => unheard_of(o.arg(10)),
                14 => ["llvm.bogus.thing", "llvm.qir.h", "llvm.unheard"][o.u(10) % 3].to_string(),
                _ => "\"__quantum__qis__\\FF__body\"".to_string(),
            };
            b = format!("  call void @{n}(ptr null)\n{b}");
            gen_text.push_str(&format!("declare void @{n}(ptr)\n"));
        }
        let mut text = text.join(" ");
        if extras & 32 != 0 {
            text.insert_str(0, &format!("{} ", OWN[(o.u(10) + e) % OWN.len()]));
        }
        if defect == 17 && e == 0 {
            text.push_str([" \"not\\FFtext\"", " \"key\"=\"not\\FFtext\"", " \"\\C3\""][o.u(10) % 3]);
        }
        if defect == 15 && e == 0 {
            let local = if o.arg(10) & 2 == 0 { "" } else { "thread_local " };
            gen_text.push_str(&format!("@.surely.not.there = external {local}global i64\n"));
            b = if o.arg(10) & 1 == 0 {
                format!("  %nowhere = load volatile i64, ptr @.surely.not.there\n{b}")
            } else {
                format!("  store volatile i64 0, ptr @.surely.not.there\n{b}")
            };
        }
        parts.push((names[e].clone(), text, b, returns(e)));
        attrs.push(a);
        steps.push(body);
    }
    if defect == 6 {
        let (f, n) = miscounted(&ir, o.arg(10));
        let ps = vec!["ptr"; n].join(", ");
        let zs = vec!["ptr null"; n].join(", ");
        gen_text.push_str(&format!("declare ptr @{f}({ps})\ndefine void @other() {{\n  %p = call ptr @{f}({zs})\n  ret void\n}}\n"));
    }
    if defect == 7 {
        gen_text.push_str(&mixture(&ir, legacy, o.arg(10)));
    }
    // what a program may well contain without being any the worse
    if extras & 1 != 0 {
        gen_text.push_str("declare void @__quantum__qis__never_called__body(ptr)\n");
    }
    if extras & 2 != 0 {
        gen_text.push_str("define internal void @dead() {\n  call void @nowhere()\n  ret void\n}\ndeclare void @nowhere()\n");
    }
    let lib = LIBRARY[(o.u(10) / 2) % LIBRARY.len()];
    let lib = if names.iter().any(|n| n == lib) { "library" } else { lib }.to_string();
    if extras & 4 != 0 {
        gen_text.push_str(&if o.u(10) % 2 == 0 {
            format!("define i64 @{lib}(i64 %x) {{\n  %y = add i64 %x, 1\n  ret i64 %y\n}}\n")
        } else {
            format!("define void @{lib}() #9 {{\n  ret void\n}}\nattributes #9 = {{ \"entrypoint\" \"kind\"=\"entry_point\" \"entry_points\" }}\n")
        });
    }
    if extras & 16 != 0 && !matches!(defect, 1 | 6 | 7) {
        gen_text.push_str(&everything(&ir, &shape));
    }
    if extras & 512 != 0 {
        gen_text.push_str(QIR_FLAGS);
    }
    if extras & 1024 != 0 {
        gen_text.push_str("!llvm.module.flags = !{!90}\n!90 = !{i32 2, !\"Debug Info Version\", i32 3}\n");
    }
    if extras & 8 != 0 {
        gen_text.push_str("; the end, \u{e9}\n!llvm.ident = !{!0}\n!0 = !{!\"generated\"}\n");
    }
    let mut s = ir.module(&parts, &gen_text);
    // a long program: 64 kB, 1 MB or 16 MB are behind its first definition
    let long = [0, 70_000, 1_300_000, 17_000_000][(extras >> 11) as usize & 3];
    if long > 0 {
        s.insert_str(0, &format!("@.pad = constant [{long} x i8] c\"{}\"\n", "qir-pad-".repeat(long / 8)));
    }
    if extras & 64 != 0 {
        s.insert_str(0, &format!("target triple = \"{}\"\n", TRIPLES[o.u(10) % TRIPLES.len()]));
    }
    if extras & 128 != 0 {
        s.insert_str(0, &format!("target datalayout = \"{}\"\n", LAYOUTS[(o.u(10) / 8) % LAYOUTS.len()]));
    }
    if defect == 3 {
        s = s.replacen(&format!("@\"{}\"()", quote(&names[0])), &format!("@\"{}\"(i64 %n)", quote(&names[0])), 1);
    }
    if defect == 13 {
        let (ty, v) = ODD[o.u(10) % ODD.len()];
        let head = format!("@\"{}\"()", quote(&names[0]));
        let t = returns(0);
        s = s.replacen(&format!("define {t} {head}"), &format!("define {ty} {head}"), 1);
        if let Some(at) = s.find(&format!("define {ty} {head}")) {
            let (a, b) = s.split_at(at);
            let r = if t == "void" { "  ret void\n}".to_string() } else { format!("  ret {t} -1\n}}") };
            s = format!("{a}{}", b.replacen(&r, &format!("  ret {ty} {v}\n}}"), 1));
        }
    }
    // to LLVM a zero byte between words is white space
    if extras & 256 != 0
        && let Some(at) = s.rfind("attributes #")
    {
        s.insert(at, '\0');
        if o.arg(10) & 1 == 0 {
            s.push_str("\0\0");
        }
    }
    let mut text = s.into_bytes();
    let mut bitcode = vec![];
    match defect {
        4 => {
            let k = text.len() as i64 * o.arg(10).rem_euclid(1000) / 1000;
            text.truncate(k as usize);
        }
        8 => text.clear(),
        9 => text = b"; a"[..1 + o.u(10) % 3].to_vec(),
        // LLVM ends the process, this one too, over an invalid program that carries debug information
        5 if extras & 1024 != 0 => (),
        _ => {
            let c = inkwell::context::Context::create();
            let mut z = text.clone();
            z.push(0);
            let m = c.create_module_from_ir(inkwell::memory_buffer::MemoryBuffer::create_from_memory_range(&z[..text.len()], ""));
            match m {
                Ok(m) => bitcode = m.write_bitcode_to_memory().as_slice().to_vec(),
                Err(e) => panic!("the generated program does not parse: {e}\n{}", String::from_utf8_lossy(&text)),
            }
        }
    }
    if defect == 12 {
        let keep = bitcode.len() as i64 * (900 + o.arg(10).rem_euclid(100)) / 1000;
        let keep = if o.arg(10) & 1 == 0 { keep } else { bitcode.len() as i64 * o.arg(10).rem_euclid(1000) / 1000 };
        bitcode.truncate(keep as usize);
    }
    Prog { shape, entries, defect, aborts: defect == 5 && extras & 1024 != 0, text, bitcode, names, lib, odd: o.u(10), attrs, steps }
}

fn names() -> &'static BTreeMap<&'static str, BTreeSet<usize>> {
    static N: OnceLock<BTreeMap<&'static str, BTreeSet<usize>>> = OnceLock::new();
    N.get_or_init(|| {
        let mut m: BTreeMap<&'static str, BTreeSet<usize>> = BTreeMap::new();
        for f in tab() {
            m.entry(f.name).or_default().insert(f.sig.len() - 1);
        }
        m
    })
}

/// A function the runtime does not have: from far off to nearly one it has, or one the process has.
fn unheard_of(c: i64) -> String {
    let all: Vec<&str> = names().keys().copied().collect();
    let n = all[(c / 8).rem_euclid(all.len() as i64) as usize];
    let x = match c.rem_euclid(10) {
        0 => "__quantum__qis__unheard_of__body".to_string(),
        8 => match (c / 8).rem_euclid(5) {
            0 => "llvm".into(),
            1 => "llvm_memcpy".into(),
            2 => "my.llvm.thing".into(),
            3 => format!("{n}.llvm.1"),
            _ => "_llvm.trap".into(),
        },
        9 => n.replacen("__quantum__", "__quantum_", 1),
        1 => n[..n.len() - 1].to_string(),
        2 => format!("{n}_"),
        3 => n.replace("__qis__", "__rt__"),
        4 => n.replace("__body", "__ctladjoint"),
        5 => "malloc".into(),
        6 => n.to_uppercase(),
        _ => format!("x{n}"),
    };
    if names().contains_key(x.as_str()) { "__quantum__rt__unheard_of".into() } else { x }
}

/// A function of the runtime the program does not use, and a number of parameters it does not have.
fn miscounted(ir: &Ir, c: i64) -> (&'static str, usize) {
    let all: Vec<&'static str> = names().keys().copied().filter(|n| !ir.decls.contains_key(*n)).collect();
    let f = all[c.rem_euclid(all.len() as i64) as usize];
    let right = &names()[f];
    let wrong: Vec<usize> = (0..8).filter(|n| !right.contains(n)).collect();
    let near: Vec<usize> = wrong.iter().copied().filter(|n| right.contains(&(n + 1)) || *n > 0 && right.contains(&(n - 1))).collect();
    let v = if c & 1 == 0 && !near.is_empty() { near } else { wrong };
    (f, v[(c / 3).rem_euclid(v.len() as i64) as usize])
}

/// A function never run that records in both styles.
fn mixture(ir: &Ir, legacy: bool, c: i64) -> String {
    // a function the program already declares is declared the way its own style has it
    let fits = |f: &&F, era: u8| f.era == era && (!ir.decls.contains_key(f.name) || (era == 1) == legacy);
    let old: Vec<&F> = tab().iter().filter(|f| fits(f, 1)).collect();
    let f = old[c.rem_euclid(old.len() as i64) as usize];
    let new: Vec<&F> = tab().iter().filter(|g| fits(g, 2) && g.name != f.name).collect();
    if new.is_empty() {
        return format!("define void @other() {{\n  call void @{0}(ptr null)\n  ret void\n}}\ndeclare void @{0}(ptr)\n", unheard_of(0));
    }
    let g = new[(c / 16).rem_euclid(new.len() as i64) as usize];
    let mut two = [f, g];
    if c & 1 == 1 {
        two.swap(0, 1);
    }
    calling("other", &two, ir)
}

/// A function never run that calls every function of the runtime.
fn everything(ir: &Ir, sh: &Shape) -> String {
    let old = if sh.legacy { 2 } else { 1 };
    let mut v: BTreeMap<&str, &F> = BTreeMap::new();
    for f in tab().iter().filter(|f| f.era != old) {
        // of the two forms of this measurement, the one this kind of program uses
        if f.name != "__quantum__qis__m__body" || (f.sig == "hQ") == sh.dynamic {
            v.insert(f.name, f);
        }
    }
    let v: Vec<&F> = v.into_values().collect();
    calling("all_of_it", &v, ir)
}

fn calling(name: &str, fs: &[&F], ir: &Ir) -> String {
    let mut one = Ir::default();
    for f in fs {
        let args: Vec<V> = f
            .sig
            .chars()
            .skip(1)
            .map(|k| match k {
                'i' | 'n' | 'e' => V::I(1),
                'k' => V::J(1),
                'd' | 'f' | 'D' => V::D(1.0),
                'b' => V::B(true),
                'p' => V::P(1),
                'r' => V::Range(1, 1, 1),
                _ => V::Null,
            })
            .collect();
        one.call(f, &args, None, false);
    }
    let mut s = format!("define void @{name}() {{\n{}  ret void\n}}\n", one.body);
    for (n, d) in &one.decls {
        if !ir.decls.contains_key(n) {
            s.push_str(d);
            s.push('\n');
        }
    }
    s
}

fn quote(n: &str) -> String {
    n.bytes().map(|c| if c.is_ascii_alphanumeric() || c == b' ' || c == b'_' { (c as char).to_string() } else { format!("\\{c:02X}") }).collect()
}

fn run_steps(g: &mut Gen, m: &mut dyn Machine, steps: &[Op]) {
    g.begin(m);
    for o in steps {
        g.step(m, o);
        if m.dead() {
            return;
        }
    }
    g.end(m);
}

// ---- one run of the runner

#[derive(Clone, Debug)]
struct Run {
    lane: usize,
    way: usize,
    prog: usize,
    pick: i64,
    shots: u32,
    seed: Option<u64>,
    wp: Vec<(u64, u64)>,
    rp: Vec<(u64, u64)>,
}

/// What a run must produce.
#[derive(Clone, Debug)]
enum Want {
    /// This output, then: None success; Some(records) the program dies in the next shot, having begun it
    /// with the given frame and recorded this much.
    Out { done: Vec<u8>, dies: Option<(Vec<u8>, Vec<u8>)> },
    /// An error before any program runs; at most this part of a frame is shown.
    Refused { frame: Vec<u8> },
    /// Whatever the runner makes of the damaged bytes, given as bytes.
    AsBytes,
}

fn chosen(p: &Prog, pick: i64) -> Option<usize> {
    let n = wanted(p, pick);
    let v: Vec<usize> = (0..p.entries).filter(|e| n.as_ref().is_none_or(|n| *n == p.names[*e])).collect();
    if v.len() == 1 && p.defect != 2 { Some(v[0]) } else { None }
}

fn wanted(p: &Prog, pick: i64) -> Option<String> {
    let n = &p.names[0];
    match pick.rem_euclid(14) {
        0 | 1 => None,
        2 => Some(p.names[0].clone()),
        3 => Some(p.names[p.entries - 1].clone()),
        4 => Some(format!("{n}x")),
        5 => Some(format!("{n} ")),
        6 => Some(format!(" {n}")),
        7 => Some(String::new()),
        8 => Some(n.chars().take(n.chars().count() - 1).collect()),
        9 => Some(n.chars().skip(1).collect()),
        10 => Some(n.to_uppercase()),
        11 => Some(n.to_lowercase()),
        12 => Some(p.lib.clone()),
        _ => Some(format!("\"{n}\"")),
    }
}

fn frame(p: &Prog, e: usize) -> Vec<u8> {
    let mut f = b"START\n".to_vec();
    for (k, v) in &p.attrs[e] {
        f.extend(b"METADATA\t");
        f.extend(k.as_bytes());
        if !v.is_empty() {
            f.push(b'\t');
            f.extend(v.as_bytes());
        }
        f.push(b'\n');
    }
    f
}

fn drain() -> Vec<u8> {
    qir_backend::output_recording::OUTPUT.with(|o| o.borrow_mut().drain().collect())
}

fn want(p: &Prog, r: &Run, st: &mut BTreeMap<String, u64>) -> Want {
    if let Some(s) = r.seed {
        qir_backend::set_rng_seed(s);
    }
    if p.defect == 4 {
        return Want::AsBytes;
    }
    let on_file = matches!(r.way, 0 | 1 | 8 | 9);
    if matches!(p.defect, 1 | 2 | 5..=9 | 14..=16) || matches!(p.defect, 10 | 11) && on_file {
        return Want::Refused { frame: vec![] };
    }
    let Some(e) = chosen(p, r.pick) else { return Want::Refused { frame: vec![] } };
    if p.defect == 17 && e == 0 {
        return Want::Refused { frame: vec![] };
    }
    if matches!(p.defect, 3 | 13) && e == 0 {
        return Want::Refused { frame: frame(p, e) };
    }
    let mut done = vec![];
    for _ in 0..r.shots {
        qir_backend::__quantum__rt__initialize(null_mut());
        let mut g = Gen::new(tab(), &p.shape);
        let mut d = Direct::default();
        run_steps(&mut g, &mut d, &p.steps[e]);
        let recs = drain();
        *st.entry("sim.runtime calls".into()).or_default() += d.calls;
        for n in &d.used {
            *st.entry(format!("op.{n}")).or_default() += 1;
        }
        if d.died.is_some() {
            return Want::Out { done, dies: Some((frame(p, e), recs)) };
        }
        done.extend(frame(p, e));
        done.extend(recs);
        done.extend(b"END\t0\n");
    }
    Want::Out { done, dies: None }
}

// ---- the simulated streams, and whose turn it is

struct Gate {
    lane: usize,
    tx: Sender<(usize, bool)>,
    rx: Receiver<()>,
}

impl Gate {
    fn pause(g: Option<&Gate>) {
        if let Some(g) = g {
            let _ = g.tx.send((g.lane, false));
            let _ = g.rx.recv();
        }
    }
}

#[derive(Default)]
struct Fired([u64; 8]);

struct SimWriter<'a> {
    plan: &'a [(u64, u64)],
    at: usize,
    got: Vec<u8>,
    fired: Fired,
    gate: Option<&'a Gate>,
    broke: bool,
}

impl Write for SimWriter<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        Gate::pause(self.gate);
        let (k, a) = self.plan.get(self.at).copied().unwrap_or((W_FULL, 0));
        self.at += 1;
        match k {
            W_SHORT if b.len() > 1 => {
                self.fired.0[k as usize] += 1;
                let n = 1 + a as usize % (b.len() - 1);
                self.got.extend(&b[..n]);
                Ok(n)
            }
            W_EINTR => {
                self.fired.0[k as usize] += 1;
                Err(io::ErrorKind::Interrupted.into())
            }
            W_ERR => {
                self.fired.0[k as usize] += 1;
                self.broke = true;
                Err(io::Error::from_raw_os_error(a as i32))
            }
            W_ZERO if !b.is_empty() => {
                self.fired.0[k as usize] += 1;
                self.broke = true;
                Ok(0)
            }
            _ => {
                self.got.extend(b);
                Ok(b.len())
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct SimReader<'a> {
    data: &'a [u8],
    plan: &'a [(u64, u64)],
    at: usize,
    fired: Fired,
    gate: Option<&'a Gate>,
    broke: bool,
}

/// Where a short transfer of this data ends: after some bytes or, from LINES on, at the end of a line.
fn cut(d: &[u8], a: u64) -> usize {
    let a = a as usize;
    if let Some(a) = a.checked_sub(LINES) {
        let ends = |c: &[u8]| (1..d.len()).filter(|i| d[..*i].ends_with(c)).collect::<Vec<_>>();
        let mut v = if a & 1 == 1 { ends(b"}\n") } else { vec![] };
        if v.is_empty() {
            v = ends(b"\n");
        }
        if !v.is_empty() {
            return v[a / 2 % v.len()];
        }
    }
    1 + a % (d.len() - 1)
}
pub const LINES: usize = 1000;

impl Read for SimReader<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        Gate::pause(self.gate);
        let (k, a) = self.plan.get(self.at).copied().unwrap_or((W_FULL, 0));
        self.at += 1;
        let n = b.len().min(self.data.len());
        let n = match k {
            W_SHORT if n > 1 => {
                self.fired.0[k as usize] += 1;
                cut(&self.data[..n], a)
            }
            W_EINTR => {
                self.fired.0[k as usize] += 1;
                return Err(io::ErrorKind::Interrupted.into());
            }
            W_ERR => {
                self.fired.0[k as usize] += 1;
                self.broke = true;
                return Err(io::Error::from_raw_os_error(a as i32));
            }
            _ => n,
        };
        b[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

/// Standard input, for programs given on it: plan entry i decides the i-th read call.
static STDIN: Mutex<Option<(Vec<u8>, usize, Vec<(u64, u64)>, usize)>> = Mutex::new(None);
pub static STDIN_ON: AtomicU64 = AtomicU64::new(0);

pub fn stdin_is(data: Vec<u8>, plan: Vec<(u64, u64)>) {
    *STDIN.lock().unwrap_or_else(std::sync::PoisonError::into_inner) = Some((data, 0, plan, 0));
    STDIN_ON.store(1, SeqCst);
}

/// # Safety
/// As for read(2).
pub unsafe fn sim_read(fd: i32, buf: *mut u8, n: usize) -> isize {
    unsafe {
        if fd != 0 || STDIN_ON.load(SeqCst) == 0 {
            return libc::syscall(libc::SYS_read, fd, buf, n) as isize;
        }
        let mut g = STDIN.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
        let Some((data, pos, plan, at)) = g.as_mut() else { return 0 };
        let (k, a) = plan.get(*at).copied().unwrap_or((W_FULL, 0));
        *at += 1;
        let m = n.min(data.len() - *pos);
        let m = match k {
            W_SHORT if m > 1 => cut(&data[*pos..*pos + m], a),
            W_EINTR | W_ERR => {
                *libc::__errno_location() = match a as i32 {
                    _ if k == W_EINTR => libc::EINTR,
                    // a standard input that is closed is closed from the start (Rust reads it as empty),
                    // and an interruption is not a failure
                    libc::EBADF if *pos > 0 => libc::EIO,
                    libc::EINTR | 0 => libc::EIO,
                    e => e,
                };
                seams::shared().reg[40 + k as usize].fetch_add(1, SeqCst);
                return -1;
            }
            _ => m,
        };
        if k == W_SHORT {
            seams::shared().reg[40 + k as usize].fetch_add(1, SeqCst);
        }
        std::ptr::copy_nonoverlapping(data.as_ptr().add(*pos), buf, m);
        *pos += m;
        m as isize
    }
}

/// What came of a run.
#[derive(Debug, Clone, Default)]
struct Got {
    out: Vec<u8>,
    verdict: Option<Result<(), String>>,
    wfired: [u64; 8],
    rfired: [u64; 8],
    wbroke: bool,
    rbroke: bool,
}

fn scratch() -> PathBuf {
    let d = std::env::temp_dir().join(format!("dst-runner-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    d
}

/// File names that say nothing, or nothing right, of what is inside.
const WRONG: [[&str; 2]; 7] =
    [[".txt", ".bitcode"], [".ll ", ".bc "], [".LL", ".Bc"], ["", ""], [".", "."], [".ll.txt", ".bc~"], ["ll", "bc"]];
const STEMS: [&str; 6] = ["p", "p.v", " p", "pr\u{fc}f\u{1f600} ", "p.ll.", "-p"];

struct Files {
    dir: PathBuf,
    paths: Vec<[PathBuf; 2]>,
}

impl Files {
    fn new(progs: &[Prog], used: &[Run]) -> Files {
        let dir = scratch();
        let mut paths = vec![];
        for (i, p) in progs.iter().enumerate() {
            let x = if p.defect == 11 { WRONG[p.odd % WRONG.len()] } else { [".ll", ".bc"] };
            let stem = STEMS[p.odd / 7 % STEMS.len()];
            let v = x.map(|x| dir.join(format!("{stem}{i}{x}")));
            for (j, b) in [&p.text, &p.bitcode].iter().enumerate() {
                let needed = used.iter().any(|r| r.prog == i && (r.way == j || r.way == 8 + j));
                if needed && p.defect != 10 {
                    std::fs::write(&v[j], b).expect("scratch file");
                }
            }
            paths.push(v);
        }
        Files { dir, paths }
    }
}

impl Drop for Files {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

fn wrapped(b: &[u8]) -> Vec<u8> {
    // LLVM wraps what it writes for some targets itself
    if b.starts_with(&0x0B17_C0DEu32.to_le_bytes()) {
        return b.to_vec();
    }
    let mut v = vec![];
    for x in [0x0B17_C0DEu32, 0, 20, b.len() as u32, 0x0100_0007] {
        v.extend(x.to_le_bytes());
    }
    v.extend(b);
    while v.len() % 4 != 0 {
        v.push(0);
    }
    v
}

fn perform<W: Write>(p: &Prog, paths: &[PathBuf; 2], r: &Run, reader: &mut SimReader, w: &mut W) -> Result<(), String> {
    let n = wanted(p, r.pick);
    let n = n.as_deref();
    match r.way {
        0 => runner::run_file(&paths[0], n, r.shots, r.seed, w),
        1 => runner::run_file(&paths[1], n, r.shots, r.seed, w),
        2 => runner::run_bytes(&p.text, n, r.shots, r.seed, w),
        3 => runner::run_bytes(&p.bitcode, n, r.shots, r.seed, w),
        4 | 5 | 13 => runner::run_input(reader, n, r.shots, r.seed, w),
        6 => runner::run_bitcode(&p.bitcode, n, r.shots, w),
        7 => runner::run_bitcode(&p.text, n, r.shots, w),
        _ => runner::run_bytes(&wrapped(&p.bitcode), n, r.shots, r.seed, w),
    }
}

fn stream_of(p: &Prog, way: usize) -> Vec<u8> {
    match way {
        5 | 11 => p.bitcode.clone(),
        13 => wrapped(&p.bitcode),
        _ => p.text.clone(),
    }
}

fn go(p: &Prog, paths: &[PathBuf; 2], r: &Run, gate: Option<&Gate>) -> Got {
    let data = stream_of(p, r.way);
    let mut rd = SimReader { data: &data, plan: &r.rp, at: 0, fired: Fired::default(), gate, broke: false };
    let mut w = SimWriter { plan: &r.wp, at: 0, got: vec![], fired: Fired::default(), gate, broke: false };
    let v = catch_unwind(AssertUnwindSafe(|| perform(p, paths, r, &mut rd, &mut w))).ok();
    Got { out: w.got, verdict: v, wfired: w.fired.0, rfired: rd.fired.0, wbroke: w.broke, rbroke: rd.broke }
}

/// The writer of a run in a process that dies: straight to the simulated descriptor 1.
struct FdWriter;
impl Write for FdWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = unsafe { seams::sim_write(1, b.as_ptr(), b.len()) };
        if n < 0 { Err(io::Error::last_os_error()) } else { Ok(n as usize) }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn same(what: &str, got: &[u8], want: &[u8]) -> Res {
    if got == want {
        return Ok(());
    }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    let cut = |b: &[u8]| String::from_utf8_lossy(&b[i.saturating_sub(40)..b.len().min(i + 60)]).into_owned();
    viol(
        "output",
        format!("{what}: {} bytes, expected {}; they differ at byte {i}: got {:?}, expected {:?}", got.len(), want.len(), cut(got), cut(want)),
    )
}

fn judge(i: usize, p: &Prog, r: &Run, w: &Want, g: &Got, cx: &mut Cx) -> Res {
    let what = format!("run {i} ({}; {} shots; {})", WAYS[r.way], r.shots, if p.defect > 0 { DEFECTS[p.defect as usize] } else { "sound program" });
    cx.say(|| format!("{what}: {:?}, {} bytes\n{}", g.verdict, g.out.len(), String::from_utf8_lossy(&g.out)));
    cx.ev_s(&g.out);
    cx.ev(match &g.verdict {
        None => 2,
        Some(Ok(())) => 0,
        Some(Err(_)) => 1,
    });
    if g.rbroke {
        // the program never arrived
        cx.st.inc("check.program stream that failed");
        return match &g.verdict {
            Some(Err(e)) if !e.is_empty() && g.out.is_empty() => Ok(()),
            v => viol("ran-unread", format!("{what}: the stream failed, yet the run ended {v:?} with {} bytes of output", g.out.len())),
        };
    }
    if p.defect == 12 && bits(r.way) && matches!(g.verdict, Some(Err(_))) && !g.wbroke {
        cx.st.inc("check.refused program");
        return if g.out.is_empty() { Ok(()) } else { viol("accepted", format!("{what}: refused, but it wrote {:?}", String::from_utf8_lossy(&g.out))) };
    }
    match w {
        Want::Refused { frame } => {
            cx.st.inc("check.refused program");
            match &g.verdict {
                Some(Err(e)) if !e.is_empty() => (),
                None if g.wbroke => (),
                v => return viol("accepted", format!("{what}: must be refused with an error, but the run ended {v:?}")),
            }
            if !frame.starts_with(&g.out) {
                return viol("accepted", format!("{what}: refused, but it wrote {:?}", String::from_utf8_lossy(&g.out)));
            }
            Ok(())
        }
        Want::Out { done, .. } => {
            if g.wbroke {
                cx.st.inc("check.output of a run whose writer failed");
                if matches!(g.verdict, Some(Ok(()))) {
                    return viol("success-on-failure", format!("{what}: the output failed, yet success was reported"));
                }
                let n = g.out.len().min(done.len());
                same(&what, &g.out, &done[..n])
            } else {
                cx.st.inc("check.output of a finished run");
                if !matches!(g.verdict, Some(Ok(()))) {
                    return viol("refused", format!("{what}: nothing failed, but the run ended {:?}", g.verdict));
                }
                same(&what, &g.out, done)
            }
        }
        Want::AsBytes => Ok(()),
    }
}

fn runs_of(t: &Trace) -> Vec<Run> {
    let mut v: Vec<Run> = vec![];
    for o in &t.ops {
        match o.k.as_str() {
            "run" => v.push(Run {
                lane: o.u(0),
                way: o.u(1) % WAYS.len(),
                prog: o.u(2) % 2,
                pick: o.arg(3),
                shots: o.arg(4).clamp(0, 70_000) as u32,
                seed: (o.arg(5) >= 0).then(|| o.arg(5) as u64),
                wp: vec![],
                rp: vec![],
            }),
            "wp" | "rp" => {
                if let Some(r) = v.last_mut() {
                    let x = (o.arg(1) as u64, o.arg(2) as u64);
                    if o.k == "wp" { r.wp.push(x) } else { r.rp.push(x) }
                }
            }
            _ => (),
        }
    }
    v
}

fn bits(way: usize) -> bool {
    matches!(way, 1 | 3 | 5 | 6 | 9 | 11 | 12 | 13)
}

fn usable(p: &Prog, r: &Run, cli: bool) -> bool {
    if bits(r.way) && p.bitcode.is_empty() || (8..=11).contains(&r.way) != cli {
        return false;
    }
    // without a seed, only programs whose output does not depend on chance can be predicted
    let seeded = r.seed.is_some() && !matches!(r.way, 6 | 7);
    seeded || p.shape.basis
}

fn fresh_thread<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        s.spawn(|| {
            qir_backend::output_recording::OUTPUT.with(|o| o.borrow_mut().use_std_out(false));
            f()
        })
        .join()
        .unwrap_or_else(|e| std::panic::resume_unwind(e))
    })
}

impl World for RunnerWorld {
    fn name(&self) -> &'static str {
        "runner"
    }
    fn gen_run(&self, prop: &str, r: &mut Rng) -> Trace {
        let mut t = Trace::new("runner");
        let child = match r.below(8) {
            0 => 1,
            1 => 2,
            _ => 0,
        };
        // now and then more shots than 16 bits count
        let multitude = r.one_in(if prop == "C24" { 20_000 } else { 2500 });
        let child = if multitude { 0 } else { child };
        t.set("child", child);
        let lanes = if child == 0 && r.pct(25) { r.range(2, 3) } else { 1 };
        t.set("lanes", lanes);
        t.set("sched", r.below(1 << 30) as i64);
        let progs = r.range(1, 2);
        let pick_defect = prop == "C24" || r.pct(15);
        for p in 0..progs {
            let defect = if pick_defect && r.pct(70) { r.range(1, 17) } else { 0 };
            let flags = if prop == "C24" || defect != 5 { 63 } else { 31 };
            let entries = if r.pct(30) { 2 } else { 1 };
            let legacy = r.pct(20);
            let dynamic = r.pct(35);
            t.push(
                "prog",
                &[
                    p,
                    i64::from(legacy),
                    i64::from(dynamic),
                    i64::from(r.pct(35)),
                    r.range(1, 5),
                    r.range(0, 5),
                    entries,
                    defect,
                    if r.pct(50) { 0 } else { r.range(0, 31) + if r.pct(40) { 32 * r.range(1, flags) } else { 0 } }
                        + match r.below(if prop == "C16" { 1000 } else { 3000 }) {
                            0 => 6144,
                            1..=10 => 4096,
                            11..=60 => 2048,
                            _ => 0,
                        },
                    r.range(0, 15) + if r.pct(10) { 16 + 32 * r.range(0, 39) } else { 0 },
                    r.range(0, 999),
                ],
            );
            for e in 0..entries {
                let me = p * 2 + e;
                for _ in 0..if r.pct(8) { r.range(5, 40) as u64 } else { r.below(4) } {
                    t.push("at", &[me, if r.pct(70) { r.range(0, 7) } else { r.range(8, 59) }, if r.pct(95) { r.range(0, 8) } else { r.range(9, 39) }]);
                }
                let n = if r.pct(10) { 0 } else { r.range(1, if multitude { 3 } else { 25 }) };
                let np = plain(tab()) as i64;
                let recs = (tab().iter().position(|f| f.era == 2).unwrap_or(0)) as i64;
                let mut dead = false;
                if r.pct(15) {
                    t.push("big", &[me, r.range(0, 49), r.range(0, 6)]);
                }
                if dynamic {
                    t.push("measure", &[me, 0, r.range(0, 99), r.range(0, 99)]);
                }
                for _ in 0..n {
                    let z = |r: &mut Rng| r.below(1 << 16) as i64;
                    match r.below(20) {
                        0..=8 => t.push("c", &[me, r.range(0, np - 1), z(r), z(r), z(r)]),
                        9..=11 => t.push("c", &[me, r.range(recs, np - 1), z(r), z(r), z(r)]),
                        12 => t.push("c", &[me, r.range(25, 29), z(r), z(r), z(r)]),
                        13 => t.push("ctl", &[me, r.range(0, 15), z(r), z(r)]),
                        14 => t.push("exp", &[me, r.range(0, 1), z(r), z(r), z(r)]),
                        15 => t.push("measure", &[me, 0, z(r), z(r)]),
                        16 => t.push(*r.pick(&["tmpq", "rc", "fun"]), &[me, z(r), z(r)]),
                        17 if r.pct(50) => t.push(*r.pick(&["assert", "init", "data", "slice"]), &[me, z(r), z(r)]),
                        17 => t.push("if", &[me, z(r)]),
                        18 => t.push("fi", &[me]),
                        _ => t.push(*r.pick(&["helper", "back"]), &[me]),
                    }
                    if child > 0 && !dead && r.one_in(12) {
                        dead = true;
                        t.push("if", &[me, z(r)]);
                        t.push("die", &[me, r.range(0, 2), z(r)]);
                    }
                }
                t.push("back", &[me]);
                if r.pct(10) {
                    t.push("big", &[me, r.range(0, 49), r.range(0, 6)]);
                }
                if child == 2 && !dead && r.pct(60) {
                    t.push("die", &[me, r.range(0, 2), r.below(99) as i64]);
                }
            }
        }
        let n = match child {
            1 => 1,
            _ if multitude => 1,
            _ => r.range(1, 5),
        };
        let quiet = r.pct(30);
        let same_seed = r.below(1 << 40) as i64;
        for _ in 0..n {
            let way = if child == 1 { r.range(8, 11) } else { *r.pick(&[0, 1, 2, 3, 4, 4, 5, 5, 6, 7, 12, 13]) };
            let shots = match r.below(12) {
                0 => 0,
                1..=6 => r.range(1, 3),
                7..=10 => r.range(2, 8),
                _ if r.one_in(8) => r.range(100, 1100),
                _ => r.range(9, 30),
            };
            let shots = if multitude { r.range(65_534, 65_545) } else { shots };
            let seed = match r.below(8) {
                0 => -1,
                1 => *r.pick(&[0, 1, i64::MAX]),
                2..=4 => same_seed,
                _ => r.below(1 << 50) as i64,
            };
            t.push("run", &[r.range(0, lanes - 1), way, r.range(0, progs - 1), if r.pct(93) { r.range(0, 4).min(r.range(0, 4)) } else { r.range(5, 13) }, shots, seed]);
            if quiet {
                continue;
            }
            for (k, hard) in [("wp", r.pct(if prop == "C15" { 45 } else { 15 })), ("rp", r.pct(12))] {
                let lines = k == "rp" && r.pct(30);
                let len = if r.pct(40) { 0 } else { r.below(if k == "wp" || lines { 30 } else { 8 }) };
                for _ in 0..len {
                    match r.below(6) {
                        _ if lines => t.push(k, &[0, W_SHORT as i64, LINES as i64 + (r.below(40) & if (r.below(2)) == 0 { 1 } else { 63 }) as i64]),
                        0 | 1 => t.push(k, &[0, W_SHORT as i64, r.below(300) as i64]),
                        2 => t.push(k, &[0, W_SHORT as i64, 0]),
                        3 => t.push(k, &[0, W_EINTR as i64, 0]),
                        _ => t.push(k, &[0, W_FULL as i64, 0]),
                    }
                }
                if hard {
                    let e = i64::from(*r.pick(&[libc::EIO, libc::ENOSPC, libc::EPIPE, libc::ECONNRESET, libc::EAGAIN]));
                    match r.below(if k == "wp" { 4 } else { 2 }) {
                        3 if child == 1 => t.push(k, &[0, W_KILL as i64, r.below(40) as i64]),
                        2 | 3 => t.push(k, &[0, W_ZERO as i64, 0]),
                        _ => t.push(k, &[0, W_ERR as i64, e]),
                    }
                }
            }
        }
        t
    }
    fn exec(&self, t: &Trace, cx: &mut Cx) -> Result<(), Violation> {
        let child = t.get("child");
        let progs: Vec<Prog> = (0..2).map(|p| build(t, p)).collect();
        let lanes = if child == 0 { t.get("lanes").clamp(1, 4) as usize } else { 1 };
        let mut runs: Vec<Run> = runs_of(t).into_iter().filter(|r| usable(&progs[r.prog], r, child == 1)).collect();
        if child != 0 {
            // what a simulated process may write is bounded by the simulator's disk
            for r in &mut runs {
                r.shots = r.shots.min(40);
            }
        }
        for r in &mut runs {
            r.lane %= lanes;
            if r.shots == 0 && matches!(progs[r.prog].defect, 3 | 13) {
                r.shots = 1;
            }
            if matches!(r.way, 6 | 7) {
                r.seed = None;
            }
        }
        if child == 1 {
            runs.truncate(1);
        }
        if cx.verbose {
            for (i, p) in progs.iter().enumerate() {
                cx.say(|| format!("program {i}: {:?} entries {:?} defect {:?}\n{}", p.shape, p.names, DEFECTS[p.defect as usize], String::from_utf8_lossy(&p.text)));
            }
        }
        // what each run must produce
        let mut wants: Vec<Want> = vec![Want::AsBytes; runs.len()];
        for (i, r) in runs.iter().enumerate() {
            // each in a thread of its own: what came before must not matter
            let (w, st) = fresh_thread(|| {
                let mut st = BTreeMap::new();
                (want(&progs[r.prog], r, &mut st), st)
            });
            wants[i] = w;
            for (k, n) in &st {
                cx.st.add(k, *n);
            }
        }
        if child == 0 {
            // a program that dies takes the process with it: only in a child
            let dies: Vec<bool> = wants.iter().map(|w| matches!(w, Want::Out { dies: Some(_), .. })).collect();
            let mut i = 0;
            runs.retain(|_| {
                i += 1;
                !dies[i - 1]
            });
            wants.retain(|w| !matches!(w, Want::Out { dies: Some(_), .. }));
            if runs.iter().all(|r| !progs[r.prog].aborts) {
                return self.lanes(t, &progs, &runs, &wants, lanes, cx);
            }
            return self.process(2, &progs, &runs, &wants, cx);
        }
        self.process(child, &progs, &runs, &wants, cx)
    }
}

impl RunnerWorld {
    /// Runs in this process, each lane in a thread of its own; the schedule decides at every read and write
    /// which lane goes on.
    fn lanes(&self, t: &Trace, progs: &[Prog], runs: &[Run], wants: &[Want], lanes: usize, cx: &mut Cx) -> Res {
        let files = Files::new(progs, runs);
        seams::stdout_begin(&[], false);
        let (back, inbox) = channel::<(usize, bool)>();
        let mut switches = 0u64;
        let mut turns = 0u64;
        let mut got: Vec<(usize, Got, Option<Got>)> = std::thread::scope(|s| {
            let mut to = vec![];
            let mut hs = vec![];
            for l in 0..lanes {
                let (tx, rx) = channel();
                let gate = Gate { lane: l, tx: back.clone(), rx };
                let files = &files;
                to.push(tx);
                hs.push(s.spawn(move || {
                    let _ = gate.rx.recv();
                    qir_backend::output_recording::OUTPUT.with(|o| o.borrow_mut().use_std_out(false));
                    let mut v = vec![];
                    for (i, r) in runs.iter().enumerate().filter(|x| x.1.lane == l) {
                        let p = &progs[r.prog];
                        let many = (lanes > 1).then_some(&gate);
                        // damaged programs: what the runner makes of the same bytes
                        let twin = (p.defect == 4).then(|| {
                            go(p, &files.paths[r.prog], &Run { way: 2, wp: vec![], rp: vec![], ..r.clone() }, many)
                        });
                        v.push((i, go(p, &files.paths[r.prog], r, many), twin));
                    }
                    let _ = gate.tx.send((l, true));
                    v
                }));
            }
            let mut live: Vec<usize> = (0..lanes).collect();
            let mut r = Rng::new(t.get("sched") as u64);
            let mut cur = lanes;
            while !live.is_empty() {
                let n = if t.get("sched") == 0 { live[0] } else { live[r.idx(live.len())] };
                if n != cur && cur != lanes {
                    switches += 1;
                }
                turns += 1;
                cur = n;
                if to[n].send(()).is_err() {
                    live.retain(|x| *x != n);
                    continue;
                }
                match inbox.recv() {
                    Ok((l, true)) => live.retain(|x| *x != l),
                    Ok(_) => (),
                    Err(_) => break,
                }
            }
            hs.into_iter().flat_map(|h| h.join().unwrap_or_default()).collect()
        });
        let stray = seams::stdout_end();
        got.sort_by_key(|g| g.0);
        cx.st.add("sched.context switches", switches);
        cx.st.add("sched.turns", turns);
        for (i, g, twin) in &got {
            cx.at = *i;
            let (r, p) = (&runs[*i], &progs[runs[*i].prog]);
            cx.st.inc(&format!("way.{}", WAYS[r.way]));
            if p.defect > 0 {
                cx.st.inc(&format!("fault.program {}", DEFECTS[p.defect as usize]));
            }
            for (k, n) in [(W_SHORT, "short write"), (W_EINTR, "interrupted write"), (W_ERR, "failed write"), (W_ZERO, "write that transfers nothing")] {
                cx.st.add(&format!("fault.{n}"), g.wfired[k as usize]);
            }
            for (k, n) in [(W_SHORT, "short read"), (W_EINTR, "interrupted read"), (W_ERR, "failed read")] {
                cx.st.add(&format!("fault.{n}"), g.rfired[k as usize]);
            }
            cx.st.add("shots", u64::from(r.shots));
            cx.nontrivial |= r.shots > 0;
            judge(*i, p, r, &wants[*i], g, cx)?;
            if let (Some(w), false) = (twin, g.rbroke) {
                cx.st.inc("check.damaged program, two ways in");
                if g.wbroke {
                    if matches!(g.verdict, Some(Ok(()))) && !w.out.is_empty() {
                        return viol("success-on-failure", format!("run {i}: the output failed, yet success was reported"));
                    }
                    let n = g.out.len().min(w.out.len());
                    same(&format!("run {i} (damaged program, failing writer)"), &g.out, &w.out[..n])?;
                } else {
                    let ok = |g: &Got| matches!(g.verdict, Some(Ok(())));
                    if ok(g) != ok(w) {
                        return viol("ways-differ", format!("run {i} ({}): {:?}, given as bytes {:?}", WAYS[r.way], g.verdict, w.verdict));
                    }
                    same(&format!("run {i} (damaged program)"), &g.out, &w.out)?;
                }
            }
        }
        if !stray.is_empty() {
            return viol("stray", format!("{} bytes appeared at standard output although a writer was given: {:?}", stray.len(), String::from_utf8_lossy(&stray)));
        }
        Ok(())
    }

    /// A process of its own: the command line program, or a program whose death takes the process with it.
    fn process(&self, child: i64, progs: &[Prog], runs: &[Run], wants: &[Want], cx: &mut Cx) -> Res {
        let last = |(r, w): (&Run, &Want)| progs[r.prog].aborts || matches!(w, Want::Out { dies: Some(_), .. });
        let Some(stop) = runs.iter().zip(wants).position(last).or(runs.len().checked_sub(1)) else { return Ok(()) };
        let (runs, r, w) = (&runs[..stop], &runs[stop], &wants[stop]);
        let p = &progs[r.prog];
        if p.defect == 4 || p.defect == 12 && child == 2 {
            return Ok(());
        }
        let mut all = runs.to_vec();
        all.push(r.clone());
        let files = Files::new(progs, &all);
        let mut args = vec!["qir-runner".to_string()];
        if child == 1 {
            if r.way < 10 {
                args.push(if r.shots & 1 == 0 { "-f" } else { "--file" }.into());
                args.push(files.paths[r.prog][r.way - 8].to_string_lossy().into_owned());
            } else if r.shots & 1 == 1 {
                args.extend(["-f".to_string(), "-".to_string()]);
            }
            if r.shots != 1 || r.pick & 1 == 0 {
                args.extend(["--shots".to_string(), r.shots.to_string()]);
            }
            if let Some(s) = r.seed {
                args.extend(["-r".to_string(), s.to_string()]);
            }
            if let Some(n) = wanted(p, r.pick) {
                args.extend(["--entrypoint".to_string(), n]);
            }
        }
        cx.say(|| format!("process: {args:?}"));
        // a failed read of standard input is not repeated, and what was delivered before it is not a program
        let data = stream_of(p, r.way);
        while io::stdout().flush().is_err() {}
        seams::stdout_begin(if child == 1 { &r.wp } else { &[] }, false);
        let end = seams::in_child(|| {
            let out = std::thread::scope(|s| {
                s.spawn(|| {
                    if child == 1 {
                        unsafe {
                            let z = libc::open(c"/dev/null".as_ptr(), libc::O_RDONLY);
                            libc::dup2(z, 0);
                        }
                        stdin_is(data.clone(), r.rp.clone());
                        return runner::main(Some(args.clone())).is_ok();
                    }
                    qir_backend::output_recording::OUTPUT.with(|o| o.borrow_mut().use_std_out(false));
                    for (i, q) in runs.iter().enumerate() {
                        let g = go(&progs[q.prog], &files.paths[q.prog], q, None);
                        let mut st = dst::stats::Stats::default();
                        if judge(i, &progs[q.prog], q, &wants[i], &g, &mut Cx::new(&mut st, false)).is_err() {
                            unsafe { libc::_exit(30) };
                        }
                    }
                    let mut rd = SimReader { data: &data, plan: &[], at: 0, fired: Fired::default(), gate: None, broke: false };
                    perform(p, &files.paths[r.prog], r, &mut rd, &mut FdWriter).is_ok()
                })
                .join()
            });
            let code = match out {
                Ok(true) => 0,
                Ok(false) => 1,
                Err(_) => 101,
            };
            // the process ends the way Rust programs do
            for _ in 0..1000 {
                match io::stdout().flush() {
                    Err(e) if e.kind() == io::ErrorKind::Interrupted => (),
                    _ => break,
                }
            }
            code
        });
        let s = seams::shared();
        let fired: Vec<u64> = s.fired.iter().map(|x| x.load(SeqCst)).collect();
        let read: Vec<u64> = (0..4).map(|k| s.reg[40 + k].load(SeqCst)).collect();
        let over = s.overflow.load(SeqCst) == 1;
        let got = seams::stdout_end();
        if over {
            let due = match w {
                Want::Out { done, dies } => done.len() + dies.as_ref().map_or(0, |d| d.0.len() + d.1.len()),
                _ => 0,
            };
            if due + 4096 < seams::OUT_CAP {
                return viol("output", format!("more than {} bytes of output, expected {due}", seams::OUT_CAP));
            }
            cx.st.inc("op.skipped-too-big");
            return Ok(());
        }
        cx.st.inc(&format!("way.{}", WAYS[r.way]));
        for (k, n) in [
            (W_SHORT, "short write"),
            (W_EINTR, "interrupted write"),
            (W_ERR, "failed write"),
            (W_ZERO, "write that transfers nothing"),
            (W_KILL, "killed inside a write"),
        ] {
            cx.st.add(&format!("fault.{n}"), fired[k as usize]);
        }
        for (k, n) in [(W_SHORT, "short read"), (W_EINTR, "interrupted read"), (W_ERR, "failed read")] {
            cx.st.add(&format!("fault.{n}"), read[k as usize]);
        }
        if p.defect > 0 {
            cx.st.inc(&format!("fault.program {}", DEFECTS[p.defect as usize]));
        }
        cx.say(|| format!("ended {end:?}\n{}", String::from_utf8_lossy(&got)));
        cx.nontrivial = true;
        cx.st.add("shots", u64::from(r.shots));
        cx.ev_s(&got);
        cx.ev(u64::from(end == End::Exit(0)));
        let what = format!("process ({}; {} shots)", WAYS[r.way], r.shots);
        if end == End::Signal(libc::SIGALRM) {
            return viol("hang", format!("{what}: did not end"));
        }
        if end == End::Exit(30) {
            return viol("output", format!("{what}: an earlier run in the process went wrong"));
        }
        let ok = end == End::Exit(0);
        if p.aborts && matches!(end, End::Signal(_)) {
            return viol("invalid-debug-aborts", format!("{what}: must be refused with an error, but ended {end:?}"));
        }
        if read[W_ERR as usize] > 0 {
            cx.st.inc("check.program stream that failed");
            if ok || !got.is_empty() {
                return viol("ran-unread", format!("{what}: standard input failed, yet the process ended {end:?} with {} bytes of output", got.len()));
            }
            return Ok(());
        }
        let hard = fired[W_ERR as usize] + fired[W_ZERO as usize] + fired[W_KILL as usize] > 0;
        if p.defect == 12 && bits(r.way) && end == End::Exit(1) && got.is_empty() {
            cx.st.inc("check.refused program");
            return Ok(());
        }
        if hard && ok {
            return viol("success-on-failure", format!("{what}: its output failed, yet it reported success"));
        }
        match w {
            Want::AsBytes => Ok(()),
            Want::Refused { frame } => {
                cx.st.inc("check.refused program");
                if ok || !frame.starts_with(&got) {
                    return viol("accepted", format!("{what}: must be refused, but ended {end:?} after writing {:?}", String::from_utf8_lossy(&got)));
                }
                if end != End::Exit(1) && !hard {
                    return viol("accepted", format!("{what}: must be refused with an error, but ended {end:?}"));
                }
                Ok(())
            }
            Want::Out { done, dies } => {
                let mut full = done.clone();
                if let Some((frame, recs)) = dies {
                    cx.st.inc("check.output of a process whose program died");
                    if ok {
                        return viol("success-on-failure", format!("{what}: the program died, yet the process reported success"));
                    }
                    full.extend(frame);
                    full.extend(recs);
                    // after a transfer the operating system cut short, the standard library may hold back the
                    // tail until the next write
                    if !hard && child == 1 && fired[W_SHORT as usize] == 0 {
                        return same(&what, &got, &full);
                    }
                    if !hard && child == 2 && got.len() < done.len() {
                        return same(&what, &got, done);
                    }
                } else {
                    cx.st.inc("check.output of a finished process");
                    if !hard {
                        if !ok {
                            return viol("refused", format!("{what}: nothing failed, but it ended {end:?}"));
                        }
                        return same(&what, &got, &full);
                    }
                }
                let n = got.len().min(full.len());
                same(&what, &got, &full[..n])
            }
        }
    }
}


pub fn suite() -> Suite {
    let real: &'static [&'static str] = &[
        "the runner crate (run_file, run_input, run_bitcode, run_bytes and the command line's main) with qir-backend and qir-stdlib",
        "LLVM: its reader, verifier, passes and just-in-time compiler",
    ];
    let stub: &'static [&'static str] = &[
        "inkwell (a minimal stand-in with the same interface over the installed LLVM's C interface)",
        "the writer and the reader given to the runner, the read call on descriptor 0, the write call on descriptor 1",
        "the process (a forked child, for the command line and for programs that die)",
        "the thread scheduler: runs in several lanes take turns at every read and write, as the seeded schedule says",
    ];
    let p = |id, quick, thorough, rule, assumptions| Prop {
        id,
        worlds: &[("runner", 1)],
        quick,
        thorough,
        level: "exploration",
        rule,
        real,
        stub,
        assumptions,
        batch: None,
    };
    Suite {
        worlds: vec![Box::new(RunnerWorld), Box::new(crate::cli::CliWorld)],
        props: vec![
            p(
                "C15",
                20_000,
                1_500_000,
                "a run counts when at least one shot was asked for; distinct by hash of all output and all verdicts",
                &["what a program records is predicted by calling the same runtime functions directly, in the same order"],
            ),
            p(
                "C16",
                20_000,
                1_500_000,
                "a run counts when at least one shot was asked for; distinct by hash of all output and all verdicts",
                &["runs without a seed are compared only where the output does not depend on chance"],
            ),
            p(
                "C24",
                20_000,
                1_500_000,
                "a run counts when at least one shot was asked for; distinct by hash of all output and all verdicts",
                &["a text cut off in storage may still be a program: then only the ways of running it are compared"],
            ),
            Prop {
                id: "C23",
                worlds: &[("cli", 1)],
                quick: 12_000,
                thorough: 600_000,
                level: "exploration",
                rule: "a run counts when the process was given at least one argument; distinct by hash of arguments, output and verdict",
                real: &[
                    "the command line (clap definitions, main.rs) with the runner crate, qir-backend and qir-stdlib",
                    "LLVM: its reader, verifier, passes and just-in-time compiler",
                ],
                stub: &[
                    "inkwell (a minimal stand-in with the same interface over the installed LLVM's C interface)",
                    "the argument vector, the open, read and pread calls on the program, the write call on descriptor 1, the terminal, entropy",
                    "the process (a forked child)",
                    "clap with its default features off (no colours, no suggestions)",
                ],
                assumptions: &[
                    "the run the arguments describe is predicted by the library's run_bytes, which C15, C16 and C24 judge",
                    "where the documented usage leaves open whether something is accepted (+3, an option's value that looks like an option, a bare --), refusing and running as asked are both right",
                ],
                batch: None,
            },
        ],
    }
}
