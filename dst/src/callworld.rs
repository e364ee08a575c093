//! Callables: functor application, copies, partial application, nested controls and re-entrant
//! invocation, the way generated programs use them, against a pure evaluator; with the allocator behind
//! a seam so that what an invocation leaves behind is counted.

use crate::driver::World;
use crate::rng::Rng;
use crate::seams::{self, track, untracked};
use crate::stats::{Cx, Res, Violation, viol};
use crate::trace::{Op, Trace};
use qir_backend::callables::*;
use qir_backend::*;
use std::cell::RefCell;
use std::ptr::null_mut;

pub struct CallWorld;

type Cp = *const Callable;
type Tp = *mut *const Vec<u8>;
type Ap = *const QirArray;
type Fp = extern "C" fn(*mut u8, *mut u8, *mut u8);
type Mp = extern "C" fn(*mut u8, i32);

// ---- what the simulated program's functions do when they are called

#[derive(Clone, Debug, PartialEq)]
struct Seen {
    leaf: u64,
    slot: u64,
    cap: u64,
    ctls: Vec<u64>,
    arg: Option<u64>,
}

#[derive(Default)]
struct Prog {
    seen: Vec<Seen>,
    /// Calls to make from inside leaf functions: consumed one per leaf call.
    reenter: Vec<Reenter>,
    depth: u32,
    keep: bool,
    scribble: bool,
    kept: Vec<Kept>,
    bad: Option<String>,
}

#[derive(Clone)]
struct Reenter {
    target: usize,
    levels: Vec<Vec<u64>>,
    arg: u64,
    slot: usize,
}

#[derive(Clone, Copy)]
struct Kept {
    tup: usize,
    arr: usize,
    len: u64,
}

thread_local! {
    static PROG: RefCell<Prog> = RefCell::default();
}

fn prog<T>(f: impl FnOnce(&mut Prog) -> T) -> T {
    untracked(|| PROG.with(|p| f(&mut p.borrow_mut())))
}

unsafe fn arr_u64(a: Ap) -> Vec<u64> {
    untracked(|| unsafe {
        let n = __quantum__rt__array_get_size_1d(a);
        if n > 5000 {
            return vec![u64::MAX];
        }
        (0..n).map(|i| __quantum__rt__array_get_element_ptr_1d(a, i).cast::<u64>().read_unaligned()).collect()
    })
}

unsafe fn new_arr(v: &[u64]) -> Ap {
    unsafe {
        let a = __quantum__rt__array_create_1d(8, v.len() as u64);
        for (i, x) in v.iter().enumerate() {
            __quantum__rt__array_get_element_ptr_1d(a, i as u64).cast::<u64>().write_unaligned(*x);
        }
        a
    }
}

fn answer(s: &Seen) -> u64 {
    let mut h = s.leaf * 1000 + s.slot + s.cap * 17;
    for c in &s.ctls {
        h = crate::rng::mix(h ^ c);
    }
    crate::rng::mix(h ^ s.arg.unwrap_or(0x1234_5678))
}

fn leaf(id: u64, slot: u64, cap: *mut u8, args: *mut u8, res: *mut u8) {
    unsafe {
        let capv = if cap.is_null() { 0 } else { cap.cast::<u64>().read_unaligned() };
        let mut s = Seen { leaf: id, slot, cap: capv, ctls: vec![], arg: None };
        if !args.is_null() {
            if slot >= 2 {
                let a = args.cast::<Ap>().read_unaligned();
                s.ctls = arr_u64(a);
                s.arg = Some(args.add(8).cast::<u64>().read_unaligned());
            } else {
                s.arg = Some(args.cast::<u64>().read_unaligned());
            }
        }
        let ans = answer(&s);
        let (keep, scribble, re) = prog(|p| {
            p.seen.push(s.clone());
            p.depth += 1;
            let re = if p.reenter.is_empty() || p.depth > 6 { None } else { Some(p.reenter.remove(0)) };
            (p.keep, p.scribble, re)
        });
        if keep && !args.is_null() && slot >= 2 {
            // the function stores its argument tuple and its list of controls
            __quantum__rt__tuple_update_reference_count(args.cast(), 1);
            let a = args.cast::<Ap>().read_unaligned();
            __quantum__rt__array_update_reference_count(a, 1);
            prog(|p| p.kept.push(Kept { tup: args as usize, arr: a as usize, len: s.ctls.len() as u64 }));
        } else if keep && !args.is_null() {
            __quantum__rt__tuple_update_reference_count(args.cast(), 1);
            prog(|p| p.kept.push(Kept { tup: args as usize, arr: 0, len: 0 }));
        }
        if let Some(r) = re {
            let got = invoke(r.target as Cp, &r.levels, Some(r.arg), true);
            prog(|p| {
                if got.is_none() {
                    p.bad.get_or_insert("a nested invocation gave no result".into());
                }
            });
        }
        if scribble && !args.is_null() {
            // arguments are the function's own copy
            if slot >= 2 {
                args.add(8).cast::<u64>().write_unaligned(0xDEAD);
            } else {
                args.cast::<u64>().write_unaligned(0xDEAD);
            }
        }
        if !res.is_null() {
            res.cast::<u64>().write_unaligned(ans);
        }
        prog(|p| p.depth -= 1);
    }
}

macro_rules! leaves {
    ($($name:ident $id:expr, $slot:expr;)*) => {
        $(extern "C" fn $name(cap: *mut u8, args: *mut u8, res: *mut u8) { leaf($id, $slot, cap, args, res) })*
    };
}
leaves! {
    l00 0, 0; l01 0, 1; l02 0, 2; l03 0, 3;
    l10 1, 0; l11 1, 1; l12 1, 2; l13 1, 3;
    l20 2, 0; l21 2, 1; l22 2, 2; l23 2, 3;
}

// ---- partial application: capture = (callable, bound value, number of bound control lists, lists...)

unsafe fn cap_parts(cap: *mut u8) -> (Cp, u64, Vec<Ap>) {
    unsafe {
        let w = cap.cast::<u64>();
        let c = w.read_unaligned() as Cp;
        let b = w.add(1).read_unaligned();
        let n = w.add(2).read_unaligned() as usize;
        let v = untracked(|| (0..n.min(600)).map(|i| w.add(3 + i).read_unaligned() as Ap).collect());
        (c, b, v)
    }
}

/// Builds (c0, (c1, ... (cn, value))) out of existing lists, holding no extra reference to them.
unsafe fn nest(lists: &[Ap], value: u64) -> (Tp, Vec<Tp>) {
    unsafe {
        let mut made = vec![];
        if lists.is_empty() {
            let t = __quantum__rt__tuple_create(8);
            t.cast::<u64>().write_unaligned(value);
            return (t, untracked(|| vec![t]));
        }
        let mut inner = value;
        let mut t = null_mut();
        for a in lists.iter().rev() {
            t = __quantum__rt__tuple_create(16);
            t.cast::<Ap>().write_unaligned(*a);
            t.cast::<u64>().add(1).write_unaligned(inner);
            inner = t as u64;
            untracked(|| made.push(t));
        }
        (t, made)
    }
}

unsafe fn release(made: Vec<Tp>) {
    unsafe {
        for t in &made {
            __quantum__rt__tuple_update_reference_count(*t, -1);
        }
        untracked(|| drop(made));
    }
}

fn partial(slot: u64, cap: *mut u8, args: *mut u8, res: *mut u8) {
    unsafe {
        let (inner, bound, lists) = cap_parts(cap);
        let (ctls, value) = if slot >= 2 {
            (Some(args.cast::<Ap>().read_unaligned()), args.add(8).cast::<u64>().read_unaligned())
        } else {
            (None, args.cast::<u64>().read_unaligned())
        };
        let all: Vec<Ap> = untracked(|| ctls.iter().copied().chain(lists.iter().copied()).collect());
        let (t, made) = nest(&all, value ^ bound);
        if slot == 0 {
            __quantum__rt__callable_invoke(inner, t.cast(), res);
        } else {
            let c = __quantum__rt__callable_copy(inner, true);
            __quantum__rt__capture_update_reference_count(c, 1);
            if slot & 1 == 1 {
                __quantum__rt__callable_make_adjoint(c);
            }
            if slot >= 2 {
                __quantum__rt__callable_make_controlled(c);
            }
            __quantum__rt__callable_invoke(c, t.cast(), res);
            __quantum__rt__capture_update_reference_count(c, -1);
            __quantum__rt__callable_update_reference_count(c, -1);
        }
        release(made);
        untracked(|| drop((all, lists)));
    }
}
extern "C" fn p0(c: *mut u8, a: *mut u8, r: *mut u8) {
    partial(0, c, a, r);
}
extern "C" fn p1(c: *mut u8, a: *mut u8, r: *mut u8) {
    partial(1, c, a, r);
}
extern "C" fn p2(c: *mut u8, a: *mut u8, r: *mut u8) {
    partial(2, c, a, r);
}
extern "C" fn p3(c: *mut u8, a: *mut u8, r: *mut u8) {
    partial(3, c, a, r);
}

extern "C" fn leaf_ref(cap: *mut u8, k: i32) {
    unsafe { __quantum__rt__tuple_update_reference_count(cap.cast(), k) }
}
extern "C" fn leaf_alias(cap: *mut u8, k: i32) {
    unsafe { __quantum__rt__tuple_update_alias_count(cap.cast(), k) }
}
extern "C" fn part_ref(cap: *mut u8, k: i32) {
    unsafe {
        let (c, _, lists) = cap_parts(cap);
        __quantum__rt__capture_update_reference_count(c, k);
        __quantum__rt__callable_update_reference_count(c, k);
        for a in &lists {
            __quantum__rt__array_update_reference_count(*a, k);
        }
        __quantum__rt__tuple_update_reference_count(cap.cast(), k);
        untracked(|| drop(lists));
    }
}
extern "C" fn part_alias(cap: *mut u8, k: i32) {
    unsafe {
        let (c, _, lists) = cap_parts(cap);
        __quantum__rt__capture_update_alias_count(c, k);
        __quantum__rt__callable_update_alias_count(c, k);
        for a in &lists {
            __quantum__rt__array_update_alias_count(*a, k);
        }
        __quantum__rt__tuple_update_alias_count(cap.cast(), k);
        untracked(|| drop(lists));
    }
}

#[repr(C)]
struct Funcs(#[allow(dead_code)] [Fp; 4]);
#[repr(C)]
struct Mems(#[allow(dead_code)] [Option<Mp>; 2]);
static LEAVES: [Funcs; 3] = [Funcs([l00, l01, l02, l03]), Funcs([l10, l11, l12, l13]), Funcs([l20, l21, l22, l23])];
static PART: Funcs = Funcs([p0, p1, p2, p3]);
static MEM_LEAF: Mems = Mems([Some(leaf_ref), Some(leaf_alias)]);
static MEM_PART: Mems = Mems([Some(part_ref), Some(part_alias)]);
static MEM_NONE: Mems = Mems([None, None]);

fn table<T>(t: &'static T) -> *mut *mut u8 {
    std::ptr::from_ref(t).cast_mut().cast()
}

/// Invokes with fresh argument structures and checks that they come back as they were.
unsafe fn invoke(c: Cp, levels: &[Vec<u64>], arg: Option<u64>, want_res: bool) -> Option<u64> {
    unsafe {
        let lists: Vec<Ap> = {
            let mut v = untracked(|| Vec::with_capacity(levels.len()));
            for l in levels {
                let a = new_arr(l);
                untracked(|| v.push(a));
            }
            v
        };
        let (t, made) = match arg {
            Some(v) => {
                let (t, m) = nest(&lists, v);
                (t, m)
            }
            None => (null_mut(), vec![]),
        };
        let res = if want_res { __quantum__rt__tuple_create(8) } else { null_mut() };
        if want_res {
            res.cast::<u64>().write_unaligned(0);
        }
        __quantum__rt__callable_invoke(c, t.cast(), res.cast());
        let r = want_res.then(|| res.cast::<u64>().read_unaligned());
        // the caller's own arguments
        untracked(|| {
            let mut bad = None;
            for (l, a) in levels.iter().zip(&lists) {
                let now = arr_u64(*a);
                if &now != l {
                    bad = Some(format!("the caller's control list {l:?} reads {now:?} after the invocation"));
                }
            }
            if let (Some(v), Some(innermost)) = (arg, made.first()) {
                let w = innermost.cast::<u64>();
                let now = if lists.is_empty() { w.read_unaligned() } else { w.add(1).read_unaligned() };
                if now != v {
                    bad = Some(format!("the caller's argument {v:#x} reads {now:#x} after the invocation"));
                }
                for (i, t) in made.iter().rev().enumerate() {
                    if let Some(a) = lists.get(i)
                        && t.cast::<Ap>().read_unaligned() != *a
                    {
                        bad = Some(format!("level {i} of the caller's arguments names another control list"));
                    }
                }
            }
            if let Some(b) = bad {
                PROG.with(|p| {
                    p.borrow_mut().bad.get_or_insert(b);
                });
            }
        });
        if want_res {
            __quantum__rt__tuple_update_reference_count(res, -1);
        }
        release(made);
        for a in &lists {
            __quantum__rt__array_update_reference_count(*a, -1);
        }
        untracked(|| drop(lists));
        r
    }
}

// ---- model

#[derive(Clone, Debug)]
enum Kind {
    Leaf { id: u64, cap: u64 },
    Part { inner: Box<(Kind, bool, u32)>, bound: u64, lists: Vec<Vec<u64>> },
}

#[derive(Clone, Debug)]
struct Obj {
    p: usize,
    refs: i64,
    alias: i64,
    adj: bool,
    ctl: u32,
    k: Kind,
    /// No function table entry for captures: counts must do nothing.
    depth: u32,
}

/// The leaf call an invocation ends in.
fn eval(k: &Kind, adj: bool, levels: &[Vec<u64>], arg: Option<u64>) -> Seen {
    match k {
        Kind::Leaf { id, cap } => Seen {
            leaf: *id,
            slot: u64::from(adj) + if levels.is_empty() { 0 } else { 2 },
            cap: *cap,
            ctls: levels.concat(),
            arg,
        },
        Kind::Part { inner, bound, lists } => {
            let mut l: Vec<Vec<u64>> = vec![];
            if !levels.is_empty() {
                l.push(levels.concat());
            }
            l.extend(lists.iter().cloned());
            eval(&inner.0, adj != inner.1, &l, arg.map(|a| a ^ bound))
        }
    }
}

struct St<'a, 'b> {
    objs: Vec<Obj>,
    cx: &'a mut Cx<'b>,
    kept: Vec<Kept>,
    tag: u64,
}

impl St<'_, '_> {
    fn pick(&self, n: i64) -> Option<usize> {
        if self.objs.is_empty() { None } else { Some(n.unsigned_abs() as usize % self.objs.len()) }
    }
    fn lists(r: &mut Rng, n: usize) -> Vec<Vec<u64>> {
        (0..n).map(|_| (0..[0, 1, 1, 2, 3][r.idx(5)]).map(|_| r.below(50)).collect()).collect()
    }
    fn counts(&mut self, i: usize, k: i32) {
        let c = self.objs[i].p as Cp;
        track(self.tag, || unsafe {
            if k > 0 {
                __quantum__rt__callable_update_reference_count(c, k);
                __quantum__rt__capture_update_reference_count(c, k);
            } else {
                __quantum__rt__capture_update_reference_count(c, k);
                __quantum__rt__callable_update_reference_count(c, k);
            }
        });
        self.objs[i].refs += i64::from(k);
    }
    fn step(&mut self, o: &Op) -> Res {
        self.tag += 1;
        let tag = self.tag;
        let (a0, a1) = (o.arg(0), o.arg(1));
        let mut r = Rng::new(o.arg(2) as u64);
        self.cx.st.inc(&format!("op.{}", o.k));
        match o.k.as_str() {
            "leaf" => {
                let id = a0.unsigned_abs() % 3;
                let cap = match o.u(1) % 3 {
                    0 => 0,
                    _ => 1 + r.below(1000),
                };
                let c = track(tag, || unsafe {
                    if cap == 0 {
                        // no captures: no tuple, and either no memory functions or an empty table
                        let m = if a1 & 4 == 0 { null_mut() } else { table(&MEM_NONE) };
                        __quantum__rt__callable_create(table(&LEAVES[id as usize]), m, null_mut())
                    } else {
                        let t = __quantum__rt__tuple_create(8);
                        t.cast::<u64>().write_unaligned(cap);
                        __quantum__rt__callable_create(table(&LEAVES[id as usize]), table(&MEM_LEAF), t.cast())
                    }
                });
                self.objs.push(Obj { p: c as usize, refs: 1, alias: 0, adj: false, ctl: 0, k: Kind::Leaf { id, cap }, depth: 0 });
            }
            "partial" => {
                let Some(i) = self.pick(a0) else { return Ok(()) };
                if self.objs[i].depth >= if o.arg(1) & 7 == 7 { 12 } else { 4 } {
                    return Ok(());
                }
                let src = self.objs[i].clone();
                let bound = r.below(1 << 20);
                let lists = Self::lists(&mut r, src.ctl as usize);
                let c = track(tag, || unsafe {
                    let c = __quantum__rt__callable_copy(src.p as Cp, true);
                    __quantum__rt__capture_update_reference_count(c, 1);
                    let t = __quantum__rt__tuple_create((24 + 8 * lists.len()) as u64);
                    let w = t.cast::<u64>();
                    w.write_unaligned(c as u64);
                    w.add(1).write_unaligned(bound);
                    w.add(2).write_unaligned(lists.len() as u64);
                    for (k, l) in lists.iter().enumerate() {
                        w.add(3 + k).write_unaligned(new_arr(l) as u64);
                    }
                    __quantum__rt__callable_create(table(&PART), table(&MEM_PART), t.cast())
                });
                self.cx.st.inc("reach.partial application");
                self.objs.push(Obj {
                    p: c as usize,
                    refs: 1,
                    alias: 0,
                    adj: false,
                    ctl: 0,
                    k: Kind::Part { inner: Box::new((src.k, src.adj, src.ctl)), bound, lists },
                    depth: src.depth + 1,
                });
            }
            "copy" => {
                let Some(i) = self.pick(a0) else { return Ok(()) };
                let force = a1 & 1 == 1;
                let src = self.objs[i].clone();
                let c = track(tag, || unsafe {
                    let c = __quantum__rt__callable_copy(src.p as Cp, force);
                    __quantum__rt__capture_update_reference_count(c, 1);
                    c
                }) as usize;
                if (c != src.p) != (force || src.alias > 0) {
                    return viol("functor", format!("copy of a callable with alias count {} (forced: {force}) shared: {}", src.alias, c == src.p));
                }
                if c == src.p {
                    self.objs[i].refs += 1;
                } else {
                    self.objs.push(Obj { p: c, refs: 1, alias: 0, ..src });
                }
            }
            "deep" => {
                // many functor applications to one callable
                let Some(i) = self.pick(a0) else { return Ok(()) };
                let c = self.objs[i].p as Cp;
                let n = (a1.unsigned_abs() as u32).min(300).min(300 - self.objs[i].ctl.min(300));
                for _ in 0..n {
                    track(tag, || unsafe { __quantum__rt__callable_make_controlled(c) });
                }
                self.objs[i].ctl += n;
                if o.arg(3) & 1 == 1 {
                    for _ in 0..=n {
                        track(tag, || unsafe { __quantum__rt__callable_make_adjoint(c) });
                    }
                    self.objs[i].adj ^= n & 1 == 0;
                }
            }
            "adj" | "ctl" => {
                let Some(i) = self.pick(a0) else { return Ok(()) };
                let c = self.objs[i].p as Cp;
                if o.k == "adj" {
                    track(tag, || unsafe { __quantum__rt__callable_make_adjoint(c) });
                    self.objs[i].adj = !self.objs[i].adj;
                } else if self.objs[i].ctl < 4 {
                    track(tag, || unsafe { __quantum__rt__callable_make_controlled(c) });
                    self.objs[i].ctl += 1;
                }
            }
            "inc" => {
                let Some(i) = self.pick(a0) else { return Ok(()) };
                self.counts(i, 1 + (a1 & 1) as i32);
            }
            "rel" => {
                let Some(i) = self.pick(a0) else { return Ok(()) };
                if self.objs[i].refs == 1 && self.objs[i].alias > 0 {
                    return Ok(());
                }
                self.counts(i, -1);
                if self.objs[i].refs == 0 {
                    let p = self.objs.remove(i).p;
                    if seams::mem_status(p as *const u8) != Some(false) {
                        return viol("leak", "a callable lost its last reference but its memory remains");
                    }
                    self.cx.st.inc("check.freed with its last reference");
                }
            }
            "alias" => {
                let Some(i) = self.pick(a0) else { return Ok(()) };
                let k = if a1 & 1 == 0 && self.objs[i].alias > 0 { -1 } else { 1 };
                let c = self.objs[i].p as Cp;
                track(tag, || unsafe {
                    __quantum__rt__capture_update_alias_count(c, k);
                    __quantum__rt__callable_update_alias_count(c, k);
                });
                self.objs[i].alias += i64::from(k);
            }
            "call" => {
                let Some(i) = self.pick(a0) else { return Ok(()) };
                let ob = self.objs[i].clone();
                let levels = Self::lists(&mut r, ob.ctl as usize);
                let unit = a1 & 3 == 3 && ob.ctl == 0 && matches!(ob.k, Kind::Leaf { .. });
                let arg = (!unit).then(|| r.below(1 << 20));
                let want_res = a1 & 4 == 0;
                let (keep, scribble) = (a1 & 24 == 8, a1 & 32 == 32);
                let n_re = [0, 0, 0, 1, 2, 3][o.u(3) % 6];
                let mut want = vec![eval(&ob.k, ob.adj, &levels, arg)];
                let mut re = vec![];
                for _ in 0..n_re {
                    let j = r.idx(self.objs.len());
                    let t = &self.objs[j];
                    let l = Self::lists(&mut r, t.ctl as usize);
                    let v = r.below(1 << 20);
                    want.push(eval(&t.k, t.adj, &l, Some(v)));
                    re.push(Reenter { target: t.p, levels: l, arg: v, slot: j });
                }
                let nre = re.len();
                let live0 = seams::mem_live().len();
                PROG.with(|p| *p.borrow_mut() = Prog { reenter: re, keep, scribble, ..Prog::default() });
                let got = track(tag, || unsafe { invoke(ob.p as Cp, &levels, arg, want_res) });
                let p = PROG.with(|p| std::mem::take(&mut *p.borrow_mut()));
                let _ = p.reenter.first().map(|x| x.slot);
                self.cx.nontrivial = true;
                self.cx.st.inc("check.invocation");
                if nre > 0 {
                    self.cx.st.inc("reach.re-entrant invocation");
                }
                if levels.len() > 1 {
                    self.cx.st.inc("reach.nested controls");
                }
                if let Some(b) = p.bad {
                    return viol("functor", b);
                }
                if p.seen != want {
                    return viol("functor", format!("functions called: {:?}, expected {want:?}", p.seen));
                }
                if want_res && got != Some(answer(&want[0])) {
                    return viol("functor", format!("result {got:?}, expected {}", answer(&want[0])));
                }
                for s in &p.seen {
                    self.cx.ev(answer(s));
                }
                if !keep && seams::mem_live().len() != live0 {
                    return viol(
                        "leak",
                        format!("{live0} blocks before the invocation, {} after it", seams::mem_live().len()),
                    );
                }
                self.kept.extend(p.kept);
                if seams::mem_live().len() == live0 && keep && !self.kept.is_empty() && arg.is_some() {
                    return viol("freed-early", "arguments the function kept a reference to are gone");
                }
            }
            "drop" => {
                // the program lets go of arguments that functions kept
                if let Some(k) = self.kept.pop() {
                    self.drop_kept(k)?;
                }
            }
            k => return viol("harness", format!("unknown op {k}")),
        }
        self.errors()
    }
    fn drop_kept(&mut self, k: Kept) -> Res {
        if k.arr != 0 {
            let v = unsafe { __quantum__rt__array_get_size_1d(k.arr as Ap) };
            if v != k.len {
                return viol("freed-early", "a kept control list changed size");
            }
        }
        track(self.tag, || unsafe {
            if k.arr != 0 {
                __quantum__rt__array_update_reference_count(k.arr as Ap, -1);
            }
            __quantum__rt__tuple_update_reference_count(k.tup as Tp, -1);
        });
        self.cx.st.inc("check.kept arguments");
        Ok(())
    }
    fn errors(&self) -> Res {
        match seams::mem_error() {
            None => Ok(()),
            Some((e, b, by)) => viol("memory", format!("{e:?} on a block allocated by op {b}, detected in op {by}")),
        }
    }
}

impl World for CallWorld {
    fn name(&self) -> &'static str {
        "call"
    }
    fn gen_run(&self, _prop: &str, r: &mut Rng) -> Trace {
        let mut t = Trace::new("call");
        let all: &[(&str, u64)] = &[
            ("leaf", 8), ("partial", 9), ("copy", 9), ("adj", 9), ("ctl", 10), ("inc", 4), ("rel", 9), ("alias", 6), ("call", 30), ("drop", 4),
        ];
        let mut ops = crate::simworld::swarm(r, all);
        for n in ["leaf", "call"] {
            if !ops.iter().any(|o| o.0 == n) {
                ops.push(*all.iter().find(|o| o.0 == n).expect("op"));
            }
        }
        let w: Vec<u64> = ops.iter().map(|o| o.1).collect();
        t.push("leaf", &[r.below(3) as i64, r.below(8) as i64, r.u64() as i64, 0]);
        let len = if r.pct(25) { r.range(40, 120) } else { r.range(3, 40) };
        let deep = r.one_in(20);
        for _ in 0..len {
            if deep && r.pct(6) {
                let n = if r.one_in(12) { r.range(200, 300) } else { r.range(2, 20) };
                t.push("deep", &[r.below(1000) as i64, n, 0, r.below(2) as i64]);
            }
            let k = ops[r.weighted(&w)].0;
            t.push(k, &[r.below(1000) as i64, r.below(64) as i64, r.below(1 << 20) as i64, r.below(6) as i64]);
        }
        t
    }
    fn exec(&self, t: &Trace, cx: &mut Cx) -> Result<(), Violation> {
        PROG.with(|p| *p.borrow_mut() = Prog::default());
        seams::mem_begin();
        let mut s = St { objs: vec![], cx, kept: vec![], tag: 0 };
        let r = (|| -> Res {
            for (i, o) in t.ops.iter().enumerate() {
                s.cx.at = i;
                s.cx.say(|| format!("{} {:?}", o.k, o.a));
                s.step(o)?;
            }
            s.cx.at = t.ops.len();
            while let Some(k) = s.kept.pop() {
                s.drop_kept(k)?;
            }
            while let Some(o) = s.objs.last() {
                let (i, k, a) = (s.objs.len() - 1, o.refs as i32, o.alias as i32);
                let c = o.p as Cp;
                if a > 0 {
                    track(0, || unsafe {
                        __quantum__rt__capture_update_alias_count(c, -a);
                        __quantum__rt__callable_update_alias_count(c, -a);
                    });
                }
                s.counts(i, -k);
                s.objs.pop();
            }
            s.errors()?;
            seams::mem_scan();
            s.errors()?;
            let left = seams::mem_live();
            if !left.is_empty() {
                return viol("leak", format!("{} blocks left after everything was released, the first from op {}", left.len(), left[0].0));
            }
            Ok(())
        })();
        seams::mem_end(false);
        r
    }
}
