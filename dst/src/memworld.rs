//! Reference-counted runtime objects (arrays, tuples, strings, big integers, callables, qubit arrays)
//! under a seeded history of creations, copies, writes and count changes, with the allocator behind a
//! seam: every block carries the object it was allocated for, freed blocks are poisoned and quarantined.

use crate::driver::World;
use crate::qirworld::{buffered, cstr};
use crate::rng::Rng;
use crate::seams::{self, track};
use crate::simworld::swarm;
use crate::stats::{Cx, Res, Violation, viol};
use crate::trace::{Op, Trace};
use num_bigint::BigInt;
use qir_backend::*;
use std::ffi::{CString, c_char, c_void};

pub struct MemWorld;

#[derive(Clone, Debug, PartialEq)]
enum Data {
    Arr { es: usize, bytes: Vec<u8> },
    Tup(Vec<u8>),
    Str(Vec<u8>),
    Big(BigInt),
    /// Function table number, adjoint, control levels, capture value.
    Call { table: usize, adj: bool, ctl: u32, cap: usize },
    /// A qubit array: its qubits are released when `released`.
    Qubits { ids: Vec<usize>, released: bool },
}

#[derive(Clone, Debug)]
struct Obj {
    id: u64,
    p: usize,
    refs: i64,
    alias: i64,
    d: Data,
}

/// A pointer into an object's data, kept while the object lives.
struct Held {
    obj: u64,
    at: usize,
    p: *mut u8,
}

struct St<'a, 'b> {
    objs: Vec<Obj>,
    next: u64,
    held: Vec<Held>,
    cx: &'a mut Cx<'b>,
    caps: Vec<usize>,
    huge: bool,
}

thread_local! {
    static CALLED: std::cell::RefCell<Vec<(usize, usize)>> = const { std::cell::RefCell::new(vec![]) };
}

macro_rules! entry {
    ($name:ident, $n:expr) => {
        extern "C" fn $name(cap: *mut u8, _args: *mut u8, _res: *mut u8) {
            seams::untracked(|| CALLED.with(|c| c.borrow_mut().push(($n, cap as usize))));
        }
    };
}
entry!(f0, 0);
entry!(f1, 1);
entry!(f2, 2);
entry!(f3, 3);
entry!(f4, 4);
entry!(f5, 5);
entry!(f6, 6);
entry!(f7, 7);

type Fp = extern "C" fn(*mut u8, *mut u8, *mut u8);
struct Table(#[allow(dead_code)] [Fp; 4]);
static TABLES: [Table; 2] = [Table([f0, f1, f2, f3]), Table([f4, f5, f6, f7])];

fn arr(o: &Obj) -> *const QirArray {
    o.p as *const QirArray
}
fn tup(o: &Obj) -> *mut *const Vec<u8> {
    o.p as *mut *const Vec<u8>
}
fn st(o: &Obj) -> *const CString {
    o.p as *const CString
}
fn big(o: &Obj) -> *const BigInt {
    o.p as *const BigInt
}
fn call(o: &Obj) -> *const callables::Callable {
    o.p as *const callables::Callable
}

use qir_backend::callables;

impl St<'_, '_> {
    fn add(&mut self, d: Data, p: usize) -> Res {
        let id = self.next;
        self.next += 1;
        if p == 0 {
            return viol("null", "creation returned a null pointer");
        }
        if let Some(o) = self.objs.iter().find(|o| o.p == p) {
            return viol("shared-address", format!("new object {id} has the address of live object {}", o.id));
        }
        self.objs.push(Obj { id, p, refs: 1, alias: 0, d });
        Ok(())
    }
    fn pick(&self, n: i64, f: impl Fn(&Obj) -> bool) -> Option<usize> {
        let v: Vec<usize> = (0..self.objs.len()).filter(|i| f(&self.objs[*i])).collect();
        if v.is_empty() { None } else { Some(v[n.unsigned_abs() as usize % v.len()]) }
    }
    fn drop_refs(&self, i: usize, k: i64) {
        let o = &self.objs[i];
        let k = k as i32;
        track(1000 + o.id, || unsafe {
            match &o.d {
                Data::Arr { .. } | Data::Qubits { .. } => __quantum__rt__array_update_reference_count(arr(o), k),
                Data::Tup(_) => __quantum__rt__tuple_update_reference_count(tup(o), k),
                Data::Str(_) => __quantum__rt__string_update_reference_count(st(o), k),
                Data::Big(_) => __quantum__rt__bigint_update_reference_count(big(o), k),
                Data::Call { .. } => __quantum__rt__callable_update_reference_count(call(o), k),
            }
        });
    }
    /// The last reference is gone: the object's memory must be too.
    fn gone(&mut self, i: usize) -> Res {
        let o = self.objs.remove(i);
        self.held.retain(|h| h.obj != o.id);
        self.cx.st.inc("check.freed with its last reference");
        if !matches!(o.d, Data::Qubits { .. }) {
            let left: Vec<_> = seams::mem_live().into_iter().filter(|b| b.0 == o.id).collect();
            if !left.is_empty() {
                return viol(
                    "leak",
                    format!("object {} ({}) lost its last reference but {} blocks of it remain", o.id, name(&o.d), left.len()),
                );
            }
        }
        Ok(())
    }
    /// The object's observable value.
    fn check(&mut self, i: usize) -> Res {
        let o = self.objs[i].clone();
        if seams::mem_status(block_of(&o)) == Some(false) {
            return viol("freed-early", format!("object {} ({}) has {} references but its memory was freed", o.id, name(&o.d), o.refs));
        }
        let got = track(2000 + o.id, || read(&o));
        self.cx.st.inc("check.object value");
        let want = match &o.d {
            Data::Arr { es, bytes } => {
                let mut v = ((bytes.len() / es) as u64).to_le_bytes().to_vec();
                v.extend(bytes);
                v
            }
            Data::Tup(b) | Data::Str(b) => b.clone(),
            Data::Big(_) => vec![1],
            Data::Call { table, adj, ctl, cap } => {
                let slot = table * 4 + usize::from(*adj) + if *ctl > 0 { 2 } else { 0 };
                let mut v = (slot as u64).to_le_bytes().to_vec();
                v.extend((*cap as u64).to_le_bytes());
                v
            }
            Data::Qubits { ids, .. } => {
                let mut v = (ids.len() as u64).to_le_bytes().to_vec();
                for q in ids {
                    v.extend((*q as u64).to_le_bytes());
                }
                v
            }
        };
        self.cx.ev_s(&want);
        if got != want {
            return viol(
                "value",
                format!("object {} ({}) reads {:02x?}, written {:02x?}", o.id, name(&o.d), cut(&got), cut(&want)),
            );
        }
        Ok(())
    }
    /// How many elements of the given size: usually fewer than `below`, in some runs more than fit in 64 kB.
    fn len(&mut self, o: &Op, k: usize, below: usize, es: usize) -> usize {
        if !self.huge || o.u(3) % 3 == 0 {
            return o.u(k) % below;
        }
        self.cx.st.inc("objects of 64 kB and more");
        [65_535, 65_536, 65_537, 70_000, 131_072, 300_000, 1_100_000][o.u(k) % 7] / es + 1
    }
    fn step(&mut self, o: &Op) -> Res {
        let id = self.next;
        let (a0, a1, a2) = (o.arg(0), o.arg(1), o.arg(2));
        let is_arr = |o: &Obj| matches!(o.d, Data::Arr { .. });
        let is_tup = |o: &Obj| matches!(o.d, Data::Tup(_));
        let is_str = |o: &Obj| matches!(o.d, Data::Str(_));
        let is_big = |o: &Obj| matches!(o.d, Data::Big(_));
        let is_call = |o: &Obj| matches!(o.d, Data::Call { .. });
        let can_alias = |o: &Obj| matches!(o.d, Data::Arr { .. } | Data::Tup(_) | Data::Call { .. } | Data::Qubits { .. });
        self.cx.st.inc(&format!("op.{}", o.k));
        match o.k.as_str() {
            "arr" => {
                let es = [1usize, 1, 2, 3, 4, 8, 8, 16, 24, 40][o.u(0) % 10];
                let n = self.len(o, 1, 40, es);
                let p = track(id, || __quantum__rt__array_create_1d(es as u32, n as u64)) as usize;
                self.add(Data::Arr { es, bytes: vec![0; es * n] }, p)?;
                let l = self.objs.len() - 1;
                self.check(l)?;
                if n >= 40 {
                    let b = fill(a1, es * n);
                    unsafe {
                        let e = __quantum__rt__array_get_element_ptr_1d(p as *const QirArray, 0);
                        std::ptr::copy_nonoverlapping(b.as_ptr(), e.cast(), es * n);
                    }
                    self.objs[l].d = Data::Arr { es, bytes: b };
                    self.check(l)?;
                }
            }
            "tup" => {
                let n = self.len(o, 0, 70, 1);
                let p = track(id, || __quantum__rt__tuple_create(n as u64)) as usize;
                // the contents of a new tuple are the program's to write
                let b = fill(a1, n);
                unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p as *mut u8, n) };
                self.add(Data::Tup(b), p)?;
            }
            "str" => {
                let b: Vec<u8> = fill(a1, self.len(o, 0, 50, 1)).into_iter().map(|x| if x == 0 { b'x' } else { x }).collect();
                let c = CString::new(b.clone()).unwrap_or_default();
                let p = track(id, || unsafe { __quantum__rt__string_create(c.as_ptr() as *mut c_char) }) as usize;
                drop(c);
                self.add(Data::Str(b), p)?;
            }
            "big" => {
                let n = 1 + o.u(0) % 24;
                let b = fill(a1, n);
                let v = BigInt::from_signed_bytes_le(&b);
                let p = if n <= 8 && a2 & 1 == 1 {
                    let x = i64::try_from(&v).unwrap_or(0);
                    track(id, || __quantum__rt__bigint_create_i64(x)) as usize
                } else {
                    track(id, || unsafe { __quantum__rt__bigint_create_array(n as u32, b.as_ptr()) }) as usize
                };
                self.add(Data::Big(v), p)?;
            }
            "call" => {
                let (table, cap) = (o.u(0) & 1, self.caps[o.u(1) % self.caps.len()]);
                let t = (&raw const TABLES[table]).cast_mut().cast::<*mut u8>();
                let p = track(id, || __quantum__rt__callable_create(t, std::ptr::null_mut(), cap as *mut u8)) as usize;
                self.add(Data::Call { table, adj: false, ctl: 0, cap }, p)?;
            }
            "qarr" => {
                let live: usize = self.objs.iter().filter_map(|o| if let Data::Qubits { ids, released: false } = &o.d { Some(ids.len()) } else { None }).sum();
                let n = o.u(0) % 5;
                if live + n > 20 {
                    return Ok(());
                }
                let p = track(id, || __quantum__rt__qubit_allocate_array(n as u64)) as usize;
                let ids: Vec<usize> = unsafe {
                    (0..n)
                        .map(|i| {
                            *__quantum__rt__array_get_element_ptr_1d(p as *const QirArray, i as u64).cast::<*mut c_void>() as usize
                        })
                        .collect()
                };
                self.add(Data::Qubits { ids, released: false }, p)?;
                let l = self.objs.len() - 1;
                self.check(l)?;
            }
            "qrel" => {
                // releases the qubits and gives back the allocation's own reference
                let Some(i) = self.pick(a0, |o| matches!(o.d, Data::Qubits { released: false, .. }) && (o.alias == 0 || o.refs > 1)) else {
                    return Ok(());
                };
                let p = arr(&self.objs[i]);
                track(3000, || unsafe { __quantum__rt__qubit_release_array(p) });
                if let Data::Qubits { released, .. } = &mut self.objs[i].d {
                    *released = true;
                }
                self.objs[i].refs -= 1;
                if self.objs[i].refs == 0 {
                    self.gone(i)?;
                } else {
                    self.check(i)?;
                }
                self.cx.nontrivial = true;
            }
            "copy" => {
                let Some(i) = self.pick(a0, can_alias) else { return Ok(()) };
                let (src, force) = (self.objs[i].clone(), a1 & 1 == 1);
                if matches!(src.d, Data::Qubits { .. }) {
                    return Ok(());
                }
                let p = track(id, || unsafe {
                    match &src.d {
                        Data::Arr { .. } => __quantum__rt__array_copy(arr(&src), force) as usize,
                        Data::Tup(_) => __quantum__rt__tuple_copy(tup(&src), force) as usize,
                        _ => __quantum__rt__callable_copy(call(&src), force) as usize,
                    }
                });
                let fresh = force || src.alias > 0;
                if fresh == (p == src.p) {
                    return viol(
                        "copy-on-write",
                        format!("copy of object {} ({}) with alias count {}, forced {force}: shared {}", src.id, name(&src.d), src.alias, p == src.p),
                    );
                }
                if fresh {
                    self.cx.nontrivial = true;
                    self.cx.st.inc("check.copy is separate");
                    self.add(src.d.clone(), p)?;
                    let l = self.objs.len() - 1;
                    self.check(l)?;
                } else {
                    self.cx.st.inc("check.copy is shared");
                    self.objs[i].refs += 1;
                }
                self.check(i)?;
            }
            "cat" => {
                if a2 & 1 == 0 {
                    let Some(i) = self.pick(a0, is_arr) else { return Ok(()) };
                    let Data::Arr { es, bytes } = self.objs[i].d.clone() else { return Ok(()) };
                    let Some(j) = self.pick(a1, |o| matches!(&o.d, Data::Arr { es: e, .. } if *e == es)) else { return Ok(()) };
                    let Data::Arr { bytes: b2, .. } = self.objs[j].d.clone() else { return Ok(()) };
                    if bytes.len() + b2.len() > if self.huge { 3_000_000 } else { 4000 } {
                        return Ok(());
                    }
                    let (p, q) = (arr(&self.objs[i]), arr(&self.objs[j]));
                    let n = track(id, || unsafe { __quantum__rt__array_concatenate(p, q) }) as usize;
                    let mut v = bytes;
                    v.extend(b2);
                    self.add(Data::Arr { es, bytes: v }, n)?;
                } else {
                    let (Some(i), Some(j)) = (self.pick(a0, is_str), self.pick(a1, is_str)) else { return Ok(()) };
                    let (Data::Str(mut x), Data::Str(y)) = (self.objs[i].d.clone(), self.objs[j].d.clone()) else { return Ok(()) };
                    if x.len() + y.len() > if self.huge { 3_000_000 } else { 2000 } {
                        return Ok(());
                    }
                    let (p, q) = (st(&self.objs[i]), st(&self.objs[j]));
                    let n = track(id, || unsafe { __quantum__rt__string_concatenate(p, q) }) as usize;
                    x.extend(y);
                    self.add(Data::Str(x), n)?;
                }
                let l = self.objs.len() - 1;
                self.check(l)?;
            }
            "slice" => {
                let Some(i) = self.pick(a0, is_arr) else { return Ok(()) };
                let Data::Arr { es, bytes } = self.objs[i].d.clone() else { return Ok(()) };
                let n = (bytes.len() / es) as i64;
                let step = [1, 1, 2, 3, -1, -1, -2, -3][o.u(2) % 8];
                if n == 0 {
                    return Ok(());
                }
                let (x, y) = (a1.rem_euclid(n), o.arg(3).rem_euclid(n));
                let mut v = vec![];
                let mut k = x;
                while if step > 0 { k <= y } else { k >= y } {
                    v.extend(&bytes[k as usize * es..(k as usize + 1) * es]);
                    k += step;
                }
                let p = arr(&self.objs[i]);
                let n = track(id, || unsafe {
                    range_support::quantum__rt__array_slice_1d(p, range_support::Range { start: x, step, end: y })
                }) as usize;
                self.add(Data::Arr { es, bytes: v }, n)?;
                let l = self.objs.len() - 1;
                self.check(l)?;
            }
            "fmt" => {
                // conversions that make strings
                let p = match o.u(0) % 6 {
                    0 => (track(id, || __quantum__rt__int_to_string(a1)) as usize, a1.to_string()),
                    1 => (track(id, || __quantum__rt__bool_to_string(a1 & 1 == 1)) as usize, (a1 & 1 == 1).to_string()),
                    2 => (track(id, || __quantum__rt__double_to_string(1.5)) as usize, "1.5".to_string()),
                    3 => (track(id, || __quantum__rt__pauli_to_string(Pauli::Y)) as usize, "PauliY".to_string()),
                    4 => (
                        track(id, || result_bool::__quantum__rt__result_to_string(result_bool::__quantum__rt__result_get_one())) as usize,
                        "One".to_string(),
                    ),
                    _ => {
                        let Some(i) = self.pick(a1, is_big) else { return Ok(()) };
                        let Data::Big(v) = self.objs[i].d.clone() else { return Ok(()) };
                        let b = big(&self.objs[i]);
                        (track(id, || unsafe { __quantum__rt__bigint_to_string(b) }) as usize, v.to_string())
                    }
                };
                self.add(Data::Str(p.1.into_bytes()), p.0)?;
                let l = self.objs.len() - 1;
                self.check(l)?;
            }
            "arith" => {
                let (Some(i), Some(j)) = (self.pick(a0, is_big), self.pick(a1, is_big)) else { return Ok(()) };
                let (Data::Big(x), Data::Big(y)) = (self.objs[i].d.clone(), self.objs[j].d.clone()) else { return Ok(()) };
                if x.bits() + y.bits() > 3000 {
                    return Ok(());
                }
                let (p, q) = (big(&self.objs[i]), big(&self.objs[j]));
                let zero = BigInt::from(0);
                let (v, n) = match o.u(2) % 9 {
                    0 => (&x + &y, track(id, || unsafe { __quantum__rt__bigint_add(p, q) })),
                    1 => (&x - &y, track(id, || unsafe { __quantum__rt__bigint_subtract(p, q) })),
                    2 => (&x * &y, track(id, || unsafe { __quantum__rt__bigint_multiply(p, q) })),
                    3 if y != zero => (&x / &y, track(id, || unsafe { __quantum__rt__bigint_divide(p, q) })),
                    4 => (&x & &y, track(id, || unsafe { __quantum__rt__bigint_bitand(p, q) })),
                    5 => (&x | &y, track(id, || unsafe { __quantum__rt__bigint_bitor(p, q) })),
                    6 => (&x ^ &y, track(id, || unsafe { __quantum__rt__bigint_bitxor(p, q) })),
                    7 => (-&x, track(id, || unsafe { __quantum__rt__bigint_negate(p) })),
                    _ => (&x << 7, track(id, || unsafe { __quantum__rt__bigint_shiftleft(p, 7) })),
                };
                self.add(Data::Big(v), n as usize)?;
                let l = self.objs.len() - 1;
                self.check(l)?;
                self.check(i)?;
                self.check(j)?;
            }
            "bdata" => {
                let Some(i) = self.pick(a0, is_big) else { return Ok(()) };
                let b = big(&self.objs[i]);
                let n = unsafe { __quantum__rt__bigint_get_length(b) } as usize;
                let _ = n;
                let _ = track(9001, || unsafe { __quantum__rt__bigint_get_data(b) });
            }
            "write" => {
                let Some(i) = self.pick(a0, |o| (is_arr(o) || is_tup(o)) && o.alias == 0) else { return Ok(()) };
                let x = fill(a2, 40);
                let p = self.objs[i].p;
                match &mut self.objs[i].d {
                    Data::Arr { es, bytes } if !bytes.is_empty() => {
                        let n = bytes.len() / *es;
                        let k = o.u(1) % n;
                        unsafe {
                            let e = __quantum__rt__array_get_element_ptr_1d(p as *const QirArray, k as u64);
                            std::ptr::copy_nonoverlapping(x.as_ptr(), e.cast(), *es);
                        }
                        bytes[k * *es..(k + 1) * *es].copy_from_slice(&x[..*es]);
                    }
                    Data::Tup(b) if !b.is_empty() => {
                        let k = o.u(1) % b.len();
                        unsafe { *(p as *mut u8).add(k) = x[0] };
                        b[k] = x[0];
                    }
                    _ => (),
                }
                self.cx.nontrivial = true;
            }
            "hold" => {
                let Some(i) = self.pick(a0, |o| matches!(&o.d, Data::Arr { bytes, .. } if !bytes.is_empty())) else { return Ok(()) };
                if let Data::Arr { es, bytes } = &self.objs[i].d {
                    let k = o.u(1) % (bytes.len() / es);
                    let p = unsafe { __quantum__rt__array_get_element_ptr_1d(arr(&self.objs[i]), k as u64) }.cast::<u8>();
                    self.held.push(Held { obj: self.objs[i].id, at: k * es, p });
                }
            }
            "hwrite" => {
                if self.held.is_empty() {
                    return Ok(());
                }
                let h = &self.held[o.u(0) % self.held.len()];
                let (id, at, p, b) = (h.obj, h.at, h.p, fill(a1, 1)[0]);
                let Some(ob) = self.objs.iter_mut().find(|o| o.id == id) else { return Ok(()) };
                if seams::mem_status(p) != Some(true) {
                    return viol("moved", format!("a pointer into live object {id} no longer points into live memory"));
                }
                unsafe { *p = b };
                if let Data::Arr { bytes, .. } = &mut ob.d {
                    bytes[at] = b;
                }
                self.cx.st.inc("check.element pointer stays valid");
            }
            "ref" => {
                let Some(i) = self.pick(a0, |_| true) else { return Ok(()) };
                let k = a1.clamp(-70_000, 70_000);
                if k < 0 && (self.objs[i].refs + k < 0 || self.objs[i].refs + k == 0 && self.objs[i].alias > 0) {
                    return Ok(());
                }
                if matches!(self.objs[i].d, Data::Qubits { released: false, .. }) && self.objs[i].refs + k < 1 {
                    return Ok(());
                }
                self.drop_refs(i, k);
                self.objs[i].refs += k;
                if self.objs[i].refs == 0 {
                    self.cx.nontrivial = true;
                    self.gone(i)?;
                } else {
                    self.check(i)?;
                }
            }
            "alias" => {
                let Some(i) = self.pick(a0, can_alias) else { return Ok(()) };
                let k = a1.clamp(-70_000, 70_000);
                if self.objs[i].alias + k < 0 {
                    return Ok(());
                }
                let ob = self.objs[i].clone();
                track(1000 + ob.id, || unsafe {
                    match &ob.d {
                        Data::Tup(_) => __quantum__rt__tuple_update_alias_count(tup(&ob), k as i32),
                        Data::Call { .. } => __quantum__rt__callable_update_alias_count(call(&ob), k as i32),
                        _ => __quantum__rt__array_update_alias_count(arr(&ob), k as i32),
                    }
                });
                self.objs[i].alias += k;
                self.check(i)?;
            }
            "functor" => {
                // functors change a callable in place: only done to one that nobody else holds
                let Some(i) = self.pick(a0, |o| is_call(o) && o.refs == 1) else { return Ok(()) };
                let p = call(&self.objs[i]);
                if let Data::Call { adj, ctl, .. } = &mut self.objs[i].d {
                    if a1 & 1 == 0 {
                        track(1000, || unsafe { __quantum__rt__callable_make_adjoint(p) });
                        *adj = !*adj;
                    } else if *ctl == 0 {
                        track(1000, || unsafe { __quantum__rt__callable_make_controlled(p) });
                        *ctl += 1;
                    }
                }
                self.check(i)?;
            }
            "eq" => {
                if let (Some(i), Some(j)) = (self.pick(a0, is_str), self.pick(a1, is_str)) {
                    let got = unsafe { __quantum__rt__string_equal(st(&self.objs[i]), st(&self.objs[j])) };
                    if got != (self.objs[i].d == self.objs[j].d) {
                        return viol("equality", format!("string_equal of objects {} and {} is {got}", self.objs[i].id, self.objs[j].id));
                    }
                }
            }
            "check" => {
                if !self.objs.is_empty() {
                    let i = o.u(0) % self.objs.len();
                    self.check(i)?;
                }
            }
            k => return viol("harness", format!("unknown op {k}")),
        }
        if self.objs.len() > 60 {
            // bounded working set: everything unaliased goes
            let i = self.objs.iter().position(|o| o.alias == 0 && !matches!(o.d, Data::Qubits { .. }));
            if let Some(i) = i {
                let k = self.objs[i].refs;
                self.drop_refs(i, -k);
                self.gone(i)?;
            }
        }
        Ok(())
    }
    fn errors(&self) -> Res {
        match seams::mem_error() {
            None => Ok(()),
            Some((e, b, by)) => viol("memory", format!("{e:?} on a block allocated under tag {b}, detected under tag {by}")),
        }
    }
}

fn cut(v: &[u8]) -> &[u8] {
    &v[..v.len().min(48)]
}

fn name(d: &Data) -> &'static str {
    match d {
        Data::Arr { .. } => "array",
        Data::Tup(_) => "tuple",
        Data::Str(_) => "string",
        Data::Big(_) => "big integer",
        Data::Call { .. } => "callable",
        Data::Qubits { .. } => "qubit array",
    }
}

fn fill(seed: i64, n: usize) -> Vec<u8> {
    let mut r = Rng::new(seed as u64);
    (0..n).map(|_| r.u64() as u8).collect()
}

fn block_of(o: &Obj) -> *const u8 {
    match &o.d {
        // the tuple pointer points past its header, possibly past the end of an empty tuple
        Data::Tup(_) => (o.p - 8) as *const u8,
        _ => o.p as *const u8,
    }
}

fn read(o: &Obj) -> Vec<u8> {
    unsafe {
        match &o.d {
            Data::Arr { es, bytes } => {
                let n = __quantum__rt__array_get_size_1d(arr(o));
                let mut v = n.to_le_bytes().to_vec();
                if n as usize != bytes.len() / es {
                    return v;
                }
                for i in 0..n {
                    let e = __quantum__rt__array_get_element_ptr_1d(arr(o), i).cast::<u8>();
                    for k in 0..*es {
                        v.push(*e.add(k));
                    }
                }
                v
            }
            Data::Tup(b) => (0..b.len()).map(|k| *(o.p as *const u8).add(k)).collect(),
            Data::Str(_) => {
                let n = __quantum__rt__string_get_length(st(o)) as usize;
                let d = __quantum__rt__string_get_data(st(o)).cast::<u8>();
                let v: Vec<u8> = (0..n.min(1 << 24)).map(|i| *d.add(i)).collect();
                if *d.add(n) != 0 {
                    return vec![];
                }
                v
            }
            Data::Big(v) => {
                let b = v.to_signed_bytes_le();
                let t = __quantum__rt__bigint_create_array(b.len() as u32, b.as_ptr());
                let e = __quantum__rt__bigint_equal(big(o), t);
                __quantum__rt__bigint_update_reference_count(t, -1);
                vec![u8::from(e)]
            }
            Data::Call { ctl, .. } => {
                let _ = seams::untracked(|| CALLED.with(|c| c.borrow_mut().clear()));
                // a controlled callable takes (controls, argument); otherwise no argument at all
                if *ctl > 0 {
                    let a = __quantum__rt__array_create_1d(8, 1);
                    let t = __quantum__rt__tuple_create(16);
                    t.cast::<*const QirArray>().write_unaligned(a);
                    __quantum__rt__callable_invoke(call(o), t.cast(), std::ptr::null_mut());
                    __quantum__rt__tuple_update_reference_count(t, -1);
                    __quantum__rt__array_update_reference_count(a, -1);
                } else {
                    __quantum__rt__callable_invoke(call(o), std::ptr::null_mut(), std::ptr::null_mut());
                }
                seams::untracked(|| {
                    let c = CALLED.with(|c| c.borrow().clone());
                    let mut v = vec![];
                    for (n, cap) in c {
                        v.extend((n as u64).to_le_bytes());
                        v.extend((cap as u64).to_le_bytes());
                    }
                    v
                })
            }
            Data::Qubits { ids, .. } => {
                let n = __quantum__rt__array_get_size_1d(arr(o));
                let mut v = n.to_le_bytes().to_vec();
                if n as usize != ids.len() {
                    return v;
                }
                for i in 0..n {
                    let q = *__quantum__rt__array_get_element_ptr_1d(arr(o), i).cast::<u64>();
                    v.extend(q.to_le_bytes());
                }
                v
            }
        }
    }
}

impl World for MemWorld {
    fn name(&self) -> &'static str {
        "mem"
    }
    fn gen_run(&self, prop: &str, r: &mut Rng) -> Trace {
        let mut t = Trace::new("mem");
        let all: &[(&str, u64)] = if prop == "C12" {
            &[
                ("arr", 8), ("tup", 6), ("call", 4), ("copy", 18), ("write", 20), ("alias", 10), ("ref", 8), ("cat", 5),
                ("slice", 5), ("hold", 5), ("hwrite", 8), ("functor", 5), ("check", 8), ("str", 2),
            ]
        } else {
            &[
                ("arr", 8), ("tup", 7), ("str", 6), ("big", 6), ("call", 5), ("qarr", 5), ("qrel", 5), ("copy", 9), ("cat", 6),
                ("slice", 4), ("fmt", 4), ("arith", 5), ("write", 5), ("ref", 24), ("alias", 10), ("functor", 3), ("eq", 2),
                ("hold", 2), ("hwrite", 3), ("check", 4),
            ]
        };
        let mut ops = swarm(r, all);
        if !ops.iter().any(|o| ["arr", "tup", "str", "big", "call", "qarr"].contains(&o.0)) {
            ops.push(all[0]);
        }
        if prop == "C11" && r.one_in(300) {
            ops.push(("big", 5));
            ops.push(("bdata", 5));
        }
        let w: Vec<u64> = ops.iter().map(|o| o.1).collect();
        let len = match r.below(4) {
            0 => r.range(3, 12),
            1 | 2 => r.range(12, 60),
            _ => r.range(60, 200),
        };
        let large = r.pct(10);
        let huge = r.one_in(if prop == "C12" { 200 } else { 800 });
        t.set("huge", i64::from(huge));
        let len = if huge { len.min(25) } else { len };
        for _ in 0..len {
            let k = ops[r.weighted(&w)].0;
            let n = |r: &mut Rng| r.below(1 << 16) as i64;
            let a = match k {
                // counts as large as what a narrow counter holds
                "ref" | "alias" if large && r.pct(25) => {
                    let k = *r.pick(&[127, 128, 255, 256, 257, 32768, 65535, 65536]) - *r.pick(&[0, 0, 1]);
                    vec![n(r), if r.pct(40) { -k } else { k }]
                }
                "ref" => vec![n(r), *r.pick(&[-1, -1, -1, -2, -3, 1, 1, 2, 5, 0])],
                "alias" => vec![n(r), *r.pick(&[-1, -1, -1, -2, 1, 1, 2, 0])],
                "fmt" => vec![r.below(6) as i64, r.u64() as i64],
                _ => vec![n(r), n(r), n(r), n(r)],
            };
            t.push(k, &a);
        }
        t
    }
    fn exec(&self, t: &Trace, cx: &mut Cx) -> Result<(), Violation> {
        buffered();
        __quantum__rt__initialize(std::ptr::null_mut());
        let _ = cstr("");
        CALLED.with(|c| c.borrow_mut().reserve(64));
        seams::mem_begin();
        let caps = vec![0usize, 0x1000, 0x2000];
        let mut s = St { objs: vec![], next: 1, held: vec![], cx, caps, huge: t.get("huge") == 1 };
        let r = (|| -> Res {
            for (i, o) in t.ops.iter().enumerate() {
                s.cx.at = i;
                s.cx.say(|| format!("{} {:?}", o.k, o.a));
                s.step(o)?;
                s.errors()?;
            }
            s.cx.at = t.ops.len();
            // drop everything; nothing may be left, nothing may have been touched after it was freed
            while let Some(o) = s.objs.last() {
                let i = s.objs.len() - 1;
                let (k, a) = (o.refs, o.alias);
                if a > 0 {
                    let n = s.objs.len() as i64 - 1;
                    let _ = n;
                    let ob = o.clone();
                    unsafe {
                        match &ob.d {
                            Data::Tup(_) => __quantum__rt__tuple_update_alias_count(tup(&ob), -a as i32),
                            Data::Call { .. } => __quantum__rt__callable_update_alias_count(call(&ob), -a as i32),
                            _ => __quantum__rt__array_update_alias_count(arr(&ob), -a as i32),
                        }
                    }
                    s.objs[i].alias = 0;
                }
                s.check(i)?;
                let ob = s.objs[i].clone();
                if let Data::Qubits { released: false, .. } = ob.d {
                    track(3000, || unsafe { __quantum__rt__qubit_release_array(arr(&ob)) });
                    if k > 1 {
                        s.drop_refs(i, 1 - k);
                    }
                } else {
                    s.drop_refs(i, -k);
                }
                s.gone(i)?;
            }
            __quantum__rt__initialize(std::ptr::null_mut());
            seams::mem_scan();
            s.errors()?;
            let left = seams::mem_live();
            s.cx.st.inc("check.nothing left at the end");
            if left.iter().any(|b| b.0 == 9001) {
                return viol("leak-bigint-get-data", "the buffer returned by bigint_get_data is never freed");
            }
            if !left.is_empty() {
                return viol("leak", format!("{} blocks are still allocated after every object was dropped: {:?}", left.len(), &left[..left.len().min(5)]));
            }
            Ok(())
        })();
        let (a, f) = seams::mem_counts();
        s.cx.st.add("check.watched allocations", a);
        s.cx.st.add("check.watched frees", f);
        s.cx.ev(a);
        seams::mem_end(r.is_ok());
        r
    }
}
