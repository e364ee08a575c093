//! The points where nondeterminism and faults enter the system, taken over by the simulator:
//! `write(1, ..)` (standard output), `getrandom` (entropy), the allocator, and process death (forked
//! child processes). None of them needs a change in the code under test.

use crate::rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ptr::null_mut;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, Ordering::SeqCst};

// ---------------------------------------------------------------------------------------------
// Standard output

pub const W_FULL: u64 = 0;
pub const W_SHORT: u64 = 1;
pub const W_EINTR: u64 = 2;
pub const W_ERR: u64 = 3;
/// Transfer `arg` bytes, then the process is killed inside the system call.
pub const W_KILL: u64 = 4;
/// Transfers nothing and says so.
pub const W_ZERO: u64 = 5;

const PLAN: usize = 512;
pub const OUT_CAP: usize = 4 << 20;

#[repr(C)]
pub struct Shared {
    pub active: AtomicU64,
    pub len: AtomicU64,
    pub calls: AtomicU64,
    pub overflow: AtomicU64,
    /// How often each kind of write fault fired.
    pub fired: [AtomicU64; 8],
    pub plan_len: AtomicU64,
    /// The fault plan restarts from its beginning when it is used up.
    pub plan_cycle: AtomicU64,
    pub plan: [[AtomicU64; 2]; PLAN],
    /// Free registers for worlds: survive the death of a forked child.
    pub reg: [AtomicU64; 64],
    pub mark_len: AtomicU64,
    pub marks: [AtomicU64; 4096],
    pub data: [u8; OUT_CAP],
}

static SHARED: AtomicPtr<Shared> = AtomicPtr::new(null_mut());

pub fn shared() -> &'static Shared {
    let mut p = SHARED.load(SeqCst);
    if p.is_null() {
        unsafe {
            p = libc::mmap(
                null_mut(),
                size_of::<Shared>(),
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            )
            .cast();
        }
        assert!(!p.is_null() && p as isize != -1, "mmap");
        SHARED.store(p, SeqCst);
    }
    unsafe { &*p }
}

/// Takes over file descriptor 1 with the given plan: entry i decides the i-th write call.
pub fn stdout_begin(plan: &[(u64, u64)], cycle: bool) {
    let s = shared();
    s.len.store(0, SeqCst);
    s.calls.store(0, SeqCst);
    s.overflow.store(0, SeqCst);
    s.mark_len.store(0, SeqCst);
    for f in &s.fired {
        f.store(0, SeqCst);
    }
    for r in &s.reg {
        r.store(0, SeqCst);
    }
    let n = plan.len().min(PLAN);
    for (i, (k, a)) in plan.iter().take(n).enumerate() {
        s.plan[i][0].store(*k, SeqCst);
        s.plan[i][1].store(*a, SeqCst);
    }
    s.plan_len.store(n as u64, SeqCst);
    s.plan_cycle.store(u64::from(cycle), SeqCst);
    s.active.store(1, SeqCst);
}

pub fn stdout_bytes() -> Vec<u8> {
    let s = shared();
    let n = s.len.load(SeqCst) as usize;
    s.data[..n].to_vec()
}

pub fn stdout_len() -> u64 {
    shared().len.load(SeqCst)
}

/// Gives file descriptor 1 back and returns everything that reached it.
pub fn stdout_end() -> Vec<u8> {
    let v = stdout_bytes();
    shared().active.store(0, SeqCst);
    v
}

unsafe fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

fn out_append(b: *const u8, n: usize) {
    let s = SHARED.load(SeqCst);
    unsafe {
        let len = (*s).len.load(SeqCst) as usize;
        let room = OUT_CAP - len;
        let m = n.min(room);
        if m < n {
            (*s).overflow.store(1, SeqCst);
        }
        std::ptr::copy_nonoverlapping(b, (&raw mut (*s).data).cast::<u8>().add(len), m);
        (*s).len.store((len + m) as u64, SeqCst);
    }
}

/// # Safety
/// As for write(2).
pub unsafe fn sim_write(fd: i32, buf: *const u8, n: usize) -> isize {
    unsafe {
        let p = SHARED.load(SeqCst);
        if fd != 1 || p.is_null() || (*p).active.load(SeqCst) == 0 {
            return libc::syscall(libc::SYS_write, fd, buf, n) as isize;
        }
        let s = &*p;
        let c = s.calls.fetch_add(1, SeqCst) as usize;
        let pl = s.plan_len.load(SeqCst) as usize;
        let i = if s.plan_cycle.load(SeqCst) == 1 && pl > 0 { c % pl } else { c };
        let (k, a) = if i < pl { (s.plan[i][0].load(SeqCst), s.plan[i][1].load(SeqCst)) } else { (W_FULL, 0) };
        match k {
            W_SHORT if n > 1 => {
                s.fired[W_SHORT as usize].fetch_add(1, SeqCst);
                let m = 1 + (a as usize) % (n - 1);
                out_append(buf, m);
                m as isize
            }
            W_EINTR => {
                s.fired[W_EINTR as usize].fetch_add(1, SeqCst);
                set_errno(libc::EINTR);
                -1
            }
            W_ERR => {
                s.fired[W_ERR as usize].fetch_add(1, SeqCst);
                set_errno(a as i32);
                -1
            }
            W_ZERO => {
                s.fired[W_ZERO as usize].fetch_add(1, SeqCst);
                0
            }
            W_KILL => {
                s.fired[W_KILL as usize].fetch_add(1, SeqCst);
                out_append(buf, (a as usize).min(n));
                libc::kill(libc::getpid(), libc::SIGKILL);
                libc::_exit(99)
            }
            _ => {
                out_append(buf, n);
                n as isize
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Entropy

pub const E_FULL: u64 = 0;
pub const E_SHORT: u64 = 1;
pub const E_EINTR: u64 = 2;
pub const E_ERR: u64 = 3;
pub const E_ZEROS: u64 = 4;
pub const E_ONES: u64 = 5;

static ENT_ON: AtomicBool = AtomicBool::new(false);
static ENT_STATE: AtomicU64 = AtomicU64::new(0);
static ENT_CALLS: AtomicU64 = AtomicU64::new(0);
static ENT_PLAN: [[AtomicU64; 2]; 64] = [const { [const { AtomicU64::new(0) }; 2] }; 64];
static ENT_PLAN_LEN: AtomicU64 = AtomicU64::new(0);
pub static ENT_FIRED: [AtomicU64; 8] = [const { AtomicU64::new(0) }; 8];

/// From here on the operating system's entropy is this seed's stream, with faults per call as planned.
pub fn entropy(seed: u64, plan: &[(u64, u64)]) {
    for (i, (k, a)) in plan.iter().take(64).enumerate() {
        ENT_PLAN[i][0].store(*k, SeqCst);
        ENT_PLAN[i][1].store(*a, SeqCst);
    }
    ENT_PLAN_LEN.store(plan.len().min(64) as u64, SeqCst);
    ENT_STATE.store(seed, SeqCst);
    ENT_CALLS.store(0, SeqCst);
    for f in &ENT_FIRED {
        f.store(0, SeqCst);
    }
    ENT_ON.store(true, SeqCst);
}

pub fn entropy_calls() -> u64 {
    ENT_CALLS.load(SeqCst)
}

/// # Safety
/// As for getrandom(2).
pub unsafe fn sim_getrandom(buf: *mut u8, n: usize, flags: u32) -> isize {
    unsafe {
        if !ENT_ON.load(SeqCst) {
            return libc::syscall(libc::SYS_getrandom, buf, n, flags) as isize;
        }
        if n == 0 {
            return 0;
        }
        point();
        let c = ENT_CALLS.fetch_add(1, SeqCst) as usize;
        let (k, a) = if c < ENT_PLAN_LEN.load(SeqCst) as usize {
            (ENT_PLAN[c][0].load(SeqCst), ENT_PLAN[c][1].load(SeqCst))
        } else {
            (E_FULL, 0)
        };
        ENT_FIRED[k as usize & 7].fetch_add(1, SeqCst);
        let m = match k {
            E_SHORT if n > 1 => 1 + (a as usize) % (n - 1),
            E_EINTR => {
                set_errno(libc::EINTR);
                return -1;
            }
            E_ERR => {
                set_errno(a as i32);
                return -1;
            }
            E_ZEROS | E_ONES => {
                std::ptr::write_bytes(buf, if k == E_ONES { 0xff } else { 0 }, n);
                return n as isize;
            }
            _ => n,
        };
        let mut r = Rng::new(ENT_STATE.load(SeqCst).wrapping_add(c as u64 * 0x1_0001));
        for i in 0..m {
            *buf.add(i) = r.u64() as u8;
        }
        m as isize
    }
}

/// Defines the interposed libc symbols in an executable.
#[macro_export]
macro_rules! seams {
    () => {
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
            unsafe { $crate::seams::sim_write(fd, buf, n) }
        }
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn writev(fd: i32, iov: *const libc::iovec, cnt: i32) -> isize {
            unsafe {
                // a gathering write that transfers only its first non-empty part is a legal short write
                for i in 0..cnt as usize {
                    let v = &*iov.add(i);
                    if v.iov_len > 0 {
                        return $crate::seams::sim_write(fd, v.iov_base.cast(), v.iov_len);
                    }
                }
                0
            }
        }
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, flags: u32) -> isize {
            unsafe { $crate::seams::sim_getrandom(buf, n, flags) }
        }
        #[global_allocator]
        static ALLOC: $crate::seams::SimAlloc = $crate::seams::SimAlloc;
    };
}

// ---------------------------------------------------------------------------------------------
// Turns: a simulated thread can be stopped inside a call, where it allocates, frees or asks for entropy,
// and where it would wait for a lock

pub const H_DONE: u8 = 0;
pub const H_STOPPED: u8 = 1;
pub const H_WAITS: u8 = 2;
pub const H_WOKE: u8 = 3;

thread_local! {
    static ARM: Cell<u64> = const { Cell::new(0) };
    static AGAIN: Cell<u64> = const { Cell::new(0) };
    static IN_STEP: Cell<bool> = const { Cell::new(false) };
    static HANDOFF: Cell<Option<fn(u8) -> u8>> = const { Cell::new(None) };
}

/// What the scheduler says to a thread it lets go on.
pub const GO_ON: u8 = 0;
pub const TO_THE_END: u8 = 1;
pub const DEADLOCK: u8 = 2;

/// Runs `f`, a step of a simulated thread: it gives the turn back (by `handoff`) at its n-th point, and
/// then at every `again`-th.
pub fn in_turns<T>(n: u64, again: u64, handoff: fn(u8) -> u8, f: impl FnOnce() -> T) -> T {
    struct Undo;
    impl Drop for Undo {
        fn drop(&mut self) {
            ARM.with(|c| c.set(0));
            IN_STEP.with(|c| c.set(false));
        }
    }
    HANDOFF.with(|c| c.set(Some(handoff)));
    AGAIN.with(|c| c.set(again));
    let _u = Undo;
    IN_STEP.with(|c| c.set(true));
    ARM.with(|c| c.set(n));
    f()
}

fn hand_over(kind: u8) {
    let Some(h) = HANDOFF.with(Cell::get) else { return };
    IN_STEP.with(|c| c.set(false));
    let left = ARM.with(|c| c.replace(0));
    let track = TRACK.with(|c| c.replace(false));
    // the entropy is this thread's own
    let (st, calls) = (ENT_STATE.load(SeqCst), ENT_CALLS.load(SeqCst));
    let go = h(kind);
    ENT_STATE.store(st, SeqCst);
    ENT_CALLS.store(calls, SeqCst);
    TRACK.with(|c| c.set(track));
    IN_STEP.with(|c| c.set(true));
    ARM.with(|c| {
        c.set(match (go, kind) {
            (GO_ON, H_STOPPED) => AGAIN.with(Cell::get),
            (GO_ON, _) => left,
            _ => 0,
        });
    });
    if go == DEADLOCK {
        IN_STEP.with(|c| c.set(false));
        panic!("every simulated thread waits for another");
    }
}

fn point() {
    let n = ARM.try_with(Cell::get).unwrap_or(0);
    if n > 0 {
        ARM.with(|c| c.set(n - 1));
        if n == 1 {
            hand_over(H_STOPPED);
        }
    }
}

/// # Safety
/// As for syscall(2). Waiting for a lock gives the turn to the other simulated threads.
pub unsafe fn sim_syscall(n: i64, a: [usize; 6]) -> i64 {
    unsafe {
        if n == libc::SYS_futex && matches!(a[1] & 0x7f, 0 | 9) && IN_STEP.try_with(Cell::get).unwrap_or(false) {
            if (*(a[0] as *const std::sync::atomic::AtomicU32)).load(SeqCst) != a[2] as u32 {
                set_errno(libc::EAGAIN);
                return -1;
            }
            if a[3] != 0 {
                set_errno(libc::ETIMEDOUT);
                return -1;
            }
            hand_over(H_WAITS);
            return 0;
        }
        if n == libc::SYS_futex && matches!(a[1] & 0x7f, 1 | 10) && IN_STEP.try_with(Cell::get).unwrap_or(false) {
            // it has let a lock go that another simulated thread waits for
            hand_over(H_WOKE);
            return 1;
        }
        let r: isize;
        std::arch::asm!(
            "syscall",
            inlateout("rax") n as isize => r,
            in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
            lateout("rcx") _, lateout("r11") _,
            options(nostack)
        );
        if (-4095..0).contains(&r) {
            set_errno(-r as i32);
            return -1;
        }
        r as i64
    }
}

// ---------------------------------------------------------------------------------------------
// Allocator

pub struct SimAlloc;

const LIVE: u64 = 0x5157_4c49_5645_0001;
const TRACKED: u64 = 0x5157_4c49_5645_0002;
const FREED: u64 = 0x5157_4445_4144_0003;
const FRONT: usize = 64;
const BACK: usize = 32;
const CANARY: u8 = 0xC5;
pub const POISON: u8 = 0xDD;

#[repr(C)]
struct Hdr {
    magic: u64,
    size: usize,
    align: usize,
    tag: u64,
    prev: *mut Hdr,
    next: *mut Hdr,
    seq: u64,
    canary: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum MemErr {
    None = 0,
    DoubleFree = 1,
    BadFree = 2,
    Layout = 3,
    Overflow = 4,
    Underflow = 5,
    WriteAfterFree = 6,
}

thread_local! {
    static TRACK: Cell<bool> = const { Cell::new(false) };
    static TAG: Cell<u64> = const { Cell::new(0) };
    static SEQ: Cell<u64> = const { Cell::new(0) };
    static LIVE_HEAD: Cell<*mut Hdr> = const { Cell::new(null_mut()) };
    static DEAD_HEAD: Cell<*mut Hdr> = const { Cell::new(null_mut()) };
    static ERR: Cell<(u8, u64, u64)> = const { Cell::new((0, 0, 0)) };
    static FAIL_IN: Cell<u64> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static FREES: Cell<u64> = const { Cell::new(0) };
    static FAILED: Cell<u64> = const { Cell::new(0) };
}

fn err(e: MemErr, tag: u64) {
    ERR.with(|c| {
        if c.get().0 == 0 {
            c.set((e as u8, tag, TAG.with(Cell::get)));
        }
    });
}

unsafe fn front(align: usize) -> usize {
    FRONT.max(align)
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        unsafe {
            let tracked = TRACK.try_with(Cell::get).unwrap_or(false);
            if tracked {
                let f = FAIL_IN.with(Cell::get);
                if f > 0 {
                    FAIL_IN.with(|c| c.set(f - 1));
                    if f == 1 {
                        FAILED.with(|c| c.set(c.get() + 1));
                        shared_mark_alloc_failure();
                        return null_mut();
                    }
                }
            }
            let fr = front(l.align());
            let Some(total) = l.size().checked_add(fr + BACK) else { return null_mut() };
            let Ok(full) = Layout::from_size_align(total, l.align().max(16)) else { return null_mut() };
            let base = System.alloc(full);
            if base.is_null() {
                return base;
            }
            let p = base.add(fr);
            let h = p.sub(FRONT).cast::<Hdr>();
            (*h).size = l.size();
            (*h).align = l.align();
            (*h).canary = 0xA5A5_5A5A_C3C3_3C3C;
            if tracked {
                (*h).magic = TRACKED;
                (*h).tag = TAG.with(Cell::get);
                let s = SEQ.with(Cell::get) + 1;
                SEQ.with(|c| c.set(s));
                (*h).seq = s;
                (*h).prev = null_mut();
                (*h).next = LIVE_HEAD.with(Cell::get);
                if !(*h).next.is_null() {
                    (*(*h).next).prev = h;
                }
                LIVE_HEAD.with(|c| c.set(h));
                ALLOCS.with(|c| c.set(c.get() + 1));
                std::ptr::write_bytes(p, 0xA7, l.size());
                std::ptr::write_bytes(p.add(l.size()), CANARY, BACK);
            } else {
                (*h).magic = LIVE;
            }
            p
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        point();
        unsafe {
            let h = p.sub(FRONT).cast::<Hdr>();
            match (*h).magic {
                LIVE => {
                    (*h).magic = 0;
                    let fr = front((*h).align);
                    System.dealloc(
                        p.sub(fr),
                        Layout::from_size_align_unchecked((*h).size + fr + BACK, (*h).align.max(16)),
                    );
                }
                TRACKED => {
                    check_zones(h);
                    if (*h).size != l.size() || (*h).align != l.align() {
                        err(MemErr::Layout, (*h).tag);
                    }
                    if (*h).prev.is_null() {
                        LIVE_HEAD.with(|c| c.set((*h).next));
                    } else {
                        (*(*h).prev).next = (*h).next;
                    }
                    if !(*h).next.is_null() {
                        (*(*h).next).prev = (*h).prev;
                    }
                    (*h).magic = FREED;
                    FREES.with(|c| c.set(c.get() + 1));
                    std::ptr::write_bytes(p, POISON, (*h).size);
                    // quarantined until the run ends: the address is not reused within a run
                    (*h).next = DEAD_HEAD.with(Cell::get);
                    DEAD_HEAD.with(|c| c.set(h));
                }
                FREED => err(MemErr::DoubleFree, (*h).tag),
                _ => err(MemErr::BadFree, 0),
            }
        }
    }
}

fn shared_mark_alloc_failure() {
    let p = SHARED.load(SeqCst);
    if !p.is_null() {
        unsafe { (*p).reg[63].fetch_add(1, SeqCst) };
    }
}

unsafe fn check_zones(h: *mut Hdr) {
    unsafe {
        if (*h).canary != 0xA5A5_5A5A_C3C3_3C3C {
            err(MemErr::Underflow, (*h).tag);
        }
        let p = h.cast::<u8>().add(FRONT);
        for i in 0..BACK {
            if *p.add((*h).size + i) != CANARY {
                err(MemErr::Overflow, (*h).tag);
                break;
            }
        }
    }
}

/// Runs `f` with the tracking allocator watching; allocations carry `tag`.
pub fn track<T>(tag: u64, f: impl FnOnce() -> T) -> T {
    struct Undo(bool, u64);
    impl Drop for Undo {
        fn drop(&mut self) {
            TRACK.with(|c| c.set(self.0));
            TAG.with(|c| c.set(self.1));
        }
    }
    let _u = Undo(TRACK.with(|c| c.replace(true)), TAG.with(|c| c.replace(tag)));
    f()
}

/// Names what is being done from now on, for the blocks it allocates.
pub fn tag(t: u64) {
    TAG.with(|c| c.set(t));
}

/// Runs harness code called back from the system under test, unwatched.
pub fn untracked<T>(f: impl FnOnce() -> T) -> T {
    let t = TRACK.with(|c| c.replace(false));
    let r = f();
    TRACK.with(|c| c.set(t));
    r
}

pub fn mem_begin() {
    ERR.with(|c| c.set((0, 0, 0)));
    LIVE_HEAD.with(|c| c.set(null_mut()));
    DEAD_HEAD.with(|c| c.set(null_mut()));
    SEQ.with(|c| c.set(0));
    ALLOCS.with(|c| c.set(0));
    FREES.with(|c| c.set(0));
    FAILED.with(|c| c.set(0));
    FAIL_IN.with(|c| c.set(0));
}

/// The n-th watched allocation from now on fails (0: none does).
pub fn fail_alloc_in(n: u64) {
    FAIL_IN.with(|c| c.set(n));
}

pub fn mem_counts() -> (u64, u64) {
    (ALLOCS.with(Cell::get), FREES.with(Cell::get))
}

/// First memory error seen: kind, tag of the block, tag of the operation that did it.
pub fn mem_error() -> Option<(MemErr, u64, u64)> {
    let (e, b, t) = ERR.with(Cell::get);
    let k = match e {
        1 => MemErr::DoubleFree,
        2 => MemErr::BadFree,
        3 => MemErr::Layout,
        4 => MemErr::Overflow,
        5 => MemErr::Underflow,
        6 => MemErr::WriteAfterFree,
        _ => return None,
    };
    Some((k, b, t))
}

/// Checks red zones and the poison of everything freed in this run.
pub fn mem_scan() {
    unsafe {
        let mut h = LIVE_HEAD.with(Cell::get);
        while !h.is_null() {
            check_zones(h);
            h = (*h).next;
        }
        let mut h = DEAD_HEAD.with(Cell::get);
        while !h.is_null() {
            let p = h.cast::<u8>().add(FRONT);
            for i in 0..(*h).size {
                if *p.add(i) != POISON {
                    err(MemErr::WriteAfterFree, (*h).tag);
                    break;
                }
            }
            h = (*h).next;
        }
    }
}

/// Watched blocks that are still allocated: (tag, size, sequence number).
pub fn mem_live() -> Vec<(u64, usize, u64)> {
    let mut v = vec![];
    unsafe {
        let mut h = LIVE_HEAD.with(Cell::get);
        while !h.is_null() {
            v.push(((*h).tag, (*h).size, (*h).seq));
            h = (*h).next;
        }
    }
    v
}

/// The block that contains this address: Some(true) live, Some(false) freed, None unknown.
pub fn mem_status(p: *const u8) -> Option<bool> {
    unsafe {
        let find = |mut h: *mut Hdr| {
            while !h.is_null() {
                let b = h.cast::<u8>().add(FRONT) as usize;
                if (p as usize) >= b && (p as usize) < b + (*h).size.max(1) {
                    return true;
                }
                h = (*h).next;
            }
            false
        };
        if find(LIVE_HEAD.with(Cell::get)) {
            Some(true)
        } else if find(DEAD_HEAD.with(Cell::get)) {
            Some(false)
        } else {
            None
        }
    }
}

/// Returns quarantined blocks (and blocks still live, if `all`) to the operating system.
pub fn mem_end(all: bool) {
    unsafe {
        let drain = |mut h: *mut Hdr| {
            while !h.is_null() {
                let n = (*h).next;
                let fr = front((*h).align);
                let p = h.cast::<u8>().add(FRONT);
                (*h).magic = 0;
                System.dealloc(
                    p.sub(fr),
                    Layout::from_size_align_unchecked((*h).size + fr + BACK, (*h).align.max(16)),
                );
                h = n;
            }
        };
        drain(DEAD_HEAD.with(|c| c.replace(null_mut())));
        let mut h = LIVE_HEAD.with(|c| c.replace(null_mut()));
        if all {
            drain(h);
        } else {
            // leave them to their owners: as untracked blocks
            while !h.is_null() {
                (*h).magic = LIVE;
                h = (*h).next;
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Processes

#[derive(Debug, Clone, PartialEq)]
pub enum End {
    Exit(i32),
    Signal(i32),
}

pub fn no_core() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &raw const l);
    }
}

/// Runs `f` in a forked child of this process: the child is the simulated process whose death is
/// survived by nothing but the bytes that reached its standard output.
pub fn in_child(f: impl FnOnce() -> i32) -> End {
    let _ = shared();
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            no_core();
            let dn = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            if dn >= 0 && std::env::var_os("DST_PANICS").is_none() {
                libc::dup2(dn, 2);
            }
            libc::alarm(120);
            let c = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(77);
            libc::_exit(c);
        }
        let mut st = 0;
        while libc::waitpid(pid, &raw mut st, 0) < 0 {}
        if libc::WIFSIGNALED(st) { End::Signal(libc::WTERMSIG(st)) } else { End::Exit(libc::WEXITSTATUS(st)) }
    }
}

/// Appends a mark that survives the death of the process making it.
pub fn mark(x: u64) {
    let s = shared();
    let i = s.mark_len.fetch_add(1, SeqCst) as usize;
    if i < s.marks.len() {
        s.marks[i].store(x, SeqCst);
    }
}

pub fn marks() -> Vec<u64> {
    let s = shared();
    let n = (s.mark_len.load(SeqCst) as usize).min(s.marks.len());
    (0..n).map(|i| s.marks[i].load(SeqCst)).collect()
}
