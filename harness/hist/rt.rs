//! Runtime of the history harness: the recording allocator, payload types that
//! tell what happens to them, and the interpreter of the histories generated
//! from spec/TaggedBox.tla. It records; spec/Trace.tla judges.
#![allow(dead_code, clippy::all)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt::{self, Write as _};
use std::mem;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use tagged_box::{Discriminant, TaggableContainer, TaggableInner, TaggedBox};

// ---------------------------------------------------------------------------
// Assets: heap blocks and tracked values, numbered by one counter

const MAXID: usize = 1 << 14;
const MAXTHREADS: usize = 8;
#[derive(Clone, Copy)]
struct Ent {
    user: usize, // 0: a tracked value
    base: usize,
    size: usize,
    align: usize,
    state: u8, // 0 unused, 1 alive, 2 gone
    rz: usize,
}
const NOENT: Ent = Ent { user: 0, base: 0, size: 0, align: 0, state: 0, rz: 0 };
/// What the operation a thread is in has done.
struct Per {
    made: [u32; MAXID],
    nmade: usize,
    gone: [u32; MAXID],
    ngone: usize,
    bad: [(&'static str, u32); 64],
    nbad: usize,
    // tracked values of size zero have no identity, only a count
    zmade: i64,
    zgone: i64,
    fail_in: usize, // the n-th allocation from now is refused (0: none)
}
const NOPER: Per =
    Per { made: [0; MAXID], nmade: 0, gone: [0; MAXID], ngone: 0, bad: [("", 0); 64], nbad: 0, zmade: 0, zgone: 0, fail_in: 0 };
struct Reg {
    next: usize,
    ents: [Ent; MAXID],
    per: [Per; MAXTHREADS + 1],
}
static mut REG: Reg = Reg { next: 1, ents: [NOENT; MAXID], per: [NOPER; MAXTHREADS + 1] };
static LOCK: AtomicBool = AtomicBool::new(false);
thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    // 0 is the main thread
    static TID: Cell<usize> = const { Cell::new(0) };
    static STEADY: Cell<bool> = const { Cell::new(false) };
}

fn with<R>(f: impl FnOnce(&mut Reg) -> R) -> R {
    while LOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
        std::hint::spin_loop();
    }
    let r = unsafe { f(&mut *std::ptr::addr_of_mut!(REG)) };
    LOCK.store(false, Release);
    r
}

impl Reg {
    fn p(&mut self) -> &mut Per {
        &mut self.per[TID.try_with(|t| t.get()).unwrap_or(0)]
    }
    fn id(&mut self) -> usize {
        let i = self.next;
        if i >= MAXID {
            std::process::abort();
        }
        self.next += 1;
        let p = self.p();
        if p.nmade < MAXID {
            p.made[p.nmade] = i as u32;
            p.nmade += 1;
        }
        i
    }
    fn gone(&mut self, i: usize) {
        let p = self.p();
        if p.ngone < MAXID {
            p.gone[p.ngone] = i as u32;
            p.ngone += 1;
        }
    }
    fn bad(&mut self, what: &'static str, i: usize) {
        let p = self.p();
        if p.nbad < 64 {
            p.bad[p.nbad] = (what, i as u32);
            p.nbad += 1;
        }
    }
    fn redzone_ok(&self, e: &Ent) -> bool {
        unsafe {
            let lo = std::slice::from_raw_parts(e.base as *const u8, e.user - e.base);
            let hi = std::slice::from_raw_parts((e.user + e.size) as *const u8, e.rz);
            lo.iter().all(|b| *b == 0xA5) && hi.iter().all(|b| *b == 0xA5)
        }
    }
    fn check_redzones(&mut self) {
        for i in 1..self.next {
            let e = self.ents[i];
            if e.user != 0 && e.state != 0 {
                if !self.redzone_ok(&e) {
                    self.bad("written outside the block", i);
                    unsafe {
                        std::ptr::write_bytes(e.base as *mut u8, 0xA5, e.user - e.base);
                        std::ptr::write_bytes((e.user + e.size) as *mut u8, 0xA5, e.rz);
                    }
                }
                if e.state == 2 {
                    let s = unsafe { std::slice::from_raw_parts(e.user as *const u8, e.size) };
                    if !s.iter().all(|b| *b == 0xDD) {
                        self.bad("written after it was freed", i);
                        unsafe { std::ptr::write_bytes(e.user as *mut u8, 0xDD, e.size) };
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------
// Where blocks lie. Half of the recorded blocks come from the system; the others
// are put where an address is out of the ordinary: at, before and across powers
// of two, low, at the start, the end and across the end of a page, at multiples
// of 64 K, and at odd multiples of the alignment (nothing more aligned than asked).

const ZONE: usize = 4 << 20; // below and above the middle
const MIDDLES: [u64; 14] = [
    0x1000_0000, 1 << 31, 1 << 32, 1 << 33, 1 << 36, 1 << 40, 1 << 42, 1 << 44, 1 << 45, 1 << 46,
    0x2AAA_AAAA_0000, 0x1555_5555_0000, 0x7F00_0000_0000, 0x6FFF_FFFF_0000,
];
#[derive(Clone, Copy)]
struct Zone {
    middle: usize, // 0: not there
    cur: usize,
    fresh: bool,
}
struct Zones {
    z: [Zone; MIDDLES.len()],
    cases: usize,
    up: bool,
}
static mut ZONES: Zones = Zones { z: [Zone { middle: 0, cur: 0, fresh: true }; MIDDLES.len()], cases: 0, up: false };
extern "C" {
    fn mmap(at: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
fn zones() -> &'static mut Zones {
    // only under the lock of the registry
    let z = unsafe { &mut *std::ptr::addr_of_mut!(ZONES) };
    // (in an interpreter, no address is for us to choose)
    if !z.up && !cfg!(miri) {
        z.up = true;
        for (i, m) in MIDDLES.iter().enumerate() {
            let m = *m as usize;
            let want = m.wrapping_sub(ZONE);
            // private, anonymous, not reserved, at this address or not at all
            let got = unsafe { mmap(want as *mut u8, 2 * ZONE, 3, 0x2 | 0x20 | 0x4000 | 0x10_0000, -1, 0) } as usize;
            if got == want {
                z.z[i] = Zone { middle: m, cur: want, fresh: true };
            }
        }
    }
    z
}
fn up_to(x: usize, a: usize) -> usize {
    (x + a - 1) / a * a
}
/// -> address of the block, with 64 bytes of its zone on both sides
fn place_block(i: usize, l: Layout) -> Option<usize> {
    let zs = zones();
    let h = i.wrapping_mul(0x9E37_79B9).wrapping_add(zs.cases.wrapping_mul(0x85EB_CA6B)) >> 7;
    if h & 1 == 0 || l.size() > ZONE / 8 {
        return None;
    }
    let (size, align) = (l.size(), l.align());
    let n = zs.z.len();
    let z = &mut zs.z[(h >> 1) % n];
    if z.middle == 0 {
        return None;
    }
    let style = (h >> 9) % 6;
    let lo = z.cur + 64;
    let mut user = 0;
    if z.fresh {
        user = match style {
            0..=2 => z.middle,
            3 => (z.middle - size) / align * align,
            4 => (z.middle - size / 2) / align * align,
            _ => 0,
        };
        z.fresh = false;
    }
    if user == 0 {
        let page = up_to(lo + size, 4096);
        user = match style {
            0 => up_to(lo, align.max(4096)),
            1 => up_to(lo, align.max(65536)),
            2 => (page - size) / align * align,
            3 => (page - size / 2) / align * align,
            _ => up_to(lo, align) + if up_to(lo, align) / align % 2 == 0 { align } else { 0 },
        };
    }
    if user < lo {
        user = up_to(lo, align);
    }
    if user + size + 128 > z.middle + ZONE {
        return None;
    }
    z.cur = user + size + 64;
    Some(user)
}
fn in_zone(p: usize) -> bool {
    zones().z.iter().any(|z| z.middle != 0 && p >= z.middle - ZONE && p < z.middle + ZONE)
}

pub struct Tracking;
unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ARMED.try_with(|a| a.get()).unwrap_or(false) {
            return System.alloc(l);
        }
        yp();
        with(|r| {
            let p = r.p();
            if p.fail_in > 0 {
                p.fail_in -= 1;
                if p.fail_in == 0 {
                    return std::ptr::null_mut();
                }
            }
            let i = r.id();
            if let Some(user) = place_block(i, l) {
                std::ptr::write_bytes((user - 64) as *mut u8, 0xA5, l.size() + 128);
                std::ptr::write_bytes(user as *mut u8, 0xCD, l.size());
                r.ents[i] = Ent { user, base: user - 64, size: l.size(), align: l.align(), state: 1, rz: 64 };
                return user as *mut u8;
            }
            let rz = l.align().max(64);
            let size = l.size() + rz + 64;
            let base = System.alloc(Layout::from_size_align_unchecked(size, l.align().max(16)));
            if base.is_null() {
                return base;
            }
            std::ptr::write_bytes(base, 0xA5, size);
            let user = base.add(rz);
            std::ptr::write_bytes(user, 0xCD, l.size());
            r.ents[i] = Ent { user: user as usize, base: base as usize, size: l.size(), align: l.align(), state: 1, rz: 64 };
            user
        })
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ARMED.try_with(|a| a.get()).unwrap_or(false) {
            yp();
        }
        let ours = with(|r| {
            for i in (1..r.next).rev() {
                let e = r.ents[i];
                if e.user != 0 && e.user == p as usize && e.state != 0 {
                    if e.state == 2 {
                        r.bad("freed twice", i);
                        r.gone(i);
                        return true;
                    }
                    if e.size != l.size() || e.align != l.align() {
                        r.bad("freed with another layout", i);
                    }
                    if !r.redzone_ok(&e) {
                        r.bad("written outside the block", i);
                    }
                    std::ptr::write_bytes(e.base as *mut u8, 0xA5, e.user - e.base);
                    std::ptr::write_bytes((e.user + e.size) as *mut u8, 0xA5, e.rz);
                    // kept aside and poisoned until the case ends
                    std::ptr::write_bytes(p, 0xDD, e.size);
                    r.ents[i].state = 2;
                    r.gone(i);
                    return true;
                }
                // a pointer into one of our blocks, but not its start
                if e.user != 0 && e.state != 0 && (p as usize) >= e.base && (p as usize) < e.user + e.size + e.rz {
                    r.bad("freed from its middle", i);
                    return true;
                }
            }
            false
        });
        if ours {
            return;
        }
        if ARMED.try_with(|a| a.get()).unwrap_or(false) && (p as usize) < 1 << 16 {
            // certainly no heap address: report instead of crashing
            with(|r| r.bad("freed but never allocated", 0));
            return;
        }
        System.dealloc(p, l)
    }
}

fn set_armed(on: bool) -> bool {
    ARMED.with(|a| a.replace(on))
}
/// Runs harness-internal code whose allocations are not recorded.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let was = set_armed(false);
    let r = f();
    set_armed(was);
    r
}
fn armed<R>(f: impl FnOnce() -> R) -> R {
    let was = set_armed(true);
    let r = f();
    set_armed(was);
    r
}
pub fn block_of(p: usize) -> i64 {
    with(|r| {
        for i in (1..r.next).rev() {
            let e = r.ents[i];
            if e.user != 0 && e.state != 0 && e.user == p {
                return i as i64;
            }
        }
        0
    })
}
pub fn layout_of(b: i64) -> (usize, usize) {
    with(|r| if b > 0 { (r.ents[b as usize].size, r.ents[b as usize].align) } else { (0, 0) })
}
fn born() -> u32 {
    with(|r| {
        let i = r.id();
        r.ents[i] = Ent { state: 1, ..NOENT };
        i as u32
    })
}
fn died(id: u32, magic_ok: bool) {
    with(|r| {
        let i = id as usize;
        if !magic_ok || i == 0 || i >= r.next || r.ents[i].user != 0 || r.ents[i].state == 0 {
            r.bad("dropped something that is not a value", 0);
            return;
        }
        if r.ents[i].state == 2 {
            r.bad("dropped twice", i);
        }
        r.ents[i].state = 2;
        r.gone(i);
    })
}

/// Forgets everything between two cases; what leaked is returned here.
fn reset() {
    with(|r| {
        for i in 1..r.next {
            let e = r.ents[i];
            if e.user != 0 && e.state != 0 && !in_zone(e.base) {
                unsafe {
                    System.dealloc(e.base as *mut u8, Layout::from_size_align_unchecked(e.size + (e.user - e.base) + 64, e.align.max(16)));
                }
            }
            r.ents[i] = NOENT;
        }
        let z = zones();
        z.cases += 1;
        for z in z.z.iter_mut() {
            z.cur = z.middle.wrapping_sub(ZONE);
            z.fresh = true;
        }
        r.next = 1;
        for p in r.per.iter_mut() {
            p.nmade = 0;
            p.ngone = 0;
            p.nbad = 0;
            p.zmade = 0;
            p.zgone = 0;
            p.fail_in = 0;
        }
    })
}

struct Diff {
    made: Vec<u32>,
    gone: Vec<u32>,
    bad: Vec<(&'static str, u32)>,
    z: (i64, i64),
}
fn take_diff() -> Diff {
    quiet(|| {
        with(|r| {
            r.check_redzones();
            let r = r.p();
            let was = (r.zmade, r.zgone);
            r.zmade = 0;
            r.zgone = 0;
            let d = Diff { made: r.made[..r.nmade].to_vec(), gone: r.gone[..r.ngone].to_vec(), bad: r.bad[..r.nbad].to_vec(), z: was };
            r.nmade = 0;
            r.ngone = 0;
            r.nbad = 0;
            d
        })
    })
}

// ---------------------------------------------------------------------------
// Threads: one runs at a time and hands over where its schedule says so, or all
// run freely

struct Sched {
    on: bool,
    free: bool,
    turn: usize, // thread id, from 1
    list: Vec<usize>,
    pos: usize,
    done: Vec<bool>,
    moves: usize,
}
static SCHED: Mutex<Sched> = Mutex::new(Sched { on: false, free: true, turn: 0, list: Vec::new(), pos: 0, done: Vec::new(), moves: 0 });
static WAKE: Condvar = Condvar::new();
static HANDOVER: AtomicBool = AtomicBool::new(false);
/// Runs code of the harness during which no other thread may come in.
fn steady<R>(f: impl FnOnce() -> R) -> R {
    let was = STEADY.with(|t| t.replace(true));
    let r = f();
    STEADY.with(|t| t.set(was));
    r
}
fn sched() -> std::sync::MutexGuard<'static, Sched> {
    SCHED.lock().unwrap_or_else(|e| e.into_inner())
}
impl Sched {
    fn next(&mut self) {
        self.moves += 1;
        let n = self.done.len();
        for _ in 0..2 * self.list.len() {
            let t = self.list[self.pos % self.list.len()];
            self.pos += 1;
            if t < n && !self.done[t] {
                self.turn = t + 1;
                return;
            }
        }
        self.turn = self.done.iter().position(|d| !d).map_or(0, |t| t + 1);
    }
}
/// A point where another thread may come in.
pub fn yp() {
    if !HANDOVER.load(Relaxed) {
        return;
    }
    let me = TID.try_with(|t| t.get()).unwrap_or(0);
    if me == 0 || STEADY.try_with(|t| t.get()).unwrap_or(true) {
        return;
    }
    let mut s = sched();
    if s.free || !s.on {
        return;
    }
    s.next();
    WAKE.notify_all();
    wait(s, me);
}
fn wait(mut s: std::sync::MutexGuard<'static, Sched>, me: usize) {
    while s.turn != me && !s.free {
        let was = s.moves;
        let (g, late) = WAKE.wait_timeout(s, std::time::Duration::from_millis(1500)).unwrap_or_else(|e| e.into_inner());
        s = g;
        if late.timed_out() && s.moves == was && s.turn != me {
            // whose turn it is waits for somebody else: let all of them run
            s.free = true;
            WAKE.notify_all();
        }
    }
}
fn thread_starts(me: usize) {
    TID.with(|t| t.set(me));
    wait(sched(), me);
}
fn thread_ends(me: usize) {
    let mut s = sched();
    s.done[me - 1] = true;
    s.next();
    WAKE.notify_all();
    drop(s);
    TID.with(|t| t.set(0));
}

// ---------------------------------------------------------------------------
// Faults a payload can raise

pub struct Fault {
    pub clone: AtomicUsize,
    pub cmp: AtomicUsize,
    pub fmt: AtomicUsize,
    /// the formatting fault is an error, not a panic
    pub err: AtomicUsize,
}
pub static FAULT: Fault =
    Fault { clone: AtomicUsize::new(0), cmp: AtomicUsize::new(0), fmt: AtomicUsize::new(0), err: AtomicUsize::new(0) };
fn fmt_trip() -> fmt::Result {
    if FAULT.err.load(Relaxed) != 0 && FAULT.fmt.load(Relaxed) == 1 {
        yp();
        FAULT.fmt.store(0, Relaxed);
        return Err(fmt::Error);
    }
    trip(&FAULT.fmt);
    Ok(())
}
fn trip(c: &AtomicUsize) {
    yp();
    let n = c.load(Relaxed);
    if n > 0 {
        c.store(n - 1, Relaxed);
        if n == 1 {
            panic!("payload fault");
        }
    }
}
/// called by comparisons written by hand
pub fn cmp_trip() {
    trip(&FAULT.cmp)
}
fn clear_faults() {
    FAULT.clone.store(0, Relaxed);
    FAULT.cmp.store(0, Relaxed);
    FAULT.fmt.store(0, Relaxed);
    FAULT.err.store(0, Relaxed);
    with(|r| r.p().fail_in = 0);
}

// ---------------------------------------------------------------------------
// Payload fields: made from a token, and recognised again

#[derive(Clone, Debug, PartialEq)]
pub struct Look {
    pub t: i64, // token, -1 if the bits are none of the type's values
    pub a: i64, // asset, 0 if it has none, -1 for tracked zero-sized values
}
pub trait Fd: Sized {
    const TOKS: usize;
    /// how values compare: tot, nan, half, one
    const CLS: &'static str;
    fn mk(t: usize) -> Self;
    fn look(&self) -> Look;
    /// changes the value through a cell, where there is one
    fn set(&self, t: usize) {
        panic!("no cell to set to {}", t)
    }
}
macro_rules! plain_fd {
    ($($ty:ty: $cls:literal [$($v:expr),*] $eq:expr;)*) => { $(
        impl Fd for $ty {
            const TOKS: usize = [$(stringify!($v)),*].len();
            const CLS: &'static str = $cls;
            fn mk(t: usize) -> Self { let v: [$ty; Self::TOKS] = [$($v),*]; v[t].clone() }
            fn look(&self) -> Look {
                let v: [$ty; Self::TOKS] = [$($v),*];
                let eq: fn(&$ty, &$ty) -> bool = $eq;
                Look { t: v.iter().position(|x| eq(x, self)).map_or(-1, |p| p as i64), a: 0 }
            }
        }
    )* };
}
plain_fd! {
    (): "one" [()] |a, b| a == b;
    u8: "tot" [0, 0x5A, 0xA5, 0xFF] |a, b| a == b;
    i8: "tot" [-128, -3, 0x2B, 0x7F] |a, b| a == b;
    u16: "tot" [0, 0x1122, 0xA1B2, 0xFFFE] |a, b| a == b;
    i16: "tot" [-0x7001, -2, 0x0102, 0x7FFF] |a, b| a == b;
    u32: "tot" [0, 0x1122_3344, 0xA1B2_C3D4, 0xFFFF_FFFD] |a, b| a == b;
    i32: "tot" [-0x7102_0304, -1, 0x0102_0305, 0x7FFF_FFFF] |a, b| a == b;
    u64: "tot" [0, 0x0102_0304_0506_0708, 0xA1B2_C3D4_E5F6_0718, u64::MAX] |a, b| a == b;
    i64: "tot" [i64::MIN, -0x0102_0304_0506_0708, 0x1234_5678_9ABC_DEF0, i64::MAX] |a, b| a == b;
    usize: "tot" [3, 0x1102_0304_0506_0709u64 as usize, 0xB1B2_C3D4_E5F6_0719u64 as usize, usize::MAX - 1] |a, b| a == b;
    isize: "tot" [-77, -2, 5, 0x7102_0304_0506_0709i64 as isize] |a, b| a == b;
    u128: "tot" [7, 0x0102_0304_0506_0708_090A_0B0C_0D0E_0F10, u128::MAX / 3, u128::MAX] |a, b| a == b;
    i128: "tot" [i128::MIN + 5, -9, 0x7F02_0304_0506_0708_090A_0B0C_0D0E_0F10, i128::MAX] |a, b| a == b;
    bool: "tot" [false, true] |a, b| a == b;
    char: "tot" ['\0', 'é', '漢', '🦀'] |a, b| a == b;
    // token 0 is incomparable
    f32: "nan" [f32::from_bits(0x7FC1_2345), -1.5e30, 0.0, 3.5e7] |a, b| a.to_bits() == b.to_bits();
    f64: "nan" [f64::from_bits(0xFFF8_1234_5678_9ABC), -2.5e-300, 0.0, 1e300] |a, b| a.to_bits() == b.to_bits();
    [u8; 3]: "tot" [[0, 0, 0], [1, 9, 9], [200, 1, 1]] |a, b| a == b;
    [u16; 5]: "tot" [[1, 2, 3, 4, 5], [1, 2, 3, 4, 6], [0xFFFF; 5]] |a, b| a == b;
    [u8; 0]: "one" [[]] |a, b| a == b;
    (u8, u32): "tot" [(0, 0), (1, 0xFF00_FF00), (9, 3)] |a, b| a == b;
    (u64, u8): "tot" [(0x0807_0605_0403_0201, 0x99), (u64::MAX, 1)] |a, b| a == b;
    (u8, u16, u8): "tot" [(1, 0x0203, 4), (5, 0x0607, 8), (0xFF, 0xFFFF, 0xFE)] |a, b| a == b;
    Option<u8>: "tot" [None, Some(7), Some(255)] |a, b| a == b;
    Option<u64>: "tot" [None, Some(0), Some(u64::MAX)] |a, b| a == b;
    &'static str: "tot" ["", "a", "longer text"] |a, b| a == b && (a.is_empty() || a.as_ptr() == b.as_ptr() || true);
    fn() -> u8: "tot" [fn_a, fn_b] |a, b| a() == b();
}
fn fn_a() -> u8 {
    std::hint::black_box(1)
}
fn fn_b() -> u8 {
    std::hint::black_box(2)
}

/// Arrays too big for the table above, filled with a pattern.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Pat<const N: usize>(pub [u8; N]);
impl<const N: usize> Fd for Pat<N> {
    const TOKS: usize = 3;
    const CLS: &'static str = "tot";
    fn mk(t: usize) -> Self {
        // the first is all zero bits
        let mut a = [0; N];
        for i in 0..if t == 0 { 0 } else { N } {
            a[i] = (t as u8) * 64 + (i % 61) as u8 + 1;
        }
        Pat(a)
    }
    fn look(&self) -> Look {
        let t = (self.0[0].max(1) - 1) / 64;
        Look { t: if t < 3 && Self::mk(t as usize) == *self { t as i64 } else { -1 }, a: 0 }
    }
}
macro_rules! aligned {
    ($($name:ident $al:literal $inner:ty),*) => { $(
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
        #[repr(align($al))]
        pub struct $name(pub $inner);
        impl Fd for $name {
            const TOKS: usize = 2;
            const CLS: &'static str = "tot";
            fn mk(t: usize) -> Self { $name(<$inner as Fd>::mk(t)) }
            fn look(&self) -> Look {
                if self as *const Self as usize % $al != 0 { return Look { t: -2, a: 0 }; }
                self.0.look()
            }
        }
    )* };
}
aligned! { A2 2 u8, A4 4 u8, A8 8 u16, A256 256 u8, A512 512 u64, A2048 2048 u8, A16 16 u8, A32 32 (u8, u32), A64 64 u16, A128 128 u8, A1024 1024 u32, A4096 4096 u8, A65536 65536 u16 }
macro_rules! zsts {
    ($($name:ident $al:literal),*) => { $(
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
        #[repr(align($al))]
        pub struct $name;
        impl Fd for $name {
            const TOKS: usize = 1;
            const CLS: &'static str = "one";
            fn mk(_: usize) -> Self { $name }
            fn look(&self) -> Look { Look { t: if self as *const Self as usize % $al == 0 { 0 } else { -2 }, a: 0 } }
        }
    )* };
}
zsts! { Z1 1, Z2 2, Z16 16, Z32 32, Z128 128, Z256 256, Z512 512, Z1024 1024, Z2048 2048, Z8 8, Z64 64, Z4096 4096 }

const TEXTS: [&str; 3] = ["", "q", "\u{00e9}t\u{00e9} \" and a text longer than anything stored inline"];
impl Fd for String {
    const TOKS: usize = 3;
    const CLS: &'static str = "tot";
    fn mk(t: usize) -> Self {
        String::from(TEXTS[t])
    }
    fn look(&self) -> Look {
        let a = if self.capacity() == 0 { 0 } else { block_of(self.as_ptr() as usize) };
        if self.capacity() != 0 && (a == 0 || self.len() > layout_of(a).0) {
            return Look { t: -1, a };
        }
        let b: &[u8] = self.as_bytes();
        Look { t: TEXTS.iter().position(|x| x.as_bytes() == b).map_or(-1, |p| p as i64), a }
    }
}
impl Fd for Vec<u16> {
    const TOKS: usize = 3;
    const CLS: &'static str = "tot";
    fn mk(t: usize) -> Self {
        (0..t * 5).map(|x| x as u16 + 0x100).collect()
    }
    fn look(&self) -> Look {
        let a = if self.capacity() == 0 { 0 } else { block_of(self.as_ptr() as usize) };
        if self.capacity() != 0 && (a == 0 || self.len() * 2 > layout_of(a).0) {
            return Look { t: -1, a };
        }
        let ok = self.len() % 5 == 0 && self.len() < 15 && self.iter().enumerate().all(|(i, x)| *x == i as u16 + 0x100);
        Look { t: if ok { (self.len() / 5) as i64 } else { -1 }, a }
    }
}
impl Fd for Box<u32> {
    const TOKS: usize = 3;
    const CLS: &'static str = "tot";
    fn mk(t: usize) -> Self {
        Box::new(0x0A0B_0C00 + t as u32)
    }
    fn look(&self) -> Look {
        let a = block_of(&**self as *const u32 as usize);
        if a == 0 {
            return Look { t: -1, a };
        }
        let v = **self;
        Look { t: if v & !3 == 0x0A0B_0C00 && v & 3 < 3 { (v & 3) as i64 } else { -1 }, a }
    }
}

/// Shared mutability: a cell in the value, and one behind a pointer.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Cel(Cell<u32>);
impl Fd for Cel {
    const TOKS: usize = 3;
    const CLS: &'static str = "tot";
    fn mk(t: usize) -> Self {
        Cel(Cell::new(0x0C0B_0A00 + t as u32))
    }
    fn look(&self) -> Look {
        let v = self.0.get();
        Look { t: if v & !3 == 0x0C0B_0A00 && v & 3 < 3 { (v & 3) as i64 } else { -1 }, a: 0 }
    }
    fn set(&self, t: usize) {
        self.0.set(0x0C0B_0A00 + t as u32)
    }
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Bce(Box<Cel>);
impl Fd for Bce {
    const TOKS: usize = 3;
    const CLS: &'static str = "tot";
    fn mk(t: usize) -> Self {
        Bce(Box::new(Cel::mk(t)))
    }
    fn look(&self) -> Look {
        let a = block_of(&*self.0 as *const Cel as usize);
        if a == 0 {
            return Look { t: -1, a };
        }
        Look { t: self.0.look().t, a }
    }
    fn set(&self, t: usize) {
        self.0.set(t)
    }
}

/// An enum with a container of its own as a field of another. It gives back what
/// it holds, which a container by itself does not.
mod inner {
    use super::*;
    tagged_box::tagged_box! {
        #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
        pub struct InC, pub enum In { A(u32), U, B(u64), W([u8; 3]), }
    }
    impl InC {
        /// gives back the block
        pub fn free(&mut self) {
            let b = unsafe { std::ptr::read(&self.value) };
            unsafe {
                match b.discriminant() {
                    0 => drop(TaggedBox::into_box::<u32>(b)),
                    2 => drop(TaggedBox::into_box::<u64>(b)),
                    3 => drop(TaggedBox::into_box::<[u8; 3]>(b)),
                    _ => mem::forget(b),
                }
            }
        }
    }
    impl InC {
        pub fn parts(&self) -> (usize, u64) {
            (self.value.as_ptr::<u8>() as usize, self.value.discriminant() as u64)
        }
        pub fn view(&self, f: impl FnOnce(&In)) {
            unsafe { In::ref_from_tagged_box(&self.value, f) }
        }
    }
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Nest(inner::InC);
impl Drop for Nest {
    fn drop(&mut self) {
        self.0.free()
    }
}
impl Fd for Nest {
    const TOKS: usize = 4;
    const CLS: &'static str = "tot";
    fn mk(t: usize) -> Self {
        Nest(match t {
            0 => inner::InC::from(0x0A0B_0C0Du32),
            1 => inner::InC::from(inner::In::U),
            2 => inner::InC::from(inner::In::B(0x0102_0304_0506_0708)),
            _ => inner::InC::from([7, 8, 9]),
        })
    }
    fn look(&self) -> Look {
        let (p, tag) = self.0.parts();
        let a = if tag == 1 { 0 } else { block_of(p) };
        if tag > 3 || (tag != 1 && a == 0) {
            return Look { t: -1, a };
        }
        let mut t = -1;
        self.0.view(|e| {
            t = match e {
                inner::In::A(0x0A0B_0C0D) => 0,
                inner::In::U => 1,
                inner::In::B(0x0102_0304_0506_0708) => 2,
                inner::In::W([7, 8, 9]) => 3,
                _ => -1,
            }
        });
        Look { t, a }
    }
}

/// The tracked payload: every value has an identity, and every birth, clone and
/// death is recorded. `T` only changes the type.
const MAGIC: u64 = 0x7AC4_ED11_0BEC_7000;
pub struct Trk<const T: usize> {
    magic: u64,
    id: u32,
    tok: u16,
    kind: u16,
}
impl<const T: usize> Trk<T> {
    fn ok(&self) -> bool {
        self.magic == MAGIC && self.kind == T as u16
    }
}
impl<const T: usize> Fd for Trk<T> {
    const TOKS: usize = 3;
    // T >= 8: equality and order that depend on the order of the operands
    const CLS: &'static str = if T >= 8 { "half" } else { "tot" };
    fn mk(t: usize) -> Self {
        Trk { magic: MAGIC, id: born(), tok: t as u16, kind: T as u16 }
    }
    fn look(&self) -> Look {
        if !self.ok() || self.tok > 2 {
            return Look { t: -1, a: 0 };
        }
        Look { t: self.tok as i64, a: self.id as i64 }
    }
}
impl<const T: usize> Drop for Trk<T> {
    fn drop(&mut self) {
        died(self.id, self.ok());
    }
}
impl<const T: usize> Clone for Trk<T> {
    fn clone(&self) -> Self {
        trip(&FAULT.clone);
        if !self.ok() {
            with(|r| r.bad("cloned something that is not a value", 0));
        }
        Trk { magic: self.magic, id: born(), tok: self.tok, kind: self.kind }
    }
}
impl<const T: usize> PartialEq for Trk<T> {
    fn eq(&self, o: &Self) -> bool {
        trip(&FAULT.cmp);
        if T >= 8 {
            self.tok <= o.tok
        } else {
            self.tok == o.tok
        }
    }
}
impl<const T: usize> Eq for Trk<T> {}
impl<const T: usize> PartialOrd for Trk<T> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        trip(&FAULT.cmp);
        if T >= 8 && self.tok > o.tok {
            return None;
        }
        Some(self.tok.cmp(&o.tok))
    }
}
impl<const T: usize> Ord for Trk<T> {
    fn cmp(&self, o: &Self) -> Ordering {
        trip(&FAULT.cmp);
        self.tok.cmp(&o.tok)
    }
}
impl<const T: usize> fmt::Debug for Trk<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt_trip()?;
        f.debug_struct("Trk").field("tok", &self.tok).finish()
    }
}

/// Tracked and zero-sized: no identity, but counted.
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Tz<const T: usize>(());
impl<const T: usize> Fd for Tz<T> {
    const TOKS: usize = 1;
    const CLS: &'static str = "one";
    fn mk(_: usize) -> Self {
        with(|r| r.p().zmade += 1);
        Tz(())
    }
    fn look(&self) -> Look {
        Look { t: 0, a: -1 }
    }
}
impl<const T: usize> Drop for Tz<T> {
    fn drop(&mut self) {
        with(|r| r.p().zgone += 1);
    }
}
impl<const T: usize> Clone for Tz<T> {
    fn clone(&self) -> Self {
        trip(&FAULT.clone);
        with(|r| r.p().zmade += 1);
        Tz(())
    }
}

// ---------------------------------------------------------------------------
// JSON out

pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let mut b = [0; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn looks(f: &[Look]) -> String {
    let v: Vec<String> = f.iter().map(|x| format!("[{},{}]", x.t, x.a)).collect();
    format!("[{}]", v.join(","))
}
fn list<T: fmt::Display>(v: &[T]) -> String {
    let v: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    format!("[{}]", v.join(","))
}

// ---------------------------------------------------------------------------
// What a family of values offers. `T` is the parameter of the boxes; for enums
// made by the macro it is the enum itself, for the raw family a marker type.

pub type Seen = (i64, Vec<Look>);

#[allow(unused_variables)]
pub(crate) trait Family {
    const NAME: &'static str;
    const DECL: fn() -> String;
    const VARIANTS: usize;
    const RAW: bool = false;
    const COPY: bool = false;
    /// the variant a tag stands for
    fn variant(tag: u64) -> Option<usize> {
        if (tag as usize) < Self::VARIANTS {
            Some(tag as usize)
        } else {
            None
        }
    }
    type E;
    type C;
    type T;
    type S;
    fn make(v: usize, t: &[usize]) -> Self::E;
    fn look(e: &Self::E) -> Seen;
    fn to_box(e: Self::E, tag: u64) -> TaggedBox<Self::T>;
    fn from_box(b: TaggedBox<Self::T>, v: usize) -> Self::E;
    /// borrows the value as the public interface does; returns what the callback saw, per call
    fn view(b: &TaggedBox<Self::T>, v: usize, f: &mut dyn FnMut(&Seen));
    fn view2(a: &TaggedBox<Self::T>, v: usize, b: &TaggedBox<Self::T>, w: usize, f: &mut dyn FnMut(&Seen, &Seen)) {
        unimplemented!()
    }
    /// borrows the value and sets its field i through a cell
    fn view_set(b: &TaggedBox<Self::T>, v: usize, i: usize, t: usize, f: &mut dyn FnMut(&Seen));
    fn to_cont(e: Self::E) -> Self::C;
    fn cont_pay(v: usize, t: &[usize]) -> Self::C;
    fn cont_inner(c: Self::C) -> Self::E;
    fn wrap(b: TaggedBox<Self::T>) -> Self::C;
    fn unwrap(c: Self::C) -> TaggedBox<Self::T>;
    fn peek(c: &Self::C) -> &TaggedBox<Self::T>;
    fn clone_box(b: &TaggedBox<Self::T>) -> TaggedBox<Self::T> {
        unimplemented!()
    }
    fn clone_cont(b: &Self::C) -> Self::C {
        unimplemented!()
    }
    fn clone_from_box(a: &mut TaggedBox<Self::T>, b: &TaggedBox<Self::T>) {
        unimplemented!()
    }
    fn clone_from_cont(a: &mut Self::C, b: &Self::C) {
        unimplemented!()
    }
    fn clone_val(b: &Self::E) -> Self::E {
        unimplemented!()
    }
    fn copy_box(b: &TaggedBox<Self::T>) -> TaggedBox<Self::T> {
        unimplemented!()
    }
    fn copy_cont(b: &Self::C) -> Self::C {
        unimplemented!()
    }
    fn cmp_box(a: &TaggedBox<Self::T>, b: &TaggedBox<Self::T>, what: usize) -> i64 {
        unimplemented!()
    }
    fn cmp_cont(a: &Self::C, b: &Self::C, what: usize) -> i64 {
        unimplemented!()
    }
    fn cmp_val(a: &Self::E, b: &Self::E, what: usize) -> i64 {
        unimplemented!()
    }
    const PICKS: usize = 0;
    fn pick_box(a: &TaggedBox<Self::T>, b: &TaggedBox<Self::T>, what: usize) -> i64 {
        unimplemented!()
    }
    fn pick_cont(a: &Self::C, b: &Self::C, what: usize) -> i64 {
        unimplemented!()
    }
    /// which of CMPS the family has
    const CMPS: usize = 0;
    fn fmt_box(a: &TaggedBox<Self::T>, spec: usize, w: &mut dyn fmt::Write) -> fmt::Result {
        unimplemented!()
    }
    fn fmt_cont(a: &Self::C, spec: usize, w: &mut dyn fmt::Write) -> fmt::Result {
        unimplemented!()
    }
    fn fmt_val(a: &Self::E, spec: usize, w: &mut dyn fmt::Write) -> fmt::Result {
        unimplemented!()
    }
    fn fmt_valcont(a: &Self::E, spec: usize, w: &mut dyn fmt::Write) -> fmt::Result {
        unimplemented!()
    }
    // by the payload's own type
    fn pay_new(v: usize, t: usize, tag: u64, how: usize) -> TaggedBox<Self::T>;
    fn pay_inner(b: TaggedBox<Self::T>, v: usize) -> Self::E;
    fn pay_ref(b: &mut TaggedBox<Self::T>, v: usize, how: usize) -> (usize, Look);
    fn pay_poke(b: &mut TaggedBox<Self::T>, v: usize, t: usize, how: usize);
    fn pay_raw(b: TaggedBox<Self::T>, v: usize) -> *mut u8;
    fn pay_from_raw(p: *mut u8, v: usize, tag: u64) -> TaggedBox<Self::T>;
    fn pay_std(b: TaggedBox<Self::T>, v: usize) -> Self::S;
    fn ptr_look(p: *mut u8, v: usize) -> Look;
    fn ptr_place(p: *mut u8, v: usize, k: usize) -> *mut u8;
    fn std_look(s: &Self::S) -> (usize, usize, Look);
    fn std_read(s: Self::S) -> Self::E;
    fn std_new(v: usize, t: usize) -> Self::S;
    fn std_raw(s: Self::S) -> (*mut u8, usize);
    fn raw_std(p: *mut u8, v: usize) -> Self::S;
}

// The eight comparisons; `what` selects one
pub const CMPS: [&str; 10] = ["eq", "ne", "lt", "le", "gt", "ge", "pcmp", "cmp", "max", "min"];
fn o(x: Ordering) -> i64 {
    x as i64
}
pub fn cmp_eq<X: PartialEq>(a: &X, b: &X, what: usize) -> i64 {
    match what {
        0 => (a == b) as i64,
        1 => (a != b) as i64,
        _ => unreachable!(),
    }
}
pub fn cmp_partial<X: PartialEq + PartialOrd>(a: &X, b: &X, what: usize) -> i64 {
    match what {
        0 | 1 => cmp_eq(a, b, what),
        2 => (a < b) as i64,
        3 => (a <= b) as i64,
        4 => (a > b) as i64,
        5 => (a >= b) as i64,
        6 => a.partial_cmp(b).map_or(2, o),
        _ => unreachable!(),
    }
}
pub fn cmp_total<X: Ord>(a: &X, b: &X, what: usize) -> i64 {
    match what {
        7 => o(a.cmp(b)),
        // through references, as sorting does
        8 => o(Ord::cmp(&a, &b)),
        9 => PartialOrd::partial_cmp(&a, &b).map_or(2, o),
        _ => cmp_partial(a, b, what),
    }
}

/// Which of two handles max, min and clamp choose: the first (1), the second (2),
/// or a word that both of them are (3).
pub fn pick_total<X: Ord>(a: &X, b: &X, what: usize) -> i64 {
    let word = |x: &X| unsafe { mem::transmute_copy::<X, u64>(x) };
    // handles own nothing that is dropped
    assert!(mem::size_of::<X>() == 8 && !mem::needs_drop::<X>());
    let (x, y, z) = unsafe { (std::ptr::read(a), std::ptr::read(b), std::ptr::read(b)) };
    let r = match what {
        0 => Ord::max(x, y),
        1 => Ord::min(x, y),
        2 => Ord::clamp(x, y, z),
        3 => std::cmp::max_by(x, y, Ord::cmp),
        _ => std::iter::once(x).chain(std::iter::once(y)).max().unwrap(),
    };
    (word(&r) == word(a)) as i64 + 2 * (word(&r) == word(b)) as i64
}

pub const DBG: usize = 24;
pub fn fmt_dbg<X: fmt::Debug>(x: &X, spec: usize, w: &mut dyn fmt::Write) -> fmt::Result {
    match spec {
        0 => write!(w, "{:?}", x),
        1 => write!(w, "{:#?}", x),
        2 => write!(w, "{:14?}", x),
        3 => write!(w, "{:_<5?}", x),
        4 => write!(w, "{:08.2?}", x),
        5 => write!(w, "{:x?}", x),
        6 => write!(w, "{:#X?}", x),
        7 => write!(w, "{:+?}", x),
        8 => write!(w, "[{:?}|{0:#?}]", x),
        9 => write!(w, "{:#x?}", x),
        10 => write!(w, "{:X?}", x),
        11 => write!(w, "{:02x?}", x),
        12 => write!(w, "{:#010X?}", x),
        13 => write!(w, "{:-^#12.4?}", x),
        14 => write!(w, "{:+.3?}", x),
        15 => write!(w, "{:.0?}", x),
        16 => write!(w, "{:\u{e9}^17?}", x),
        17 => write!(w, "{:>+9.1?}", x),
        18 => write!(w, "{:-?}", x),
        19 => write!(w, "{:#06?}", x),
        20 => write!(w, "{:1$?}", x, 23),
        21 => write!(w, "{:.*?}", 1, x),
        22 => write!(w, "{:100?}", x),
        23 => write!(w, "{:1?}", x),
        _ => unreachable!(),
    }
}
pub fn fmt_all<X: fmt::Debug + fmt::Display>(x: &X, spec: usize, w: &mut dyn fmt::Write) -> fmt::Result {
    match spec {
        24 => write!(w, "{}", x),
        25 => write!(w, "{:#}", x),
        26 => write!(w, "{:>30}", x),
        27 => write!(w, "{:*^9}", x),
        28 => write!(w, "{:08}", x),
        29 => write!(w, "{:.3}", x),
        30 => write!(w, "{:+}", x),
        31 => write!(w, "{:-^+#20.5}", x),
        32 => write!(w, "{:1$}{0:.2$}", x, 17, 4),
        33 => write!(w, "{:<11}", x),
        34 => write!(w, "{:^12}", x),
        35 => write!(w, "{:\u{2192}>8}", x),
        36 => write!(w, "{:#09}", x),
        37 => write!(w, "{:.0}", x),
        38 => write!(w, "{:+010.2}", x),
        39 => write!(w, "{:-}", x),
        40 => write!(w, "{:1}", x),
        41 => write!(w, "{:200.100}", x),
        42 => write!(w, "{:0<6.1}", x),
        43 => write!(w, "{}{0}", x),
        44 => write!(w, "{:.*}", 2, x),
        45 => write!(w, "{:1$.2$}", x, 6, 6),
        46 => write!(w, "{:~<+7}", x),
        47 => write!(w, "{:#.1}", x),
        s => fmt_dbg(x, s, w),
    }
}
/// What a Display implementation can see of its format specification
pub fn show_spec(f: &mut fmt::Formatter<'_>, what: &str, f2: &[Look]) -> fmt::Result {
    fmt_trip()?;
    let text = quiet(|| {
        let t: Vec<i64> = f2.iter().map(|x| x.t).collect();
        format!(
            "{}{:?}<{:?},{:?},{:?},{},{},{},{}>",
            what, t, f.width(), f.precision(), f.fill(), f.alternate(), f.sign_plus(), f.sign_minus(), f.sign_aware_zero_pad()
        )
    });
    f.write_str(&text)?;
    let r = f.pad(what);
    quiet(|| drop(text));
    r
}

/// Collects text without recording its own allocations; refuses after a while.
struct Sink {
    text: String,
    left: Option<usize>,
    /// fails once and then works again
    recovers: bool,
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if let Some(n) = &mut self.left {
            if *n < s.len() {
                if self.recovers {
                    self.left = None;
                }
                return Err(fmt::Error);
            }
            *n -= s.len();
        }
        quiet(|| self.text.push_str(s));
        Ok(())
    }
}

// ---------------------------------------------------------------------------
// The interpreter

pub enum Slot<F: Family> {
    None,
    Val(F::E),
    Box(TaggedBox<F::T>, usize),
    Cont(F::C),
    Ptr(*mut u8, usize, u64),
    Std(F::S, u64),
}

fn hexaddr(p: usize) -> String {
    format!("{:x}", p)
}
fn align_of_addr(p: usize) -> u32 {
    if p == 0 {
        99
    } else {
        p.trailing_zeros()
    }
}

fn obs_handle<F: Family>(k: &str, b: &TaggedBox<F::T>, v: usize) -> String {
    let p = b.as_ptr::<u8>() as usize;
    let tag = b.discriminant() as u64;
    let blk = block_of(p);
    let (mut sv, mut sf) = (-1, Vec::new());
    if F::RAW || F::variant(tag).is_some() {
        let mut got = None;
        let r = catch_unwind(AssertUnwindSafe(|| F::view(b, v, &mut |s| got = Some(s.clone()))));
        match (r, got) {
            (Ok(()), Some(g)) => {
                sv = g.0;
                sf = g.1;
            }
            _ => sv = -2,
        }
    }
    let (size, al) = layout_of(blk);
    format!(
        "{{\"k\":\"{}\",\"tag\":{},\"addr\":\"{}\",\"al\":{},\"b\":{},\"size\":{},\"balign\":{},\"v\":{},\"f\":{}}}",
        k, tag, hexaddr(p), align_of_addr(p), blk, size, al, sv, looks(&sf)
    )
}
fn obs<F: Family>(s: &Slot<F>) -> String {
    // looking is not one of the thread's operations
    steady(|| obs1::<F>(s))
}
fn obs1<F: Family>(s: &Slot<F>) -> String {
    match s {
        Slot::None => "{\"k\":\"none\"}".to_string(),
        Slot::Val(e) => {
            let (v, f) = F::look(e);
            format!("{{\"k\":\"val\",\"v\":{},\"f\":{}}}", v, looks(&f))
        }
        Slot::Box(b, v) => obs_handle::<F>("box", b, *v),
        Slot::Cont(c) => obs_handle::<F>("cont", F::peek(c), 0),
        Slot::Ptr(p, v, tag) => {
            let blk = block_of(*p as usize);
            let (size, al) = layout_of(blk);
            format!(
                "{{\"k\":\"ptr\",\"tag\":{},\"addr\":\"{}\",\"al\":{},\"b\":{},\"size\":{},\"balign\":{},\"v\":{},\"f\":{}}}",
                tag, hexaddr(*p as usize), align_of_addr(*p as usize), blk, size, al, v, looks(&[F::ptr_look(*p, *v)])
            )
        }
        Slot::Std(b, tag) => {
            let (v, p, l) = F::std_look(b);
            let blk = block_of(p);
            let (size, al) = layout_of(blk);
            format!(
                "{{\"k\":\"std\",\"tag\":{},\"addr\":\"{}\",\"al\":{},\"b\":{},\"size\":{},\"balign\":{},\"v\":{},\"f\":{}}}",
                tag, hexaddr(p), align_of_addr(p), blk, size, al, v, looks(&[l])
            )
        }
    }
}

const NSLOTS: usize = 4;

/// Runs one case; every operation becomes one line. `slots n` asks for more
/// slots than usual. The lines between `par` and `join` are `t <thread> <op>`:
/// the threads run at the same time, sharing slots 0 and 1; `par 0 1 1 0 ...`
/// says who goes on at each point where a hand-over is possible, `par free`
/// leaves it to the machine.
pub fn run_case<F: Family>(ops: &[Vec<String>], emit: &mut dyn FnMut(String)) {
    reset();
    clear_faults();
    let mut slots: Vec<Slot<F>> = (0..NSLOTS).map(|_| Slot::None).collect();
    let mut i = 0;
    while i < ops.len() {
        let op = &ops[i];
        if op[0] == "slots" {
            let n: usize = op[1].parse().unwrap();
            slots = (0..n).map(|_| Slot::None).collect();
        } else if op[0] == "par" {
            let end = i + ops[i..].iter().position(|o| o[0] == "join").expect("join");
            for l in run_threads::<F>(&mut slots, &op[1..], &ops[i + 1..end]) {
                emit(l);
            }
            i = end;
        } else {
            let line = step::<F>(&mut slots, op, None);
            emit(line);
        }
        i += 1;
    }
    // the case is over: what is still held is not judged any more
    for s in slots {
        mem::forget(s);
    }
    reset();
}

fn run_threads<F: Family>(slots: &mut Vec<Slot<F>>, how: &[String], ops: &[Vec<String>]) -> Vec<String> {
    let of = |o: &Vec<String>| -> usize { o[1].parse().unwrap() };
    let n = ops.iter().map(of).max().unwrap_or(0) + 1;
    let free = how[0] == "free";
    {
        let mut s = sched();
        s.on = true;
        s.free = free;
        s.list = if free { Vec::new() } else { how.iter().map(|x| x.parse().unwrap()).collect() };
        s.pos = 0;
        s.moves = 0;
        s.done = vec![false; n];
        s.turn = 0;
        HANDOVER.store(!free, SeqCst);
        if !free {
            s.next();
        }
    }
    let lines: Mutex<Vec<(usize, String)>> = Mutex::new(Vec::new());
    let seq = AtomicUsize::new(0);
    let start = std::sync::Barrier::new(n);
    // every thread has its own slots to itself and only reads the shared ones
    struct Ptr(usize);
    let all = slots as *mut Vec<Slot<F>> as usize;
    std::thread::scope(|sc| {
        for t in 0..n {
            let mine: Vec<&[String]> = ops.iter().filter(|o| of(o) == t).map(|o| &o[2..]).collect();
            let (lines, seq, start) = (&lines, &seq, &start);
            sc.spawn(move || {
                start.wait();
                thread_starts(t + 1);
                let slots: &mut Vec<Slot<F>> = unsafe { &mut *(all as *mut Vec<Slot<F>>) };
                let vis = [0, 1, 2 + 2 * t, 3 + 2 * t];
                for op in mine {
                    let l = step::<F>(slots, op, Some(&vis));
                    let l = quiet(|| (seq.fetch_add(1, SeqCst), l));
                    quiet(|| lines.lock().unwrap().push(l));
                }
                thread_ends(t + 1);
            });
        }
    });
    sched().on = false;
    HANDOVER.store(false, SeqCst);
    let mut v = lines.into_inner().unwrap();
    v.sort();
    v.into_iter().map(|x| x.1).collect()
}

/// the handles are not what the history expects: either it is wrong, or the
/// code went another way before, which the judge will have noticed
fn misfit(op: &[String]) -> ! {
    eprintln!("operation {:?} does not apply", op);
    std::process::exit(4)
}

fn misuse(op: &[String]) -> ! {
    eprintln!("unknown operation {:?}", op);
    std::process::exit(3)
}

fn step<F: Family>(slots: &mut Vec<Slot<F>>, op: &[String], vis: Option<&[usize]>) -> String {
    let name = op[0].as_str();
    let n = |i: usize| -> usize { op[i].parse().unwrap_or_else(|_| misuse(op)) };
    let take = |slots: &mut Vec<Slot<F>>, i: usize| mem::replace(&mut slots[i], Slot::None);
    let mut extra = String::new();
    let mut before = String::new();
    let mut res = "ok";
    let (s, t) = (if op.len() > 1 { n(1) } else { 0 }, ());
    let _ = t;

    // what plain values with the same contents do, for comparisons and texts
    let mirror = |slot: &Slot<F>| -> Option<F::E> {
        let (v, f) = match slot {
            Slot::Val(e) => F::look(e),
            Slot::Box(..) | Slot::Cont(_) => {
                let (b, w) = match slot {
                    Slot::Box(b, w) => (b, *w),
                    Slot::Cont(c) => (F::peek(c), 0),
                    _ => unreachable!(),
                };
                if !F::RAW && F::variant(b.discriminant() as u64).is_none() {
                    return None;
                }
                let mut g = None;
                let _ = steady(|| catch_unwind(AssertUnwindSafe(|| F::view(b, w, &mut |x| g = Some(x.clone())))));
                g?
            }
            _ => return None,
        };
        if v < 0 || f.iter().any(|x| x.t < 0) {
            return None;
        }
        let t: Vec<usize> = f.iter().map(|x| x.t as usize).collect();
        Some(steady(|| armed(|| F::make(v as usize, &t))))
    };

    macro_rules! call {
        // runs with recording on; a panic is a result
        ($body:expr) => {{
            set_armed(true);
            let r = catch_unwind(AssertUnwindSafe(|| $body));
            let r = match r {
                Ok(x) => Some(x),
                Err(e) => {
                    drop(e);
                    None
                }
            };
            set_armed(false);
            if r.is_none() {
                res = "panic";
            }
            r
        }};
    }
    macro_rules! handle {
        ($i:expr) => {
            match &slots[$i] {
                Slot::Box(b, v) => (b, *v),
                Slot::Cont(c) => (F::peek(c), 0),
                _ => misfit(op),
            }
        };
    }
    let wrong = || -> ! { misfit(op) };

    let armed_fail = name == "falloc";
    let (name, op2): (&str, Vec<String>);
    if armed_fail {
        // falloc n op...
        with(|r| r.p().fail_in = n(1));
        op2 = op[2..].to_vec();
        name = op2[0].as_str();
    } else {
        op2 = op.to_vec();
        name = op2[0].as_str();
    }
    let n = |i: usize| -> usize { op2[i].parse().unwrap_or_else(|_| misuse(op)) };
    let s = if armed_fail { n(1) } else { s };
    let toks = |from: usize| -> Vec<usize> { (from..op2.len()).map(|i| n(i)).collect() };

    match name {
        "make" => {
            let (v, t) = (n(2), toks(3));
            slots[s] = Slot::Val(armed(|| F::make(v, &t)));
        }
        "tobox" => {
            let tag = if op2.len() > 2 { n(2) as u64 } else { 0 };
            if let Slot::Val(e) = take(slots, s) {
                let v = F::look(&e).0 as usize;
                if let Some(b) = call!(F::to_box(e, tag)) {
                    slots[s] = Slot::Box(b, v);
                }
            } else {
                wrong()
            }
        }
        "tocont" => {
            if let Slot::Val(e) = take(slots, s) {
                if let Some(c) = call!(F::to_cont(e)) {
                    slots[s] = Slot::Cont(c);
                }
            } else {
                wrong()
            }
        }
        "contpay" => {
            let (v, t) = (n(2), toks(3));
            if let Some(c) = call!(F::cont_pay(v, &t)) {
                slots[s] = Slot::Cont(c);
            }
        }
        "frombox" => {
            if let Slot::Box(b, v) = take(slots, s) {
                if let Some(e) = call!(F::from_box(b, v)) {
                    slots[s] = Slot::Val(e);
                }
            } else {
                wrong()
            }
        }
        "continner" => {
            if let Slot::Cont(c) = take(slots, s) {
                if let Some(e) = call!(F::cont_inner(c)) {
                    slots[s] = Slot::Val(e);
                }
            } else {
                wrong()
            }
        }
        "wrap" => {
            if let Slot::Box(b, _) = take(slots, s) {
                slots[s] = Slot::Cont(armed(|| F::wrap(b)));
            } else {
                wrong()
            }
        }
        "unwrap" => {
            if let Slot::Cont(c) = take(slots, s) {
                let b = armed(|| F::unwrap(c));
                let v = b.discriminant() as usize;
                slots[s] = Slot::Box(b, v);
            } else {
                wrong()
            }
        }
        "move" => {
            let x = take(slots, s);
            let t = n(2);
            slots[t] = x;
        }
        "drop" => {
            let x = take(slots, s);
            call!(drop(x));
        }
        "view" | "fview" => {
            let fault = name == "fview";
            let (b, v) = handle!(s);
            let mut seen: Vec<Seen> = Vec::new();
            call!(F::view(b, v, &mut |x| {
                quiet(|| seen.push(x.clone()));
                if fault {
                    panic!("callback fault");
                }
            }));
            let j: Vec<String> = seen.iter().map(|x| format!("{{\"v\":{},\"f\":{}}}", x.0, looks(&x.1))).collect();
            extra = format!(",\"seen\":[{}]", j.join(","));
        }
        "vpoke" => {
            let (i, t) = (n(3), n(4));
            let (b, v) = handle!(s);
            let mut seen: Vec<Seen> = Vec::new();
            call!(F::view_set(b, v, i, t, &mut |x| quiet(|| seen.push(x.clone()))));
            let j: Vec<String> = seen.iter().map(|x| format!("{{\"v\":{},\"f\":{}}}", x.0, looks(&x.1))).collect();
            extra = format!(",\"seen\":[{}]", j.join(","));
        }
        "view2" | "fview2" => {
            let fault = name == "fview2";
            let (a, v) = handle!(s);
            let (b, w) = handle!(n(2));
            let mut seen: Vec<(Seen, Seen)> = Vec::new();
            call!(F::view2(a, v, b, w, &mut |x, y| {
                quiet(|| seen.push((x.clone(), y.clone())));
                if fault {
                    panic!("callback fault");
                }
            }));
            let j: Vec<String> = seen
                .iter()
                .map(|(x, y)| format!("{{\"v\":{},\"f\":{},\"v2\":{},\"f2\":{}}}", x.0, looks(&x.1), y.0, looks(&y.1)))
                .collect();
            extra = format!(",\"seen\":[{}]", j.join(","));
        }
        "clone" | "fclone" => {
            let t = n(2);
            let k = if name == "fclone" { n(3) } else { 0 };
            // would the plain value's clone fail?
            let m = mirror(&slots[s]);
            if k > 0 {
                FAULT.clone.store(k, Relaxed);
                let r = m.as_ref().map(|m| catch_unwind(AssertUnwindSafe(|| F::clone_val(m))).is_err());
                clear_faults();
                extra = format!(",\"ref\":\"{}\"", if r == Some(true) { "panic" } else { "ok" });
            }
            drop(m);
            take_diff();
            FAULT.clone.store(k, Relaxed);
            let new = match &slots[s] {
                Slot::Box(b, v) => call!(F::clone_box(b)).map(|c| Slot::Box(c, *v)),
                Slot::Cont(c) => call!(F::clone_cont(c)).map(Slot::Cont),
                _ => wrong(),
            };
            if let Some(x) = new {
                slots[t] = x;
            }
        }
        // clone_from: the old contents of t are discarded
        "clonefrom" | "fclonefrom" => {
            let t = n(2);
            let k = if name == "fclonefrom" { n(3) } else { 0 };
            if k > 0 {
                let m = mirror(&slots[s]);
                FAULT.clone.store(k, Relaxed);
                let r = m.as_ref().map(|m| catch_unwind(AssertUnwindSafe(|| F::clone_val(m))).is_err());
                clear_faults();
                extra = format!(",\"ref\":\"{}\"", if r == Some(true) { "panic" } else { "ok" });
                drop(m);
                take_diff();
                FAULT.clone.store(k, Relaxed);
            }
            let mut old = take(slots, t);
            match (&mut old, &slots[s]) {
                (Slot::Box(a, va), Slot::Box(b, v)) => {
                    if call!(F::clone_from_box(a, b)).is_some() {
                        *va = *v;
                    }
                }
                (Slot::Cont(a), Slot::Cont(b)) => {
                    call!(F::clone_from_cont(a, b));
                }
                _ => wrong(),
            }
            slots[t] = old;
        }
        "copy" => {
            let t = n(2);
            let new = match &slots[s] {
                Slot::Box(b, v) => call!(F::copy_box(b)).map(|c| Slot::Box(c, *v)),
                Slot::Cont(c) => call!(F::copy_cont(c)).map(Slot::Cont),
                _ => wrong(),
            };
            if let Some(x) = new {
                slots[t] = x;
            }
        }
        "cmp" => {
            let t = n(2);
            let (m1, m2) = (mirror(&slots[s]), mirror(&slots[t]));
            let refs: Vec<i64> = match (&m1, &m2) {
                (Some(x), Some(y)) => (0..F::CMPS).map(|i| F::cmp_val(x, y, i)).collect(),
                _ => Vec::new(),
            };
            drop((m1, m2));
            take_diff();
            let mut out = Vec::new();
            for i in 0..F::CMPS {
                let r = match (&slots[s], &slots[t]) {
                    (Slot::Box(a, _), Slot::Box(b, _)) => call!(F::cmp_box(a, b, i)),
                    (Slot::Cont(a), Slot::Cont(b)) => call!(F::cmp_cont(a, b, i)),
                    (Slot::Val(a), Slot::Val(b)) => call!(F::cmp_val(a, b, i)),
                    (a, b) => {
                        // a box against the box inside a container
                        let a = match a { Slot::Box(b, _) => b, Slot::Cont(c) => F::peek(c), _ => wrong() };
                        let b = match b { Slot::Box(b, _) => b, Slot::Cont(c) => F::peek(c), _ => wrong() };
                        call!(F::cmp_box(a, b, i))
                    }
                };
                match r {
                    Some(x) => out.push(x),
                    None => out.push(9),
                }
            }
            let mut picks = Vec::new();
            for i in 0..F::PICKS {
                let r = match (&slots[s], &slots[t]) {
                    (Slot::Box(a, _), Slot::Box(b, _)) => call!(F::pick_box(a, b, i)),
                    (Slot::Cont(a), Slot::Cont(b)) => call!(F::pick_cont(a, b, i)),
                    _ => break,
                };
                picks.push(r.unwrap_or(9));
            }
            extra = format!(",\"cmp\":{},\"ref\":{},\"pick\":{}", list(&out), list(&refs), list(&picks));
        }
        "fcmp" => {
            // one comparison whose k-th payload comparison fails
            let (t, k, what) = (n(2), n(3), n(4));
            let (m1, m2) = (mirror(&slots[s]), mirror(&slots[t]));
            FAULT.cmp.store(k, Relaxed);
            let r = match (&m1, &m2) {
                (Some(x), Some(y)) => catch_unwind(AssertUnwindSafe(|| F::cmp_val(x, y, what))).ok(),
                _ => None,
            };
            clear_faults();
            drop((m1, m2));
            take_diff();
            FAULT.cmp.store(k, Relaxed);
            let x = match (&slots[s], &slots[t]) {
                (Slot::Cont(a), Slot::Cont(b)) => call!(F::cmp_cont(a, b, what)),
                (a, b) => {
                    let a = match a { Slot::Box(b, _) => b, Slot::Cont(c) => F::peek(c), _ => wrong() };
                    let b = match b { Slot::Box(b, _) => b, Slot::Cont(c) => F::peek(c), _ => wrong() };
                    call!(F::cmp_box(a, b, what))
                }
            };
            extra = format!(",\"cmp\":[{}],\"ref\":[{}]", x.unwrap_or(9), r.unwrap_or(9));
        }
        "fmt" | "ffmt" | "fwrite" => {
            let spec = n(2);
            let k = if name == "fmt" { 0 } else { n(3) };
            let left = if name == "fwrite" { Some(k) } else { None };
            // the other way to fail: a writer that recovers, a payload that gives an error
            let other = op2.len() > 4 && n(4) == 1;
            let go = |w: &mut Sink, f: &mut dyn FnMut(&mut dyn fmt::Write) -> fmt::Result| -> Option<&'static str> {
                if name == "ffmt" {
                    FAULT.fmt.store(k, Relaxed);
                    FAULT.err.store(other as usize, Relaxed);
                }
                let r = catch_unwind(AssertUnwindSafe(|| f(w)));
                clear_faults();
                match r {
                    Ok(Ok(())) => Some("ok"),
                    Ok(Err(_)) => Some("err"),
                    Err(_) => Some("panic"),
                }
            };
            let m = mirror(&slots[s]);
            let mut rt = Sink { text: String::new(), left, recovers: other };
            let is_cont = matches!(&slots[s], Slot::Cont(_));
            let rr = match &m {
                Some(m) => go(&mut rt, &mut |w| if is_cont { F::fmt_valcont(m, spec, w) } else { F::fmt_val(m, spec, w) }),
                None => Some("panic"),
            };
            drop(m);
            take_diff();
            let mut text = Sink { text: String::new(), left, recovers: other };
            set_armed(true);
            let r = match &slots[s] {
                Slot::Box(b, _) => go(&mut text, &mut |w| F::fmt_box(b, spec, w)),
                Slot::Cont(c) => go(&mut text, &mut |w| F::fmt_cont(c, spec, w)),
                _ => wrong(),
            };
            set_armed(false);
            res = r.unwrap();
            extra = format!(",\"text\":{},\"reftext\":{},\"ref\":\"{}\"", q(&text.text), q(&rt.text), rr.unwrap());
        }
        "intoraw" => {
            let v = n(2);
            if let Slot::Box(b, _) = take(slots, s) {
                let tag = b.discriminant() as u64;
                if let Some(p) = call!(F::pay_raw(b, v)) {
                    slots[s] = Slot::Ptr(p, v, tag);
                }
            } else {
                wrong()
            }
        }
        "fromraw" => {
            let tag = n(2) as u64;
            if let Slot::Ptr(p, v, old) = take(slots, s) {
                if let Some(b) = call!(F::pay_from_raw(p, v, tag)) {
                    slots[s] = Slot::Box(b, v);
                } else {
                    // refused: the pointer is still ours
                    slots[s] = Slot::Ptr(p, v, old);
                }
            } else {
                wrong()
            }
        }
        "paynew" => {
            let (v, tok, tag, how) = (n(2), n(3), n(4) as u64, n(5));
            if let Some(b) = call!(F::pay_new(v, tok, tag, how)) {
                slots[s] = Slot::Box(b, v);
            }
        }
        "payref" => {
            let (v, how) = (n(2), n(3));
            if let Slot::Box(b, _) = &mut slots[s] {
                if let Some((p, l)) = call!(F::pay_ref(b, v, how)) {
                    extra = format!(",\"addr\":\"{}\",\"look\":{}", hexaddr(p), looks(&[l]));
                }
            } else {
                wrong()
            }
        }
        "poke" => {
            let (v, tok, how) = (n(2), n(3), n(4));
            if let Slot::Box(b, _) = &mut slots[s] {
                call!(F::pay_poke(b, v, tok, how));
            } else {
                wrong()
            }
        }
        "payinner" => {
            let v = n(2);
            if let Slot::Box(b, _) = take(slots, s) {
                if let Some(e) = call!(F::pay_inner(b, v)) {
                    slots[s] = Slot::Val(e);
                }
            } else {
                wrong()
            }
        }
        "intostd" => {
            let v = n(2);
            if let Slot::Box(b, _) = take(slots, s) {
                let tag = b.discriminant() as u64;
                if let Some(x) = call!(F::pay_std(b, v)) {
                    slots[s] = Slot::Std(x, tag);
                }
            } else {
                wrong()
            }
        }
        "stdread" => {
            if let Slot::Std(x, _) = take(slots, s) {
                if let Some(e) = call!(F::std_read(x)) {
                    slots[s] = Slot::Val(e);
                }
            } else {
                wrong()
            }
        }
        "stdnew" => {
            let (v, tok) = (n(2), n(3));
            if let Some(x) = call!(F::std_new(v, tok)) {
                slots[s] = Slot::Std(x, 0);
            }
        }
        "stdraw" => {
            if let Slot::Std(x, tag) = take(slots, s) {
                if let Some((p, v)) = call!(F::std_raw(x)) {
                    slots[s] = Slot::Ptr(p, v, tag);
                }
            } else {
                wrong()
            }
        }
        // a value without a size is wherever we say it is
        "relocate" => {
            if let Slot::Ptr(p, v, tag) = take(slots, s) {
                slots[s] = Slot::Ptr(F::ptr_place(p, v, n(3)), v, tag);
            } else {
                wrong()
            }
        }
        "rawstd" => {
            if let Slot::Ptr(p, v, tag) = take(slots, s) {
                if let Some(x) = call!(F::raw_std(p, v)) {
                    slots[s] = Slot::Std(x, tag);
                }
            } else {
                wrong()
            }
        }
        // an operation while a handle is borrowed; it has a line of its own before this one
        "vin" => {
            let all = slots as *mut Vec<Slot<F>>;
            let (b, v) = match unsafe { &(*all)[s] } {
                Slot::Box(b, v) => (b, *v),
                Slot::Cont(c) => (F::peek(c), 0),
                _ => wrong(),
            };
            let mut seen: Vec<Seen> = Vec::new();
            let mut lines = String::new();
            call!(F::view(b, v, &mut |x| {
                quiet(|| {
                    if seen.is_empty() {
                        lines.push_str(&step::<F>(unsafe { &mut *all }, &op2[2..], vis));
                        lines.push('\n');
                    }
                    seen.push(x.clone())
                });
            }));
            before = lines;
            let j: Vec<String> = seen.iter().map(|x| format!("{{\"v\":{},\"f\":{}}}", x.0, looks(&x.1))).collect();
            extra = format!(",\"seen\":[{}]", j.join(","));
        }
        // views within views of two handles in turn
        "viewd" => {
            fn deep<F: Family>(a: (&TaggedBox<F::T>, usize), b: (&TaggedBox<F::T>, usize), left: usize, f: &mut dyn FnMut(&Seen)) {
                F::view(a.0, a.1, &mut |x| {
                    f(x);
                    if left > 1 {
                        deep::<F>(b, a, left - 1, f);
                    }
                })
            }
            let (a, b) = (handle!(s), handle!(n(2)));
            let mut seen: Vec<Seen> = Vec::new();
            call!(deep::<F>(a, b, n(3), &mut |x| quiet(|| seen.push(x.clone()))));
            let j: Vec<String> = seen.iter().map(|x| format!("{{\"v\":{},\"f\":{}}}", x.0, looks(&x.1))).collect();
            extra = format!(",\"seen\":[{}]", j.join(","));
        }
        // the same operation again and again: the different outcomes
        "hview" | "hclone" | "hconv" => {
            let times = n(2);
            let mut seen: Vec<Seen> = Vec::new();
            let mut add = |x: &Seen| {
                if !seen.contains(x) {
                    seen.push(x.clone());
                }
            };
            let r = catch_unwind(AssertUnwindSafe(|| {
                for _ in 0..times {
                    if name == "hconv" {
                        let (v, t) = (n(3), toks(4));
                        let b = F::to_box(F::make(v, &t), 0);
                        F::view(&b, v, &mut |x| add(x));
                        let e = F::from_box(b, v);
                        add(&F::look(&e));
                        let c = F::to_cont(e);
                        F::view(F::peek(&c), v, &mut |x| add(x));
                        add(&F::look(&F::cont_inner(c)));
                    } else if name == "hview" {
                        let (b, v) = handle!(s);
                        F::view(b, v, &mut |x| add(x));
                    } else {
                        let e = match &slots[s] {
                            Slot::Box(b, v) => F::from_box(F::clone_box(b), *v),
                            Slot::Cont(c) => {
                                let d = F::clone_cont(c);
                                if F::COPY {
                                    let mut e = None;
                                    F::view(F::peek(&d), 0, &mut |x| e = Some(x.clone()));
                                    let e = e.unwrap();
                                    F::make(e.0 as usize, &e.1.iter().map(|l| l.t as usize).collect::<Vec<_>>())
                                } else {
                                    F::cont_inner(d)
                                }
                            }
                            _ => misfit(op),
                        };
                        add(&F::look(&e));
                    }
                }
            }));
            if r.is_err() {
                res = "panic";
            }
            let j: Vec<String> = seen.iter().map(|x| format!("{{\"v\":{},\"f\":{}}}", x.0, looks(&x.1))).collect();
            extra = format!(",\"seen\":[{}]", j.join(","));
        }
        "hcmp" => {
            let (t, times) = (n(3), n(2));
            let mut seen: Vec<Vec<i64>> = Vec::new();
            let r = catch_unwind(AssertUnwindSafe(|| {
                for _ in 0..times {
                    let x: Vec<i64> = (0..F::CMPS)
                        .map(|i| match (&slots[s], &slots[t]) {
                            (Slot::Cont(a), Slot::Cont(b)) => F::cmp_cont(a, b, i),
                            _ => F::cmp_box(handle!(s).0, handle!(t).0, i),
                        })
                        .collect();
                    if !seen.contains(&x) {
                        seen.push(x);
                    }
                }
            }));
            if r.is_err() {
                res = "panic";
            }
            let j: Vec<String> = seen.iter().map(|x| list(x)).collect();
            extra = format!(",\"cmps\":[{}]", j.join(","));
        }
        "hfmt" => {
            let (spec, times) = (n(3), n(2));
            let m = mirror(&slots[s]);
            let is_cont = matches!(&slots[s], Slot::Cont(_));
            let mut rt = Sink { text: String::new(), left: None, recovers: false };
            let _ = m.as_ref().map(|m| if is_cont { F::fmt_valcont(m, spec, &mut rt) } else { F::fmt_val(m, spec, &mut rt) });
            drop(m);
            take_diff();
            let mut seen: Vec<String> = Vec::new();
            let r = catch_unwind(AssertUnwindSafe(|| {
                for _ in 0..times {
                    let mut w = Sink { text: String::new(), left: None, recovers: false };
                    let _ = match &slots[s] {
                        Slot::Cont(c) => F::fmt_cont(c, spec, &mut w),
                        _ => F::fmt_box(handle!(s).0, spec, &mut w),
                    };
                    if !seen.contains(&w.text) {
                        seen.push(w.text);
                    }
                }
            }));
            if r.is_err() {
                res = "panic";
            }
            let j: Vec<String> = seen.iter().map(|x| q(x)).collect();
            extra = format!(",\"texts\":[{}],\"reftext\":{}", j.join(","), q(&rt.text));
        }
        // a handle whose tag belongs to no variant
        "mkbad" => {
            let tag = n(2);
            if let Some(b) = call!(TaggedBox::<F::T>::dangling::<u64>(tag as Discriminant)) {
                slots[s] = Slot::Box(b, 0);
            }
        }
        _ => misuse(op),
    }
    clear_faults();
    let o: Vec<String> = match vis {
        None => slots.iter().map(|s| obs(s)).collect(),
        Some(v) => (0..slots.len()).map(|i| if v.contains(&i) { obs(&slots[i]) } else { "{\"k\":\"none\"}".to_string() }).collect(),
    };
    if let Some(v) = vis {
        let v: Vec<usize> = v.iter().copied().filter(|i| *i < slots.len()).collect();
        extra = format!("{},\"t\":{},\"vis\":{}", extra, TID.with(|t| t.get()) - 1, list(&v));
    }
    let d = take_diff();
    let bad: Vec<String> = d.bad.iter().map(|(w, i)| format!("\"{} (asset {})\"", w, i)).collect();
    let args: Vec<String> = op.iter().skip(1).map(|a| if a.chars().all(|c| c.is_ascii_digit()) { a.clone() } else { q(a) }).collect();
    format!(
        "{}{{\"op\":\"{}\",\"a\":[{}],\"res\":\"{}\"{},\"made\":{},\"gone\":{},\"z\":[{},{}],\"bad\":[{}],\"obs\":[{}]}}",
        before, op[0], args.join(","), res, extra, list(&d.made), list(&d.gone), d.z.0, d.z.1, bad.join(","), o.join(",")
    )
}

/// args: histories trace-file first-case
pub type Table = [(&'static str, fn(&[Vec<String>], &mut dyn FnMut(String)), fn() -> String, bool, bool)];
pub fn main_with(families: &'static Table) {
    // views within views of large values need room
    let t = std::thread::Builder::new().stack_size(1 << 30).spawn(move || main_in(families)).unwrap();
    if t.join().is_err() {
        std::process::exit(101);
    }
}

fn main_in(families: &Table) {
    use std::io::Write;
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    // let the runtime allocate what it keeps for good before anything is recorded
    let _ = catch_unwind(|| panic!("warm up {}", args.len()));
    if args[1] == "decl" {
        for (name, _, decl, _, _) in families {
            println!("{{\"fam\":\"{}\",\"decl\":[{}]}}", name, decl());
        }
        return;
    }
    let input = std::fs::read_to_string(&args[1]).expect("histories");
    let first: usize = args[3].parse().unwrap();
    let mut out = std::fs::OpenOptions::new().create(true).append(true).open(&args[2]).expect("trace");
    let mut cases: Vec<(String, String, Vec<Vec<String>>)> = Vec::new();
    for line in input.lines() {
        let w: Vec<String> = line.split_whitespace().map(String::from).collect();
        if w.is_empty() {
            continue;
        }
        if w[0] == "case" {
            cases.push((w[1].clone(), w[2].clone(), Vec::new()));
        } else {
            cases.last_mut().unwrap().2.push(w);
        }
    }
    for (i, (fam, id, ops)) in cases.iter().enumerate().skip(first) {
        let (_, f, decl, copy, raw) = families.iter().find(|x| x.0 == fam).unwrap_or_else(|| panic!("no family {}", fam));
        let mut first_line = format!("{{\"op\":\"case\",\"id\":\"{}\",\"i\":{},\"fam\":\"{}\",\"copy\":{},\"raw\":{},\"slots\":{},\"decl\":[{}]}}\n", id, i, fam, copy, raw,
            ops.get(0).filter(|o| o[0] == "slots").map_or("4", |o| o[1].as_str()), decl());
        let _ = out.write_all(first_line.as_bytes());
        first_line.clear();
        let mut emit = |l: String| {
            let mut l = l;
            l.push('\n');
            out.write_all(l.as_bytes()).expect("write");
        };
        f(ops, &mut emit);
    }
    let _ = out.write_all(b"{\"op\":\"end\"}\n");
}

/// another place for a value at p, which has to have no size
pub fn place<X>(p: *mut u8, k: usize) -> *mut u8 {
    if std::mem::size_of::<X>() != 0 {
        misuse(&["relocate".to_string()])
    }
    (k.max(1) * std::mem::align_of::<X>()) as *mut u8
}

pub fn decl_variant(kind: &str, how: &str, rank: usize, tag: u64, whole: (usize, usize), fields: &[(usize, usize, &'static str, usize)]) -> String {
    let cls: Vec<String> = fields.iter().map(|f| q(f.2)).collect();
    let toks: Vec<usize> = fields.iter().map(|f| f.3).collect();
    // whole: the enum itself is what is stored
    let al = fields.iter().map(|f| f.1).max().unwrap_or(1).max(whole.1).trailing_zeros();
    let min: usize = whole.0.max(fields.iter().map(|f| f.0).sum());
    format!(
        "{{\"kind\":\"{}\",\"how\":\"{}\",\"rank\":{},\"tag\":{},\"n\":{},\"cls\":[{}],\"toks\":{},\"al\":{},\"min\":{}}}",
        kind, how, rank, tag, fields.len(), cls.join(","), list(&toks), al, min
    )
}
