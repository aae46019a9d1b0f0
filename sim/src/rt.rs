//! Bindings to the simulation runtime (rt/rt.c) and the allocator of the run.

use std::alloc::{GlobalAlloc, Layout, System};
use std::any::Any;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct Params {
    pub seed: u64,
    pub strategy: u32,
    pub stay: u32,
    pub plain_rate: u32,
    pub stale: u32,
    pub race: u32,
    pub replay: u32,
    pub step_cap: u64,
}

#[repr(C)]
#[derive(Clone, Copy, Default, Debug, PartialEq)]
pub struct Dec {
    pub pos: u32,
    pub val: u32,
}

pub const DEC_CAP: usize = 1 << 20;

#[repr(C)]
pub struct DecBuf {
    pub n: u64,
    pub cap: u64,
    pub overflow: u64,
    pub d: [Dec; DEC_CAP],
}

#[repr(C)]
pub struct VBuf {
    pub kind: u32,
    pub thread: u32,
    pub step: u64,
    pub hash: u64,
    pub cls: [u8; 32],
    pub msg: [u8; 2048],
}

#[repr(C)]
#[derive(Clone, Copy, Default, Debug, PartialEq)]
pub struct Stats {
    pub steps: u64,
    pub sched_points: u64,
    pub switches: u64,
    pub preempts: u64,
    pub stale_loads: u64,
    pub stale_opportunities: u64,
    pub atomics: u64,
    pub races_checked: u64,
    pub decisions: u64,
    pub hash: u64,
    pub ihash: u64,
    pub arena_used: u64,
    pub live_blocks: u64,
    pub live_bytes: u64,
    pub allocs: u64,
    pub frees: u64,
    pub longest: u64,
}

#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct Rmw {
    pub addr: u64,
    pub old: u64,
    pub new: u64,
}

extern "C" {
    pub static mut rt_sut: i32;
    fn rt_in_arena(p: *const u8) -> i32;
    fn rt_alloc(size: u64, align: u64, zero: i32) -> *mut u8;
    fn rt_free(p: *mut u8, size: u64, align: u64);
    fn rt_fail(kind: u32, cls: *const u8, msg: *const u8, len: u64) -> !;
    fn rt_note_panic(s: *const u8, n: u64);
    fn rt_yield();
    fn rt_block(key: *const u8);
    fn rt_wake(key: *const u8);
    fn rt_decide(n: u32) -> u32;
    fn rt_current() -> i32;
    fn rt_hash(x: u64);
    fn rt_spawn(f: extern "C" fn(*mut u8), arg: *mut u8) -> i32;
    fn rt_join(id: i32);
    fn rt_hb_new() -> u32;
    fn rt_hb_acquire(i: u32);
    fn rt_hb_release(i: u32);
    fn rt_first_leak() -> u64;
    fn rt_scan(word: u64, lo: u64, hi: u64, out: *mut u64, cap: u64) -> u64;
    fn rt_scan_halves(half: u64, out: *mut u64, cap: u64) -> u64;
    fn rt_poke(addr: u64, val: u64);
    fn rt_rmws(out: *mut Rmw, cap: u64) -> u64;
    fn rt_init();
    fn rt_signals();
    fn rt_begin(p: *const Params, db: *mut DecBuf, rl: *const Dec, rln: u64, vb: *mut VBuf);
    fn rt_progress();
    fn rt_private(cap: u64);
    fn rt_stats(out: *mut Stats);
}

struct SimAlloc;

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if rt_sut & 2 != 0 {
            rt_alloc(l.size() as u64, l.align() as u64, 0)
        } else {
            System.alloc(l)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if rt_sut & 2 != 0 {
            rt_alloc(l.size() as u64, l.align() as u64, 1)
        } else {
            System.alloc_zeroed(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if rt_in_arena(p) != 0 {
            rt_free(p, l.size() as u64, l.align() as u64)
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if rt_in_arena(p) == 0 {
            return System.realloc(p, l, n);
        }
        // A block never stays where it is, so stale pointers always show.
        let q = if rt_sut & 2 != 0 {
            rt_alloc(n as u64, l.align() as u64, 0)
        } else {
            System.alloc(Layout::from_size_align_unchecked(n, l.align()))
        };
        std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
        rt_free(p, l.size() as u64, l.align() as u64);
        q
    }
}

#[global_allocator]
static ALLOC: SimAlloc = SimAlloc;

pub struct Mode(i32);
impl Drop for Mode {
    #[inline]
    fn drop(&mut self) {
        unsafe { rt_sut = self.0 }
    }
}
#[inline]
fn mode(m: i32) -> Mode {
    unsafe {
        let old = rt_sut;
        rt_sut = m;
        Mode(old)
    }
}

/// Runs code under test: its memory accesses are checked and scheduled.
#[inline]
pub fn sut<R>(f: impl FnOnce() -> R) -> R {
    let _m = mode(3);
    f()
}

/// Runs harness code, which the simulator does not look at.
#[inline]
pub fn harness<R>(f: impl FnOnce() -> R) -> R {
    let _m = mode(0);
    f()
}

/// Allocates in the arena without checking accesses.
#[inline]
pub fn arena<R>(f: impl FnOnce() -> R) -> R {
    let _m = mode(2);
    f()
}

/// The panic of an injected fault.
pub struct SimFault;

pub enum Caught {
    Fault,
    Panic(String),
}

/// Runs code under test and catches what it panics with.
pub fn try_sut<R>(f: impl FnOnce() -> R) -> Result<R, Caught> {
    match catch_unwind(AssertUnwindSafe(|| sut(f))) {
        Ok(r) => Ok(r),
        Err(p) => Err(classify(p)),
    }
}

pub fn classify(p: Box<dyn Any + Send>) -> Caught {
    if p.is::<SimFault>() {
        Caught::Fault
    } else if let Some(s) = p.downcast_ref::<&str>() {
        Caught::Panic(s.to_string())
    } else if let Some(s) = p.downcast_ref::<String>() {
        Caught::Panic(s.to_string())
    } else {
        Caught::Panic("(payload of unknown type)".into())
    }
}

pub fn raise_fault() -> ! {
    std::panic::resume_unwind(Box::new(SimFault))
}

pub fn fail(cls: &str, msg: &str) -> ! {
    let mut c = cls.as_bytes().to_vec();
    c.push(0);
    unsafe { rt_fail(1, c.as_ptr(), msg.as_ptr(), msg.len() as u64) }
}

pub fn harness_error(msg: &str) -> ! {
    unsafe { rt_fail(3, b"harness\0".as_ptr(), msg.as_ptr(), msg.len() as u64) }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        harness(|| {
            let s = info.to_string();
            if unsafe { rt_current() } < 0 || std::env::var_os("SIM_PANICS").is_some() {
                eprintln!("panic: {s}");
            }
            unsafe { rt_note_panic(s.as_ptr(), s.len() as u64) }
        })
    }));
}

pub fn yield_now() {
    unsafe { rt_yield() }
}
pub fn block(key: *const u8) {
    unsafe { rt_block(key) }
}
pub fn wake(key: *const u8) {
    unsafe { rt_wake(key) }
}
/// A choice of the environment; 0 is the ordinary one.
pub fn decide(n: usize) -> usize {
    unsafe { rt_decide(n as u32) as usize }
}
pub fn current() -> usize {
    unsafe { rt_current() as usize }
}
/// An operation begins: the step limit counts from here.
pub fn progress() {
    unsafe { rt_progress() }
}
/// In a child process: stops reporting to the parent.
pub fn private(cap: u64) {
    unsafe { rt_private(cap) }
}
pub fn hash(x: u64) {
    unsafe { rt_hash(x) }
}
pub fn spawn(f: extern "C" fn(*mut u8), arg: usize) -> i32 {
    unsafe { rt_spawn(f, arg as *mut u8) }
}
pub fn join(id: i32) {
    unsafe { rt_join(id) }
}
#[derive(Clone, Copy)]
pub struct Hb(u32);
impl Hb {
    pub fn new() -> Hb {
        Hb(unsafe { rt_hb_new() })
    }
    pub fn acquire(self) {
        unsafe { rt_hb_acquire(self.0) }
    }
    pub fn release(self) {
        unsafe { rt_hb_release(self.0) }
    }
}
pub fn first_leak() -> u64 {
    unsafe { rt_first_leak() }
}
pub fn scan(word: u64) -> Vec<u64> {
    let mut v = vec![0u64; 4096];
    let n = unsafe { rt_scan(word, 0, 0, v.as_mut_ptr(), 4096) } as usize;
    v.truncate(n.min(4096));
    v
}
/// The halves of words that hold `half`.
pub fn scan_halves(half: u64) -> Vec<(u64, u32)> {
    let mut v = vec![0u64; 64];
    let n = unsafe { rt_scan_halves(half, v.as_mut_ptr(), 64) } as usize;
    v.truncate(n.min(64));
    v.into_iter().map(|a| (a & !7, if a & 4 != 0 { 32 } else { 0 })).collect()
}
pub fn poke(addr: u64, val: u64) {
    unsafe { rt_poke(addr, val) }
}
pub fn rmws() -> Vec<Rmw> {
    let mut v = vec![Rmw::default(); 64];
    let n = unsafe { rt_rmws(v.as_mut_ptr(), 64) } as usize;
    v.truncate(n);
    v
}
pub fn init() {
    unsafe { rt_init() }
}
pub fn signals() {
    unsafe { rt_signals() }
}
pub fn begin(p: &Params, db: *mut DecBuf, rl: &[Dec], vb: *mut VBuf) {
    unsafe { rt_begin(p, db, rl.as_ptr(), rl.len() as u64, vb) }
}
pub fn stats() -> Stats {
    let mut s = Stats::default();
    unsafe { rt_stats(&mut s) }
    s
}
