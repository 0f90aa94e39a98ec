//! Bindings to the simulation runtime (rt.c) and the in-run allocator.
#![allow(dead_code)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::ffi::CString;

pub const MAXDEV: usize = 200000;
pub const NKIND: usize = 16;
pub const NIO: usize = 11;
pub const MAXFAULT: usize = 64;

pub const KINDS: [&str; NKIND] = [
    "atomic-load", "atomic-store", "atomic-rmw", "atomic-cas", "futex", "spawn", "join", "yield", "file-io", "clock", "callback", "op", "thread-exit", "fence", "-", "-",
];
pub const IOCLS: [&str; NIO] = ["open", "read", "write", "mmap", "seek", "close", "stat", "rename", "clock", "sync", "write-open"];
pub const ACTS: [&str; 6] = ["none", "errno", "short", "crash", "jump", "disk-full"];

pub const K_USER: i32 = 10;
pub const K_OP: i32 = 11;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Dev {
    pub tid: u32,
    pub to: u32,
    pub lidx: u64,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct CFault {
    pub cls: u32,
    pub action: u32,
    pub nth: u64,
    pub arg: i64,
    pub persistent: u32,
    pub fired: u32,
}

#[repr(C)]
pub struct Shared {
    pub sched_seed: u64,
    pub entropy_seed: u64,
    pub policy: u32,
    pub prob: [u32; NKIND],
    pub pct_depth: u32,
    pub pct_est: u32,
    pub burst_mean: u32,
    pub stall_n: u32,
    pub stall_est: u32,
    pub stall_len: u32,
    /// hot_mod, hot_cls, hot_pick, hot_prob, hot_len
    pub hot: [u32; 5],
    pub max_steps: u64,
    pub tick_ns: u64,
    pub nfault: u32,
    pub fault: [CFault; MAXFAULT],
    pub disk_budget: i64,
    pub entropy_same: u32,
    pub scratch: [u8; 256],
    pub ndev_in: u32,
    pub outcome: u32,
    pub cls: [u8; 160],
    pub msg: [u8; 8192],
    pub steps: u64,
    pub switches: u64,
    pub hash: u64,
    pub ihash: u64,
    pub now_ns: u64,
    pub nthreads: u32,
    pub max_runnable: u32,
    pub ndev_out: u32,
    pub dev_overflow: u32,
    pub kinds: [u64; NKIND],
    pub ioc: [u64; NIO],
    pub fired: [[u64; 6]; NIO],
    pub stalls: u64,
    pub clock_jumps: u64,
    pub full_hits: u64,
    pub elsewhere: u64,
    pub probes: [u64; 64],
    pub live_bytes: u64,
    pub live_allocs: u64,
    pub peak_bytes: u64,
    pub total_allocs: u64,
    pub note_len: u32,
    pub note: [u8; 65536],
    pub panicmsg: [u8; 2048],
    pub trace_len: u32,
    pub trace: [u8; 262144],
    pub trace_on: u32,
    pub dev_in: [Dev; MAXDEV],
    pub dev_out: [Dev; MAXDEV],
}

extern "C" {
    fn rt_shared() -> *mut Shared;
    fn rt_shared_size() -> usize;
    fn rt_fail(cls: *const i8, msg: *const i8) -> !;
    fn rt_harness_error(msg: *const i8) -> !;
    fn rt_point(kind: i32);
    fn rt_quiet(d: i32);
    fn rt_in_sim() -> i32;
    fn rt_tid() -> i32;
    fn rt_step() -> u64;
    fn rt_now() -> u64;
    fn rt_label(s: *const i8);
    fn rt_probe(i: i32);
    fn rt_alive() -> i32;
    fn rt_io_arm(on: i32);
    fn rt_crashed_reset();
    fn rt_crashed() -> i32;
    fn rt_disk_budget(b: i64);
    fn rt_cwd_scratch(on: i32);
    fn rt_begin();
    fn rt_end() -> !;
    fn rt_arena_init() -> i32;
    fn rt_arena_owns(p: *mut u8) -> i32;
    fn rt_arena_alloc(n: usize, al: usize) -> *mut u8;
    fn rt_arena_free(p: *mut u8, n: usize);
}

fn cs(s: &str) -> CString {
    CString::new(s.replace('\0', "\\0")).unwrap()
}

pub fn shared() -> &'static mut Shared {
    unsafe {
        let p = rt_shared();
        assert!(!p.is_null());
        assert_eq!(rt_shared_size(), std::mem::size_of::<Shared>(), "shared layout");
        &mut *p
    }
}
pub fn fail(cls: &str, msg: &str) -> ! {
    unsafe {
        rt_quiet(1);
        rt_fail(cs(cls).as_ptr(), cs(msg).as_ptr())
    }
}
pub fn harness_error(msg: &str) -> ! {
    unsafe {
        rt_quiet(1);
        rt_harness_error(cs(msg).as_ptr())
    }
}
pub fn point(k: i32) {
    unsafe { rt_point(k) }
}
pub fn in_sim() -> bool {
    unsafe { rt_in_sim() != 0 }
}
pub fn tid() -> i32 {
    unsafe { rt_tid() }
}
/// global event sequence number of the simulation
pub fn step() -> u64 {
    unsafe { rt_step() }
}
pub fn label(s: &str) {
    let _q = Quiet::new();
    unsafe { rt_label(cs(s).as_ptr()) }
}
pub fn probe(i: usize) {
    unsafe { rt_probe(i as i32) }
}
/// true on a worker of the (real) rayon pool
pub fn on_pool() -> bool {
    quiet(|| rayon::current_thread_index().is_some())
}
pub fn alive() -> i32 {
    unsafe { rt_alive() }
}
pub fn io_arm(on: bool) {
    unsafe { rt_io_arm(on as i32) }
}
pub fn crashed() -> bool {
    unsafe { rt_crashed() != 0 }
}
pub fn crashed_reset() {
    unsafe { rt_crashed_reset() }
}
pub fn disk_budget(b: i64) {
    unsafe { rt_disk_budget(b) }
}
/// chdir into the scratch directory; relative paths are then simulated too
pub fn enter_scratch() {
    let d = bstr(&shared().scratch);
    std::env::set_current_dir(&d).expect("chdir");
    unsafe { rt_cwd_scratch(1) }
}
pub fn begin() {
    unsafe { rt_begin() }
}
pub fn end() -> ! {
    unsafe { rt_end() }
}
pub fn arena_init() {
    if unsafe { rt_arena_init() } != 0 {
        eprintln!("cannot map the simulation arena");
        std::process::exit(2);
    }
}

/// while alive, nothing this thread does is a scheduling or fault point
pub struct Quiet;
impl Quiet {
    pub fn new() -> Quiet {
        unsafe { rt_quiet(1) };
        Quiet
    }
}
impl Drop for Quiet {
    fn drop(&mut self) {
        unsafe { rt_quiet(-1) };
    }
}
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let _q = Quiet::new();
    f()
}

/// In-run allocations come from a fixed-address arena, so heap addresses (and whatever hashes
/// them) are a pure function of the run; everything else uses the system allocator.
pub struct SimAlloc;
static mut MEM_LIMIT: u64 = 0;
static mut MEM_WHAT: &str = "";
/// from now on the heap in use may grow by so many bytes (negative: without limit)
pub fn mem_limit(what: &'static str, extra: i64) {
    unsafe {
        MEM_WHAT = what;
        MEM_LIMIT = if extra < 0 { 0 } else { shared().live_bytes + extra as u64 };
    }
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if rt_in_sim() != 0 {
            if MEM_LIMIT > 0 && shared().live_bytes + l.size() as u64 > MEM_LIMIT {
                let (limit, live) = (MEM_LIMIT, shared().live_bytes);
                MEM_LIMIT = 0;
                fail("memory-limit", &format!("{}: an allocation of {} bytes with {live} in use exceeds the limit of {limit} bytes", MEM_WHAT, l.size()));
            }
            let p = rt_arena_alloc(l.size(), l.align());
            if !p.is_null() {
                return p;
            }
            rt_harness_error(c"simulation arena exhausted".as_ptr() as *const i8)
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if rt_arena_owns(p) != 0 {
            // memory released by a thread that has left the run is not recycled
            if rt_in_sim() != 0 {
                rt_arena_free(p, l.size())
            }
        } else {
            System.dealloc(p, l)
        }
    }
}
#[global_allocator]
static A: SimAlloc = SimAlloc;

pub fn bstr(b: &[u8]) -> String {
    let n = b.iter().position(|&c| c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}
pub fn set_bytes(dst: &mut [u8], s: &str) {
    let b = s.as_bytes();
    let n = b.len().min(dst.len() - 1);
    dst[..n].copy_from_slice(&b[..n]);
    dst[n] = 0;
}
