//! Rust view of rt/simrt.c: the simulated scheduler, clock, entropy and memory.
use std::alloc::{GlobalAlloc, Layout};

pub const TRACE_CAP: usize = 60000;

#[repr(C)]
#[derive(Clone, Copy, Default, Debug, PartialEq)]
pub struct Sw {
    pub step: u64,
    pub from: u8,
    pub to: u8,
    pub kind: u8,
    pub pad: u8,
    pub pad2: u32,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct CCfg {
    pub sched_seed: u64,
    pub hash_seed: u64,
    pub pad_seed: u64,
    pub clock_base_ns: u64,
    pub step_budget: u64,
    pub replay: u32,
    pub strategy: u32,
    pub quantum: u32,
    pub static_pm: u32,
    pub pct_points: u32,
    pub pct_span: u32,
    pub clock_jump_pm: u32,
    pub nstall: u32,
    pub stall_tid: [u32; 80],
    pub stall_at: [u64; 80],
    pub nsw: u32,
    pub quarantine: u32,
    pub env_seed: u64,
    pub sw: *const Sw,
}

#[repr(C)]
pub struct Rep {
    pub status: u32,
    pub ntrace: u32,
    pub msg: [u8; 512],
    pub total: u64,
    pub switches: u64,
    pub static_hits: u64,
    pub futex_waits: u64,
    pub futex_wakes: u64,
    pub clock_reads: u64,
    pub clock_jumps: u64,
    pub rand_draws: u64,
    pub stalls: u64,
    pub sleeps: u64,
    pub yields: u64,
    pub allocs: u64,
    pub frees: u64,
    pub threads: u64,
    pub sig: u64,
    pub trace_overflow: u64,
    pub nblocks: u64,
    pub on_waits: u64,
    pub on_sleeps: u64,
    pub on_clock: u64,
    pub on_rand: u64,
    pub env_reads: u64,
    pub env_faked: u64,
    pub opens: u64,
    pub reused: u64,
    pub new_cells: u64,
    pub trace: [Sw; TRACE_CAP],
}
impl Rep {
    pub fn message(&self) -> String {
        let n = self.msg.iter().position(|b| *b == 0).unwrap_or(self.msg.len());
        String::from_utf8_lossy(&self.msg[..n]).into_owned()
    }
}

extern "C" {
    fn sim_alloc(size: u64, align: u64) -> *mut u8;
    fn sim_free(p: *mut u8);
    fn sim_realloc(p: *mut u8, size: u64) -> *mut u8;
    pub fn sim_begin(c: *const CCfg, r: *mut Rep);
    pub fn sim_end();
    fn sim_on();
    pub fn sim_off();
    pub fn sim_budget(n: u64);
    fn sim_peak_reset() -> u64;
    fn sim_my_steps() -> u64;
    fn sim_my_work() -> u64;
    fn sim_my_tid() -> i32;
    pub fn sim_thread_stalled(tid: i32) -> i32;
    fn sim_yield();
    fn sim_live_bytes() -> u64;
    fn sim_clock() -> u64;
    pub fn sim_cov_maps(e: *mut u8, ro: *mut u8, rocap: u64);
    fn sim_n_edges() -> u64;
    fn sim_ro_cells() -> u64;
}

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        sim_alloc(l.size() as u64, l.align() as u64)
    }
    unsafe fn dealloc(&self, p: *mut u8, _l: Layout) {
        sim_free(p)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = sim_alloc(l.size() as u64, l.align() as u64);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if l.align() > 16 {
            let q = sim_alloc(n as u64, l.align() as u64);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                sim_free(p);
            }
            return q;
        }
        sim_realloc(p, n as u64)
    }
}

/// Runs `f` (code under test) with preemption points armed for this thread.
pub fn armed<R>(f: impl FnOnce() -> R) -> R {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            unsafe { sim_off() }
        }
    }
    let _o = Off;
    unsafe { sim_on() };
    f()
}
pub fn my_steps() -> u64 {
    unsafe { sim_my_steps() }
}
/// Instructions (basic blocks) and memory traffic of this thread; only the cost build counts those of std and libc.
pub fn my_work() -> u64 {
    unsafe { sim_my_work() }
}
pub fn my_tid() -> i32 {
    unsafe { sim_my_tid() }
}
pub fn yield_now() {
    unsafe { sim_yield() }
}
pub fn live_bytes() -> u64 {
    unsafe { sim_live_bytes() }
}
pub fn peak_reset() -> u64 {
    unsafe { sim_peak_reset() }
}
pub fn clock() -> u64 {
    unsafe { sim_clock() }
}
pub fn n_edges() -> u64 {
    unsafe { sim_n_edges() }
}
pub fn ro_cells() -> u64 {
    unsafe { sim_ro_cells() }
}
