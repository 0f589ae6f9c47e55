//! The library under test is compiled with a call at every basic block (see wrap.sh): a place where the
//! scheduler may hand the turn to another thread, and a measure of which parts of the library runs reach.
use std::sync::atomic::{AtomicBool, Ordering};

const MAX: usize = 1 << 17;
static mut NONE: [u8; MAX] = [0; MAX];
static mut SEEN: *mut u8 = &raw mut NONE as *mut u8;
static mut COUNT: usize = 0;
static mut PCS: Vec<(usize, usize)> = Vec::new();
/// block calls are points of the scheduler
pub static FINE: AtomicBool = AtomicBool::new(false);

#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if p == stop || *p != 0 {
        return;
    }
    while p < stop {
        COUNT += 1;
        *p = if COUNT < MAX { COUNT as u32 } else { 0 };
        p = p.add(1);
    }
}

#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    *SEEN.add(*guard as usize) = 1;
    if FINE.load(Ordering::Relaxed) {
        crate::simos::sched_point();
    }
}

#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_pcs_init(start: *const usize, stop: *const usize) {
    #[allow(static_mut_refs)]
    PCS.push((start as usize, stop as usize));
}

/// from here on blocks are recorded in memory that forked processes share
pub fn share() {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), MAX, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        if p != libc::MAP_FAILED {
            SEEN = p as *mut u8;
        }
    }
}

/// blocks reached, and blocks there are
pub fn reached() -> (usize, usize) {
    unsafe { ((1..=COUNT.min(MAX - 1)).filter(|k| *SEEN.add(*k) != 0).count(), COUNT) }
}

/// for each block its address in the program file and whether it was reached
pub fn blocks() -> Vec<(usize, bool)> {
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let base = maps.split('-').next().and_then(|s| usize::from_str_radix(s, 16).ok()).unwrap_or(0);
    let mut v = vec![];
    unsafe {
        #[allow(static_mut_refs)]
        let Some((a, b)) = PCS.first().copied() else { return v };
        let n = (b - a) / 16;
        for k in 0..n.min(COUNT) {
            let pc = *((a + k * 16) as *const usize);
            v.push((pc - base, *SEEN.add(k + 1) != 0));
        }
    }
    v
}
