//! The processor time of this thread, which load on the machine does not add to.

pub fn cpu_ns() -> u64 {
    extern "C" {
        fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32;
    }
    let mut ts = [0; 2];
    // SAFETY: the call fills in what it is given, 3 being this thread's clock
    unsafe { clock_gettime(3, &mut ts) };
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}

/// Seconds.
pub fn cpu() -> f64 {
    cpu_ns() as f64 * 1e-9
}
