extern "C" {
    fn sched_setaffinity(pid: i32, len: usize, mask: *const u64) -> i32;
    fn sched_getaffinity(pid: i32, len: usize, mask: *mut u64) -> i32;
}

/// Cores this process may use.
pub fn get() -> Vec<usize> {
    let mut m = [0u64; 16];
    unsafe { sched_getaffinity(0, 128, m.as_mut_ptr()) };
    (0..1024).filter(|i| m[i / 64] >> (i % 64) & 1 == 1).collect()
}

/// Restrict the calling thread.
pub fn set(cores: &[usize]) {
    let mut m = [0u64; 16];
    for &c in cores {
        m[c / 64] |= 1 << (c % 64);
    }
    unsafe { sched_setaffinity(0, 128, m.as_ptr()) };
}
