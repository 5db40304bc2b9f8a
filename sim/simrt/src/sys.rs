//! The few libc entry points used (no libc crate).
#![allow(non_camel_case_types)]
pub type c_int = i32;
pub type c_long = i64;
extern "C" {
    pub fn fork() -> c_int;
    pub fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
    pub fn _exit(code: c_int) -> !;
    pub fn mmap(a: *mut u8, len: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut u8;
    pub fn syscall(n: c_long, ...) -> c_long;
    pub fn sched_setaffinity(pid: c_int, sz: usize, mask: *const u64) -> c_int;
    pub fn sched_getaffinity(pid: c_int, sz: usize, mask: *mut u64) -> c_int;
    pub fn prctl(op: c_int, ...) -> c_int;
    pub fn setrlimit(res: c_int, lim: *const [u64; 2]) -> c_int;
    pub fn alarm(s: u32) -> u32;
    fn signal(sig: c_int, h: usize) -> usize;
    fn clock_gettime(clock: c_int, t: *mut [i64; 2]) -> c_int;
    pub fn kill(pid: c_int, sig: c_int) -> c_int;
    pub static __data_start: u8;
    pub static _end: u8;
}
pub const PROT_RW: c_int = 3;
pub const MAP_SHARED: c_int = 1;
pub const MAP_PRIVATE: c_int = 2;
pub const MAP_ANON: c_int = 0x20;
pub const MAP_NORESERVE: c_int = 0x4000;
pub const MAP_FIXED_NOREPLACE: c_int = 0x100000;

pub fn futex_wait(w: &core::sync::atomic::AtomicU32, v: u32) {
    unsafe {
        syscall(202, w as *const _ as usize, 128usize, v as usize, 0usize, 0usize, 0usize);
    }
}
pub fn futex_wake(w: &core::sync::atomic::AtomicU32) {
    unsafe {
        syscall(202, w as *const _ as usize, 129usize, 1usize, 0usize, 0usize, 0usize);
    }
}
/// CPUs this process may use
pub fn cpus() -> Vec<usize> {
    let mut m = [0u64; 16];
    let n = unsafe { sched_getaffinity(0, 128, m.as_mut_ptr()) };
    if n < 0 {
        return vec![0];
    }
    (0..1024).filter(|i| m[i / 64] >> (i % 64) & 1 == 1).collect()
}
pub fn pin(cpu: usize) {
    let mut m = [0u64; 16];
    m[cpu / 64] |= 1 << (cpu % 64);
    unsafe {
        sched_setaffinity(0, 128, m.as_ptr());
    }
}

static mut LAST_CPU: i64 = 0;
static mut IDLE: u32 = 0;
extern "C" fn tick(_: c_int) {
    unsafe {
        let mut t = [0i64; 2];
        clock_gettime(2, &mut t);
        let now = t[0] * 1_000_000 + t[1] / 1000;
        IDLE = if now - LAST_CPU < 10_000 { IDLE + 1 } else { 0 };
        LAST_CPU = now;
        if IDLE >= 3 {
            signal(14, 0);
            kill(syscall(39) as c_int, 14);
        } else {
            alarm(8);
        }
    }
}
/// Ends this process by SIGALRM when it has stood still for three periods in a row (a real lock nobody will release).
pub fn watch_idle() {
    unsafe {
        LAST_CPU = 0;
        IDLE = 0;
        signal(14, tick as *const () as usize);
        alarm(8);
    }
}
