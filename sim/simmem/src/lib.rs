//! memcmp/bcmp seen by the whole binary. Comparisons of slices in the code under test compile to
//! these calls, which the instrumentation does not cover, so the simulator interposes them.
#![no_std]
#![no_builtins]
#![allow(suspicious_runtime_symbol_definitions)]

extern "C" {
    fn simrt_range_read(p: *const u8, n: usize);
}

#[inline(always)]
unsafe fn cmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    let mut i = 0;
    while i < n {
        let x = *a.add(i);
        let y = *b.add(i);
        if x != y {
            return x as i32 - y as i32;
        }
        i += 1;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    simrt_range_read(a, n);
    simrt_range_read(b, n);
    cmp(a, b, n)
}

#[no_mangle]
pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    simrt_range_read(a, n);
    simrt_range_read(b, n);
    cmp(a, b, n)
}

/// Referenced from the harness so that the linker keeps this object file.
pub fn link_me() {}
