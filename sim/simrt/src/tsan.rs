//! The ThreadSanitizer runtime interface, implemented by the simulator.
use crate::engine::{sim, ON};

#[inline(always)]
unsafe fn plain(p: *const u8, n: usize, w: bool) {
    if ON {
        ON = false;
        sim().plain(p as usize, n, w);
        ON = true;
    }
}
#[no_mangle]
pub unsafe extern "C" fn simrt_range_read(p: *const u8, n: usize) {
    plain(p, n, false)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_init() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_entry(_: *const u8) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_ignore_thread_end() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_vptr_update(p: *const u8, _v: *const u8) { plain(p, 8, true) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_vptr_read(p: *const u8) { plain(p, 8, false) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_read_range(p: *const u8, n: usize) { plain(p, n, false) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_write_range(p: *const u8, n: usize) { plain(p, n, true) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    plain(s, n, false);
    plain(d, n, true);
    core::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    plain(s, n, false);
    plain(d, n, true);
    core::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    plain(d, n, true);
    core::ptr::write_bytes(d, c as u8, n);
    d
}
macro_rules! at {
    ($e:expr) => {{
        let on = ON;
        ON = false;
        let r = if on { $e } else { None };
        ON = on;
        r
    }};
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_thread_fence(mo: i32) {
    if ON {
        ON = false;
        sim().fence(mo);
        ON = true;
    }
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_signal_fence(_mo: i32) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_read1(p: *const u8) { plain(p, 1, false) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_write1(p: *const u8) { plain(p, 1, true) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_read_write1(p: *const u8) { plain(p, 1, true) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_volatile_read1(p: *const u8) { plain(p, 1, false) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_volatile_write1(p: *const u8) { plain(p, 1, true) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_read2(p: *const u8) { plain(p, 2, false) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_write2(p: *const u8) { plain(p, 2, true) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_read_write2(p: *const u8) { plain(p, 2, true) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_volatile_read2(p: *const u8) { plain(p, 2, false) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_volatile_write2(p: *const u8) { plain(p, 2, true) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_unaligned_read2(p: *const u8) { plain(p, 2, false) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_unaligned_write2(p: *const u8) { plain(p, 2, true) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_unaligned_read_write2(p: *const u8) { plain(p, 2, true) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_unaligned_volatile_read2(p: *const u8) { plain(p, 2, false) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_unaligned_volatile_write2(p: *const u8) { plain(p, 2, true) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_read4(p: *const u8) { plain(p, 4, false) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_write4(p: *const u8) { plain(p, 4, true) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_read_write4(p: *const u8) { plain(p, 4, true) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_volatile_read4(p: *const u8) { plain(p, 4, false) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_volatile_write4(p: *const u8) { plain(p, 4, true) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_unaligned_read4(p: *const u8) { plain(p, 4, false) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_unaligned_write4(p: *const u8) { plain(p, 4, true) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_unaligned_read_write4(p: *const u8) { plain(p, 4, true) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_unaligned_volatile_read4(p: *const u8) { plain(p, 4, false) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_unaligned_volatile_write4(p: *const u8) { plain(p, 4, true) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_read8(p: *const u8) { plain(p, 8, false) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_write8(p: *const u8) { plain(p, 8, true) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_read_write8(p: *const u8) { plain(p, 8, true) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_volatile_read8(p: *const u8) { plain(p, 8, false) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_volatile_write8(p: *const u8) { plain(p, 8, true) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_unaligned_read8(p: *const u8) { plain(p, 8, false) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_unaligned_write8(p: *const u8) { plain(p, 8, true) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_unaligned_read_write8(p: *const u8) { plain(p, 8, true) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_unaligned_volatile_read8(p: *const u8) { plain(p, 8, false) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_unaligned_volatile_write8(p: *const u8) { plain(p, 8, true) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_read16(p: *const u8) { plain(p, 16, false) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_write16(p: *const u8) { plain(p, 16, true) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_read_write16(p: *const u8) { plain(p, 16, true) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_volatile_read16(p: *const u8) { plain(p, 16, false) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_volatile_write16(p: *const u8) { plain(p, 16, true) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_unaligned_read16(p: *const u8) { plain(p, 16, false) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_unaligned_write16(p: *const u8) { plain(p, 16, true) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_unaligned_read_write16(p: *const u8) { plain(p, 16, true) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_unaligned_volatile_read16(p: *const u8) { plain(p, 16, false) }
#[no_mangle]
pub unsafe extern "C" fn __tsan_unaligned_volatile_write16(p: *const u8) { plain(p, 16, true) }

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic8_load(p: *const u8, mo: i32) -> u8 {
    if let Some(v) = at!(Some(sim().at_load(p as usize, 1, mo))) { return v as u8 }
    (*(p as *const core::sync::atomic::AtomicU8)).load(core::sync::atomic::Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic8_store(p: *mut u8, v: u8, mo: i32) {
    if at!({ sim().at_store(p as usize, 1, v as u64, mo); Some(()) }).is_some() { return }
    (*(p as *const core::sync::atomic::AtomicU8)).store(v, core::sync::atomic::Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic8_compare_exchange_val(p: *mut u8, c: u8, n: u8, mo: i32, fmo: i32) -> u8 {
    if let Some(v) = at!(Some(sim().at_rmw(p as usize, 1, mo, fmo, false, |x| if x as u8 == c { Some(n as u64) } else { None }))) { return v as u8 }
    match (*(p as *const core::sync::atomic::AtomicU8)).compare_exchange(c, n, core::sync::atomic::Ordering::SeqCst, core::sync::atomic::Ordering::SeqCst) { Ok(v) => v, Err(v) => v }
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic8_exchange(p: *mut u8, v: u8, mo: i32) -> u8 {
    if let Some(r) = at!(Some(sim().at_rmw(p as usize, 1, mo, mo, false, |x| { let _ = x; Some((v) as u64) }))) { return r as u8 }
    (*(p as *const core::sync::atomic::AtomicU8)).swap(v, core::sync::atomic::Ordering::SeqCst)
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic8_fetch_add(p: *mut u8, v: u8, mo: i32) -> u8 {
    if let Some(r) = at!(Some(sim().at_rmw(p as usize, 1, mo, mo, false, |x| { let _ = x; Some(((x as u8).wrapping_add(v)) as u64) }))) { return r as u8 }
    (*(p as *const core::sync::atomic::AtomicU8)).fetch_add(v, core::sync::atomic::Ordering::SeqCst)
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic8_fetch_sub(p: *mut u8, v: u8, mo: i32) -> u8 {
    if let Some(r) = at!(Some(sim().at_rmw(p as usize, 1, mo, mo, false, |x| { let _ = x; Some(((x as u8).wrapping_sub(v)) as u64) }))) { return r as u8 }
    (*(p as *const core::sync::atomic::AtomicU8)).fetch_sub(v, core::sync::atomic::Ordering::SeqCst)
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic8_fetch_and(p: *mut u8, v: u8, mo: i32) -> u8 {
    if let Some(r) = at!(Some(sim().at_rmw(p as usize, 1, mo, mo, false, |x| { let _ = x; Some(((x as u8) & v) as u64) }))) { return r as u8 }
    (*(p as *const core::sync::atomic::AtomicU8)).fetch_and(v, core::sync::atomic::Ordering::SeqCst)
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic8_fetch_or(p: *mut u8, v: u8, mo: i32) -> u8 {
    if let Some(r) = at!(Some(sim().at_rmw(p as usize, 1, mo, mo, false, |x| { let _ = x; Some(((x as u8) | v) as u64) }))) { return r as u8 }
    (*(p as *const core::sync::atomic::AtomicU8)).fetch_or(v, core::sync::atomic::Ordering::SeqCst)
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic8_fetch_xor(p: *mut u8, v: u8, mo: i32) -> u8 {
    if let Some(r) = at!(Some(sim().at_rmw(p as usize, 1, mo, mo, false, |x| { let _ = x; Some(((x as u8) ^ v) as u64) }))) { return r as u8 }
    (*(p as *const core::sync::atomic::AtomicU8)).fetch_xor(v, core::sync::atomic::Ordering::SeqCst)
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic8_fetch_nand(p: *mut u8, v: u8, mo: i32) -> u8 {
    if let Some(r) = at!(Some(sim().at_rmw(p as usize, 1, mo, mo, false, |x| { let _ = x; Some((!((x as u8) & v)) as u64) }))) { return r as u8 }
    (*(p as *const core::sync::atomic::AtomicU8)).fetch_nand(v, core::sync::atomic::Ordering::SeqCst)
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic16_load(p: *const u16, mo: i32) -> u16 {
    if let Some(v) = at!(Some(sim().at_load(p as usize, 2, mo))) { return v as u16 }
    (*(p as *const core::sync::atomic::AtomicU16)).load(core::sync::atomic::Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic16_store(p: *mut u16, v: u16, mo: i32) {
    if at!({ sim().at_store(p as usize, 2, v as u64, mo); Some(()) }).is_some() { return }
    (*(p as *const core::sync::atomic::AtomicU16)).store(v, core::sync::atomic::Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic16_compare_exchange_val(p: *mut u16, c: u16, n: u16, mo: i32, fmo: i32) -> u16 {
    if let Some(v) = at!(Some(sim().at_rmw(p as usize, 2, mo, fmo, false, |x| if x as u16 == c { Some(n as u64) } else { None }))) { return v as u16 }
    match (*(p as *const core::sync::atomic::AtomicU16)).compare_exchange(c, n, core::sync::atomic::Ordering::SeqCst, core::sync::atomic::Ordering::SeqCst) { Ok(v) => v, Err(v) => v }
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic16_exchange(p: *mut u16, v: u16, mo: i32) -> u16 {
    if let Some(r) = at!(Some(sim().at_rmw(p as usize, 2, mo, mo, false, |x| { let _ = x; Some((v) as u64) }))) { return r as u16 }
    (*(p as *const core::sync::atomic::AtomicU16)).swap(v, core::sync::atomic::Ordering::SeqCst)
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic16_fetch_add(p: *mut u16, v: u16, mo: i32) -> u16 {
    if let Some(r) = at!(Some(sim().at_rmw(p as usize, 2, mo, mo, false, |x| { let _ = x; Some(((x as u16).wrapping_add(v)) as u64) }))) { return r as u16 }
    (*(p as *const core::sync::atomic::AtomicU16)).fetch_add(v, core::sync::atomic::Ordering::SeqCst)
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic16_fetch_sub(p: *mut u16, v: u16, mo: i32) -> u16 {
    if let Some(r) = at!(Some(sim().at_rmw(p as usize, 2, mo, mo, false, |x| { let _ = x; Some(((x as u16).wrapping_sub(v)) as u64) }))) { return r as u16 }
    (*(p as *const core::sync::atomic::AtomicU16)).fetch_sub(v, core::sync::atomic::Ordering::SeqCst)
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic16_fetch_and(p: *mut u16, v: u16, mo: i32) -> u16 {
    if let Some(r) = at!(Some(sim().at_rmw(p as usize, 2, mo, mo, false, |x| { let _ = x; Some(((x as u16) & v) as u64) }))) { return r as u16 }
    (*(p as *const core::sync::atomic::AtomicU16)).fetch_and(v, core::sync::atomic::Ordering::SeqCst)
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic16_fetch_or(p: *mut u16, v: u16, mo: i32) -> u16 {
    if let Some(r) = at!(Some(sim().at_rmw(p as usize, 2, mo, mo, false, |x| { let _ = x; Some(((x as u16) | v) as u64) }))) { return r as u16 }
    (*(p as *const core::sync::atomic::AtomicU16)).fetch_or(v, core::sync::atomic::Ordering::SeqCst)
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic16_fetch_xor(p: *mut u16, v: u16, mo: i32) -> u16 {
    if let Some(r) = at!(Some(sim().at_rmw(p as usize, 2, mo, mo, false, |x| { let _ = x; Some(((x as u16) ^ v) as u64) }))) { return r as u16 }
    (*(p as *const core::sync::atomic::AtomicU16)).fetch_xor(v, core::sync::atomic::Ordering::SeqCst)
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic16_fetch_nand(p: *mut u16, v: u16, mo: i32) -> u16 {
    if let Some(r) = at!(Some(sim().at_rmw(p as usize, 2, mo, mo, false, |x| { let _ = x; Some((!((x as u16) & v)) as u64) }))) { return r as u16 }
    (*(p as *const core::sync::atomic::AtomicU16)).fetch_nand(v, core::sync::atomic::Ordering::SeqCst)
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic32_load(p: *const u32, mo: i32) -> u32 {
    if let Some(v) = at!(Some(sim().at_load(p as usize, 4, mo))) { return v as u32 }
    (*(p as *const core::sync::atomic::AtomicU32)).load(core::sync::atomic::Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic32_store(p: *mut u32, v: u32, mo: i32) {
    if at!({ sim().at_store(p as usize, 4, v as u64, mo); Some(()) }).is_some() { return }
    (*(p as *const core::sync::atomic::AtomicU32)).store(v, core::sync::atomic::Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic32_compare_exchange_val(p: *mut u32, c: u32, n: u32, mo: i32, fmo: i32) -> u32 {
    if let Some(v) = at!(Some(sim().at_rmw(p as usize, 4, mo, fmo, false, |x| if x as u32 == c { Some(n as u64) } else { None }))) { return v as u32 }
    match (*(p as *const core::sync::atomic::AtomicU32)).compare_exchange(c, n, core::sync::atomic::Ordering::SeqCst, core::sync::atomic::Ordering::SeqCst) { Ok(v) => v, Err(v) => v }
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic32_exchange(p: *mut u32, v: u32, mo: i32) -> u32 {
    if let Some(r) = at!(Some(sim().at_rmw(p as usize, 4, mo, mo, false, |x| { let _ = x; Some((v) as u64) }))) { return r as u32 }
    (*(p as *const core::sync::atomic::AtomicU32)).swap(v, core::sync::atomic::Ordering::SeqCst)
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic32_fetch_add(p: *mut u32, v: u32, mo: i32) -> u32 {
    if let Some(r) = at!(Some(sim().at_rmw(p as usize, 4, mo, mo, false, |x| { let _ = x; Some(((x as u32).wrapping_add(v)) as u64) }))) { return r as u32 }
    (*(p as *const core::sync::atomic::AtomicU32)).fetch_add(v, core::sync::atomic::Ordering::SeqCst)
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic32_fetch_sub(p: *mut u32, v: u32, mo: i32) -> u32 {
    if let Some(r) = at!(Some(sim().at_rmw(p as usize, 4, mo, mo, false, |x| { let _ = x; Some(((x as u32).wrapping_sub(v)) as u64) }))) { return r as u32 }
    (*(p as *const core::sync::atomic::AtomicU32)).fetch_sub(v, core::sync::atomic::Ordering::SeqCst)
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic32_fetch_and(p: *mut u32, v: u32, mo: i32) -> u32 {
    if let Some(r) = at!(Some(sim().at_rmw(p as usize, 4, mo, mo, false, |x| { let _ = x; Some(((x as u32) & v) as u64) }))) { return r as u32 }
    (*(p as *const core::sync::atomic::AtomicU32)).fetch_and(v, core::sync::atomic::Ordering::SeqCst)
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic32_fetch_or(p: *mut u32, v: u32, mo: i32) -> u32 {
    if let Some(r) = at!(Some(sim().at_rmw(p as usize, 4, mo, mo, false, |x| { let _ = x; Some(((x as u32) | v) as u64) }))) { return r as u32 }
    (*(p as *const core::sync::atomic::AtomicU32)).fetch_or(v, core::sync::atomic::Ordering::SeqCst)
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic32_fetch_xor(p: *mut u32, v: u32, mo: i32) -> u32 {
    if let Some(r) = at!(Some(sim().at_rmw(p as usize, 4, mo, mo, false, |x| { let _ = x; Some(((x as u32) ^ v) as u64) }))) { return r as u32 }
    (*(p as *const core::sync::atomic::AtomicU32)).fetch_xor(v, core::sync::atomic::Ordering::SeqCst)
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic32_fetch_nand(p: *mut u32, v: u32, mo: i32) -> u32 {
    if let Some(r) = at!(Some(sim().at_rmw(p as usize, 4, mo, mo, false, |x| { let _ = x; Some((!((x as u32) & v)) as u64) }))) { return r as u32 }
    (*(p as *const core::sync::atomic::AtomicU32)).fetch_nand(v, core::sync::atomic::Ordering::SeqCst)
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic64_load(p: *const u64, mo: i32) -> u64 {
    if let Some(v) = at!(Some(sim().at_load(p as usize, 8, mo))) { return v as u64 }
    (*(p as *const core::sync::atomic::AtomicU64)).load(core::sync::atomic::Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic64_store(p: *mut u64, v: u64, mo: i32) {
    if at!({ sim().at_store(p as usize, 8, v as u64, mo); Some(()) }).is_some() { return }
    (*(p as *const core::sync::atomic::AtomicU64)).store(v, core::sync::atomic::Ordering::SeqCst)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic64_compare_exchange_val(p: *mut u64, c: u64, n: u64, mo: i32, fmo: i32) -> u64 {
    if let Some(v) = at!(Some(sim().at_rmw(p as usize, 8, mo, fmo, false, |x| if x as u64 == c { Some(n as u64) } else { None }))) { return v as u64 }
    match (*(p as *const core::sync::atomic::AtomicU64)).compare_exchange(c, n, core::sync::atomic::Ordering::SeqCst, core::sync::atomic::Ordering::SeqCst) { Ok(v) => v, Err(v) => v }
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic64_exchange(p: *mut u64, v: u64, mo: i32) -> u64 {
    if let Some(r) = at!(Some(sim().at_rmw(p as usize, 8, mo, mo, false, |x| { let _ = x; Some((v) as u64) }))) { return r as u64 }
    (*(p as *const core::sync::atomic::AtomicU64)).swap(v, core::sync::atomic::Ordering::SeqCst)
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic64_fetch_add(p: *mut u64, v: u64, mo: i32) -> u64 {
    if let Some(r) = at!(Some(sim().at_rmw(p as usize, 8, mo, mo, false, |x| { let _ = x; Some(((x as u64).wrapping_add(v)) as u64) }))) { return r as u64 }
    (*(p as *const core::sync::atomic::AtomicU64)).fetch_add(v, core::sync::atomic::Ordering::SeqCst)
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic64_fetch_sub(p: *mut u64, v: u64, mo: i32) -> u64 {
    if let Some(r) = at!(Some(sim().at_rmw(p as usize, 8, mo, mo, false, |x| { let _ = x; Some(((x as u64).wrapping_sub(v)) as u64) }))) { return r as u64 }
    (*(p as *const core::sync::atomic::AtomicU64)).fetch_sub(v, core::sync::atomic::Ordering::SeqCst)
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic64_fetch_and(p: *mut u64, v: u64, mo: i32) -> u64 {
    if let Some(r) = at!(Some(sim().at_rmw(p as usize, 8, mo, mo, false, |x| { let _ = x; Some(((x as u64) & v) as u64) }))) { return r as u64 }
    (*(p as *const core::sync::atomic::AtomicU64)).fetch_and(v, core::sync::atomic::Ordering::SeqCst)
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic64_fetch_or(p: *mut u64, v: u64, mo: i32) -> u64 {
    if let Some(r) = at!(Some(sim().at_rmw(p as usize, 8, mo, mo, false, |x| { let _ = x; Some(((x as u64) | v) as u64) }))) { return r as u64 }
    (*(p as *const core::sync::atomic::AtomicU64)).fetch_or(v, core::sync::atomic::Ordering::SeqCst)
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic64_fetch_xor(p: *mut u64, v: u64, mo: i32) -> u64 {
    if let Some(r) = at!(Some(sim().at_rmw(p as usize, 8, mo, mo, false, |x| { let _ = x; Some(((x as u64) ^ v) as u64) }))) { return r as u64 }
    (*(p as *const core::sync::atomic::AtomicU64)).fetch_xor(v, core::sync::atomic::Ordering::SeqCst)
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic64_fetch_nand(p: *mut u64, v: u64, mo: i32) -> u64 {
    if let Some(r) = at!(Some(sim().at_rmw(p as usize, 8, mo, mo, false, |x| { let _ = x; Some((!((x as u64) & v)) as u64) }))) { return r as u64 }
    (*(p as *const core::sync::atomic::AtomicU64)).fetch_nand(v, core::sync::atomic::Ordering::SeqCst)
}
