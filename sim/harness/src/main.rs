#![allow(clippy::all)]
mod interner;
#[cfg(feature = "list")]
mod list;
mod bigint;
mod refnum;
mod random;
mod format;
mod compounds;
mod static_iter;

use interner::*;
#[cfg(feature = "list")]
use list::*;
#[cfg(not(feature = "list"))]
use no_list::*;
use bigint::*;
use simrt::engine::SimAlloc;
use simrt::driver::*;

#[global_allocator]
static A: SimAlloc = SimAlloc;

/// When the private list no longer has the interface its scenario uses, all other scenarios still run
#[cfg(not(feature = "list"))]
mod no_list {
    pub use crate::interner::InternerScen as ListScen;
    pub const LM_FAULTS: i64 = 0;
}

fn main() {
    let scens: Vec<Box<dyn Scenario>> = vec![Box::new(InternerScen), Box::new(ListScen), Box::new(BigScen), Box::new(static_iter::IterScen), Box::new(compounds::CompScen), Box::new(format::FmtScen), Box::new(random::RandScen)];
    let part = |scen: usize, profile: i64, faults: u32, weight: u64, spw: u64| Part { scen, profile, faults, weight, spw };
    let mk = |id: &'static str, parts, quick, thorough| Prop { id, parts, quick, thorough, level: "exploration", rule: rule(id) };
    let list = |p: Prop| if cfg!(feature = "list") { p } else { Prop { parts: p.parts.into_iter().filter(|p| p.scen != 1).collect(), ..p } };
    let s = F_STALE;
    let props = vec![
        mk("C01", vec![part(0, 0, s | F_STALL, 1, 8)], 200_000, 3_000_000),
        mk("C02", vec![part(0, M_COUNT | M_REUSE, s | F_STALL, 1, 8)], 80_000, 3_000_000),
        mk("C03", vec![part(0, M_CANON, s | F_STALL, 1, 8)], 200_000, 3_000_000),
        mk("C04", vec![part(1, 0, s | F_STALL, 3, 8), part(1, LM_FAULTS, s | F_ALLOC, 1, 8)], 300_000, 3_000_000),
        mk("C05", vec![part(0, M_DROPS, s | F_STALL | F_PANIC, 1, 8)], 220_000, 3_000_000),
        mk("C06", vec![part(0, 0, s | F_STALL, 2, 4), part(1, 0, s | F_STALL, 1, 4), part(2, 0, s | F_STALL, 1, 4)], 200_000, 3_000_000),
        mk("C07", vec![part(2, 0, s | F_STALL, 1, 8)], 400_000, 3_000_000),
        mk("C08", vec![part(2, BM_ORACLE, s | F_STALL, 2, 8), part(2, BM_ORACLE | BM_COMPOUND, s, 1, 8)], 300_000, 3_000_000),
        mk("C09", vec![part(2, BM_LEAK, s | F_STALL, 1, 8)], 60_000, 3_000_000),
        mk("C10", vec![
            part(0, M_COUNT | M_REUSE | M_DROPS | M_FAULTS, s | F_PANIC | F_ALLOC, 3, 8),
            part(1, LM_FAULTS, s | F_ALLOC, 1, 8),
            part(2, BM_FAULTS | BM_LEAK, s | F_ALLOC, 2, 8),
        ], 90_000, 3_000_000),
        mk("C11", vec![part(3, 0, F_SEQ | F_PANIC, 1, 8)], 400_000, 3_000_000),
        mk("C12", vec![part(4, 0, F_SEQ | F_PANIC | F_ALLOC, 1, 8)], 600_000, 3_000_000),
        mk("C13", vec![part(5, 0, s | F_IO | F_STALL, 3, 8), part(5, format::FM_ALLOC, s | F_IO | F_ALLOC, 1, 8)], 45_000, 3_000_000),
        mk("C14", vec![part(6, 0, F_SEQ | F_PANIC, 1, 8)], 60_000, 1_000_000),
    ];
    let props: Vec<Prop> = props.into_iter().map(list).collect();
    Driver { scens, props }.main();
}

fn rule(id: &str) -> &'static str {
    match id {
        "C01" => "Each run: 2-4 threads intern, read, borrow, acquire, release and hand over references on one store (prefilled 0-64 values, some dead) under one seeded schedule; every read of a held reference and every live borrow is compared with the value interned.",
        "C02" => "Each run: as C01; at quiescence every reported count is compared with the ledger of successful calls, absent values must read absent, calls may not grow the store while free slots exist, surplus releases change nothing, and the store must accept as many fresh values as it has dead slots before it allocates.",
        "C03" => "Each run: as C01 with few keys; ids of referenced values must differ for different values, and interning an already referenced value must return an id already denoting it.",
        "C04" => "Each run: 2-4 threads append, index, iterate, resume iterators and query the length of one list, some with failing allocations; all observations must fit one common order in which each append sits once, where it was reported.",
        "C05" => "Each run: as C01 with failing equality and conversion callbacks, or with threads that release ids they do not hold; every stored value must be destroyed exactly once and not while referenced, every shared access is checked for data races and use of freed memory, and the heap must be back to its start.",
        "C06" => "Each run: threads of C01, C04 or C07 with one or two of them suspended for good inside an operation; all others must complete every operation within the step bound, and no run may stop making progress.",
        "C07" => "Each run: 2-4 threads create, clone, send, combine, print and drop big integers that share the global store; every held number is re-read and compared with what it was created as.",
        "C08" => "Each run: one generated message-passing program over big integers, alone and in vectors, matrices, complex, rational and fixed-point numbers, runs under a seeded schedule after a seeded process history; its observations must equal those of the same program run alone in a fresh process.",
        "C09" => "Each run: as C07; after all numbers are dropped the number of fresh values that fit before the store grows must be a multiple of its growth step, i.e. no slot is lost.",
        "C10" => "Each run: operations on the interner, the list and big integers with a panicking callback or a failing allocation at seeded points, under seeded schedules; afterwards all values, counts, ids, elements and free slots must be as if the failed calls had not been made.",
        "C11" => "Each run: 1-4 adapter chains (23 sources, 16 consumers, lengths 0-9) over elements that record their destruction, with seeded callbacks that stop or panic; callbacks must see each element once, in order, and every element must be destroyed exactly once.",
        "C12" => "Each run: 1-3 vector, matrix or complex operations over elements whose every operator can panic, refuse or fail to allocate; every element must be in exactly one container or destroyed, and interrupted in-place operations must leave each position old or new.",
        "C13" => "Each run: 1-3 threads format shared and own numbers into sinks that fail, write short or panic at seeded writes, next to churn of equal numbers; result, prefix, silence after failure, values and free slots are checked.",
        "C14" => "Each run: 1-2 ways of sampling or filling one of 22 widths from 64 controlled generator streams plus repeats over other previous content, later positions and constant streams, then with the generator failing at seeded draws; values must repeat, every bit must vary, no byte may be a copy, failures must reach the caller.",
        _ => "",
    }
}
