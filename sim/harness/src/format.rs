//! Formatting into sinks that fail, while other threads use the shared store.
use crate::bigint::free_slots;
use core::fmt::{self, Write as _};
use numeric_compounds::matrix::{DynMatrix, Matrix};
use numeric_compounds::vector::Vector;
use numeric_ints::{BigInt, I, U};
use numeric_reals::fixed::Fixed;
use numeric_reals::rat::Rat;
use numeric_traits::identity::One;
use simrt::driver::{Op, Scenario, Work};
use simrt::*;

enum Val {
    Big(BigInt),
    U4(U<4>),
    U8(U<8>),
    U3(U<3>),
    I4(I<4>),
    Rat(Rat<i64>),
    RatB(Rat<BigInt>),
    Fix(Fixed<i64, 8>),
    FixB(Fixed<BigInt, 8>),
    Vec(Vector<BigInt, 3>),
    Mat(Matrix<BigInt, 2, 2>),
    Dyn(DynMatrix<BigInt>),
}
const NSPEC: usize = 12;
impl Val {
    /// Render with one of the type's formats; false: the type has no such format
    fn put(&self, w: &mut dyn fmt::Write, spec: usize) -> Option<fmt::Result> {
        macro_rules! dbg {
            ($x:expr) => {
                match spec {
                    1 => Some(write!(w, "{:?}", $x)),
                    6 => Some(write!(w, "{:#?}", $x)),
                    7 => Some(write!(w, "{:>30?}", $x)),
                    _ => None,
                }
            };
        }
        match self {
            Val::Big(x) => Some(match spec {
                0 => write!(w, "{x}"),
                1 => write!(w, "{x:?}"),
                2 => write!(w, "{x:b}"),
                3 => write!(w, "{x:x}"),
                4 => write!(w, "{x:X}"),
                5 => write!(w, "value {x} and again {x:b}"),
                6 => write!(w, "{x:#?}"),
                7 => write!(w, "{x:>50}|"),
                8 => write!(w, "{x:#x}"),
                9 => write!(w, "{x:#b}"),
                10 => write!(w, "{x:+}"),
                _ => write!(w, "{x:034X}."),
            }),
            Val::U4(x) => match spec {
                0 => Some(write!(w, "{x}")),
                8 => Some(write!(w, "{x:>30}")),
                _ => dbg!(x),
            },
            Val::U8(x) => match spec {
                0 => Some(write!(w, "{x}")),
                8 => Some(write!(w, "{x:>30}")),
                _ => dbg!(x),
            },
            Val::U3(x) => match spec {
                0 => Some(write!(w, "{x}")),
                _ => dbg!(x),
            },
            Val::I4(x) => dbg!(x),
            Val::Rat(x) => dbg!(x),
            Val::RatB(x) => dbg!(x),
            Val::Fix(x) => match spec {
                2 => Some(write!(w, "{x:b}")),
                _ => dbg!(x),
            },
            Val::FixB(x) => match spec {
                2 => Some(write!(w, "{x:b}")),
                _ => None,
            },
            Val::Vec(x) => dbg!(x),
            Val::Mat(x) => dbg!(x),
            Val::Dyn(x) => dbg!(x),
        }
    }
}

/// Magnitudes from inline to several limbs
fn num(k: i64) -> i128 {
    match k % 10 {
        0 => 0,
        1 => 7,
        2 => 12345,
        3 => -98765,
        4 => 1 << 62,
        5 => (1 << 63) + 11,
        6 => -(1i128 << 66),
        7 => (1 << 70) + 5,
        8 => u64::MAX as i128,
        _ => (3 << 100) + 17,
    }
}
fn big(k: i64) -> BigInt {
    BigInt::from(num(k))
}
fn make(kind: i64, k: i64) -> Val {
    match kind % 16 {
        0 | 1 | 2 | 3 => Val::Big(big(k)),
        4 => Val::U4(U::<4>::from_u32((num(k).unsigned_abs() as u32) % 100_000)),
        5 => Val::U8(U::<8>::from_u64(num(k).unsigned_abs() as u64)),
        6 => Val::I4(<I<4> as One>::one()),
        7 => Val::Rat(unsafe { Rat::new_unchecked(num(k) as i64 >> 3, 5) }),
        8 => Val::RatB(unsafe { Rat::new_unchecked(big(k), big(k + 3)) }),
        9 => Val::Fix(Fixed::from_raw(((num(k) as i64) & 0xFF_FFFF) + 3)),
        10 => Val::FixB(Fixed::from_raw(big(k % 3))),
        11 => Val::Vec(Vector::new([big(k), big(k + 1), big(k + 5)])),
        12 => Val::Mat(Matrix::new([[big(k), big(k + 2)], [big(k + 4), big(k)]])),
        13 => Val::U3(U::from_le_bytes([num(k) as u8, (num(k) >> 8) as u8, (num(k) >> 60) as u8])),
        // several limbs
        14 => Val::Big(big(k) * big(k + 4)),
        _ => Val::Dyn(DynMatrix::from([[big(k), big(k + 7)]])),
    }
}

/// Accepts everything; its memory is outside the simulation
#[derive(Default)]
struct Text(String);
impl fmt::Write for Text {
    fn write_str(&mut self, x: &str) -> fmt::Result {
        rt(|| self.0.push_str(x));
        Ok(())
    }
}
/// Can fail at every write
struct Sink {
    got: String,
    failed: bool,
    after: u32,
    mode: i64,
}
impl fmt::Write for Sink {
    fn write_str(&mut self, x: &str) -> fmt::Result {
        yield_point();
        if self.failed {
            self.after += 1;
            rt(|| self.got.push_str(x));
            return Err(fmt::Error);
        }
        if io_fault("write") {
            self.failed = true;
            if self.mode & 1 == 1 {
                // short write
                rt(|| {
                    let n = x.len() / 2;
                    if x.is_char_boundary(n) {
                        self.got.push_str(&x[..n]);
                    }
                });
            }
            if self.mode & 6 == 6 {
                // a sink that panics instead
                std::panic::resume_unwind(Box::new(Injected));
            }
            return Err(fmt::Error);
        }
        rt(|| self.got.push_str(x));
        Ok(())
    }
}

struct Item {
    v: Val,
    /// undisturbed renderings; None: no such format, or rendering panics by itself
    full: [Option<String>; NSPEC],
}
fn undisturbed(v: &Val, spec: usize) -> Option<String> {
    let mut t = rt(Text::default);
    match op(|| format!("undisturbed rendering {spec}"), || v.put(&mut t, spec)) {
        Ok(Some(Ok(()))) => Some(t.0),
        Ok(Some(Err(_))) => fail("error-invented", &format!("rendering {spec} reported an error although its sink accepted everything")),
        Ok(None) => None,
        Err(e) => {
            rt(|| drop((e, t)));
            None
        }
    }
}
fn intact(it: &Item, how: &str) {
    for spec in [0, 1, 2] {
        if let Some(w) = &it.full[spec] {
            match undisturbed(&it.v, spec) {
                Some(g) if g == *w => rt(|| drop(g)),
                g => fail("value-changed", &format!("{how}: a number rendered {w} now renders {g:?}")),
            }
        }
    }
}

pub const FM_ALLOC: i64 = 1;
const FM_LEAK: i64 = 2;
struct Local {
    mask: i64,
    items: &'static [Item],
    own: Vec<Item>,
}
/// The renderings this run uses
static mut SPECS: u32 = 0;
impl Local {
    fn format(&self, it: &Item, spec: usize, mode: i64) {
        let Some(want) = &it.full[spec] else { return };
        let mut s = rt(|| Sink { got: String::new(), failed: false, after: 0, mode });
        let name = || format!("format as {spec} ({want})");
        let f = || it.v.put(&mut s, spec);
        let r = if self.mask & FM_ALLOC != 0 { op_alloc_faults(name, f) } else { op(name, f) };
        if s.after > 0 {
            fail("written-after-failure", &format!("formatting {want} wrote again after its sink had failed"));
        }
        if !want.starts_with(&s.got) {
            fail("not-a-prefix", &format!("the sink got {:?}, which is no prefix of {want:?}", s.got));
        }
        match r {
            Ok(Some(Ok(()))) => {
                if s.failed {
                    fail("error-swallowed", &format!("formatting {want} reported success although its sink failed after {:?}", s.got));
                }
                if s.got != *want {
                    fail("wrong-rendering", &format!("formatting gave {:?}, undisturbed it gives {want:?}", s.got));
                }
                probe(0);
            }
            Ok(Some(Err(_))) => {
                if !s.failed {
                    fail("error-invented", &format!("formatting {want} reported an error although its sink did not fail"));
                }
                probe(1);
                intact(it, "after a failed write");
            }
            Ok(None) => {}
            Err(Stop::Panic(m)) => fail("unexpected-panic", &format!("formatting {want} panicked: {m}")),
            Err(Stop::Injected) => {
                probe(2);
                intact(it, "after the sink panicked");
            }
            Err(Stop::NoMem) => {
                probe(3);
                intact(it, "after an allocation failure");
            }
        }
        rt(|| drop(s));
    }
    fn make(kind: i64, k: i64) -> Item {
        match op(|| format!("make {kind} {k}"), || make(kind, k)) {
            Ok(v) => {
                let mut it = Item { v, full: [const { None }; NSPEC] };
                // only what this run renders, and those that recognise the value
                let used = unsafe { SPECS };
                for s in (0..NSPEC).filter(|s| used >> s & 1 == 1) {
                    it.full[s] = undisturbed(&it.v, s);
                }
                it
            }
            Err(e) => fail("unexpected-panic", &format!("creating a number panicked: {e:?}")),
        }
    }
    fn drop_item(it: Item) {
        let Item { v, full } = it;
        rt(|| drop(full));
        if let Err(e) = op(|| "drop".into(), || drop(v)) {
            fail("unexpected-panic", &format!("dropping a number panicked: {e:?}"));
        }
    }
    fn step(&mut self, o: &Op) {
        let n = self.items.len();
        match o[0] {
            0 | 1 => {
                let i = o[1] as usize % (n + self.own.len()).max(1);
                if i < n {
                    self.format(&self.items[i], o[2] as usize, o[3]);
                } else if let Some(it) = self.own.get(i - n) {
                    self.format(it, o[2] as usize, o[3]);
                }
            }
            2 => {
                let it = Self::make(o[1], o[2]);
                rt(|| self.own.push(it));
            }
            3 => {
                if let Some(it) = rt(|| self.own.pop()) {
                    Self::drop_item(it);
                }
            }
            _ => {
                // churn: numbers equal to those being formatted come and go
                let k = o[1];
                let r = op(|| format!("churn {k}"), || {
                    let a = big(k);
                    let b = a.clone();
                    drop(a);
                    b == big(k)
                });
                match r {
                    Ok(true) => {}
                    Ok(false) => fail("value-changed", "equal numbers compare different"),
                    Err(e) => fail("unexpected-panic", &format!("{e:?}")),
                }
            }
        }
    }
}

pub struct FmtScen;
impl Scenario for FmtScen {
    fn name(&self) -> &'static str {
        "formatting"
    }
    fn real(&self) -> &'static str {
        "formatting of BigInt, U, I, Rat, Fixed, Vector, Matrix, DynMatrix; the global store (instrumented build of the working tree)"
    }
    fn stub(&self) -> &'static str {
        "output sink; OS scheduler, memory model, allocator"
    }
    fn probes(&self) -> &'static [&'static str] {
        &["formatted_completely", "sink_reported_error", "sink_panicked", "allocation_failed", "leak_judged"]
    }
    fn gen(&self, r: &mut Rng, profile: i64) -> Work {
        let nt = r.pick(&[1usize, 2, 2, 3]);
        let len = r.range(1, 4);
        let base = r.range(0, 9);
        let spread = r.pick(&[0i64, 1, 9]);
        let mut params = vec![profile | if r.chance(0.3) { FM_LEAK } else { 0 }, base];
        let kind = r.range(0, 15);
        params.push(kind);
        if r.chance(0.5) {
            // often of the same kind, but another number
            params.push(if r.chance(0.5) { kind + 16 * r.range(1, 9) } else { r.range(0, 15) });
        }
        let threads = (0..nt)
            .map(|_| {
                (0..len)
                    .map(|_| {
                        let c = r.pick(&[0i64, 0, 0, 0, 2, 3, 4]);
                        match c {
                            0 => [0, r.range(0, 5), r.pick(&[0, 1, 1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]), r.range(0, 7)],
                            2 => [2, r.range(0, 15), base + r.range(0, spread), 0],
                            _ => [c, base + r.range(0, spread), 0, 0],
                        }
                    })
                    .collect()
            })
            .collect();
        Work { params, threads }
    }
    fn show(&self, _w: &Work, o: &Op) -> String {
        match o[0] {
            0 | 1 => format!("format number {} as {} (sink mode {})", o[1], ["Display", "Debug", "Binary", "LowerHex", "UpperHex", "composite", "pretty Debug", "padded", "#x", "#b", "+", "034X"][o[2] as usize % NSPEC], o[3]),
            2 => format!("make number of kind {} from {}", o[1], o[2]),
            3 => "drop own number".into(),
            _ => format!("churn {}", o[1]),
        }
    }
    fn run(&self, w: &Work) {
        let mask = w.params[0];
        faults(false);
        let used = w.threads.iter().flatten().filter(|o| o[0] < 2).fold(0u32, |a, o| a | 1 << o[2]);
        // Display, Debug and Binary recognise a value
        unsafe { SPECS = used | 0b111 };
        let mut items: Vec<Item> = rt(Vec::new);
        for &k in &w.params[2..] {
            let it = Local::make(k % 16, w.params[1] + k / 16);
            rt(|| items.push(it));
        }
        let items: &'static [Item] = rt(|| &*items.leak());
        faults(true);
        for ops in w.threads.iter() {
            let ops: &'static Vec<Op> = rt(|| &*Box::leak(Box::new(ops.clone())));
            let f: Box<dyn FnOnce() + Send> = rt(|| {
                Box::new(move || {
                    let mut l = Local { mask, items, own: rt(Vec::new) };
                    for o in ops {
                        l.step(o);
                    }
                    while let Some(it) = rt(|| l.own.pop()) {
                        intact(&it, "at the end of the thread");
                        Local::drop_item(it);
                    }
                    rt(|| drop(l));
                }) as Box<dyn FnOnce() + Send>
            });
            spawn(f);
        }
        join_all();
        faults(false);
        for it in items {
            intact(it, "at the end");
            // SAFETY: nobody uses the shared numbers any more
            Local::drop_item(unsafe { core::ptr::read(it) });
        }
        if mask & FM_LEAK == 0 {
            return;
        }
        if let Some((free, step)) = free_slots() {
            probe(4);
            if free % step != 0 {
                fail("storage-leaked", &format!("every number was dropped, but only {free} new ones fit before the store grew (it grows by {step}): {} slot(s) are lost", step - free % step));
            }
        }
    }
}
