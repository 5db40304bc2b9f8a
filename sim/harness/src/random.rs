//! Random fixed-width integers from a generator under the simulator's control.
use numeric_ints::{I, U};
use rand::distr::{Distribution, StandardUniform};
use rand::{Fill, Rng as _, RngCore};
use simrt::driver::{Op, Scenario, Work};
use simrt::*;

/// A generator whose output is a function of (seed, position); any draw can fail
struct Gen {
    seed: u64,
    pos: u64,
    bytes: u64,
    can_fail: bool,
    failed: bool,
    log: u64,
    fixed: Option<u8>,
}
impl Gen {
    fn new(seed: u64, can_fail: bool) -> Gen {
        Gen { seed, pos: 0, bytes: 0, can_fail, failed: false, log: 0, fixed: None }
    }
    fn draw(&mut self, n: u64) -> u64 {
        if self.failed {
            fail("drawn-after-failure", "the generator was asked again after it had failed");
        }
        if self.can_fail {
            if callback_fault("draw") {
                self.failed = true;
                std::panic::resume_unwind(Box::new(Injected));
            }
        }
        self.bytes += n;
        self.pos += 1;
        self.log = mix(self.log, n);
        match self.fixed {
            Some(b) => u64::from_ne_bytes([b; 8]),
            None => mix(mix(self.seed, 0x51ED), self.pos),
        }
    }
}
fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ (x >> 31)
}
impl RngCore for Gen {
    fn next_u32(&mut self) -> u32 {
        self.draw(4) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.draw(8)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let x = self.draw(c.len() as u64).to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }
}

trait Num<const N: usize>: Copy {
    fn from(b: [u8; N]) -> Self;
    fn bytes(self) -> [u8; N];
}
impl<const N: usize> Num<N> for U<N> {
    fn from(b: [u8; N]) -> Self {
        U::from_le_bytes(b)
    }
    fn bytes(self) -> [u8; N] {
        self.to_le_bytes()
    }
}
impl<const N: usize> Num<N> for I<N> {
    fn from(b: [u8; N]) -> Self {
        assert!(core::mem::size_of::<I<N>>() == N);
        // SAFETY: an N-byte integer has no invalid bit patterns
        unsafe { core::mem::transmute_copy(&b) }
    }
    fn bytes(self) -> [u8; N] {
        assert!(core::mem::size_of::<I<N>>() == N);
        unsafe { core::mem::transmute_copy(&self) }
    }
}

const HOWS: [&str; 5] = ["StandardUniform.sample", "random()", "Fill::fill", "fill()", "sample_iter"];
fn one<T: Num<N> + Fill, const N: usize>(how: i64, pre: u8, g: &mut Gen) -> [u8; N]
where
    StandardUniform: Distribution<T>,
{
    match how {
        0 => StandardUniform.sample(g).bytes(),
        1 => g.random::<T>().bytes(),
        2 => {
            let mut v = T::from([pre; N]);
            Fill::fill(&mut v, g);
            v.bytes()
        }
        3 => {
            let mut v = T::from([pre; N]);
            g.fill(&mut v);
            v.bytes()
        }
        _ => {
            // through a trait object and an iterator
            let d: &mut dyn RngCore = g;
            let v: T = StandardUniform.sample_iter(d).next().unwrap();
            v.bytes()
        }
    }
}

const STREAMS: usize = 64;
fn judge<T: Num<N> + Fill, const N: usize>(o: &Op, ty: &str)
where
    StandardUniform: Distribution<T>,
{
    let (how, seed) = (o[1], o[3] as u64);
    let name = || format!("{} of {ty}<{N}>", HOWS[how as usize]);
    let mut rows: Vec<[u8; N]> = rt(Vec::new);
    for s in 0..STREAMS as u64 {
        let mut g = Gen::new(mix(seed, s), false);
        let v = match op(name, || one::<T, N>(how, s as u8, &mut g)) {
            Ok(v) => v,
            Err(e) => fail("unexpected-panic", &format!("{} panicked: {e:?}", name())),
        };
        if g.bytes < N as u64 {
            fail("too-few-draws", &format!("{} drew {} bytes from its generator", name(), g.bytes));
        }
        // the same stream again, later and over other previous content
        if s % 4 == 0 {
            let mut g2 = Gen::new(mix(seed, s), false);
            match op(name, || one::<T, N>(how, !(s as u8), &mut g2)) {
                Ok(w) => {
                    if w != v || g2.log != g.log || g2.pos != g.pos {
                        fail("not-repeatable", &format!("{} gave {v:?} after {} draws, then {w:?} after {} draws from the same generator output", name(), g.pos, g2.pos));
                    }
                }
                Err(e) => fail("unexpected-panic", &format!("{} panicked: {e:?}", name())),
            }
        }
        rt(|| rows.push(v));
    }
    rt(|| {
        for b in 0..N * 8 {
            let ones = rows.iter().filter(|r| r[b / 8] >> (b % 8) & 1 == 1).count();
            if ones == 0 || ones == STREAMS {
                fail("constant-bit", &format!("bit {} of byte {} of {} is {} for all of {STREAMS} generator outputs", b % 8, b / 8, name(), (ones > 0) as u8));
            }
        }
        for a in 0..N {
            for b in 0..a {
                if rows.iter().all(|r| r[a] == r[b]) || rows.iter().all(|r| r[a] == !r[b]) {
                    fail("copied-byte", &format!("bytes {b} and {a} of {} always agree", name()));
                }
            }
        }
        drop(rows);
    });
    // values drawn one after the other from one generator are the ones its positions give
    let mut g = Gen::new(seed, false);
    let mut prev = None;
    for _ in 0..3 {
        let mut h = Gen::new(seed, false);
        h.pos = g.pos;
        let a = op(name, || one::<T, N>(how, 0x5A, &mut g));
        let b = op(name, || one::<T, N>(how, 0xA5, &mut h));
        match (a, b) {
            (Ok(a), Ok(b)) => {
                if a != b || g.pos != h.pos {
                    fail("not-repeatable", &format!("{} gave {a:?} and {b:?} from the same generator output", name()));
                }
                if N >= 8 && prev == Some(a) {
                    fail("constant-value", &format!("{} gave {a:?} twice in a row", name()));
                }
                prev = Some(a);
            }
            (Err(e), _) | (_, Err(e)) => fail("unexpected-panic", &format!("{} panicked: {e:?}", name())),
        }
    }
    // extreme outputs are accepted
    for b in [0u8, 0xFF, 0x80] {
        let mut g = Gen::new(seed, false);
        g.fixed = Some(b);
        let mut h = Gen::new(seed, false);
        h.fixed = Some(b);
        let a = op(name, || one::<T, N>(how, 1, &mut g));
        let c = op(name, || one::<T, N>(how, 2, &mut h));
        match (a, c) {
            (Ok(a), Ok(c)) if a == c && g.pos == h.pos => {}
            (a, c) => fail("not-repeatable", &format!("{} with a constant generator gave {a:?} and {c:?}", name())),
        }
    }
    // a failing generator
    for t in 0..4 {
        let mut g = Gen::new(mix(seed, 1000 + t), true);
        faults(true);
        let r = op(name, || one::<T, N>(how, 0x33, &mut g));
        faults(false);
        match r {
            Ok(_) => {
                if g.failed {
                    fail("failure-swallowed", &format!("{} returned a value although its generator failed", name()));
                }
                probe(0);
            }
            Err(Stop::Injected) => probe(1),
            Err(e) => fail("unexpected-panic", &format!("{} panicked: {e:?}", name())),
        }
    }
}

macro_rules! widths {
    ($o:expr; $($n:literal)*) => {
        match ($o[0], $o[2]) {
            $((0, $n) => judge::<U<$n>, $n>($o, "U"),)*
            $((_, $n) => judge::<I<$n>, $n>($o, "I"),)*
            _ => {}
        }
    };
}

pub struct RandScen;
impl Scenario for RandScen {
    fn name(&self) -> &'static str {
        "random-integers"
    }
    fn real(&self) -> &'static str {
        "sampling and filling of U<N> and I<N> in numeric-ints (instrumented build of the working tree), the rand crate"
    }
    fn stub(&self) -> &'static str {
        "random number generator"
    }
    fn probes(&self) -> &'static [&'static str] {
        &["generator_did_not_fail", "generator_failed"]
    }
    fn gen(&self, r: &mut Rng, profile: i64) -> Work {
        let n = r.range(1, 2);
        let ops = (0..n)
            .map(|_| [r.range(0, 1), r.range(0, 4), r.pick(&[1i64, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 100, 128]), r.range(0, 1 << 30)])
            .collect();
        Work { params: vec![profile], threads: vec![ops] }
    }
    fn show(&self, _w: &Work, o: &Op) -> String {
        format!("{} of {}<{}>, generator {}", HOWS[o[1] as usize % 5], ["U", "I"][o[0] as usize & 1], o[2], o[3])
    }
    fn run(&self, w: &Work) {
        faults(false);
        for o in w.threads.iter().flatten() {
            widths!(o; 1 2 3 4 5 7 8 9 12 15 16 17 24 31 32 33 40 63 64 65 100 128);
        }
    }
}
