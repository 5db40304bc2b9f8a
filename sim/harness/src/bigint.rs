//! Threads computing with big integers that all live in the one global store.
use crate::refnum::Ref;
use core::fmt::{self, Write as _};
use numeric_compounds::complex::Complex;
use numeric_compounds::matrix::{DynMatrix, Matrix, MatrixRef};
use numeric_compounds::vector::Vector;
use numeric_ints::BigInt;
use numeric_static_iter::{zip_all, IntoStaticIter, StaticIter};
use numeric_traits::cast::{FromChecked, FromSaturating, FromStrRadix, FromTruncating};
use numeric_reals::fixed::Fixed;
use numeric_reals::rat::Rat;
use numeric_traits::class::{Real, Signed};
use numeric_traits::identity::{One, Zero};
use numeric_traits::ops::Pow;
use simrt::driver::{Op, Scenario, Work};
use simrt::*;

pub const BM_ORACLE: i64 = 1;
pub const BM_LEAK: i64 = 2;
pub const BM_FAULTS: i64 = 4;
pub const BM_COMPOUND: i64 = 8; // mostly compound operations

const P_MASK: usize = 0;
const P_HIST: usize = 1;
const P_GLOB: usize = 2;
const P_POOL: usize = 3;
const P_CROWD: usize = 4; // clones of the first shared number held during the run

const R: usize = 4;

/// Collects a binary rendering
#[derive(Default)]
struct Bits {
    neg: bool,
    n: u32,
    s: Vec<u8>,
}
impl fmt::Write for Bits {
    fn write_str(&mut self, x: &str) -> fmt::Result {
        rt(|| {
            for c in x.bytes() {
                match c {
                    b'-' => self.neg = true,
                    b'0' | b'1' => self.s.push(c - b'0'),
                    _ => self.n += 1,
                }
            }
        });
        Ok(())
    }
}
/// A string sink whose memory is outside the simulation
#[derive(Default)]
struct Text(String);
impl fmt::Write for Text {
    fn write_str(&mut self, x: &str) -> fmt::Result {
        rt(|| self.0.push_str(x));
        Ok(())
    }
}

pub fn render(v: &BigInt) -> Ref {
    let mut b = rt(Bits::default);
    let _ = write!(b, "{v:b}");
    rt(|| {
        // "0b" contributes a leading zero digit, harmless
        let mut mag = vec![];
        for c in b.s.rchunks(64) {
            mag.push(c.iter().fold(0u64, |a, d| a << 1 | *d as u64));
        }
        Ref { neg: b.neg, mag }.norm()
    })
}

/// A held big integer and what it was when created
pub struct Held {
    v: BigInt,
    r: Ref,
}

#[derive(Default)]
struct Book {
    obs: Vec<Vec<String>>,
}
static mut BOOK: *mut Book = core::ptr::null_mut();
fn book() -> &'static mut Book {
    unsafe { &mut *BOOK }
}

struct Local {
    me: usize,
    mask: i64,
    pool: i64,
    regs: [Option<Held>; R],
    globs: &'static [Held],
    obs: Vec<String>,
    dead: bool,
}

/// magnitudes that threads share; neighbours differ in one limb or only in length
fn pool(k: i64, salt: i64) -> (bool, u128) {
    let m: u128 = match (k + salt) % 12 {
        0 => 1 << 62,
        1 => (1 << 62) - 1,
        2 => u64::MAX as u128,
        3 => 1 << 64,
        4 => (1 << 64) + 1,
        5 => (2 << 64) + 1,
        6 => u128::MAX,
        7 => (1 << 64) + (1 << 62),
        8 => u64::MAX as u128 - 1,
        9 => 5,
        10 => (7 << 64) + 3,
        _ => (1 << 63) + 9,
    };
    ((k / 12) % 3 == 2, m)
}

impl Local {
    fn log(&mut self, f: impl FnOnce() -> String) {
        rt(|| {
            let s = format!("t{}: {}", self.me, f());
            self.obs.push(s);
        })
    }
    fn run<T>(&self, name: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Result<T, Stop> {
        if self.mask & BM_FAULTS != 0 {
            op_alloc_faults(name, f)
        } else {
            op(name, f)
        }
    }
    /// A held value still reads as when it was created.
    fn check(v: &BigInt, r: &Ref, how: &str) {
        match op(|| format!("read {}", r.hex()), || render(v)) {
            Ok(got) => {
                if got != *r {
                    fail("value-changed", &format!("{how}: a big integer holding {} now reads {}", r.hex(), got.hex()));
                }
            }
            Err(Stop::Panic(m)) => fail("value-lost", &format!("{how}: reading a held big integer ({}) panicked: {m}", r.hex())),
            Err(_) => fail("harness", "fault while reading"),
        }
    }
    fn check_reg(&self, i: usize, how: &str) {
        if let Some(h) = &self.regs[i] {
            Self::check(&h.v, &h.r, how);
        }
    }
    fn check_all(&self, how: &str) {
        for i in 0..R {
            self.check_reg(i, how);
        }
    }
    fn drop_reg(&mut self, i: usize) {
        if let Some(h) = self.regs[i].take() {
            let Held { v, r } = h;
            match op(|| format!("drop {}", r.hex()), || drop(v)) {
                Ok(()) => {}
                Err(e) => fail("unexpected-panic", &format!("dropping {} panicked: {e:?}", r.hex())),
            }
            rt(|| drop(r));
        }
    }
    /// Take a result: judge it where the reference knows it, log it, keep it in a register.
    fn put(&mut self, what: &str, dst: usize, r: Result<BigInt, Stop>, want: Option<Ref>) {
        match r {
            Ok(v) => {
                let got = match op(|| "read result".into(), || render(&v)) {
                    Ok(g) => g,
                    Err(e) => fail("value-lost", &format!("reading the result of {what} panicked: {e:?}")),
                };
                if let Some(w) = want {
                    if w != got {
                        fail("wrong-result", &format!("{what} gave {}, the numbers give {}", got.hex(), w.hex()));
                    }
                    rt(|| drop(w));
                }
                self.log(|| format!("{what} = {}", got.hex()));
                self.drop_reg(dst);
                self.regs[dst] = Some(Held { v, r: got });
            }
            Err(e) => self.stopped(what, e),
        }
    }
    fn stopped(&mut self, what: &str, e: Stop) {
        match e {
            Stop::Panic(_) => self.log(|| format!("{what} panicked")),
            Stop::NoMem => {
                probe(0);
                self.check_all("after an allocation failure");
            }
            Stop::Injected => {}
        }
        rt(|| drop(e));
    }
    fn obs_op(&mut self, what: &str, f: impl FnOnce() -> String) {
        match self.run(|| what.to_string(), f) {
            Ok(s) => {
                self.log(|| format!("{what} = {s}"));
                rt(|| drop(s));
            }
            Err(e) => self.stopped(what, e),
        }
    }
    fn new_val(&mut self, o: &Op) {
        let (neg, m) = pool(o[1] % 36, self.pool);
        let dst = (o[2] as usize) % R;
        let want = rt(|| Ref::from_i(neg, m));
        let how = o[3] % 4;
        let r = self.run(
            || format!("new {}", want.hex()),
            || {
                if neg && m <= i128::MAX as u128 {
                    BigInt::from(-(m as i128))
                } else if neg {
                    -BigInt::from(m)
                } else if m <= i64::MAX as u128 && how == 1 {
                    BigInt::from(m as i64)
                } else if m <= u64::MAX as u128 && how < 2 {
                    BigInt::from(m as u64)
                } else if m <= u64::MAX as u128 && how == 2 {
                    BigInt::from(m as usize)
                } else {
                    BigInt::from(m)
                }
            },
        );
        self.put("new", dst, r, Some(want));
    }
    fn clone_of(&mut self, i: usize) -> Option<BigInt> {
        let h = self.regs[i].as_ref()?;
        match op(|| format!("clone {}", h.r.hex()), || h.v.clone()) {
            Ok(v) => Some(v),
            Err(e) => fail("unexpected-panic", &format!("clone panicked: {e:?}")),
        }
    }
    fn refof(&self, i: usize) -> Option<Ref> {
        rt(|| self.regs[i].as_ref().map(|h| h.r.clone()))
    }

    fn binary(&mut self, o: &Op) {
        let sel = o[1] % 10;
        let (a, b, dst) = ((o[2] % 4) as usize, (o[2] / 4 % 4) as usize, (o[2] / 16 % 4) as usize);
        let var = o[3] % 4;
        let glob = !self.globs.is_empty() && o[3] / 4 % 3 == 0;
        let Some(ra) = self.refof(a) else { return };
        let rb = if glob {
            rt(|| self.globs[b % self.globs.len()].r.clone())
        } else {
            match self.refof(b) {
                Some(r) => r,
                None => return,
            }
        };
        if ra.limbs() + rb.limbs() > 12 || (sel >= 8 && rb.is_zero()) {
            return;
        }
        let sh = (o[3] / 12 % 140) as usize;
        const N: [&str; 10] = ["+", "-", "*", "&", "|", "^", "<<", ">>", "/", "%"];
        let want = rt(|| match sel {
            0 => ra.add(&rb),
            1 => ra.sub(&rb),
            2 => Some(ra.mul(&rb)),
            // the library has a negative zero, which reads as zero: its sign is not judged
            3..=5 if ra.is_zero() || rb.is_zero() => None,
            3 => Some(ra.bit(&rb, |x, y| x & y)),
            4 => Some(ra.bit(&rb, |x, y| x | y)),
            5 => Some(ra.bit(&rb, |x, y| x ^ y)),
            6 => Some(ra.shl(sh)),
            7 => Some(ra.shr(sh)),
            _ => None,
        });
        let what = rt(|| format!("{} {} {}", ra.hex(), N[sel as usize], if sel == 6 || sel == 7 { sh.to_string() } else { rb.hex() }));
        // owned operands: moved out of their registers, or cloned
        let own_a = var & 1 == 1;
        let own_b = var & 2 == 2;
        let mut oa: Option<BigInt> = None;
        if own_a {
            oa = if o[3] / 1000 % 2 == 0 && (a != b || glob) {
                let h = self.regs[a].take().unwrap();
                rt(|| drop(h.r));
                Some(h.v)
            } else {
                self.clone_of(a)
            };
        }
        let mut ob: Option<BigInt> = None;
        let shift = sel == 6 || sel == 7;
        if shift {
            ob = op(|| "new shift".into(), || BigInt::from(sh)).ok();
        } else if own_b {
            ob = if glob {
                let g = &self.globs[b % self.globs.len()];
                op(|| "clone shared".into(), || g.v.clone()).ok()
            } else if o[3] / 2000 % 2 == 0 && a != b {
                let h = self.regs[b].take().unwrap();
                rt(|| drop(h.r));
                Some(h.v)
            } else {
                self.clone_of(b)
            };
        }
        let dummy_a;
        let la: Result<BigInt, &BigInt> = match oa {
            Some(v) => Ok(v),
            None => {
                dummy_a = &self.regs[a].as_ref().unwrap().v;
                Err(dummy_a)
            }
        };
        let lb: Result<BigInt, &BigInt> = if own_b || shift {
            match (ob, own_b) {
                (Some(v), true) => Ok(v),
                (Some(v), false) => {
                    // by reference to a temporary
                    let r = self.run(|| what.clone(), || apply(sel, la, Err(&v)));
                    if let Err(e) = op(|| "drop shift".into(), || drop(v)) {
                        fail("unexpected-panic", &format!("drop panicked {e:?}"));
                    }
                    self.put(&what, dst, r, want);
                    rt(|| drop((ra, rb, what)));
                    return;
                }
                (None, _) => fail("unexpected-panic", "clone or conversion panicked"),
            }
        } else if glob {
            Err(&self.globs[b % self.globs.len()].v)
        } else {
            Err(&self.regs[b].as_ref().unwrap().v)
        };
        let r = self.run(|| what.clone(), || apply(sel, la, lb));
        self.put(&what, dst, r, want);
        if glob {
            probe(1);
            let g = &self.globs[b % self.globs.len()];
            Self::check(&g.v, &g.r, "a shared number after being an operand");
        }
        rt(|| drop((ra, rb, what)));
    }

    fn assign(&mut self, o: &Op) {
        let sel = o[1] % 5;
        let (a, b) = ((o[2] % 4) as usize, (o[2] / 4 % 4) as usize);
        let kind = o[3] % 4;
        let Some(ra) = self.refof(a) else { return };
        let (pn, pm) = pool(o[3] / 4 % 36, self.pool);
        let prim: i128 = if pm > i64::MAX as u128 { (o[3] / 4 % 100) as i128 - 50 } else if pn { -(pm as i128) } else { pm as i128 };
        let rb = match kind {
            0 | 1 => match self.refof(b) {
                Some(r) => r,
                None => return,
            },
            2 => rt(|| Ref::from_i(prim < 0, prim.unsigned_abs())),
            _ => rt(|| Ref::from_i(false, prim.unsigned_abs() & 0xFFFF)),
        };
        if ra.limbs() + rb.limbs() > 12 || (sel >= 3 && rb.is_zero()) {
            return;
        }
        const N: [&str; 5] = ["+=", "-=", "*=", "/=", "%="];
        let want = rt(|| match sel {
            0 => ra.add(&rb),
            1 => ra.sub(&rb),
            2 => Some(ra.mul(&rb)),
            _ => None,
        });
        let what = rt(|| format!("{} {} {}", ra.hex(), N[sel as usize], rb.hex()));
        let tmp = if kind < 2 { self.clone_of(b) } else { None };
        let h = self.regs[a].take().unwrap();
        let Held { mut v, r } = h;
        macro_rules! go {
            ($x:expr) => {
                match sel {
                    0 => v += $x,
                    1 => v -= $x,
                    2 => v *= $x,
                    3 => v /= $x,
                    _ => v %= $x,
                }
            };
        }
        let res = match kind {
            0 => {
                let t = tmp.unwrap();
                self.run(|| what.clone(), || go!(t))
            }
            1 => {
                let t = tmp.unwrap();
                let r = self.run(|| what.clone(), || go!(&t));
                let _ = op(|| "drop operand".into(), || drop(t));
                r
            }
            2 => self.run(|| what.clone(), || go!(prim)),
            _ => self.run(|| what.clone(), || go!((prim.unsigned_abs() & 0xFFFF) as u16)),
        };
        match res {
            Ok(()) => {
                rt(|| drop(r));
                self.put(&what, a, Ok(v), want);
            }
            Err(e) => {
                // an in-place operation that failed leaves the operand as it was
                self.regs[a] = Some(Held { v, r });
                self.check_reg(a, "after a failed in-place operation");
                self.stopped(&what, e);
            }
        }
        rt(|| drop((ra, rb, what)));
    }

    fn unary(&mut self, o: &Op) {
        let (a, dst) = ((o[2] % 4) as usize, (o[2] / 4 % 4) as usize);
        let Some(ra) = self.refof(a) else { return };
        if ra.limbs() > 8 {
            return;
        }
        let sel = o[1] % 16;
        const N: [&str; 16] = ["-&", "-", "abs", "!", "pow", "prim+", "prim*", "prim<<", "parse", "prim-", "prim>>", "prim/", "prim%", "prim+big", "prim-big", "prim<<i"];
        let what = rt(|| format!("{} {}", N[sel as usize], ra.hex()));
        let e = if ra.limbs() < 2 { o[3] % 10 } else if ra.limbs() < 3 { o[3] % 6 } else { o[3] % 3 };
        if sel == 0 {
            let want = rt(|| ra.neg());
            let v = &self.regs[a].as_ref().unwrap().v;
            let r = self.run(|| what.clone(), || -v);
            self.put(&what, dst, r, if ra.is_zero() { None } else { Some(want) });
        } else if sel == 8 {
            // digits of a constant in base 16
            let (_, m) = pool(o[3] % 12, self.pool);
            let text = rt(|| format!("{m:x}"));
            let r = self.run(|| format!("parse {text}"), || BigInt::from_str_radix(&text, 16));
            match r {
                Ok(Ok(v)) => {
                    let w = rt(|| Ref::from_i(false, m));
                    self.put("parse", dst, Ok(v), Some(w));
                }
                Ok(Err(_)) => self.log(|| "parse failed".into()),
                Err(e) => self.stopped("parse", e),
            }
            rt(|| drop(text));
        } else {
            let v = if o[3] / 4 % 2 == 0 {
                self.clone_of(a).unwrap()
            } else {
                let h = self.regs[a].take().unwrap();
                rt(|| drop(h.r));
                h.v
            };
            let want = rt(|| match sel {
                1 => (!ra.is_zero()).then(|| ra.neg()),
                2 => Some(ra.abs()),
                3 => (!ra.is_zero()).then(|| Ref { neg: ra.neg, mag: ra.mag.iter().map(|d| !d).collect() }.norm()),
                4 => {
                    let mut out = Ref::from_i(false, 1);
                    for _ in 0..e {
                        out = out.mul(&ra);
                    }
                    Some(out)
                }
                5 => ra.add(&Ref::from_i(false, 7)),
                6 => Some(ra.mul(&Ref::from_i(true, 1 << 40))),
                7 | 15 => Some(ra.shl(33)),
                9 => ra.sub(&Ref::from_i(true, 300)),
                10 => Some(ra.shr(65)),
                13 => ra.add(&Ref::from_i(false, u128::MAX)),
                14 => ra.sub(&Ref::from_i(false, 1 << 63)),
                _ => None,
            });
            let r = self.run(
                || what.clone(),
                || match sel {
                    1 => -v,
                    2 => v.abs(),
                    3 => !v,
                    4 => v.pow(BigInt::from(e)),
                    5 => v + 7u8,
                    6 => v * -(1i64 << 40),
                    7 => v << 33u32,
                    9 => v - -300i16,
                    10 => v >> 65i8,
                    11 => v / 3i32,
                    12 => v % 1000u128,
                    13 => v + u128::MAX,
                    14 => v - (1usize << 63),
                    _ => v << 33isize,
                },
            );
            self.put(&what, dst, r, want);
        }
        rt(|| drop((ra, what)));
    }

    fn observe_op(&mut self, o: &Op) {
        let (a, b) = ((o[2] % 4) as usize, (o[2] / 4 % 4) as usize);
        let (Some(ra), Some(rb)) = (self.refof(a), self.refof(b)) else { return };
        let x: *const BigInt = &self.regs[a].as_ref().unwrap().v;
        let y: *const BigInt = &self.regs[b].as_ref().unwrap().v;
        // SAFETY: the registers are not touched until the operation is over
        let (x, y) = unsafe { (&*x, &*y) };
        let sel = o[1] % 16;
        if sel == 0 && !ra.is_zero() && !rb.is_zero() {
            let want = ra == rb;
            match self.run(|| format!("{} == {}", ra.hex(), rb.hex()), || x == y) {
                Ok(e) => {
                    if e != want {
                        fail("wrong-equality", &format!("{} == {} gave {e}", ra.hex(), rb.hex()));
                    }
                }
                Err(e) => self.stopped("==", e),
            }
        } else if sel < 2 {
            self.obs_op("compare", || {
                let c = x.cmp(y);
                let d = x.partial_cmp(y);
                rt(|| format!("{c:?} {d:?}"))
            });
        } else if sel < 8 {
            // conversions that take the number by value
            let c = self.clone_of(a).unwrap();
            self.obs_op("convert", || match sel {
                2 => {
                    let r = u128::try_from(c).ok();
                    rt(|| format!("{r:?}"))
                }
                3 => {
                    let r = i64::from_checked(c);
                    rt(|| format!("{r:?}"))
                }
                4 => {
                    let r = u64::saturate_from(c);
                    rt(|| format!("{r:?}"))
                }
                5 => {
                    let r = u128::truncate_from(c);
                    rt(|| format!("{r:?}"))
                }
                6 => {
                    let r = i128::try_from(c).is_ok();
                    rt(|| format!("{r:?}"))
                }
                _ => {
                    let r = i8::saturate_from(c);
                    rt(|| format!("{r:?}"))
                }
            });
        } else {
            let big = ra.limbs() > 3;
            self.obs_op("inspect", || match sel {
                8 => {
                    let r = (x.is_zero(), x.is_one(), x.is_negative(), x.is_positive(), x.is_inline(), x.is_interned());
                    rt(|| format!("{r:?}"))
                }
                9 => {
                    let r = (*x == 5u8, *x == -1i64, *x == u128::MAX, *x == (1u128 << 64));
                    rt(|| format!("{r:?}"))
                }
                10 => {
                    let r = x.partial_cmp(&(1i128 << 70));
                    rt(|| format!("{r:?}"))
                }
                11 => {
                    let r = x.approx_float();
                    rt(|| format!("{r:e}"))
                }
                12 => {
                    let r = u64::try_from(x).ok();
                    rt(|| format!("{r:?}"))
                }
                13 if !big => {
                    let mut t = rt(Text::default);
                    let _ = write!(t, "{x}");
                    t.0
                }
                14 if !big => {
                    let mut t = rt(Text::default);
                    let _ = write!(t, "{x:x}");
                    t.0
                }
                _ => {
                    let mut t = rt(Text::default);
                    let _ = write!(t, "{x:b}");
                    t.0
                }
            });
        }
        rt(|| drop((ra, rb)));
    }

    /// Operators, comparisons and conversions against every primitive type.
    fn primitive(&mut self, o: &Op) {
        let (a, dst) = ((o[2] % 4) as usize, (o[2] / 4 % 4) as usize);
        let Some(ra) = self.refof(a) else { return };
        if ra.limbs() > 6 {
            return;
        }
        let ty = o[2] / 16 % 12;
        let sel = o[1] % 22;
        // the primitive: a small one or an edge of its type
        let edge = o[3] % 6;
        let small = o[3] / 6 % 120;
        let clone = o[3] / 720 % 2 == 0;
        macro_rules! with {
            ($t:ty) => {{
                let p: $t = match edge {
                    0 => <$t>::MAX,
                    1 => <$t>::MIN,
                    2 => (0 as $t).wrapping_sub(small as $t),
                    _ => small as $t,
                };
                let (pneg, pmag) = rt(|| {
                    let s = p.to_string();
                    (s.starts_with('-'), s.trim_start_matches('-').parse::<u128>().unwrap())
                });
                let rp = rt(|| Ref::from_i(pneg, pmag));
                let shift = (o[3] % 120) as $t;
                match sel {
                    0..=11 => {
                        // by value, then in place
                        let which = sel % 7;
                        let assign = sel >= 7;
                        let which = if assign { sel - 7 } else { which };
                        if which >= 3 && which < 5 && p == 0 as $t {
                            return;
                        }
                        let want = rt(|| match which {
                            0 => ra.add(&rp),
                            1 => ra.sub(&rp),
                            2 => Some(ra.mul(&rp)),
                            5 => Some(ra.shl(shift as usize)),
                            6 => Some(ra.shr(shift as usize)),
                            _ => None,
                        });
                        let v = if clone || assign {
                            self.clone_of(a).unwrap()
                        } else {
                            let h = self.regs[a].take().unwrap();
                            rt(|| drop(h.r));
                            h.v
                        };
                        let what = rt(|| format!("{} {} {p}{}", ra.hex(), ["+", "-", "*", "/", "%", "<<", ">>"][which as usize], stringify!($t)));
                        if assign {
                            let mut v = v;
                            let r = self.run(|| what.clone(), || match which {
                                0 => v += p,
                                1 => v -= p,
                                2 => v *= p,
                                3 => v /= p,
                                _ => v %= p,
                            });
                            match r {
                                Ok(()) => self.put(&what, dst, Ok(v), want),
                                Err(e) => {
                                    Self::check(&v, &ra, "after a failed in-place operation");
                                    if let Err(e) = op(|| "drop".into(), || drop(v)) {
                                        fail("unexpected-panic", &format!("drop panicked {e:?}"));
                                    }
                                    rt(|| drop(want));
                                    self.stopped(&what, e)
                                }
                            }
                        } else {
                            let r = self.run(|| what.clone(), || match which {
                                0 => v + p,
                                1 => v - p,
                                2 => v * p,
                                3 => v / p,
                                4 => v % p,
                                5 => v << shift,
                                _ => v >> shift,
                            });
                            self.put(&what, dst, r, want);
                        }
                        rt(|| drop(what));
                    }
                    12 | 13 => {
                        let x: *const BigInt = &self.regs[a].as_ref().unwrap().v;
                        // SAFETY: the registers are not touched until the operation is over
                        let x = unsafe { &*x };
                        self.obs_op(stringify!(compare with $t), || {
                            // |MIN| overflows inside the comparison: an edge of the type
                            let r = (if p == <$t>::MIN { None } else { Some(*x == p) }, x.partial_cmp(&p));
                            rt(|| format!("{r:?}"))
                        });
                    }
                    14 => {
                        let r = self.run(|| stringify!(from $t).into(), || BigInt::from(p));
                        let w = rt(|| rp.clone());
                        self.put("from", dst, r, Some(w));
                    }
                    15 => {
                        let x: *const BigInt = &self.regs[a].as_ref().unwrap().v;
                        // SAFETY: as above
                        let x = unsafe { &*x };
                        self.obs_op(stringify!(convert reference to $t), || {
                            let r = <$t>::try_from(x);
                            rt(|| format!("{r:?}"))
                        });
                    }
                    _ => {
                        let v = if clone {
                            self.clone_of(a).unwrap()
                        } else {
                            let h = self.regs[a].take().unwrap();
                            rt(|| drop(h.r));
                            h.v
                        };
                        self.obs_op(stringify!(convert to $t), || match sel {
                            16 | 17 => {
                                let r = <$t>::try_from(v);
                                rt(|| format!("{r:?}"))
                            }
                            18 => {
                                let r = <$t>::from_checked(v);
                                rt(|| format!("{r:?}"))
                            }
                            19 => {
                                let r = <$t>::truncate_from(v);
                                rt(|| format!("{r:?}"))
                            }
                            _ => {
                                let r = <$t>::saturate_from(v);
                                rt(|| format!("{r:?}"))
                            }
                        });
                    }
                }
                rt(|| drop(rp));
            }};
        }
        match ty {
            0 => with!(i8),
            1 => with!(u8),
            2 => with!(i16),
            3 => with!(u16),
            4 => with!(i32),
            5 => with!(u32),
            6 => with!(i64),
            7 => with!(u64),
            8 => with!(i128),
            9 => with!(u128),
            10 => with!(isize),
            _ => with!(usize),
        }
        rt(|| drop(ra));
    }
    /// Digits in every radix, some of them malformed.
    fn parse(&mut self, o: &Op) {
        let dst = (o[2] % 4) as usize;
        let radix = [2u32, 3, 8, 10, 10, 16, 16, 29, 36, 36, 37, 99][(o[1] % 12) as usize];
        let (_, m) = pool(o[3] % 12, self.pool);
        let m = m >> [0u32, 0, 0, 40, 64, 100][(o[3] / 1000 % 6) as usize];
        let bad = o[2] / 4 % 3 == 0;
        let r2 = radix.clamp(2, 36) as u128;
        let (text, want) = rt(|| {
            let mut d = vec![];
            let mut x = m;
            while x > 0 {
                d.push(char::from_digit((x % r2) as u32, r2 as u32).unwrap());
                x /= r2;
            }
            if o[3] / 12 % 2 == 0 {
                d.iter_mut().for_each(|c| *c = c.to_ascii_uppercase());
            }
            d.reverse();
            if bad {
                let k = (o[3] / 24) as usize % (d.len() + 1);
                d.insert(k, ['-', '_', '{', '\u{e9}'][(o[3] / 24) as usize % 4]);
            }
            (d.into_iter().collect::<String>(), (!bad && radix <= 36).then(|| Ref::from_i(false, m)))
        });
        match self.run(|| format!("parse {text} in radix {radix}"), || BigInt::from_str_radix(&text, radix)) {
            Ok(Ok(v)) => self.put("parse", dst, Ok(v), want),
            Ok(Err(e)) => {
                if want.is_some() {
                    fail("wrong-result", &format!("parsing {text} in radix {radix} failed: {e:?}"));
                }
                self.log(|| format!("parse {text}: {e:?}"));
            }
            Err(e) => self.stopped("parse", e),
        }
        rt(|| drop(text));
    }

    fn take3(&mut self, o: &Op) -> Option<[BigInt; 3]> {
        let i = [(o[2] % 4) as usize, (o[2] / 4 % 4) as usize, (o[2] / 16 % 4) as usize];
        let mut lim = 0;
        for k in i {
            lim += self.regs[k].as_ref()?.r.limbs();
        }
        if lim > 9 {
            return None;
        }
        Some([self.clone_of(i[0])?, self.clone_of(i[1])?, self.clone_of(i[2])?])
    }
    fn put_all<const N: usize>(&mut self, what: &str, dst: i64, r: Result<[BigInt; N], Stop>) {
        match r {
            Ok(a) => {
                let mut k = dst as usize;
                for v in a {
                    self.put(what, k % R, Ok(v), None);
                    k += 1;
                }
            }
            Err(e) => self.stopped(what, e),
        }
    }

    fn vector(&mut self, o: &Op) {
        let Some(a) = self.take3(o) else { return };
        let Some(b) = self.take3(&[o[0], o[1], o[2] / 64, o[3]]) else {
            let _ = op(|| "drop operands".into(), || drop(a));
            return;
        };
        let sel = o[1] % 14;
        let dst = o[3] % 4;
        let r = self.run(
            || format!("vector operation {sel}"),
            || {
                let (mut x, y) = (Vector::new(a), Vector::new(b));
                let out: [BigInt; 3] = match sel {
                    0 => (x + y).into(),
                    1 => (x - y).into(),
                    2 => (x * y).into(),
                    3 => {
                        x += y;
                        x.into()
                    }
                    4 => {
                        x *= y;
                        x.into()
                    }
                    5 => {
                        let [s, _, _]: [BigInt; 3] = y.into();
                        (x * s).into()
                    }
                    6 => {
                        let [s, _, _]: [BigInt; 3] = y.into();
                        (x + &s).into()
                    }
                    7 => {
                        let [s, _, _]: [BigInt; 3] = y.into();
                        x -= s;
                        x.into()
                    }
                    8 => Vector::cross(x, y).into(),
                    9 => {
                        x += &y;
                        (x + &y).into()
                    }
                    10 => {
                        let m = x.into_column();
                        let z = y.clone().into_row();
                        let p = m * z;
                        p.diag().into()
                    }
                    11 => {
                        x.set_x(y.z().clone());
                        *x.y_mut() = y.x().clone();
                        x.into()
                    }
                    12 => {
                        let v = Vector::<BigInt, 3>::from_scalar(y[1].clone());
                        (v - x).into()
                    }
                    _ => {
                        let e = (x == y, x.is_zero());
                        if e.0 || e.1 { y.into() } else { x.into() }
                    }
                };
                out
            },
        );
        self.put_all("vector", dst, r);
    }
    fn matrix(&mut self, o: &Op) {
        let Some([a, b, c]) = self.take3(o) else { return };
        let Some([d, e, f]) = self.take3(&[o[0], o[1], o[2] / 64, o[3]]) else {
            let _ = op(|| "drop operands".into(), || drop((a, b, c)));
            return;
        };
        let sel = o[1] % 10;
        let dst = o[3] % 4;
        let r = self.run(
            || format!("matrix operation {sel}"),
            || {
                let flat = |m: Matrix<BigInt, 2, 2>| -> [BigInt; 4] {
                    [m[(0, 0)].clone(), m[(0, 1)].clone(), m[(1, 0)].clone(), m[(1, 1)].clone()]
                };
                let z = f.clone();
                let x = Matrix::new([[a, b], [c, d.clone()]]);
                let mut y = Matrix::new([[d, e], [f, z]]);
                match sel {
                    0 => flat(x + y),
                    1 => flat(x - y),
                    2 => flat(x * y),
                    3 => flat(x.transpose()),
                    4 => {
                        y.swap_rows(0, 1);
                        flat(y)
                    }
                    5 => {
                        let v = x.diag();
                        flat(Matrix::from_columns([v.clone(), v]))
                    }
                    6 => {
                        let v = y.diag();
                        flat(Matrix::from_rows([v.clone(), v]) + x)
                    }
                    7 => {
                        let mut d = DynMatrix::from([[x[(0, 0)].clone(), x[(0, 1)].clone()], [y[(1, 0)].clone(), y[(0, 0)].clone()]]);
                        d.swap_rows(1, 0);
                        d[(0, 1)] = x[(1, 1)].clone();
                        let r = MatrixRef::from(&d);
                        [r[(0, 0)].clone(), r[(0, 1)].clone(), r[(1, 0)].clone(), r[(1, 1)].clone()]
                    }
                    8 => {
                        let c = x.clone();
                        let t = (c == x, x.is_zero(), x.is_one());
                        if t.0 && !t.1 && !t.2 { flat(c) } else { flat(y) }
                    }
                    _ => flat(x * Matrix::one()),
                }
            },
        );
        self.put_all("matrix", dst, r);
    }
    fn complex(&mut self, o: &Op) {
        let Some([a, b, c]) = self.take3(o) else { return };
        let d = self.clone_of((o[3] % 4) as usize);
        let Some(d) = d else {
            let _ = op(|| "drop operands".into(), || drop((a, b, c)));
            return;
        };
        let sel = o[1] % 9;
        let dst = o[3] / 4 % 4;
        let r = self.run(
            || format!("complex operation {sel}"),
            || {
                let (x, y) = (Complex::new(a, b), Complex::new(c, d));
                let z = match sel {
                    0 => x + y,
                    1 => x - y,
                    2 => x * y,
                    3 => x / y,
                    4 => x + y.real().clone(),
                    5 => x - y.imag().clone(),
                    6 => x * y.imag().clone(),
                    7 => {
                        let e = (x == y, x.is_zero(), y.is_one());
                        if e.0 || e.1 || e.2 { y } else { x.clone() }
                    }
                    _ => Complex::from_real(x.imag().clone()) + Complex::from_imag(y.real().clone()),
                };
                [z.real().clone(), z.imag().clone()]
            },
        );
        self.put_all("complex", dst, r);
    }
    /// Rationals and fixed-point numbers over big integers.
    fn reals(&mut self, o: &Op) {
        let Some([a, b, c]) = self.take3(o) else { return };
        let dst = o[3] % 4;
        let sel = o[1] % 18;
        if sel < 6 {
            let r = self.run(
                || format!("rational operation {sel}"),
                || -> [BigInt; 2] {
                    // SAFETY: nothing here relies on the reduced form
                    let x = unsafe { Rat::new_unchecked(a, b) };
                    let y = match sel {
                        0 => -x,
                        1 => x.abs(),
                        2 => {
                            let y = x.clone();
                            let same = x == y;
                            if same { y } else { -x }
                        }
                        3 => {
                            let z = x.is_zero() || x.is_one() || x.is_negative();
                            unsafe { Rat::new_unchecked(x.denominator().clone(), if z { c } else { x.numerator().clone() }) }
                        }
                        4 => {
                            let mut y = Rat::<BigInt>::zero();
                            y.clone_from(&x);
                            drop(x);
                            y
                        }
                        _ => {
                            let z = Rat::<BigInt>::default();
                            if x == z { Rat::one() } else { x }
                        }
                    };
                    y.into_pair().into()
                },
            );
            self.put_all("rational", dst, r);
        } else {
            self.obs_op("fixed-point operation", || {
                let x = Fixed::<BigInt, 8>::from_raw(a);
                let y = if o[3] % 2 == 0 { Fixed::from_val(b) } else { Fixed::from_raw(b) };
                if sel == 16 || sel == 17 {
                    let z = Fixed::<BigInt, 8>::from_raw(c);
                    let t = (x == y, x.partial_cmp(&z), y.cmp(&z), x.is_zero(), y.is_one(), z.is_negative(), z.is_positive());
                    return rt(|| format!("{t:?}"));
                }
                let z = match sel {
                    6 => x + y,
                    7 => x - y,
                    8 => x * y,
                    9 => -x,
                    10 => x.floor() + y,
                    11 => x.ceil() + y,
                    12 => x.fract() + y,
                    13 => x.trunc() + y,
                    14 => x.abs() - y,
                    _ => x.clone() + y + Fixed::one() - x,
                };
                let mut t = rt(Text::default);
                let _ = write!(t, "{z:b}");
                t.0
            });
        }
    }
    fn iter(&mut self, o: &Op) {
        let Some(a) = self.take3(o) else { return };
        let Some(b) = self.take3(&[o[0], o[1], o[2] / 64, o[3]]) else {
            let _ = op(|| "drop operands".into(), || drop(a));
            return;
        };
        let sel = o[1] % 9;
        let dst = o[3] % 4;
        let r = self.run(
            || format!("iteration {sel}"),
            || -> [BigInt; 3] {
                match sel {
                    0 => a.into_static_iter().map(|x| &x + &x).collect(),
                    1 => {
                        let s = a.into_static_iter().sum();
                        [s.clone(), s, b.into_static_iter().sum()]
                    }
                    2 => {
                        let p = a.into_static_iter().product();
                        let [x, y, _] = b;
                        [p, x, y]
                    }
                    3 => a.into_static_iter().zip(b).map(|(x, y)| x * y).collect(),
                    4 => {
                        let mut n = 0;
                        let r = a.into_static_iter().any(|x| {
                            n += 1;
                            x.is_interned()
                        });
                        if r { b } else { [BigInt::from(n), BigInt::new(), BigInt::one()] }
                    }
                    5 => {
                        let r: Option<[BigInt; 3]> = a.into_static_iter().map(|x| if x.is_negative() { None } else { Some(x) }).collect();
                        r.unwrap_or(b)
                    }
                    6 => zip_all([a, b]).map(|[x, y]| x - y).collect(),
                    7 => {
                        let r = (&a).into_static_iter().try_fold(BigInt::one(), |acc, x| if x.is_inline() { Err(acc) } else { Ok(acc + x) });
                        let (Ok(v) | Err(v)) = r;
                        let [x, y, _] = b;
                        [v, x, y]
                    }
                    _ => a.into_static_iter().enumerate().map(|(i, x)| x + i).collect(),
                }
            },
        );
        self.put_all("iteration", dst, r);
    }

    fn step(&mut self, o: &Op) {
        match o[0] {
            0 => self.new_val(o),
            1 => {
                let (a, d) = ((o[1] % 4) as usize, (o[2] % 4) as usize);
                let both = a != d && self.regs[a].is_some() && self.regs[d].is_some();
                match o[3] % 8 {
                    1 | 2 if both => {
                        // a number overwritten by a copy of another
                        let Held { mut v, r } = self.regs[d].take().unwrap();
                        let src = &self.regs[a].as_ref().unwrap().v;
                        match op(|| format!("{} clone_from", r.hex()), || v.clone_from(src)) {
                            Ok(()) => {}
                            Err(e) => fail("unexpected-panic", &format!("clone_from panicked: {e:?}")),
                        }
                        rt(|| drop(r));
                        let w = self.refof(a);
                        self.put("clone_from", d, Ok(v), w);
                    }
                    3 if both => {
                        let (x, y) = (self.clone_of(a).unwrap(), self.clone_of(d).unwrap());
                        let r = self.run(|| "max/min".into(), || if o[1] / 4 % 2 == 0 { x.max(y) } else { x.min(y) });
                        self.put("max/min", d, r, None);
                    }
                    4 if both => {
                        // taken out, zero left behind
                        let h = self.regs[a].as_mut().unwrap();
                        let w = rt(|| core::mem::take(&mut h.r));
                        match op(|| format!("take {}", w.hex()), || core::mem::take(&mut h.v)) {
                            Ok(v) => self.put("take", d, Ok(v), Some(w)),
                            Err(e) => fail("unexpected-panic", &format!("take panicked: {e:?}")),
                        }
                        self.check_reg(a, "left behind by take");
                    }
                    _ => {
                        if let Some(v) = self.clone_of(a) {
                            let w = self.refof(a);
                            self.put("clone", d, Ok(v), w);
                        }
                    }
                }
            }
            2 => {
                self.check_reg((o[1] % 4) as usize, "before its drop");
                self.drop_reg((o[1] % 4) as usize)
            }
            3 => self.binary(o),
            4 => self.assign(o),
            5 => self.unary(o),
            6 => self.observe_op(o),
            7 => self.check_reg((o[1] % 4) as usize, "read"),
            8 => {
                // move a number to another thread
                let a = (o[1] % 4) as usize;
                let h = self.regs[a].take();
                let p = rt(|| Box::into_raw(Box::new(h)) as u64);
                note(|| format!("send on channel {}", o[2]));
                send(o[2] as usize, p);
            }
            9 => match recv(o[2] as usize) {
                Some(p) => {
                    let d = (o[1] % 4) as usize;
                    let h: Option<Held> = rt(|| *unsafe { Box::from_raw(p as *mut Option<Held>) });
                    if h.is_some() {
                        probe(2);
                        self.drop_reg(d);
                        self.regs[d] = h;
                        self.check_reg(d, "on arrival");
                    }
                }
                None => self.dead = true,
            },
            10 => {
                if !self.globs.is_empty() {
                    let g = &self.globs[(o[1] as usize) % self.globs.len()];
                    Self::check(&g.v, &g.r, "a shared number");
                    if o[2] % 2 == 0 {
                        match op(|| "clone shared".into(), || g.v.clone()) {
                            Ok(v) => {
                                let w = rt(|| g.r.clone());
                                self.put("clone shared", (o[3] % 4) as usize, Ok(v), Some(w));
                            }
                            Err(e) => fail("unexpected-panic", &format!("clone panicked {e:?}")),
                        }
                    }
                }
            }
            11 => self.vector(o),
            12 => self.matrix(o),
            13 => self.complex(o),
            18 => self.reals(o),
            16 => self.primitive(o),
            17 => self.parse(o),
            15 => {
                // many handles to one number at once
                let a = (o[1] % 4) as usize;
                if self.regs[a].is_some() {
                    probe(6);
                    let n = [2, 17, 40, 130, 260][(o[2] % 5) as usize];
                    let mut many: Vec<BigInt> = rt(|| Vec::with_capacity(n));
                    for _ in 0..n {
                        let v = self.clone_of(a).unwrap();
                        rt(|| many.push(v));
                    }
                    while let Some(v) = rt(|| many.pop()) {
                        if let Err(e) = op(|| "drop one of many".into(), || drop(v)) {
                            fail("unexpected-panic", &format!("drop panicked {e:?}"));
                        }
                    }
                    rt(|| drop(many));
                    self.check_reg(a, "after many clones were dropped");
                }
            }
            _ => self.iter(o),
        }
    }
}

fn apply(sel: i64, a: Result<BigInt, &BigInt>, b: Result<BigInt, &BigInt>) -> BigInt {
    macro_rules! v {
        ($op:tt) => {
            match (a, b) {
                (Ok(a), Ok(b)) => a $op b,
                (Ok(a), Err(b)) => a $op b,
                (Err(a), Ok(b)) => a $op b,
                (Err(a), Err(b)) => a $op b,
            }
        };
    }
    match sel {
        0 => v!(+),
        1 => v!(-),
        2 => v!(*),
        3 => v!(&),
        4 => v!(|),
        5 => v!(^),
        6 => v!(<<),
        7 => v!(>>),
        8 => v!(/),
        _ => v!(%),
    }
}

/// Number of values that fit before the store grows, then the growth step (two growths), all
/// judged by how much memory stays allocated.
pub fn free_slots() -> Option<(usize, usize)> {
    let mut held: Vec<BigInt> = rt(Vec::new);
    let mut growth = rt(Vec::new);
    let mut k = 0u128;
    while growth.len() < 3 && k < 900 {
        let before = heap().0;
        let v = match op(|| format!("probe value {k}"), || BigInt::from((0xABCDu128 << 100) + k)) {
            Ok(v) => v,
            Err(e) => fail("unexpected-panic", &format!("creating a number panicked: {e:?}")),
        };
        if heap().0 > before + 80 {
            rt(|| growth.push(k as usize));
        }
        rt(|| held.push(v));
        k += 1;
    }
    while let Some(v) = rt(|| held.pop()) {
        let _ = op(|| "drop probe".into(), || drop(v));
    }
    rt(|| {
        let ok = growth.len() == 3 && growth[1] - growth[0] == growth[2] - growth[1];
        let r = if ok { Some((growth[0], growth[1] - growth[0])) } else { None };
        drop(held);
        drop(growth);
        r
    })
}

pub struct BigScen;
impl Scenario for BigScen {
    fn name(&self) -> &'static str {
        "big-integers"
    }
    fn real(&self) -> &'static str {
        "numeric-ints BigInt, its global store (numeric-utils), numeric-bits algorithms, vectors, matrices, complex, rational and fixed-point numbers and static iteration over BigInt"
    }
    fn stub(&self) -> &'static str {
        "OS scheduler, memory model, allocator, channels between threads, output sink"
    }
    fn probes(&self) -> &'static [&'static str] {
        &["operation_failed_for_memory", "shared_operand", "number_received", "leak_judged", "leak_not_judged", "history_run", "many_clones"]
    }
    fn oracle(&self, w: &Work) -> Option<Work> {
        if w.params[P_MASK] & BM_ORACLE == 0 {
            return None;
        }
        let mut w = w.clone();
        w.params[P_HIST] = 0;
        w.params[P_MASK] &= !BM_LEAK;
        Some(w)
    }
    fn gen(&self, r: &mut Rng, profile: i64) -> Work {
        let hist = if r.chance(0.5) { r.range(1, 1 << 30) } else { 0 };
        let glob = r.pick(&[0i64, 0, 1, 2, 3]);
        let salt = r.range(0, 11);
        let nt = r.pick(&[2usize, 2, 3, 3, 4]);
        let total = nt * r.range(3, 8) as usize;
        let nk = r.pick(&[1i64, 2, 3, 6, 36]);
        let base = r.range(0, 35);
        let mut threads: Vec<Vec<Op>> = vec![vec![]; nt];
        let mut pending = [[0u32; 5]; 5];
        let crowd = if r.chance(0.04) { r.pick(&[18i64, 40, 130, 257, 300]) } else if r.chance(0.001) { 66_000 } else { 0 };
        // twins: threads create the same number at the same time and then bring the copies together
        let twin = r.chance(0.25);
        if twin {
            let k = base;
            for t in 0..nt {
                threads[t].push([0, k, 0, r.range(0, 3)]);
                if r.chance(0.3) {
                    threads[t].push([2, 0, 0, 0]);
                    threads[t].push([0, k, 0, r.range(0, 3)]);
                }
            }
            for t in 0..nt {
                let d = (t + 1) % nt;
                threads[t].push([1, 0, 1, 0]);
                threads[t].push([8, 1, (t * 5 + d) as i64, 0]);
            }
            for t in 0..nt {
                let s = (t + nt - 1) % nt;
                threads[t].push([9, 1, (s * 5 + t) as i64, 0]);
                // registers 0 and 1 hold equal numbers now: compare, combine
                threads[t].push([6, r.pick(&[0i64, 1]), 4, 0]);
                let more: Op = match r.below(5) {
                    0 => [3, 1, 4 + 32, r.range(0, 1 << 20)],
                    1 => [3, r.pick(&[3i64, 4, 5]), 4 + 32, r.range(0, 1 << 20)],
                    2 => [11, 13, 4 + 64 * 1, 0],
                    3 => [2, 0, 0, 0],
                    _ => [6, r.range(0, 15), 4, 0],
                };
                threads[t].push(more);
            }
        }
        // solo: a number held once is changed, consumed or dropped while others come to hold the same number
        let solo = !twin && r.chance(0.2);
        if solo {
            let same = r.range(0, 1 << 20);
            for t in 0..nt {
                for _ in 0..r.range(1, 3) {
                    threads[t].push([0, base, 0, r.range(0, 3)]);
                    if r.chance(0.6) {
                        let code = r.pick(&[4i64, 4, 4, 3, 5, 16, 1, 2]);
                        let sel = if r.chance(0.5) { same } else { r.range(0, 1 << 20) };
                        // r0 in place, or combined with itself or a constant into r0
                        let regs = match code { 5 => 0, 16 => 16 * r.range(0, 11), 1 => 1, _ => r.pick(&[0i64, 0, 4]) };
                        threads[t].push([code, if code == 2 { 0 } else { sel }, regs, r.range(0, 1 << 20)]);
                    }
                    if r.chance(0.5) {
                        threads[t].push([0, base, 1, r.range(0, 3)]);
                    }
                    threads[t].push([7, r.range(0, 1), 0, 0]);
                }
            }
        }
        let total = if solo { nt * r.range(0, 3) as usize } else { total };
        let faulty = profile & BM_FAULTS != 0;
        // often all threads mostly do the same thing at the same time
        let theme: Option<(i64, i64)> = r.chance(0.3).then(|| {
            let c = if profile & BM_COMPOUND != 0 { r.pick(&[3i64, 11, 12, 13, 14, 18]) } else { r.pick(&[1i64, 3, 3, 4, 5, 6, 11, 14, 16, 17]) };
            (c, r.range(0, 1 << 20))
        });
        for _ in 0..total {
            let t = r.below(nt as u64) as usize;
            let comp = profile & BM_COMPOUND != 0;
            let mut code = if threads[t].len() < if comp { 2 } else { 1 } {
                r.pick(&[0i64, 0, 0, 10])
            } else if comp {
                r.pick(&[0i64, 2, 3, 7, 8, 8, 9, 9, 11, 11, 12, 12, 13, 13, 14, 14, 18, 18])
            } else if faulty {
                r.pick(&[0i64, 0, 0, 1, 2, 3, 3, 3, 4, 4, 4, 4, 4, 5, 5, 6, 7, 8, 8, 9, 9, 11, 12, 13, 14, 16, 16, 17, 18])
            } else if r.chance(0.01) {
                15
            } else {
                r.pick(&[0i64, 0, 0, 0, 1, 1, 2, 2, 2, 2, 3, 3, 3, 4, 5, 6, 6, 7, 7, 8, 8, 8, 9, 9, 9, 9, 10, 11, 14, 16, 16, 17])
            };
            let themed = theme.is_some() && threads[t].len() > 1 && r.chance(0.5);
            if themed {
                code = theme.unwrap().0;
            }
            if code == 9 {
                // receive only what some thread has sent in this (sequential) order
                let src: Vec<usize> = (0..nt).filter(|s| pending[*s][t] > 0).collect();
                if src.is_empty() {
                    code = 7;
                } else {
                    let s = src[r.below(src.len() as u64) as usize];
                    pending[s][t] -= 1;
                    threads[t].push([9, r.range(0, 3), (s * 5 + t) as i64, 0]);
                    continue;
                }
            }
            if code == 8 {
                let d = (t + 1 + r.below(nt as u64 - 1) as usize) % nt;
                pending[t][d] += 1;
                threads[t].push([8, r.pick(&[0i64, 0, 0, 1, 1, 2, 3]), (t * 5 + d) as i64, 0]);
                continue;
            }
            let sel = if code == 0 { (base + r.range(0, nk - 1) * 13) % 36 } else if themed { theme.unwrap().1 } else { r.range(0, 1 << 20) };
            // few registers keep operands present
            let regs = if r.chance(0.7) { r.pick(&[0i64, 1, 4, 5, 16, 17, 20, 21]) + 64 * r.pick(&[0i64, 1, 4, 5, 16, 17]) } else { r.range(0, 1 << 20) };
            threads[t].push([code, sel, if code == 0 { r.range(0, 2) } else { regs }, r.range(0, 1 << 20)]);
        }
        Work { params: vec![profile, hist, glob, salt, crowd], threads }
    }
    fn show(&self, w: &Work, o: &Op) -> String {
        match o[0] {
            0 => {
                let (n, m) = pool(o[1] % 36, w.params[P_POOL]);
                format!("r{} = {}{m:#x}", o[2] % 4, if n { "-" } else { "" })
            }
            1 => format!("r{} = clone r{}", o[2] % 4, o[1] % 4),
            2 => format!("drop r{}", o[1] % 4),
            3 => format!("r{} = r{} {} r{} (variant {})", o[2] / 16 % 4, o[2] % 4, ["+", "-", "*", "&", "|", "^", "<<", ">>", "/", "%"][(o[1] % 10) as usize], o[2] / 4 % 4, o[3]),
            4 => format!("r{} {} (r{} or constant, variant {})", o[2] % 4, ["+=", "-=", "*=", "/=", "%="][(o[1] % 5) as usize], o[2] / 4 % 4, o[3]),
            5 => format!("r{} = unary {} of r{}", o[2] / 4 % 4, o[1] % 16, o[2] % 4),
            6 => format!("observe {} of r{}, r{}", o[1] % 16, o[2] % 4, o[2] / 4 % 4),
            7 => format!("read r{}", o[1] % 4),
            8 => format!("send r{} to t{}", o[1] % 4, o[2] % 5 + 1),
            9 => format!("r{} = receive from t{}", o[1] % 4, o[2] / 5 + 1),
            10 => format!("shared number {} (clone: {})", o[1], o[2] % 2 == 0),
            11 => format!("vector operation {}", o[1] % 14),
            12 => format!("matrix operation {}", o[1] % 10),
            13 => format!("complex operation {}", o[1] % 9),
            16 => format!("r{} = primitive operation {} of r{} (type {}, variant {})", o[2] / 4 % 4, o[1] % 22, o[2] % 4, o[2] / 16 % 12, o[3]),
            17 => format!("r{} = parse ({}, {}, {})", o[2] % 4, o[1] % 12, o[2] / 4 % 3, o[3]),
            18 => format!("rational or fixed-point operation {}", o[1] % 18),
            15 => format!("many clones of r{} ({})", o[1] % 4, o[2] % 5),
            _ => format!("iteration {}", o[1] % 9),
        }
    }
    fn run(&self, w: &Work) {
        let mask = w.params[P_MASK];
        rt(|| unsafe { BOOK = Box::into_raw(Box::new(Book { obs: vec![vec![]; w.threads.len()] })) });
        faults(false);
        let mut kept: Vec<Held> = rt(Vec::new);
        if w.params[P_HIST] != 0 {
            // unrelated earlier activity; some of it stays alive
            probe(5);
            let mut r = rt(|| Rng::new(w.params[P_HIST] as u64));
            let mut n = r.pick(&[1u64, 3, 30, 31, 32, 33, 40]);
            let crowd = r.chance(0.03);
            if crowd {
                n = r.pick(&[65u64, 140, 290, 300]);
            }
            let keep = if crowd { r.pick(&[0.0, 0.95, 1.0]) } else { r.pick(&[0.0, 0.3, 1.0]) };
            for k in 0..n {
                let (_, mut m) = pool(k as i64, w.params[P_POOL]);
                if k >= 12 {
                    m = (m >> 8 | 1 << 90) + k as u128;
                }
                let v = match op(|| "earlier activity".into(), || BigInt::from(m)) {
                    Ok(v) => v,
                    Err(e) => fail("unexpected-panic", &format!("creating a number panicked: {e:?}")),
                };
                if rt(|| r.chance(keep)) {
                    rt(|| kept.push(Held { v, r: Ref::from_i(false, m) }));
                } else {
                    let _ = op(|| "drop".into(), || drop(v));
                }
            }
        }
        let mut globs: Vec<Held> = rt(Vec::new);
        for k in 0..w.params[P_GLOB] {
            let (neg, m) = pool(k * 5 + 3, w.params[P_POOL]);
            let m = if neg { m >> 1 } else { m };
            match op(|| "shared number".into(), || if neg { BigInt::from(-(m as i128)) } else { BigInt::from(m) }) {
                Ok(v) => rt(|| globs.push(Held { v, r: Ref::from_i(neg, m) })),
                Err(e) => fail("unexpected-panic", &format!("creating a number panicked: {e:?}")),
            }
        }
        let globs: &'static [Held] = rt(|| &*globs.leak());
        for g in globs {
            Local::check(&g.v, &g.r, "a shared number at the start");
        }
        let mut crowd: Vec<BigInt> = rt(Vec::new);
        if w.params[P_CROWD] > 0 && !globs.is_empty() {
            probe(6);
            for _ in 0..w.params[P_CROWD] {
                match op(|| "clone shared".into(), || globs[0].v.clone()) {
                    Ok(v) => rt(|| crowd.push(v)),
                    Err(e) => fail("unexpected-panic", &format!("clone panicked: {e:?}")),
                }
            }
        }
        faults(true);
        for (t, ops) in w.threads.iter().enumerate() {
            let ops: &'static Vec<Op> = rt(|| &*Box::leak(Box::new(ops.clone())));
            let pool = w.params[P_POOL];
            let f: Box<dyn FnOnce() + Send> = rt(|| {
                Box::new(move || {
                    let mut l = Local { me: t + 1, mask, pool, regs: [None, None, None, None], globs, obs: rt(Vec::new), dead: false };
                    for o in ops {
                        l.step(o);
                        if l.dead {
                            break;
                        }
                    }
                    l.check_all("at the end of the thread");
                    for i in 0..R {
                        l.drop_reg(i);
                    }
                    rt(|| {
                        book().obs[t] = core::mem::take(&mut l.obs);
                        drop(l);
                    });
                }) as Box<dyn FnOnce() + Send>
            });
            spawn(f);
        }
        join_all();
        faults(false);
        if let Some(v) = crowd.last() {
            Local::check(v, &globs[0].r, "one of many clones");
        }
        while let Some(v) = rt(|| crowd.pop()) {
            if let Err(e) = op(|| "drop one of many".into(), || drop(v)) {
                fail("unexpected-panic", &format!("drop panicked {e:?}"));
            }
        }
        rt(|| drop(crowd));
        for g in globs {
            Local::check(&g.v, &g.r, "a shared number at the end");
        }
        while let Some(h) = rt(|| kept.pop()) {
            Local::check(&h.v, &h.r, "a number created earlier");
            let Held { v, r } = h;
            let _ = op(|| "drop".into(), || drop(v));
            rt(|| drop(r));
        }
        for c in 0..25 {
            while let Some(p) = rt(|| try_recv(c)) {
                let h: Option<Held> = rt(|| *unsafe { Box::from_raw(p as *mut Option<Held>) });
                if let Some(Held { v, r }) = h {
                    Local::check(&v, &r, "a number in transit");
                    let _ = op(|| "drop".into(), || drop(v));
                    rt(|| drop(r));
                }
            }
        }
        rt(|| {
            for t in &book().obs {
                for l in t {
                    observe(l);
                }
            }
        });
        for g in globs {
            // SAFETY: nobody uses the shared numbers any more
            let v = unsafe { core::ptr::read(&g.v) };
            let _ = op(|| "drop shared number".into(), || drop(v));
        }
        if mask & BM_LEAK != 0 {
            match free_slots() {
                Some((free, step)) => {
                    probe(3);
                    if free % step != 0 {
                        fail("storage-leaked", &format!("every big integer was dropped, but only {free} new ones fit before the store grew (it grows by {step}): {} slot(s) are lost", step - free % step));
                    }
                }
                None => probe(4),
            }
        }
    }
}
