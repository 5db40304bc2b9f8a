//! Vectors, matrices and complex numbers over elements whose every operation can fail.
use numeric_compounds::complex::Complex;
use numeric_compounds::matrix::{DynMatrix, Matrix, MatrixMut, MatrixRef};
use numeric_compounds::vector::Vector;
use numeric_static_iter::{IntoStaticIter, StaticIter};
use numeric_traits::class::{Numeric, Real, RealSigned, Signed};
use numeric_traits::identity::{One, Zero};
use numeric_traits::ops::checked::{CheckedAdd, CheckedSub};
use numeric_traits::ops::Pow;
use simrt::driver::{Op, Scenario, Work};
use simrt::*;
use std::cmp::Ordering;
use std::ops::*;

const MAGIC: u64 = 0x7E57_AB1E_E1E3_E217;
const P: u64 = 65521;

/// A number modulo P that knows whether it is alive
pub struct E {
    magic: u64,
    id: u32,
    v: u64,
    canary: Box<u64>,
}
impl E {
    fn new(v: u64) -> E {
        // the allocation can fail: before anything is recorded
        let canary = Box::new(MAGIC ^ v);
        E { magic: MAGIC, id: ledger_new(), v, canary }
    }
    fn get(&self) -> u64 {
        if self.magic != MAGIC || !ledger_live(self.id) {
            fail("not-an-element", "memory that holds no live element was used as one");
        }
        if *self.canary != MAGIC ^ self.v {
            fail("torn-element", "an element is damaged");
        }
        self.v
    }
}
impl Drop for E {
    fn drop(&mut self) {
        if self.magic != MAGIC {
            fail("garbage-drop", "destructor ran on memory that holds no element");
        }
        ledger_drop(self.id, "element");
        self.magic = 0;
    }
}
impl Clone for E {
    fn clone(&self) -> E {
        let v = self.get();
        callback_panic("clone");
        E::new(v)
    }
}
fn inv(x: u64) -> u64 {
    powm(x, P - 2)
}
fn powm(mut b: u64, mut e: u64) -> u64 {
    let mut r = 1;
    b %= P;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % P;
        }
        b = b * b % P;
        e >>= 1;
    }
    r
}
fn calc(k: i64, a: u64, b: u64) -> u64 {
    match k {
        0 => (a + b) % P,
        1 => (a + P - b) % P,
        2 => a * b % P,
        3 => a * inv(b) % P,
        _ => (a + 7 * b) % P,
    }
}
macro_rules! ops {
    ($($k:literal $t:ident $m:ident $ta:ident $ma:ident;)*) => {$(
        impl $t for E {
            type Output = E;
            fn $m(self, o: E) -> E {
                let v = calc($k, self.get(), o.get());
                callback_panic(stringify!($m));
                E::new(v)
            }
        }
        impl<'a> $t<&'a E> for E {
            type Output = E;
            fn $m(self, o: &'a E) -> E {
                let v = calc($k, self.get(), o.get());
                callback_panic(stringify!($m));
                E::new(v)
            }
        }
        impl $ta for E {
            fn $ma(&mut self, o: E) {
                *self += (&o, $k as i64);
            }
        }
        impl<'a> $ta<&'a E> for E {
            fn $ma(&mut self, o: &'a E) {
                *self += (o, $k as i64);
            }
        }
    )*}
}
ops! {
    0 Add add AddAssign add_assign;
    1 Sub sub SubAssign sub_assign;
    2 Mul mul MulAssign mul_assign;
    3 Div div DivAssign div_assign;
    4 Rem rem RemAssign rem_assign;
}
impl<'a> AddAssign<(&'a E, i64)> for E {
    fn add_assign(&mut self, o: (&'a E, i64)) {
        let v = calc(o.1, self.get(), o.0.get());
        callback_panic("assignment operator, before");
        *self = E::new(v);
        callback_panic("assignment operator, after");
    }
}
impl PartialEq for E {
    fn eq(&self, o: &E) -> bool {
        let r = self.get() == o.get();
        callback_panic("eq");
        r
    }
}
impl PartialOrd for E {
    fn partial_cmp(&self, o: &E) -> Option<Ordering> {
        let r = self.get().partial_cmp(&o.get());
        callback_panic("partial_cmp");
        r
    }
}
impl Zero for E {
    fn zero() -> E {
        callback_panic("zero");
        E::new(0)
    }
    fn is_zero(&self) -> bool {
        let r = self.get() == 0;
        callback_panic("is_zero");
        r
    }
}
impl One for E {
    fn one() -> E {
        callback_panic("one");
        E::new(1)
    }
    fn is_one(&self) -> bool {
        let r = self.get() == 1;
        callback_panic("is_one");
        r
    }
}
impl Default for E {
    fn default() -> E {
        callback_panic("default");
        E::new(3)
    }
}
impl Neg for E {
    type Output = E;
    fn neg(self) -> E {
        let v = (P - self.get()) % P;
        callback_panic("neg");
        E::new(v)
    }
}
impl Pow for E {
    type Output = E;
    fn pow(self, o: E) -> E {
        let v = powm(self.get(), o.get());
        callback_panic("pow");
        E::new(v)
    }
}
impl Numeric for E {}
impl Real for E {
    fn floor(self) -> E {
        self
    }
    fn ceil(self) -> E {
        self
    }
    fn round(self) -> E {
        self
    }
    fn trunc(self) -> E {
        self
    }
    fn fract(self) -> E {
        self
    }
    fn log(self, _b: E) -> E {
        self
    }
}
impl Signed for E {
    fn abs(self) -> E {
        self
    }
    fn is_positive(&self) -> bool {
        true
    }
    fn is_negative(&self) -> bool {
        false
    }
}
impl RealSigned for E {}
impl CheckedAdd for E {
    type Output = E;
    fn checked_add(self, o: E) -> Option<E> {
        let v = calc(0, self.get(), o.get());
        callback_panic("checked_add");
        if callback_fault("checked_add reports overflow") {
            rt(|| unsafe { REFUSED = true });
            None
        } else {
            Some(E::new(v))
        }
    }
}
impl CheckedSub for E {
    type Output = E;
    fn checked_sub(self, o: E) -> Option<E> {
        let v = calc(1, self.get(), o.get());
        callback_panic("checked_sub");
        if callback_fault("checked_sub reports overflow") {
            rt(|| unsafe { REFUSED = true });
            None
        } else {
            Some(E::new(v))
        }
    }
}
static mut REFUSED: bool = false;

/// Runs one operation with failures on; everything around it runs with failures off.
struct Ctx {
    held: usize,
    name: String,
}
impl Ctx {
    fn go<R>(&mut self, f: impl FnOnce() -> R) -> Option<R> {
        let n = self.name.clone();
        faults(true);
        let r = op_alloc_faults(|| n, f);
        faults(false);
        match r {
            Ok(r) => {
                probe(0);
                Some(r)
            }
            Err(Stop::Panic(m)) => fail("unexpected-panic", &format!("`{}` panicked: {m}", self.name)),
            Err(_) => {
                probe(1);
                None
            }
        }
    }
    /// the containers given hold exactly these live elements, and nothing else is alive
    fn audit(&self, cont: &[&E], want: Option<&[u64]>, alt: Option<&[u64]>) {
        let mut ids: Vec<u32> = vec![];
        for (i, e) in cont.iter().enumerate() {
            let v = e.get();
            ids.push(e.id);
            let ok = match (want, alt) {
                (Some(w), Some(a)) => v == w[i] || v == a[i],
                (Some(w), None) => v == w[i],
                _ => true,
            };
            if !ok {
                fail("wrong-element", &format!("after `{}` position {i} holds {v}, expected {}{}", self.name, want.unwrap()[i], alt.map(|a| format!(" or {}", a[i])).unwrap_or_default()));
            }
        }
        let n = ids.len();
        ids.sort();
        ids.dedup();
        if ids.len() != n {
            fail("element-duplicated", &format!("after `{}` one element is in two places", self.name));
        }
        if let Some(w) = want {
            if w.len() != n {
                fail("wrong-size", &format!("after `{}` there are {n} elements, expected {}", self.name, w.len()));
            }
        }
        if ledger_count() != n + self.held {
            fail("element-leaked", &format!("after `{}` {} elements are alive, its containers hold {n}", self.name, ledger_count() - self.held));
        }
    }
    /// nothing is left
    fn none(&self) {
        self.audit(&[], None, None)
    }
}

fn arr<const N: usize>(r: &mut Rng) -> ([E; N], Vec<u64>) {
    let v: Vec<u64> = (0..N).map(|_| if r.chance(0.15) { r.below(2) } else { r.below(P) }).collect();
    (core::array::from_fn(|i| E::new(v[i])), v)
}
fn refs<const N: usize>(v: &Vector<E, N>) -> Vec<&E> {
    (0..N).map(|i| &v[i]).collect()
}
fn mrefs<const R: usize, const C: usize>(m: &Matrix<E, R, C>) -> Vec<&E> {
    (0..R * C).map(|i| &m[(i / C, i % C)]).collect()
}
fn drefs(m: &DynMatrix<E>) -> Vec<&E> {
    (0..m.rows() * m.cols()).map(|i| &m[(i / m.cols(), i % m.cols())]).collect()
}
fn mat<const R: usize, const C: usize>(r: &mut Rng) -> (Matrix<E, R, C>, Vec<u64>) {
    let mut all = vec![];
    let m = Matrix::new(core::array::from_fn(|_| {
        let (a, v) = arr::<C>(r);
        all.extend(v);
        a
    }));
    (m, all)
}
fn zipc(k: i64, a: &[u64], b: &[u64]) -> Vec<u64> {
    a.iter().zip(b).map(|(&a, &b)| calc(k, a, b)).collect()
}

macro_rules! bin {
    ($k:expr, $a:expr, $b:expr) => {
        match $k {
            0 => $a + $b,
            1 => $a - $b,
            2 => $a * $b,
            3 => $a / $b,
            _ => $a % $b,
        }
    };
}
macro_rules! asg {
    ($k:expr, $a:expr, $b:expr) => {
        match $k {
            0 => $a += $b,
            1 => $a -= $b,
            2 => $a *= $b,
            3 => $a /= $b,
            _ => $a %= $b,
        }
    };
}

const NV: i64 = 17;
fn vec_op<const N: usize>(c: &mut Ctx, o: &Op, r: &mut Rng) {
    let (a, av) = arr::<N>(r);
    let (b, bv) = arr::<N>(r);
    let a = Vector::new(a);
    let b = Vector::new(b);
    let k = o[2] % 5;
    let done = |c: &Ctx, v: Option<Vector<E, N>>, want: &[u64]| {
        match &v {
            Some(v) => c.audit(&refs(v), Some(want), None),
            None => c.none(),
        }
        drop(v);
        c.none();
    };
    let one = |c: &Ctx, v: Option<E>, want: u64| {
        match &v {
            Some(v) => c.audit(&[v], Some(&[want]), None),
            None => c.none(),
        }
        drop(v);
        c.none();
    };
    match o[1] {
        0 => {
            let v = c.go(|| bin!(k, a, b));
            done(c, v, &zipc(k, &av, &bv));
        }
        1 => {
            c.held = N;
            let v = c.go(|| bin!(k, a, &b));
            for (x, w) in refs(&b).iter().zip(&bv) {
                if x.get() != *w {
                    fail("operand-changed", &format!("`{}` changed an operand taken by reference", c.name));
                }
            }
            done(c, v, &zipc(k, &av, &bv));
            drop(b);
        }
        2 | 3 => {
            drop(b);
            let s = r.below(P);
            let e = E::new(s);
            let w: Vec<u64> = av.iter().map(|&x| calc(k, x, s)).collect();
            if o[1] == 2 {
                let v = c.go(|| bin!(k, a, e));
                done(c, v, &w);
            } else {
                c.held = 1;
                let v = c.go(|| bin!(k, a, &e));
                e.get();
                done(c, v, &w);
            }
        }
        4 => {
            rt(|| unsafe { REFUSED = false });
            let (v, w) = if k % 2 == 0 { (c.go(|| a.checked_add(b)), zipc(0, &av, &bv)) } else { (c.go(|| a.checked_sub(b)), zipc(1, &av, &bv)) };
            match v {
                Some(None) => {
                    if !rt(|| unsafe { REFUSED }) {
                        fail("wrong-outcome", "a checked operation reported overflow although no element operation did");
                    }
                    c.none();
                    probe(2);
                }
                Some(Some(v)) => {
                    if rt(|| unsafe { REFUSED }) {
                        fail("wrong-outcome", "a checked operation succeeded although an element operation reported overflow");
                    }
                    done(c, Some(v), &w)
                }
                None => done(c, None, &w),
            }
        }
        5 => {
            drop(b);
            match k % 2 {
                0 => {
                    let v = c.go(|| a.sum());
                    one(c, v, av.iter().fold(0, |x, &y| calc(0, x, y)));
                }
                _ => {
                    let v = c.go(|| a.product());
                    one(c, v, av.iter().fold(1, |x, &y| calc(2, x, y)));
                }
            }
        }
        6 => {
            let v = c.go(|| Vector::dot_product(a, b));
            one(c, v, zipc(2, &av, &bv).iter().fold(0, |x, &y| calc(0, x, y)));
        }
        7 => {
            let v = c.go(|| if k % 2 == 0 { Vector::distance_squared(a, b) } else { Vector::distance(a, b) });
            if let Some(v) = &v {
                v.get();
            }
            c.held = v.is_some() as usize;
            c.none();
            drop(v);
            c.held = 0;
            c.none();
        }
        8 => {
            drop((a, b));
            match k {
                0 => {
                    let e = E::new(17);
                    let v = c.go(|| Vector::<E, N>::from_scalar(e));
                    done(c, v, &[17; N]);
                }
                1 => {
                    let v = c.go(Vector::<E, N>::zeroed);
                    done(c, v, &[0; N]);
                }
                2 => {
                    let v = c.go(<Vector<E, N> as Zero>::zero);
                    done(c, v, &[0; N]);
                }
                _ => {
                    let v = c.go(Vector::<E, N>::default);
                    done(c, v, &[3; N]);
                }
            }
        }
        9 => {
            drop(b);
            if k % 2 == 0 {
                let m = c.go(|| a.into_row());
                if let Some(m) = &m {
                    c.audit(&mrefs(m), Some(&av), None);
                } else {
                    c.none()
                }
                drop(m);
            } else {
                let m = c.go(|| a.into_column());
                if let Some(m) = &m {
                    c.audit(&mrefs(m), Some(&av), None);
                } else {
                    c.none()
                }
                drop(m);
            }
            c.none();
        }
        10 => {
            drop(b);
            c.held = N;
            let v = c.go(|| a.clone());
            for (x, w) in refs(&a).iter().zip(&av) {
                if x.get() != *w {
                    fail("operand-changed", "clone changed its source");
                }
            }
            done(c, v, &av);
            let q = c.go(|| (a == a, a.is_zero()));
            if let Some(q) = q {
                if !q.0 || q.1 != av.iter().all(|x| *x == 0) {
                    fail("wrong-outcome", "equality or is_zero is wrong");
                }
            }
            c.none();
            drop(a);
            c.held = 0;
            c.none();
        }
        11 => {
            let w = c.go(|| Vector::wedge(a, b));
            c.held = if w.is_some() { N * (N - 1) / 2 } else { 0 };
            c.none();
            drop(w);
            c.held = 0;
            c.none();
        }
        12 => {
            // array conversions and collection
            drop(b);
            let v = c.go(|| {
                let x: [E; N] = a.into();
                let y: [E; N] = x.into_static_iter().map(|e| { callback_panic("map"); e }).collect();
                Vector::from(y)
            });
            done(c, v, &av);
        }
        _ => {
            // in-place, several times on one vector
            let mut a = a;
            let mut av = av;
            drop(b);
            for j in 0..r.range(1, 4) {
                let k = (k + j) % 5;
                let (b, bv) = arr::<N>(r);
                let b = Vector::new(b);
                let s = bv[0];
                let sw: Vec<u64> = av.iter().map(|&x| calc(k, x, s)).collect();
                let vw = zipc(k, &av, &bv);
                let (fin, want) = match (o[1] + j) % 4 {
                    0 => (c.go(|| asg!(k, a, b)), vw),
                    1 => {
                        let q = c.go(|| asg!(k, a, &b));
                        for (x, w) in refs(&b).iter().zip(&bv) {
                            if x.get() != *w {
                                fail("operand-changed", &format!("`{}` changed an operand taken by reference", c.name));
                            }
                        }
                        drop(b);
                        (q, vw)
                    }
                    2 => {
                        drop(b);
                        let e = E::new(s);
                        (c.go(|| asg!(k, a, e)), sw)
                    }
                    _ => {
                        drop(b);
                        let e = E::new(s);
                        let q = c.go(|| asg!(k, a, &e));
                        e.get();
                        drop(e);
                        (q, sw)
                    }
                };
                match fin {
                    Some(()) => c.audit(&refs(&a), Some(&want), None),
                    None => {
                        c.audit(&refs(&a), Some(&av), Some(&want));
                        probe(3);
                    }
                }
                av = refs(&a).iter().map(|e| e.get()).collect();
                // plain replacement
                let i = r.below(N as u64) as usize;
                a[i] = E::new(i as u64 + 40);
                av[i] = i as u64 + 40;
                c.audit(&refs(&a), Some(&av), None);
            }
            drop(a);
            c.none();
        }
    }
}

macro_rules! named {
    ($c:expr, $r:expr, $v:ident, $av:expr, $n:literal, $(($i:literal $get:ident $mu:ident $set:ident))*) => {{
        let steps: Vec<(u64, u64, u64)> = (0..3).map(|_| ($r.below($n), $r.below(3), $r.below(P))).collect();
        let mut want: Vec<u64> = $av[..$n].to_vec();
        for s in &steps {
            if s.1 < 2 {
                want[s.0 as usize] = s.2;
            }
        }
        let done = $c.go(|| {
            for s in &steps {
                match *s {
                    $(
                        ($i, 0, x) => $v.$set(E::new(x)),
                        ($i, 1, x) => *$v.$mu() = E::new(x),
                        ($i, _, _) => { $v.$get().get(); }
                    )*
                    _ => {}
                }
            }
        }).is_some();
        $c.audit(&refs(&$v), if done { Some(&want) } else { None }, None);
        drop($v);
    }};
}

fn fixed_op(c: &mut Ctx, o: &Op, r: &mut Rng) {
    let (a, mut av) = arr::<4>(r);
    match o[1] % 4 {
        0 => {
            let [x, y, z, w] = a;
            let mut v = Vector::from_xyzw(x, y, z, w);
            named!(c, r, v, av, 4, (0 x x_mut set_x) (1 y y_mut set_y) (2 z z_mut set_z) (3 w w_mut set_w));
        }
        1 => {
            let [x, y, z, w] = a;
            drop(w);
            let mut v = Vector::from_xyz(x, y, z);
            named!(c, r, v, av, 3, (0 x x_mut set_x) (1 y y_mut set_y) (2 z z_mut set_z));
        }
        2 => {
            let [x, y, z, w] = a;
            drop((z, w));
            let mut v = Vector::from_xy(x, y);
            named!(c, r, v, av, 2, (0 x x_mut set_x) (1 y y_mut set_y));
        }
        _ => {
            let [x, y, z, w] = a;
            drop(w);
            av.truncate(3);
            let (b, bv) = arr::<3>(r);
            let v = c.go(|| Vector::from_xyz(x, y, z).cross(Vector::new(b)));
            let f = |i: usize, j: usize| (av[i] * bv[j] + P * P - av[j] * bv[i]) % P;
            match &v {
                Some(v) => c.audit(&refs(v), Some(&[f(1, 2), f(2, 0), f(0, 1)]), None),
                None => c.none(),
            }
            drop(v);
        }
    }
    c.none();
}

const NM: i64 = 13;
fn bad_rows(n: usize, r: &mut Rng) -> (usize, usize) {
    let x = n + r.below(3) as usize;
    let y = r.below(n as u64) as usize;
    if r.chance(0.5) { (x, y) } else { (y, x) }
}

fn mat_op<const R: usize, const C: usize, const K: usize>(c: &mut Ctx, o: &Op, r: &mut Rng) {
    let k = o[2] % 5;
    let done = |c: &Ctx, v: Option<Matrix<E, R, C>>, want: &[u64]| {
        match &v {
            Some(v) => c.audit(&mrefs(v), Some(want), None),
            None => c.none(),
        }
        drop(v);
        c.none();
    };
    let (a, mut av) = mat::<R, C>(r);
    match o[1] {
        0 | 1 => {
            let (b, bv) = mat::<R, C>(r);
            let k = k % 2;
            let v = c.go(|| if k == 0 { a + b } else { a - b });
            done(c, v, &zipc(k, &av, &bv));
        }
        2 | 3 => {
            let (b, bv) = mat::<C, K>(r);
            let v = c.go(|| a * b);
            match &v {
                Some(v) => {
                    let w: Vec<u64> = (0..R * K).map(|x| (0..C).fold(0, |s, t| (s + av[x / K * C + t] * bv[t * K + x % K]) % P)).collect();
                    c.audit(&mrefs(v), Some(&w), None)
                }
                None => c.none(),
            }
            drop(v);
            c.none();
        }
        4 => {
            let v = c.go(|| a.transpose());
            match &v {
                Some(v) => {
                    let w: Vec<u64> = (0..R * C).map(|x| av[x % R * C + x / R]).collect();
                    c.audit(&mrefs(v), Some(&w), None)
                }
                None => c.none(),
            }
            drop(v);
            c.none();
        }
        5 => {
            drop(a);
            let mut all = vec![];
            let cols: [Vector<E, R>; C] = core::array::from_fn(|_| {
                let (x, v) = arr::<R>(r);
                all.extend(v);
                Vector::new(x)
            });
            let v = c.go(|| Matrix::<E, R, C>::from_columns(cols));
            let w: Vec<u64> = (0..R * C).map(|x| all[x % C * R + x / C]).collect();
            done(c, v, &w);
        }
        6 => {
            drop(a);
            let mut all = vec![];
            let rows: [Vector<E, C>; R] = core::array::from_fn(|_| {
                let (x, v) = arr::<C>(r);
                all.extend(v);
                Vector::new(x)
            });
            let v = c.go(|| Matrix::<E, R, C>::from_rows(rows));
            done(c, v, &all);
        }
        7 => {
            c.held = R * C;
            let v = c.go(|| a.clone());
            for (x, w) in mrefs(&a).iter().zip(&av) {
                if x.get() != *w {
                    fail("operand-changed", "clone changed its source");
                }
            }
            done(c, v, &av);
            c.go(|| (a == a, a.is_zero(), a.is_one()));
            c.none();
            drop(a);
            c.held = 0;
            c.none();
        }
        8 => {
            drop(a);
            let v = c.go(|| match k % 3 {
                0 => Matrix::<E, R, C>::default(),
                1 => <Matrix<E, R, C> as Zero>::zero(),
                _ => <Matrix<E, R, C> as One>::one(),
            });
            let w: Vec<u64> = (0..R * C).map(|x| match k % 3 { 0 => 3, 1 => 0, _ => (x / C == x % C) as u64 }).collect();
            done(c, v, &w);
        }
        9 => {
            // in-place, static
            let mut a = a;
            for _ in 0..r.range(1, 4) {
                let (i, j) = (r.below(R as u64) as usize, r.below(R as u64) as usize);
                c.go(|| a.swap_rows(i, j));
                for t in 0..C {
                    av.swap(i * C + t, j * C + t);
                }
                c.audit(&mrefs(&a), Some(&av), None);
                let t = r.below(C as u64) as usize;
                let q = c.go(|| a[(i, t)] += E::new(5));
                let old = av.clone();
                av[i * C + t] = calc(0, av[i * C + t], 5);
                c.audit(&mrefs(&a), Some(&av), if q.is_none() { Some(&old) } else { None });
                av = mrefs(&a).iter().map(|e| e.get()).collect();
                {
                    let mut m = MatrixMut::from(&mut a);
                    m[(j, t)] = E::new(77);
                    if m[(j, t)].get() != 77 {
                        fail("wrong-element", "a write through a matrix view is not seen there");
                    }
                }
                av[j * C + t] = 77;
                let v = MatrixRef::from(&a);
                for x in 0..R * C {
                    if v[(x / C, x % C)].get() != av[x] {
                        fail("wrong-element", "a matrix view shows a different element");
                    }
                }
                c.audit(&mrefs(&a), Some(&av), None);
                if r.chance(0.3) {
                    // rows that do not exist
                    let (i, j) = bad_rows(R, r);
                    let n = c.name.clone();
                    let _ = op(|| n, || a.swap_rows(i, j));
                    c.audit(&mrefs(&a), Some(&av), None);
                }
            }
            drop(a);
            c.none();
        }
        10 => {
            // dynamic
            let rows: [[E; C]; R] = {
                drop(a);
                let mut all = vec![];
                let x = core::array::from_fn(|_| {
                    let (x, v) = arr::<C>(r);
                    all.extend(v);
                    x
                });
                av = all;
                x
            };
            let m = c.go(|| DynMatrix::from(rows));
            let Some(mut m) = m else {
                c.none();
                return;
            };
            c.audit(&drefs(&m), Some(&av), None);
            for _ in 0..r.range(1, 3) {
                let (i, j) = (r.below(R as u64) as usize, r.below(R as u64) as usize);
                c.go(|| m.swap_rows(i, j));
                if i != j {
                    for t in 0..C {
                        av.swap(i * C + t, j * C + t);
                    }
                }
                c.audit(&drefs(&m), Some(&av), None);
                let t = r.below(C as u64) as usize;
                m[(i, t)] = E::new(88);
                av[i * C + t] = 88;
                MatrixMut::from(&mut m)[(j, t)] = E::new(99);
                av[j * C + t] = 99;
                let v = MatrixRef::from(&m);
                for x in 0..R * C {
                    if v[(x / C, x % C)].get() != av[x] {
                        fail("wrong-element", "a matrix view shows a different element");
                    }
                }
                c.audit(&drefs(&m), Some(&av), None);
                if r.chance(0.3) {
                    let (i, j) = bad_rows(R, r);
                    let n = c.name.clone();
                    let _ = op(|| n, || m.swap_rows(i, j));
                    c.audit(&drefs(&m), Some(&av), None);
                }
            }
            c.held = R * C;
            let v = c.go(|| m.clone());
            match &v {
                Some(v) => c.audit(&drefs(v), Some(&av), None),
                None => c.none(),
            }
            drop(v);
            c.held = 0;
            c.audit(&drefs(&m), Some(&av), None);
            drop(m);
            c.none();
        }
        11 => {
            // a mismatched shape is refused, and the data destroyed
            drop(a);
            let v: Vec<E> = (0..R * C).map(|i| E::new(i as u64)).collect();
            let n = c.name.clone();
            faults(true);
            let q = op(|| n, || DynMatrix::new(v, R, C + 1));
            faults(false);
            if q.is_ok() {
                fail("wrong-outcome", "data of the wrong length was accepted");
            }
            drop(q);
            c.none();
        }
        _ => {
            drop(a);
            square_op(c, o, r);
        }
    }
}
fn square_op(c: &mut Ctx, o: &Op, r: &mut Rng) {
    match o[2] % 5 {
        0 => square::<2>(c, o, r),
        1 => square::<3>(c, o, r),
        2 => square::<4>(c, o, r),
        3 => square::<1>(c, o, r),
        _ => square::<5>(c, o, r),
    }
}
fn square<const N: usize>(c: &mut Ctx, o: &Op, r: &mut Rng) {
    let (a, av) = mat::<N, N>(r);
    match o[3] % 4 {
        0 => {
            c.held = N * N;
            let d = c.go(|| a.determinant());
            if let Some(d) = &d {
                d.get();
                c.held += 1;
            }
            c.none();
            drop(d);
            c.held = 0;
            c.audit(&mrefs(&a), Some(&av), None);
            drop(a);
        }
        1 => {
            let m = c.go(|| a.row_reduce());
            match &m {
                Some(m) => c.audit(&mrefs(m), None, None),
                None => c.none(),
            }
            drop(m);
        }
        2 => {
            c.held = N * N;
            let d = c.go(|| a.diag());
            let w: Vec<u64> = (0..N).map(|i| av[i * N + i]).collect();
            match &d {
                Some(d) => c.audit(&refs(d), Some(&w), None),
                None => c.none(),
            }
            drop(d);
            drop(a);
            c.held = 0;
        }
        _ => {
            let v: Vec<E> = av.iter().map(|&x| E::new(x)).collect();
            drop(a);
            let m = DynMatrix::new(v, N, N);
            let m = c.go(|| m.row_reduce());
            match &m {
                Some(m) => c.audit(&drefs(m), None, None),
                None => c.none(),
            }
            drop(m);
        }
    }
    c.none();
}

const NX: i64 = 14;
fn complex_op(c: &mut Ctx, o: &Op, r: &mut Rng) {
    let (a, av) = arr::<4>(r);
    let [p, q, s, t] = a;
    let cx = Complex::new(p, q);
    let m = |x: u64| x % P;
    let done = |c: &Ctx, v: Option<Complex<E>>, want: Option<[u64; 2]>| {
        match &v {
            Some(v) => c.audit(&[v.real(), v.imag()], want.as_ref().map(|w| &w[..]), None),
            None => c.none(),
        }
        drop(v);
        c.none();
    };
    match o[1] {
        0 => {
            let v = c.go(|| cx + Complex::new(s, t));
            done(c, v, Some([m(av[0] + av[2]), m(av[1] + av[3])]));
        }
        1 => {
            let v = c.go(|| cx - Complex::new(s, t));
            done(c, v, Some([calc(1, av[0], av[2]), calc(1, av[1], av[3])]));
        }
        2 | 3 => {
            let v = c.go(|| cx * Complex::new(s, t));
            done(c, v, Some([calc(1, calc(2, av[0], av[2]), calc(2, av[1], av[3])), m(av[0] * av[3] + av[2] * av[1])]));
        }
        4 | 5 => {
            let v = c.go(|| cx / Complex::new(s, t));
            done(c, v, None);
        }
        6 => {
            drop(t);
            let v = c.go(|| cx + s);
            done(c, v, Some([m(av[0] + av[2]), av[1]]));
        }
        7 => {
            drop(t);
            let v = c.go(|| cx - s);
            done(c, v, Some([calc(1, av[0], av[2]), av[1]]));
        }
        8 => {
            drop(t);
            let v = c.go(|| cx * s);
            done(c, v, Some([m(av[0] * av[2]), m(av[1] * av[2])]));
        }
        9 => {
            drop(t);
            let v = c.go(|| cx / s);
            done(c, v, None);
        }
        10 => {
            drop((s, t));
            c.held = 2;
            let v = c.go(|| cx.clone());
            done(c, v, Some([av[0], av[1]]));
            c.go(|| (cx == cx, cx.is_zero(), cx.is_one()));
            c.none();
            drop(cx);
            c.held = 0;
            c.none();
        }
        11 => {
            drop((s, t));
            c.held = 2;
            let v = c.go(|| if o[2] % 2 == 0 { cx.abs_squared() } else { cx.abs() });
            c.held = 2 + v.is_some() as usize;
            c.none();
            drop(v);
            drop(cx);
            c.held = 0;
            c.none();
        }
        12 => {
            drop((cx, t));
            let v = c.go(|| if o[2] % 2 == 0 { Complex::from_real(s) } else { Complex::from_imag(s) });
            done(c, v, Some(if o[2] % 2 == 0 { [av[2], 0] } else { [0, av[2]] }));
        }
        _ => {
            drop((cx, s, t));
            let v = c.go(|| match o[2] % 3 {
                0 => <Complex<E> as Zero>::zero(),
                1 => <Complex<E> as One>::one(),
                _ => Complex::default(),
            });
            done(c, v, Some(match o[2] % 3 { 0 => [0, 0], 1 => [1, 0], _ => [3, 3] }));
        }
    }
}

pub struct CompScen;
impl Scenario for CompScen {
    fn name(&self) -> &'static str {
        "compounds"
    }
    fn real(&self) -> &'static str {
        "numeric-compounds, numeric-static-iter (instrumented build of the working tree)"
    }
    fn stub(&self) -> &'static str {
        "element type and its operators; allocator"
    }
    fn probes(&self) -> &'static [&'static str] {
        &["completed", "interrupted", "checked_operation_refused", "in_place_operation_interrupted"]
    }
    fn gen(&self, r: &mut Rng, profile: i64) -> Work {
        let n = r.pick(&[1, 1, 2, 3]);
        let ops = (0..n)
            .map(|_| {
                let fam = r.pick(&[0i64, 0, 0, 1, 1, 1, 2, 3]);
                let k = match fam {
                    0 => r.range(0, NV - 1),
                    1 => r.range(0, NM + 1).min(NM - 1),
                    2 => r.range(0, NX - 1),
                    _ => r.range(0, 3),
                };
                [fam, k, r.range(0, 119), r.range(0, 1 << 20)]
            })
            .collect();
        Work { params: vec![profile], threads: vec![ops] }
    }
    fn show(&self, _w: &Work, o: &Op) -> String {
        let opn = ["+", "-", "*", "/", "%"][(o[2] % 5) as usize];
        match o[0] {
            0 => {
                let n = ["vector {} vector", "vector {} &vector", "vector {} scalar", "vector {} &scalar", "checked vector op {}", "sum/product {}", "dot product", "distance", "vector constructors {}", "into_row/into_column {}", "vector clone, eq",
                    "wedge", "array conversion", "vector {}= ...", "vector {}= ...", "vector {}= ...", "vector {}= ..."][o[1] as usize % NV as usize];
                format!("{} (size class {}, data {})", n.replace("{}", opn), o[2] / 5 % 6, o[3])
            }
            1 => {
                let n = ["matrix {} matrix", "matrix {} matrix", "matrix product", "matrix product", "transpose", "from_columns", "from_rows", "matrix clone, eq", "matrix constructors {}", "matrix in place", "dynamic matrix", "mismatched shape", "determinant / reduction / diagonal {}"][o[1] as usize % NM as usize];
                format!("{} (shape class {}, data {})", n.replace("{}", opn), o[2] / 5 % 8, o[3])
            }
            2 => format!("complex operation {} ({}, data {})", o[1], o[2], o[3]),
            _ => format!("fixed-size vector operation {} (data {})", o[1], o[3]),
        }
    }
    fn run(&self, w: &Work) {
        let heap0 = heap();
        faults(false);
        for o in w.threads.iter().flatten() {
            {
                let mut r = Rng::new(o[3] as u64);
                let mut c = rt(|| Ctx { held: 0, name: self.show(w, o) });
                match o[0] {
                    0 => match o[2] / 5 % 6 {
                        0 => vec_op::<2>(&mut c, o, &mut r),
                        1 => vec_op::<3>(&mut c, o, &mut r),
                        2 => vec_op::<4>(&mut c, o, &mut r),
                        3 => vec_op::<1>(&mut c, o, &mut r),
                        4 => vec_op::<6>(&mut c, o, &mut r),
                        _ => vec_op::<9>(&mut c, o, &mut r),
                    },
                    1 => match o[2] / 5 % 8 {
                        0 => mat_op::<2, 2, 2>(&mut c, o, &mut r),
                        1 => mat_op::<2, 3, 1>(&mut c, o, &mut r),
                        2 => mat_op::<3, 2, 3>(&mut c, o, &mut r),
                        3 => mat_op::<1, 3, 2>(&mut c, o, &mut r),
                        4 => mat_op::<4, 4, 4>(&mut c, o, &mut r),
                        5 => mat_op::<5, 4, 2>(&mut c, o, &mut r),
                        6 => mat_op::<1, 1, 1>(&mut c, o, &mut r),
                        _ => mat_op::<4, 6, 3>(&mut c, o, &mut r),
                    },
                    2 => complex_op(&mut c, o, &mut r),
                    _ => fixed_op(&mut c, o, &mut r),
                }
                rt(|| drop(c));
            }
            if heap() != heap0 {
                fail("memory-leaked", &format!("heap before {heap0:?}, after `{}` {:?} (bytes, blocks)", self.show(w, o), heap()));
            }
        }
    }
}
