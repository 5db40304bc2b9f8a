//! Fixed-size iterations over owned elements, cut short anywhere.
use numeric_static_iter::{zip_all, IntoStaticIter, StaticIter, StaticRangeTo};
use numeric_traits::identity::{One, Zero};
use simrt::driver::{Op, Scenario, Work};
use simrt::*;
use std::ops::{Add, Mul};

const MAGIC: u64 = 0x5EED_F00D_1234_ABCD;

pub struct Tok {
    magic: u64,
    id: u32,
    src: u32,
    idx: usize,
    canary: Box<u64>,
    /// what went into a sum or product
    parts: Vec<(u32, usize)>,
}
impl Tok {
    fn new(src: u32, idx: usize) -> Tok {
        Tok { magic: MAGIC, id: ledger_new(), src, idx, canary: Box::new(MAGIC ^ idx as u64), parts: vec![(src, idx)] }
    }
    fn check(&self) {
        if self.magic != MAGIC || !ledger_live(self.id) {
            fail("not-an-element", "user code was handed memory that holds no live element");
        }
        if *self.canary != MAGIC ^ self.idx as u64 {
            fail("torn-element", &format!("element {}.{} is damaged", self.src, self.idx));
        }
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        if self.magic != MAGIC {
            fail("garbage-drop", "destructor ran on memory that holds no element");
        }
        ledger_drop(self.id, "element");
        self.magic = 0;
    }
}
fn join(mut a: Tok, mut b: Tok, what: &str) -> Tok {
    a.check();
    b.check();
    callback_panic(what);
    let mut t = Tok::new(99, 0);
    t.parts = std::mem::take(&mut a.parts);
    t.parts.append(&mut b.parts);
    t
}
impl Add for Tok {
    type Output = Tok;
    fn add(self, o: Tok) -> Tok {
        join(self, o, "add")
    }
}
impl Mul for Tok {
    type Output = Tok;
    fn mul(self, o: Tok) -> Tok {
        join(self, o, "mul")
    }
}
fn neutral(what: &str) -> Tok {
    callback_panic(what);
    let mut t = Tok::new(98, 0);
    t.parts = vec![];
    t
}
impl Zero for Tok {
    fn zero() -> Tok {
        neutral("zero")
    }
    fn is_zero(&self) -> bool {
        self.parts.is_empty()
    }
}
impl One for Tok {
    fn one() -> Tok {
        neutral("one")
    }
    fn is_one(&self) -> bool {
        self.parts.is_empty()
    }
}

/// The elements an item is made of
trait Look {
    fn look(&self, out: &mut Vec<(u32, usize)>);
}
impl Look for Tok {
    fn look(&self, out: &mut Vec<(u32, usize)>) {
        self.check();
        out.push((self.src, self.idx));
    }
}
impl Look for &Tok {
    fn look(&self, out: &mut Vec<(u32, usize)>) {
        (**self).look(out)
    }
}
impl Look for usize {
    fn look(&self, out: &mut Vec<(u32, usize)>) {
        out.push((50, *self));
    }
}
impl<A: Look, B: Look> Look for (A, B) {
    fn look(&self, out: &mut Vec<(u32, usize)>) {
        self.0.look(out);
        self.1.look(out);
    }
}
impl<A: Look, const M: usize> Look for [A; M] {
    fn look(&self, out: &mut Vec<(u32, usize)>) {
        for a in self {
            a.look(out);
        }
    }
}
fn seen<X: Look>(x: &X) -> Vec<(u32, usize)> {
    let mut v = vec![];
    x.look(&mut v);
    v
}

/// A callback stage: called for indices 0, 1, 2 ... and never again after it stopped the iteration
struct Stage {
    name: &'static str,
    want: &'static [u32],
    next: usize,
    over: bool,
    n: usize,
}
impl Stage {
    fn new(name: &'static str, want: &'static [u32], n: usize) -> Stage {
        Stage { name, want, next: 0, over: false, n }
    }
    fn call<X: Look>(&mut self, x: &X) {
        let got = seen(x);
        let i = self.next;
        if self.over {
            fail("called-after-stop", &format!("{} was called again after it had stopped the iteration", self.name));
        }
        if i >= self.n {
            fail("called-too-often", &format!("{} was called more than {} times", self.name, self.n));
        }
        self.expect(i, &got);
        self.next += 1;
        self.over = true;
        callback_panic(self.name);
        self.over = false;
    }
    fn expect(&self, i: usize, got: &[(u32, usize)]) {
        let want: Vec<(u32, usize)> = self.want.iter().map(|&s| (s, i)).collect();
        if got != &want[..] {
            fail("wrong-element", &format!("{} got elements {got:?} (source, index) as number {i}, expected {want:?}", self.name));
        }
    }
    fn stop(&mut self) -> bool {
        let s = callback_fault("stop the iteration");
        if s {
            self.over = true;
        }
        s
    }
}

fn arr<const N: usize>(src: u32) -> [Tok; N] {
    core::array::from_fn(|i| Tok::new(src, i))
}
fn remake(t: Tok, src: u32) -> Tok {
    Tok::new(src, t.idx)
}

/// A source written by the user, whose `idx` can panic
struct User<const N: usize> {
    st: Stage,
}
impl<const N: usize> StaticIter<N> for User<N> {
    type Item = Tok;
    unsafe fn idx(&mut self, idx: usize) -> Tok {
        if idx != self.st.next || idx >= N {
            fail("out-of-order", &format!("a source was asked for element {idx} after element {}", self.st.next as i64 - 1));
        }
        let t = Tok::new(7, idx);
        self.st.call(&t);
        t
    }
}

const NC: i64 = 16;
fn consume<I: StaticIter<N>, const N: usize>(mut it: I, want: &'static [u32], how: i64, cut: usize)
where
    I::Item: Look,
{
    let mut st = Stage::new("the consumer's callback", want, N);
    let chk = |a: &[I::Item; N]| {
        let s = Stage::new("the collected array", want, N);
        for (i, x) in a.iter().enumerate() {
            s.expect(i, &seen(x));
        }
    };
    match how {
        0 => {
            let a: [I::Item; N] = it.collect();
            chk(&a);
            probe(0);
        }
        1 => {
            let a: Option<[I::Item; N]> = it.map(|x| { st.call(&x); if st.stop() { None } else { Some(x) } }).collect();
            match &a {
                Some(a) => chk(a),
                None => {}
            }
            if a.is_none() != st.over || (a.is_some() && st.next != N) {
                fail("wrong-outcome", &format!("collecting into an option gave {} after {} of {N} elements, stopped: {}", if a.is_some() { "Some" } else { "None" }, st.next, st.over));
            }
            probe(if st.over { 1 } else { 0 });
        }
        2 | 3 => {
            let a: Result<[I::Item; N], (usize, Tok)> = it
                .map(|x| {
                    st.call(&x);
                    if st.stop() { Err((st.next - 1, Tok::new(60, st.next - 1))) } else { Ok(x) }
                })
                .collect();
            match &a {
                Ok(a) => chk(a),
                Err((i, e)) => {
                    e.check();
                    if *i + 1 != st.next || (e.src, e.idx) != (60, *i) {
                        fail("wrong-error", "the error reported is not the one that stopped the iteration");
                    }
                }
            }
            if a.is_err() != st.over || (a.is_ok() && st.next != N) {
                fail("wrong-outcome", &format!("collecting into a result gave {} after {} of {N} elements, stopped: {}", if a.is_ok() { "Ok" } else { "Err" }, st.next, st.over));
            }
            probe(if st.over { 1 } else { 0 });
        }
        4 | 5 => {
            let mut inner = false;
            let a: Option<Option<[I::Item; N]>> = it
                .map(|x| {
                    st.call(&x);
                    if st.stop() {
                        inner = how == 4;
                        if inner { Some(None) } else { None }
                    } else {
                        Some(Some(x))
                    }
                })
                .collect();
            let got = match &a {
                Some(Some(a)) => {
                    chk(a);
                    0
                }
                Some(None) => 1,
                None => 2,
            };
            if got != if !st.over { 0 } else if inner { 1 } else { 2 } || (got == 0 && st.next != N) {
                fail("wrong-outcome", &format!("collecting into nested options gave outcome {got} after {} of {N} elements", st.next));
            }
            probe(if st.over { 1 } else { 0 });
        }
        6 => {
            let a: Option<Result<[I::Item; N], Tok>> = it
                .map(|x| {
                    st.call(&x);
                    if st.stop() { Some(Err(Tok::new(60, 0))) } else { Some(Ok(x)) }
                })
                .collect();
            match &a {
                Some(Ok(a)) if !st.over && st.next == N => chk(a),
                Some(Err(e)) if st.over => e.check(),
                _ => fail("wrong-outcome", &format!("collecting into an option of a result gave the wrong variant after {} of {N} elements", st.next)),
            }
            probe(if st.over { 1 } else { 0 });
        }
        7 => {
            let v = it.fold(vec![Tok::new(61, 0)], |mut acc, x| {
                st.call(&x);
                acc.push(Tok::new(61, acc.len()));
                acc
            });
            if v.len() != N + 1 || st.next != N {
                fail("wrong-outcome", &format!("fold over {N} elements called its function {} times", st.next));
            }
            probe(0);
        }
        8 => {
            // keep the items themselves
            let v = it.fold(Vec::new(), |mut acc: Vec<I::Item>, x| {
                st.call(&x);
                acc.push(x);
                acc
            });
            for (i, x) in v.iter().enumerate() {
                st.expect(i, &seen(x));
            }
            if v.len() != N {
                fail("wrong-outcome", &format!("fold over {N} elements called its function {} times", v.len()));
            }
            probe(0);
        }
        9 => {
            let r: Result<Tok, (Tok, I::Item)> = it.try_fold(Tok::new(62, 0), |acc, x| {
                st.call(&x);
                acc.check();
                if st.stop() {
                    Err((Tok::new(63, st.next - 1), x))
                } else if st.next % 2 == 0 {
                    Ok(Tok::new(62, st.next))
                } else {
                    Ok(acc)
                }
            });
            match &r {
                Ok(t) if !st.over && st.next == N => t.check(),
                Err((t, x)) if st.over => {
                    t.check();
                    st.expect(st.next - 1, &seen(x));
                }
                _ => fail("wrong-outcome", &format!("try_fold returned the wrong variant after {} of {N} elements, stopped: {}", st.next, st.over)),
            }
            probe(if st.over { 1 } else { 0 });
        }
        10 | 11 => {
            let r = if how == 10 {
                it.any(|x| { st.call(&x); st.stop() })
            } else {
                !it.all(|x| { st.call(&x); !st.stop() })
            };
            if r != st.over || (!r && st.next != N) {
                fail("wrong-outcome", &format!("{} gave the wrong answer after {} of {N} elements", if how == 10 { "any" } else { "all" }, st.next));
            }
            probe(if st.over { 1 } else { 0 });
        }
        12 => {
            drop(it);
            probe(2);
        }
        13 => {
            let k = cut % (N + 1);
            for i in 0..k {
                let x = unsafe { it.idx(i) };
                st.call(&x);
            }
            drop(it);
            probe(3);
        }
        14 => {
            // two stages of callbacks
            let mut s2 = Stage::new("the second callback", want, N);
            let a: Option<[I::Item; N]> = it.map(|x| { st.call(&x); x }).enumerate().map(|(i, x)| {
                if i != s2.next {
                    fail("wrong-number", &format!("enumerate numbered element {} as {i}", s2.next));
                }
                s2.call(&x);
                if s2.stop() { None } else { Some(x) }
            }).collect();
            if let Some(a) = &a {
                chk(a);
            }
            if st.next != s2.next || a.is_none() != s2.over || (a.is_some() && st.next != N) {
                fail("wrong-outcome", "stages of one iteration were called a different number of times");
            }
            probe(if s2.over { 1 } else { 0 });
        }
        _ => {
            // collected, then iterated again by reference and by value
            let a: [I::Item; N] = it.collect();
            chk(&a);
            let b: [bool; N] = (&a).into_static_iter().map(|x| { st.call(x); true }).collect();
            let mut s2 = Stage::new("the second callback", want, N);
            let c: [I::Item; N] = a.into_static_iter().map(|x| { s2.call(&x); x }).collect();
            chk(&c);
            if b.iter().any(|x| !x) || s2.next != N {
                fail("wrong-outcome", "the second iteration did not visit every element");
            }
            probe(0);
        }
    }
}
impl Look for &(usize, Tok) {
    fn look(&self, out: &mut Vec<(u32, usize)>) {
        (**self).look(out)
    }
}

const NS: i64 = 23;
fn chain<const N: usize>(src: i64, how: i64, cut: usize) {
    let f = |t: Tok| {
        callback_panic("map");
        remake(t, 3)
    };
    match src {
        0 => consume(arr::<N>(1).into_static_iter(), &[1], how, cut),
        1 => {
            let a = arr::<N>(1);
            consume((&a).into_static_iter(), &[1], how, cut);
            for (i, t) in a.iter().enumerate() {
                if seen(t) != [(1, i)] {
                    fail("wrong-element", "an array iterated by reference was changed");
                }
            }
        }
        2 => consume(StaticRangeTo::<N>.into_static_iter(), &[50], how, cut),
        3 => consume(arr::<N>(1).into_static_iter().zip(arr::<N>(2)), &[1, 2], how, cut),
        4 => {
            let b = arr::<N>(2);
            consume(arr::<N>(1).into_static_iter().zip(&b), &[1, 2], how, cut)
        }
        5 => consume(arr::<N>(1).into_static_iter().enumerate(), &[50, 1], how, cut),
        6 => consume(arr::<N>(1).into_static_iter().map(f), &[3], how, cut),
        7 => consume(zip_all::<_, N>([arr::<N>(1), arr::<N>(2), arr::<N>(3)]), &[1, 2, 3], how, cut),
        8 => consume(zip_all::<_, N>((arr::<N>(1), arr::<N>(2))), &[1, 2], how, cut),
        9 => {
            let mut st = Stage::new("map over a zip", &[3, 2], N);
            consume(arr::<N>(1).into_static_iter().map(f).zip(arr::<N>(2)).map(|(a, b)| { let x = (b, a); st.call(&swap_ref(&x)); x.0.check(); x }), &[2, 3], how, cut)
        }
        10 => consume(zip_all::<_, N>([arr::<N>(1).into_static_iter().map(f), arr::<N>(2).into_static_iter().map(f)]), &[3, 3], how, cut),
        11 => consume(StaticRangeTo::<N>.into_static_iter().zip(arr::<N>(1)).enumerate(), &[50, 50, 1], how, cut),
        12 => consume(StaticRangeTo::<N>.into_static_iter().map(|i| { callback_panic("make"); Tok::new(5, i) }), &[5], how, cut),
        13 => consume(zip_all::<_, N>([arr::<N>(1)]), &[1], how, cut),
        14 => consume(User::<N> { st: Stage::new("a user-written source", &[7], N) }, &[7], how, cut),
        15 => consume(arr::<N>(1).into_static_iter().zip(User::<N> { st: Stage::new("a user-written source", &[7], N) }), &[1, 7], how, cut),
        16 => consume(zip_all::<_, N>((User::<N> { st: Stage::new("a user-written source", &[7], N) }, zip_all::<_, N>((arr::<N>(1), arr::<N>(2))))), &[7, 1, 2], how, cut),
        17 => consume(zip_all::<_, N>((arr::<N>(1), arr::<N>(2).into_static_iter().map(f))), &[1, 3], how, cut),
        18 => consume(zip_all::<_, N>((arr::<N>(1).into_static_iter().map(f), User::<N> { st: Stage::new("a user-written source", &[7], N) })), &[3, 7], how, cut),
        19 => consume(arr::<N>(1).into_static_iter().map(f).zip(arr::<N>(2).into_static_iter().map(f)).enumerate(), &[50, 3, 3], how, cut),
        20 => consume(zip_all::<_, N>([arr::<N>(1).into_static_iter().enumerate(), arr::<N>(2).into_static_iter().enumerate()]), &[50, 1, 50, 2], how, cut),
        21 => consume(zip_all::<_, N>([zip_all::<_, N>((arr::<N>(1), arr::<N>(2))), zip_all::<_, N>((arr::<N>(3), arr::<N>(4)))]), &[1, 2, 3, 4], how, cut),
        _ => {
            // sums and products
            let want: Vec<(u32, usize)> = (0..N).map(|i| (1, i)).collect();
            let t = match how % 4 {
                0 => arr::<N>(1).into_static_iter().sum(),
                1 => arr::<N>(1).into_static_iter().product(),
                2 => arr::<N>(0).into_static_iter().map(|t| { callback_panic("map"); remake(t, 1) }).sum(),
                _ => arr::<N>(0).into_static_iter().map(|t| { callback_panic("map"); remake(t, 1) }).product(),
            };
            t.check();
            if t.parts != want {
                fail("wrong-element", &format!("a sum or product was taken over {:?}, expected {want:?}", t.parts));
            }
            probe(0);
        }
    }
}
fn swap_ref<'a>(x: &'a (Tok, Tok)) -> (&'a Tok, &'a Tok) {
    (&x.1, &x.0)
}

pub struct IterScen;
impl Scenario for IterScen {
    fn name(&self) -> &'static str {
        "static-iteration"
    }
    fn real(&self) -> &'static str {
        "numeric-static-iter (instrumented build of the working tree)"
    }
    fn stub(&self) -> &'static str {
        "element type, callbacks, user-written sources; allocator"
    }
    fn probes(&self) -> &'static [&'static str] {
        &["completed", "stopped_early", "never_started", "partly_driven", "panicked"]
    }
    fn gen(&self, r: &mut Rng, profile: i64) -> Work {
        let n = r.pick(&[1, 1, 2, 4]);
        let ops = (0..n).map(|_| [r.range(0, NS - 1), r.range(0, NC - 1), r.pick(&[0, 1, 2, 3, 3, 5, 5, 5, 9]), { let hi = r.pick(&[5i64, 5, 5, 9]); r.range(0, hi) }]).collect();
        Work { params: vec![profile], threads: vec![ops] }
    }
    fn show(&self, _w: &Work, o: &Op) -> String {
        let s = ["owned array", "array by reference", "range", "owned zip owned", "owned zip reference", "enumerate(owned)", "map(owned)", "zip_all of 3 arrays", "zip_all of a pair",
            "map(zip(map(owned), owned))", "zip_all of 2 maps", "enumerate(zip(range, owned))", "map(range)", "zip_all of 1 array", "user-written source", "owned zip user source", "zip_all(user source, zip_all)", "zip_all(owned, map)", "zip_all(map, user source)", "enumerate(zip(map, map))", "zip_all of 2 enumerations", "zip_all of 2 zip_alls", "sum/product"][o[0] as usize % NS as usize];
        let c = ["collect array", "collect Option", "collect Result", "collect Result", "collect Option<Option> (inner)", "collect Option<Option> (outer)", "collect Option<Result>", "fold", "fold keeping items",
            "try_fold", "any", "all", "drop", "partial", "map+enumerate+collect Option", "collect, iterate again"][o[1] as usize % NC as usize];
        format!("{s} of {} -> {c} ({})", o[2], o[3])
    }
    fn run(&self, w: &Work) {
        let heap0 = heap();
        faults(true);
        for o in w.threads.iter().flatten() {
            let r = op(|| self.show(w, o), || match o[2] {
                0 => chain::<0>(o[0], o[1], o[3] as usize),
                1 => chain::<1>(o[0], o[1], o[3] as usize),
                2 => chain::<2>(o[0], o[1], o[3] as usize),
                3 => chain::<3>(o[0], o[1], o[3] as usize),
                9 => chain::<9>(o[0], o[1], o[3] as usize),
                _ => chain::<5>(o[0], o[1], o[3] as usize),
            });
            match r {
                Ok(()) => {}
                Err(Stop::Panic(m)) => fail("unexpected-panic", &format!("`{}` panicked: {m}", self.show(w, o))),
                Err(_) => probe(4),
            }
            if ledger_count() != 0 {
                fail("element-leaked", &format!("{} element(s) never destroyed after `{}`", ledger_count(), self.show(w, o)));
            }
            if heap() != heap0 {
                fail("memory-leaked", &format!("heap before {heap0:?}, after `{}` {:?} (bytes, blocks)", self.show(w, o), heap()));
            }
        }
    }
}
