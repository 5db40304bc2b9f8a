//! Threads sharing one interning store of instrumented values.
use core::borrow::Borrow;
use numeric_utils::intern::InternId;
use numeric_utils::Interner;
use simrt::engine::{Map, VC};
use simrt::driver::{Op, Scenario, Work};
use simrt::*;

const MAGIC: u64 = 0x5EED_CAFE_F00D_1234;

/// The heap part of a value, and what lookups compare.
pub struct KeyV {
    key: u64,
    canary: u64,
}
impl KeyV {
    fn new(key: u64) -> KeyV {
        KeyV { key, canary: key ^ MAGIC }
    }
    fn check(&self, what: &str) -> u64 {
        let (k, c) = (self.key, self.canary);
        if c != k ^ MAGIC {
            fail("torn-value", &format!("{what} sees a half-written or destroyed value ({k:#x}, {c:#x})"));
        }
        k
    }
}
impl PartialEq for KeyV {
    fn eq(&self, o: &KeyV) -> bool {
        yield_point();
        callback_panic("equality");
        let a = self.check("lookup");
        yield_point();
        let b = o.check("lookup");
        a == b
    }
}

/// The stored value
pub struct Tok {
    id: u32,
    v: Box<KeyV>,
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        let v = Box::new(KeyV::new(self.v.check("clone")));
        Tok { id: ledger_new(), v }
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        *self.v == *o.v
    }
}
impl Borrow<KeyV> for Tok {
    fn borrow(&self) -> &KeyV {
        &self.v
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        yield_point();
        self.v.check("destructor");
        ledger_drop(self.id, "stored value");
        yield_point();
        // the destructor of a caller's own argument does not fail
        if rt(|| book().args[tid()]) != Some(self.id) {
            callback_panic("destruction");
        }
    }
}

/// What is handed to `add`
pub struct Req(KeyV, Slip);
/// records the end of a request
pub struct Slip(u32);
impl Req {
    fn new(key: u64) -> Req {
        Req(KeyV::new(key), Slip(ledger_new()))
    }
}
impl Drop for Slip {
    fn drop(&mut self) {
        ledger_drop(self.0, "value handed to the store");
    }
}
impl Borrow<KeyV> for Req {
    fn borrow(&self) -> &KeyV {
        &self.0
    }
}
impl From<Req> for Tok {
    fn from(r: Req) -> Tok {
        yield_point();
        callback_panic("conversion");
        let v = Box::new(KeyV::new(r.0.key));
        yield_point();
        Tok { id: ledger_new(), v }
    }
}

// check mask
pub const M_COUNT: i64 = 1;
pub const M_CANON: i64 = 2;
pub const M_DROPS: i64 = 4;
pub const M_REUSE: i64 = 8;
pub const M_FAULTS: i64 = 16; // allocation failures enabled inside operations

const P_MASK: usize = 0;
const P_CAP: usize = 1;
const P_PRE: usize = 2;
const P_DEAD: usize = 3; // seed of which prefilled values are released
const P_KEEP: usize = 4; // threads leave their references to the final check
const P_REFS: usize = 5; // further references to one prefilled value
const P_WILD: usize = 6; // threads release ids they may have no reference to, and read nothing

#[derive(Clone)]
struct Handle {
    uid: u64,
    id: usize,
    key: u64,
    epoch: (usize, u32),
    /// number of references this handle stands for
    mult: usize,
}

#[derive(Default)]
struct Book {
    next: u64,
    held: Vec<Handle>,
    releasing: Vec<(usize, u64)>,
    inflight: Vec<(u64, u64)>, // (call, key)
    overlap: Map<u64, bool>,
    left: Vec<Handle>,
    max_id: usize,
    /// calls of add so far
    calls: u64,
    /// per id: completed releases since it was last handed out
    released: Map<usize, Vec<(usize, u32)>>,
    /// per id: how often it was handed out
    uses: Map<usize, u64>,
    failed: Vec<(usize, u32)>,
    /// per thread: the owned value it is handing to add
    args: [Option<u32>; 8],
    /// runs with surplus releases, per id: successful interning calls, releases
    wild: Map<usize, (usize, usize)>,
}
static mut BOOK: *mut Book = core::ptr::null_mut();
#[allow(static_mut_refs)]
fn book() -> &'static mut Book {
    unsafe { &mut *BOOK }
}

struct Pending {
    call: u64,
    cands: Vec<u64>,
    ids: Vec<usize>,
    /// ids certainly dead when the call began, and how often each had been handed out
    dead: Vec<(usize, u64)>,
    others: u64,
    calls: u64,
}

fn add_begin(key: u64, vc: &VC) -> Pending {
    let b = book();
    b.next += 1;
    let call = b.next;
    let mut over = false;
    for (c, k) in b.inflight.clone() {
        if k == key {
            b.overlap.insert(c, true);
            over = true;
        }
    }
    b.overlap.insert(call, over);
    // a failed call this one is not ordered after may still be seen occupying a slot
    let others = b.inflight.len() as u64 + b.failed.iter().filter(|e| !hb(**e, vc)).count() as u64;
    b.inflight.push((call, key));
    b.calls += 1;
    let dead = b.released.iter()
        .filter(|(id, e)| e.iter().all(|e| hb(*e, vc)) && !b.held.iter().any(|h| h.id == **id) && !b.releasing.iter().any(|r| r.0 == **id))
        .map(|(id, _)| (*id, b.uses.get(id).copied().unwrap_or(0)))
        .collect();
    Pending {
        call, dead, others, calls: b.calls,
        cands: b.held.iter().filter(|h| h.key == key && hb(h.epoch, vc)).map(|h| h.uid).collect(),
        ids: b.held.iter().filter(|h| h.key == key).map(|h| h.id)
            .chain(b.releasing.iter().filter(|r| r.1 == key).map(|r| r.0)).collect(),
    }
}
fn add_end(p: Pending, key: u64, id: Option<usize>, grew: bool, vc: &VC, mask: i64) -> Option<Handle> {
    let b = book();
    b.inflight.retain(|x| x.0 != p.call);
    let over = b.overlap.remove(&p.call).unwrap_or(false);
    if id.is_none() {
        let t = tid();
        b.failed.push((t, vc[t]));
    }
    let id = id?;
    if grew && mask & M_REUSE != 0 {
        let idle = p.dead.iter().filter(|(d, n)| *d != id && b.uses.get(d).copied().unwrap_or(0) == *n).count() as u64;
        let rivals = p.others + (b.calls - p.calls);
        probe(10);
        if idle > rivals {
            fail("store-grew", &format!("interning value {key} enlarged the store although {idle} released slot(s) stayed unused during the call and only {rivals} other interning call(s) overlapped"));
        }
    }
    b.max_id = b.max_id.max(id);
    b.released.remove(&id);
    *b.uses.entry(id).or_default() += 1;
    if let Some(h) = b.held.iter().find(|h| h.id == id && h.key != key) {
        let m = format!("id {id} returned for value {key} while a reference to value {} under the same id is held", h.key);
        fail("aliased-id", &m);
    }
    if mask & M_CANON != 0 && !over && p.cands.iter().any(|u| b.held.iter().any(|h| h.uid == *u)) {
        probe(0);
        if !p.ids.contains(&id) {
            fail("second-copy", &format!("value {key} was referenced throughout the call under id(s) {:?}, but interning it returned id {id}", p.ids));
        }
    }
    b.next += 1;
    let t = tid();
    let h = Handle { uid: b.next, id, key, epoch: (t, vc[t]), mult: 1 };
    b.held.push(h.clone());
    Some(h)
}

fn verify(t: &Tok, h: &Handle, how: &str) {
    let k = t.v.check(how);
    if !ledger_live(t.id) {
        fail("destroyed-while-referenced", &format!("{how} of id {} (value {}) reached a destroyed value", h.id, h.key));
    }
    if k != h.key {
        fail("wrong-value", &format!("{how} of id {} gave value {k}, interned was {}", h.id, h.key));
    }
}

struct Local {
    st: &'static Interner<Tok>,
    mask: i64,
    hs: Vec<Handle>,
    borrows: Vec<(&'static Tok, Handle)>,
}
fn bad(e: Stop, what: &str) {
    if let Stop::Panic(m) = e {
        fail("unexpected-panic", &format!("{what} panicked: {m}"));
    }
}
impl Local {
    fn run<R>(&self, name: impl FnOnce() -> String, f: impl FnOnce() -> R) -> Result<R, Stop> {
        if self.mask & M_FAULTS != 0 {
            op_alloc_faults(name, f)
        } else {
            op(name, f)
        }
    }
    fn recheck(&self) {
        for (t, h) in &self.borrows {
            verify(t, h, "re-reading a borrow");
        }
    }
    fn add(&mut self, key: u64, owned: bool) {
        let vc = clock();
        let p = rt(|| add_begin(key, &vc));
        let st = self.st;
        let mut grew = false;
        let r = self.run(|| format!("add({key})"), || {
            let net = net_bytes();
            let id = if owned {
                {
                    let v = Box::new(KeyV::new(key));
                    let id = ledger_new();
                    rt(|| book().args[tid()] = Some(id));
                    st.add::<Tok, Tok>(Tok { id, v })
                }
            } else {
                st.add::<Req, KeyV>(Req::new(key))
            };
            grew = net_bytes() - net >= 128;
            id.into_usize()
        });
        let vc = clock();
        rt(|| book().args[tid()] = None);
        match r {
            Ok(id) => {
                let h = rt(|| add_end(p, key, Some(id), grew, &vc, self.mask)).unwrap();
                note(|| format!("  -> id {id}"));
                rt(|| self.hs.push(h));
            }
            Err(e) => {
                rt(|| add_end(p, key, None, false, &vc, self.mask));
                bad(e, "add");
            }
        }
    }
    fn release(&mut self, i: usize) {
        let h = rt(|| {
            let h = self.hs.swap_remove(i);
            self.borrows.retain(|b| b.1.uid != h.uid);
            let b = book();
            b.held.retain(|x| x.uid != h.uid);
            b.releasing.push((h.id, h.key));
            h
        });
        let st = self.st;
        let r = self.run(|| format!("decr(id {}) x{}", h.id, h.mult), || {
            for _ in 0..h.mult {
                st.decr(InternId::from_usize(h.id));
                progress();
            }
        });
        let vc = clock();
        rt(|| {
            let b = book();
            let k = b.releasing.iter().position(|x| *x == (h.id, h.key)).unwrap();
            b.releasing.swap_remove(k);
            let t = tid();
            b.released.entry(h.id).or_default().push((t, vc[t]));
        });
        if let Err(e) = r {
            bad(e, "decr");
        }
    }
    fn acquire(&mut self, i: usize, mult: usize) {
        let st = self.st;
        let h = rt(|| self.hs[i].clone());
        if let Err(e) = self.run(|| format!("incr(id {}) x{mult}", h.id), || {
            for _ in 0..mult {
                st.incr(InternId::from_usize(h.id));
                progress();
            }
        }) {
            bad(e, "incr");
        }
        let vc = clock();
        rt(|| {
            let b = book();
            b.next += 1;
            let t = tid();
            let h2 = Handle { uid: b.next, epoch: (t, vc[t]), mult, ..h };
            b.held.push(h2.clone());
            self.hs.push(h2);
        });
    }
    /// Every other thread is suspended or finished: nothing may wait for the suspended ones.
    fn alone(&self) {
        if !alone_with_stalled() {
            return;
        }
        probe(7);
        let st = self.st;
        let n = rt(|| book().max_id) / 32 * 32 + 32;
        peek(true);
        for i in (0..n).rev().take(96) {
            if op(|| format!("refcount(id {i}) next to a suspended thread"), || st.refcount(InternId::from_usize(i))).is_err() {
                continue;
            }
            let _ = op(|| format!("try_get(id {i}) next to a suspended thread"), || st.try_get(InternId::from_usize(i)).is_some());
        }
        peek(false);
    }
    /// Interning and releasing without regard to who holds what. Nothing is read through an id, so
    /// whatever the releases hit, the store itself has to stay sound.
    fn wild(&mut self, o: &Op) {
        let st = self.st;
        if o[0] == 0 {
            let key = o[1] as u64;
            let r = self.run(|| format!("add({key})"), || {
                let id = if o[3] == 1 {
                    let v = Box::new(KeyV::new(key));
                    let id = ledger_new();
                    rt(|| book().args[tid()] = Some(id));
                    st.add::<Tok, Tok>(Tok { id, v })
                } else {
                    st.add::<Req, KeyV>(Req::new(key))
                };
                id.into_usize()
            });
            rt(|| book().args[tid()] = None);
            match r {
                Ok(id) => {
                    note(|| format!("  -> id {id}"));
                    rt(|| {
                        book().wild.entry(id).or_default().0 += 1;
                        book().max_id = book().max_id.max(id);
                    });
                }
                Err(e) => bad(e, "add"),
            }
        } else {
            let id = (o[1] as usize) % (rt(|| book().max_id) + 1);
            probe(11);
            rt(|| book().wild.entry(id).or_default().1 += 1);
            if let Err(e) = self.run(|| format!("decr(id {id}), surplus or not"), || st.decr(InternId::from_usize(id))) {
                bad(e, "decr");
            }
        }
    }
    fn step(&mut self, o: &Op) {
        let n = self.hs.len();
        let pick = |x: i64| (x as usize) % n.max(1);
        let st = self.st;
        match o[0] {
            0 => self.add(o[1] as u64, o[3] == 1),
            1 if n > 0 => self.release(pick(o[1])),
            2 if n > 0 => self.acquire(pick(o[1]), 1),
            9 if n > 0 => {
                probe(8);
                self.acquire(pick(o[1]), [2, 18, 40, 135, 270][o[2] as usize % 5])
            }
            3 | 6 if n > 0 => {
                let h = rt(|| self.hs[pick(o[1])].clone());
                let r = self.run(|| format!("get(id {})", h.id), || {
                    let t: &'static Tok = st.get(InternId::from_usize(h.id));
                    verify(t, &h, "reading");
                    t
                });
                match r {
                    Ok(t) if o[0] == 6 => rt(|| self.borrows.push((t, h))),
                    Ok(_) => {}
                    Err(e) => bad(e, &format!("get of id {} (value {}), to which a reference is held,", h.id, h.key)),
                }
            }
            4 if n > 0 => {
                let h = rt(|| {
                    let h = self.hs.swap_remove(pick(o[1]));
                    self.borrows.retain(|b| b.1.uid != h.uid);
                    h
                });
                let p = rt(|| Box::into_raw(Box::new(h)) as u64);
                note(|| format!("send on channel {}", o[2]));
                send(o[2] as usize, p);
            }
            5 => {
                if let Some(p) = recv(o[2] as usize) {
                    rt(|| {
                        let h = *unsafe { Box::from_raw(p as *mut Handle) };
                        sim_note(&h);
                        self.hs.push(h);
                    });
                    probe(1);
                }
            }
            7 if n > 0 => {
                let h = rt(|| self.hs[pick(o[1])].clone());
                let mine: usize = self.hs.iter().filter(|x| x.id == h.id).map(|x| x.mult).sum();
                match self.run(|| format!("refcount(id {})", h.id), || st.refcount(InternId::from_usize(h.id))) {
                    Ok(c) => {
                        if self.mask & M_COUNT != 0 && c < mine {
                            fail("count-too-low", &format!("count of id {} is {c} while this thread alone holds {mine} references", h.id));
                        }
                    }
                    Err(e) => bad(e, "refcount"),
                }
            }
            8 if n > 0 => {
                let h = rt(|| self.hs[pick(o[1])].clone());
                match self.run(|| format!("try_get(id {})", h.id), || {
                    match st.try_get(InternId::from_usize(h.id)) {
                        Some(t) => verify(t, &h, "reading"),
                        None => fail("referenced-but-absent", &format!("id {} (value {}) reported absent while referenced", h.id, h.key)),
                    }
                }) {
                    Ok(()) => {}
                    Err(e) => bad(e, "try_get"),
                }
            }
            _ => {}
        }
        self.recheck();
    }
}
fn sim_note(h: &Handle) {
    let h = h.clone();
    simrt::engine::sim().note(|| format!("received id {} (value {})", h.id, h.key));
}

fn quiescent(st: &'static Interner<Tok>, mask: i64) -> usize {
    // walk all slots through the public interface
    let mut i = 0usize;
    loop {
        let c = match op(|| format!("refcount(id {i})"), || st.refcount(InternId::from_usize(i))) {
            Ok(c) => c,
            Err(_) => break, // past the end
        };
        if i > 10_000 {
            fail("harness", "no end of the store found");
        }
        let (want, key) = rt(|| {
            let b = book();
            let v: Vec<&Handle> = b.held.iter().filter(|h| h.id == i).collect();
            (v.iter().map(|h| h.mult).sum::<usize>(), v.first().map(|h| h.key))
        });
        if mask & M_COUNT != 0 && c != want {
            fail("count-wrong", &format!("at quiescence the count of id {i} is {c}, outstanding references are {want}"));
        }
        let r = op(|| format!("try_get(id {i})"), || st.try_get(InternId::from_usize(i)).map(|t| {
            let k = t.v.check("reading");
            if !ledger_live(t.id) {
                fail("destroyed-while-referenced", &format!("id {i} names a destroyed value"));
            }
            k
        }));
        match (r, key) {
            (Ok(Some(k)), Some(w)) if k == w => {}
            (Ok(Some(k)), Some(w)) => fail("wrong-value", &format!("id {i} reads {k}, interned was {w}")),
            (Ok(None), Some(w)) => fail("referenced-but-absent", &format!("id {i} (value {w}) reported absent while referenced")),
            (Ok(Some(k)), None) if mask & M_COUNT != 0 => fail("released-but-present", &format!("id {i} has no references but reads {k}")),
            (Err(Stop::Panic(m)), _) => fail("unexpected-panic", &format!("try_get panicked: {m}")),
            _ => {}
        }
        i += 1;
    }
    i
}

pub struct InternerScen;
impl Scenario for InternerScen {
    fn name(&self) -> &'static str {
        "interner"
    }
    fn real(&self) -> &'static str {
        "numeric-utils: interning store and growth list (instrumented build of the working tree)"
    }
    fn stub(&self) -> &'static str {
        "stored value type with failing/yielding callbacks; OS scheduler, memory model, allocator"
    }
    fn probes(&self) -> &'static [&'static str] {
        &["canonical_id_judged", "handle_received", "store_grew_during_run", "dead_slots_present_at_start", "reuse_round", "surplus_release", "final_counts_walked", "alone_with_a_suspended_thread", "many_references", "large_store", "growth_judged", "stray_release"]
    }
    fn gen(&self, r: &mut Rng, profile: i64) -> Work {
        let mask = profile & 0xFF;
        let mut pre = r.pick(&[0i64, 0, 1, 2, 3, 30, 31, 32, 33, 63, 64]);
        if r.chance(0.02) {
            pre = r.pick(&[127i64, 128, 129, 160, 255, 256, 257, 290]);
        }
        let cap = r.pick(&[0i64, 0, 0, 1, 32, 33, 70]);
        let dead = if r.chance(0.5) { r.range(1, 1 << 30) } else { 0 };
        let keep = r.range(0, 1);
        let nt = r.pick(&[2i64, 2, 3, 3, 4]);
        let nk = r.pick(&[1i64, 2, 2, 3, 4]);
        let len = r.range(2, 7);
        // some keys are among the prefilled ones, so that dead slots hold equal values
        let keys: Vec<i64> = (0..nk)
            .map(|k| if pre > 0 && r.chance(0.35) { 1000 + r.below(pre as u64) as i64 } else { k })
            .collect();
        let refs = if r.chance(0.04) { r.pick(&[17i64, 130, 257, 300]) } else if r.chance(0.002) { 66_000 } else { 0 };
        let churn = r.chance(0.4);
        let crowd = r.chance(0.08);
        let mut threads = vec![];
        if mask & (M_DROPS | M_COUNT) != 0 && mask & M_FAULTS == 0 && r.chance(0.1) {
            let pre = r.pick(&[1i64, 1, 2, 3]);
            for _ in 0..nt {
                threads.push((0..len + 1).map(|_| {
                    let hi = r.pick(&[0i64, 1, 2]);
                    [r.pick(&[0i64, 0, 1, 1, 1]), r.range(0, hi), 0, r.range(0, 1)]
                }).collect());
            }
            return Work { params: vec![mask, cap, pre, 0, 0, 0, 1], threads };
        }
        for _ in 0..nt {
            let mut ops: Vec<Op> = vec![];
            for i in 0..len {
                let k = r.pick(&keys);
                let h = r.range(0, 5);
                let c = r.pick(&[0i64, 0, 0, 0, 1, 2]);
                let code = if i == 0 {
                    r.pick(&[0i64, 0, 0, 5])
                } else if churn {
                    r.pick(&[0i64, 0, 0, 1, 1, 1, 3, 8])
                } else if crowd {
                    r.pick(&[0i64, 1, 1, 2, 3, 4, 5, 7, 8, 9])
                } else {
                    r.pick(&[0i64, 0, 0, 0, 1, 1, 1, 2, 3, 3, 4, 4, 5, 5, 6, 7, 8])
                };
                ops.push([code, if code == 0 { k } else { h }, c, if r.chance(0.25) { 1 } else { 0 }]);
            }
            threads.push(ops);
        }
        Work { params: vec![mask, cap, pre, dead, keep, refs, 0], threads }
    }
    fn show(&self, w: &Work, o: &Op) -> String {
        match o[0] {
            1 if w.params[P_WILD] == 1 => format!("decr(id {}), surplus or not", o[1]),
            0 => format!("add({}{})", o[1], if o[3] == 1 { ", owned" } else { "" }),
            1 => format!("release(handle {})", o[1]),
            2 => format!("acquire(handle {})", o[1]),
            3 => format!("read(handle {})", o[1]),
            4 => format!("send(handle {}, ch {})", o[1], o[2]),
            5 => format!("receive(ch {})", o[2]),
            6 => format!("borrow(handle {})", o[1]),
            7 => format!("count(handle {})", o[1]),
            9 => format!("acquire many(handle {}, {})", o[1], o[2]),
            _ => format!("try-read(handle {})", o[1]),
        }
    }
    fn run(&self, w: &Work) {
        let mask = w.params[P_MASK];
        rt(|| unsafe { BOOK = Box::into_raw(Box::default()) });
        let heap0 = heap();
        faults(false);
        let st: &'static Interner<Tok> = {
            let b = Box::new(if w.params[P_CAP] > 0 { Interner::with_capacity(w.params[P_CAP] as usize) } else { Interner::new() });
            unsafe { &*Box::into_raw(b) }
        };
        let mut main = Local { st, mask, hs: rt(Vec::new), borrows: rt(Vec::new) };
        for k in 0..w.params[P_PRE] {
            main.add(1000 + k as u64, false);
        }
        if w.params[P_DEAD] != 0 {
            let mut r = rt(|| Rng::new(w.params[P_DEAD] as u64));
            let p = rt(|| r.pick(&[0.05, 0.5, 1.0]));
            let mut i = main.hs.len();
            while i > 0 {
                i -= 1;
                if rt(|| r.chance(p)) {
                    main.release(i);
                    probe(3);
                }
            }
        }
        if w.params[P_REFS] > 0 && !main.hs.is_empty() {
            probe(8);
            main.acquire(0, w.params[P_REFS] as usize);
        }
        if w.params[P_PRE] > 64 {
            probe(9);
        }
        let pre_max = rt(|| book().max_id);
        let wild = w.params[P_WILD] == 1;
        if wild {
            rt(|| {
                let b = book();
                for h in main.hs.drain(..) {
                    b.wild.entry(h.id).or_default().0 += 1;
                }
                b.held.clear();
            });
        }
        faults(true);
        for (t, ops) in w.threads.iter().enumerate() {
            let ops: &'static Vec<Op> = rt(|| &*Box::leak(Box::new(ops.clone())));
            let keep = w.params[P_KEEP] != 0;
            let f: Box<dyn FnOnce() + Send> = rt(|| {
                Box::new(move || {
                    let mut l = Local { st, mask, hs: rt(Vec::new), borrows: rt(Vec::new) };
                    for o in ops {
                        if wild {
                            l.wild(o);
                        } else {
                            l.step(o);
                        }
                    }
                    l.alone();
                    if keep {
                        rt(|| {
                            l.borrows.clear();
                            book().left.append(&mut l.hs)
                        });
                    } else {
                        while !l.hs.is_empty() {
                            l.release(0);
                        }
                    }
                    rt(|| drop(l));
                    let _ = t;
                }) as Box<dyn FnOnce() + Send>
            });
            spawn(f);
        }
        join_all();
        faults(false);
        rt(|| {
            let b = book();
            main.hs.append(&mut b.left);
            // undelivered messages
            for c in 0..3 {
                loop {
                    match try_recv(c) {
                        Some(p) => main.hs.push(*unsafe { Box::from_raw(p as *mut Handle) }),
                        None => break,
                    }
                }
            }
            if b.max_id / 32 > pre_max / 32 {
                probe(2);
            }
        });
        probe(6);
        if wild {
            let top = rt(|| book().max_id);
            for i in 0..=top {
                let (adds, decrs) = rt(|| book().wild.get(&i).copied().unwrap_or_default());
                match op(|| format!("refcount(id {i})"), || st.refcount(InternId::from_usize(i))) {
                    Ok(c) => {
                        if mask & M_COUNT != 0 && (c > adds || c < adds.saturating_sub(decrs)) {
                            fail("count-wrong", &format!("at quiescence the count of id {i} is {c} after {adds} interning calls and {decrs} releases, some of them surplus"));
                        }
                    }
                    Err(e) => bad(e, "refcount"),
                }
            }
            // no slot is stuck: everything can be released and used again
            if mask & M_REUSE != 0 {
                for i in 0..=top {
                    for _ in 0..rt(|| book().wild.get(&i).copied().unwrap_or_default()).0 {
                        let _ = op(|| format!("decr(id {i})"), || st.decr(InternId::from_usize(i)));
                    }
                }
            }
        }
        let slots = if wild && mask & M_REUSE == 0 { 0 } else { quiescent(st, mask) };
        while !main.hs.is_empty() {
            main.release(0);
        }
        if mask & M_COUNT != 0 {
            // surplus releases are ignored
            if slots > 0 {
                probe(5);
                let top = rt(|| book().max_id);
                for i in (0..slots).filter(|i| *i == top || i % 5 == top % 5) {
                    if let Err(e) = op(|| format!("decr(id {i}) with no references"), || st.decr(InternId::from_usize(i))) {
                        bad(e, "surplus decr");
                    }
                }
            }
            quiescent(st, mask);
        }
        if mask & M_REUSE != 0 && slots > 0 && slots <= 320 {
            probe(4);
            for k in 0..slots {
                main.add(5_000_000 + k as u64, k % 2 == 1);
            }
            let mut ids: Vec<usize> = rt(|| main.hs.iter().map(|h| h.id).collect());
            rt(|| ids.sort());
            for k in 1..ids.len() {
                if ids[k] == ids[k - 1] {
                    fail("aliased-id", "two different values share an id");
                }
            }
            let now = quiescent(st, mask);
            if now != slots {
                fail("store-grew", &format!("all {slots} slots had been released, yet interning {slots} values grew the store to {now}"));
            }
            rt(|| drop(ids));
            while !main.hs.is_empty() {
                main.release(0);
            }
        }
        rt(|| drop(main));
        if let Err(e) = op(|| "drop of the store".into(), || drop(unsafe { Box::from_raw(st as *const _ as *mut Interner<Tok>) })) {
            bad(e, "drop");
        }
        if mask & M_DROPS != 0 {
            if ledger_count() != 0 {
                fail("value-leaked", &format!("{} stored value(s) never destroyed", ledger_count()));
            }
            let h = heap();
            if h != heap0 {
                fail("memory-leaked", &format!("heap before {heap0:?}, after the store was dropped {h:?} (bytes, blocks)"));
            }
        }
    }
}
