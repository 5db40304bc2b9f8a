//! Threads sharing one growth list.
use numeric_utils::SimLinked;
use simrt::driver::{Op, Scenario, Work};
use simrt::*;

const MAGIC: u64 = 0xA11C_E5ED_0BAD_CAFE;

struct Elem {
    id: u32,
    key: u64,
    v: Box<[u64; 2]>,
}
impl Elem {
    fn new(key: u64) -> Elem {
        Elem { id: ledger_new(), key, v: Box::new([key, key ^ MAGIC]) }
    }
    fn read(&self) -> u64 {
        let k = self.key;
        if self.v[0] != k || self.v[1] != k ^ MAGIC {
            fail("torn-element", &format!("element {k} is half-written or destroyed"));
        }
        if !ledger_live(self.id) {
            fail("destroyed-element", &format!("element {k} was destroyed while in the list"));
        }
        k
    }
}
impl Drop for Elem {
    fn drop(&mut self) {
        ledger_drop(self.id, "list element");
    }
}

#[derive(Default)]
struct Book {
    /// the common order, as far as anybody has seen it
    order: Vec<Option<u64>>,
    /// every append that returned: (key, position)
    done: Vec<(u64, usize)>,
    failed: Vec<u64>,
}
static mut BOOK: *mut Book = core::ptr::null_mut();
fn book() -> &'static mut Book {
    unsafe { &mut *BOOK }
}
fn saw(pos: usize, key: u64, how: &str) {
    rt(|| {
        let b = book();
        if b.order.len() <= pos {
            b.order.resize(pos + 1, None);
        }
        match b.order[pos] {
            None => b.order[pos] = Some(key),
            Some(k) if k == key => {}
            Some(k) => fail("order-disagrees", &format!("{how}: position {pos} holds {key}, elsewhere it was seen to hold {k}")),
        }
        if b.failed.contains(&key) {
            fail("failed-append-visible", &format!("{how}: element {key} is in the list although its append failed"));
        }
    })
}

pub const LM_FAULTS: i64 = 1;

type L = SimLinked<Elem>;
struct Local {
    st: &'static L,
    me: u64,
    n: u64,
    /// number of leading elements this thread knows to be there
    low: usize,
    last: Option<usize>,
    /// a kept iterator, its position, and what this thread had seen when it was created
    it: Option<(Box<dyn Iterator<Item = &'static Elem>>, usize, usize)>,
    mask: i64,
}
fn bad(e: Stop, what: &str) {
    if let Stop::Panic(m) = e {
        fail("unexpected-panic", &format!("{what} panicked: {m}"));
    }
}
impl Local {
    fn run<R>(&self, name: impl FnOnce() -> String, f: impl FnOnce() -> R) -> Result<R, Stop> {
        if self.mask & LM_FAULTS != 0 {
            op_alloc_faults(name, f)
        } else {
            op(name, f)
        }
    }
    fn push(&mut self) {
        self.n += 1;
        let key = self.me * 1000 + self.n;
        let e = Elem::new(key);
        let st = self.st;
        match self.run(|| format!("push({key})"), move || st.push(e)) {
            Ok(l) => {
                note(|| format!("  -> length {l}"));
                if l == 0 {
                    fail("bad-length", "push returned length 0");
                }
                let pos = l - 1;
                rt(|| {
                    let b = book();
                    if let Some(o) = b.done.iter().find(|d| d.1 == pos) {
                        fail("same-position", &format!("appends of {} and {key} both returned length {l}", o.0));
                    }
                    b.done.push((key, pos));
                });
                if self.last.is_some_and(|p| p >= pos) || pos < self.low {
                    fail("position-went-back", &format!("append of {key} reported position {pos}, but this thread had already seen {} elements", self.low));
                }
                saw(pos, key, "push");
                self.last = Some(pos);
                self.low = self.low.max(l);
                self.get(pos);
            }
            Err(e) => {
                bad(e, "push");
                rt(|| book().failed.push(key));
            }
        }
    }
    fn get(&mut self, i: usize) {
        let st = self.st;
        match op(|| format!("get({i})"), || st.get(i).map(|e| e.read())) {
            Ok(Some(k)) => {
                saw(i, k, "get");
                self.low = self.low.max(i + 1);
            }
            Ok(None) => {
                if i < self.low {
                    fail("view-shrank", &format!("get({i}) found nothing, this thread had seen {} elements", self.low));
                }
            }
            Err(e) => bad(e, "get"),
        }
    }
    fn step(&mut self, o: &Op) {
        let st = self.st;
        let i = (o[1] as usize) % (self.low + 2);
        match o[0] {
            0 => self.push(),
            1 => self.get(i),
            2 => {
                let r = op(|| "iterate".into(), || {
                    let mut n = 0;
                    for e in st.iter() {
                        saw(n, e.read(), "iterate");
                        n += 1;
                    }
                    n
                });
                match r {
                    Ok(n) => {
                        if n < self.low {
                            fail("view-shrank", &format!("iteration ended after {n} elements, this thread had seen {}", self.low));
                        }
                        self.low = n;
                    }
                    Err(e) => bad(e, "iterate"),
                }
            }
            3 => match op(|| "len".into(), || (st.len(), st.is_empty())) {
                Ok((n, e)) => {
                    if n < self.low || (e && n > 0) {
                        fail("view-shrank", &format!("len is {n} (is_empty {e}), this thread had seen {} elements", self.low));
                    }
                    if n > self.low {
                        // what len counted is there
                        self.low = n;
                        self.get(n - 1);
                    }
                }
                Err(e) => bad(e, "len"),
            },
            4 => send(o[2] as usize, self.low as u64),
            5 => {
                if let Some(n) = recv(o[2] as usize) {
                    probe(0);
                    self.low = self.low.max(n as usize);
                }
            }
            6 => {
                // an iterator kept across other operations
                if self.it.is_none() {
                    match op(|| "iter".into(), || st.iter()) {
                        Ok(i) => self.it = rt(|| Some((Box::new(i) as Box<dyn Iterator<Item = &'static Elem>>, 0, self.low))),
                        Err(e) => bad(e, "iter"),
                    }
                }
                let (it, n, low) = self.it.as_mut().unwrap();
                let low = *low;
                for _ in 0..(o[1] % 3 + 1) {
                    let i = *n;
                    match op(|| format!("resume iteration at {i}"), || it.next().map(|e| e.read())) {
                        Ok(Some(k)) => {
                            saw(i, k, "resumed iteration");
                            *n += 1;
                        }
                        Ok(None) => {
                            if i < low {
                                fail("view-shrank", &format!("resumed iteration ended at {i}, this thread had seen {low} elements when it began"));
                            }
                        }
                        Err(e) => bad(e, "iterator"),
                    }
                }
                let n = *n;
                self.low = self.low.max(n);
                probe(1);
            }
            _ => {
                // indexing: present elements only
                if self.low > 0 {
                    let i = (o[1] as usize) % self.low;
                    match op(|| format!("index({i})"), || st[i].read()) {
                        Ok(k) => saw(i, k, "index"),
                        Err(e) => bad(e, "index of an element this thread had seen"),
                    }
                }
            }
        }
    }
}

pub struct ListScen;
impl Scenario for ListScen {
    fn name(&self) -> &'static str {
        "growth-list"
    }
    fn real(&self) -> &'static str {
        "numeric-utils: growth list (instrumented build of the working tree)"
    }
    fn stub(&self) -> &'static str {
        "element type; OS scheduler, memory model, allocator"
    }
    fn probes(&self) -> &'static [&'static str] {
        &["length_received", "iterator_resumed", "append_failed"]
    }
    fn gen(&self, r: &mut Rng, profile: i64) -> Work {
        let mut pre = r.pick(&[0i64, 0, 0, 1, 2, 5]);
        if r.chance(0.02) {
            pre = r.pick(&[30i64, 64, 130, 257]);
        }
        let nt = r.pick(&[2i64, 2, 3, 3, 4]);
        let len = r.range(1, 6);
        let heavy = r.chance(0.4);
        let threads = (0..nt)
            .map(|_| {
                (0..len)
                    .map(|_| {
                        let code = if heavy { r.pick(&[0i64, 0, 0, 0, 1, 3]) } else { r.pick(&[0i64, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 7]) };
                        [code, r.range(0, if pre > 9 { 300 } else { 9 }), r.range(0, 2), 0]
                    })
                    .collect()
            })
            .collect();
        Work { params: vec![profile, pre], threads }
    }
    fn show(&self, _w: &Work, o: &Op) -> String {
        match o[0] {
            0 => "push".into(),
            1 => format!("get({})", o[1]),
            2 => "iterate".into(),
            3 => "len".into(),
            4 => format!("send length on ch {}", o[2]),
            5 => format!("receive length on ch {}", o[2]),
            6 => format!("resume iterator by {}", o[1] % 3 + 1),
            _ => format!("index({})", o[1]),
        }
    }
    fn run(&self, w: &Work) {
        let mask = w.params[0];
        rt(|| unsafe { BOOK = Box::into_raw(Box::default()) });
        let heap0 = heap();
        faults(false);
        let st: &'static L = unsafe { &*Box::into_raw(Box::new(SimLinked::new())) };
        let mut main = Local { st, me: 0, n: 0, low: 0, last: None, it: None, mask };
        for _ in 0..w.params[1] {
            main.push();
        }
        faults(true);
        let (low, last) = (main.low, main.last);
        for (t, ops) in w.threads.iter().enumerate() {
            let ops: &'static Vec<Op> = rt(|| &*Box::leak(Box::new(ops.clone())));
            let f: Box<dyn FnOnce() + Send> = rt(|| {
                Box::new(move || {
                    let mut l = Local { st, me: t as u64 + 1, n: 0, low, last, it: None, mask };
                    for o in ops {
                        l.step(o);
                    }
                    rt(|| drop(l));
                }) as Box<dyn FnOnce() + Send>
            });
            spawn(f);
        }
        join_all();
        faults(false);
        // final order: every append exactly once, where it was reported
        let (total, fails) = rt(|| (book().done.len(), book().failed.len()));
        if fails > 0 {
            probe(2);
        }
        let mut n = 0;
        let r = op(|| "final iteration".into(), || {
            for e in st.iter() {
                let k = e.read();
                saw(n, k, "final iteration");
                rt(|| {
                    if !book().done.contains(&(k, n)) {
                        fail("wrong-position", &format!("final position {n} holds {k}, whose append reported {:?}", book().done.iter().find(|d| d.0 == k).map(|d| d.1)));
                    }
                });
                n += 1;
            }
            st.len()
        });
        match r {
            Ok(l) => {
                if n != total || l != total {
                    fail("append-lost", &format!("{total} appends returned, the final list iterates over {n} elements and reports length {l}"));
                }
            }
            Err(e) => bad(e, "iterate"),
        }
        if ledger_count() != total {
            fail("element-leaked", &format!("{} elements alive, {total} in the list", ledger_count()));
        }
        main.low = total;
        main.get(total);
        main.push();
        rt(|| drop(main));
        if let Err(e) = op(|| "drop of the list".into(), || drop(unsafe { Box::from_raw(st as *const _ as *mut L) })) {
            bad(e, "drop");
        }
        if ledger_count() != 0 {
            fail("element-leaked", &format!("{} element(s) never destroyed", ledger_count()));
        }
        let h = heap();
        if h != heap0 {
            fail("memory-leaked", &format!("heap before {heap0:?}, after the list was dropped {h:?} (bytes, blocks)"));
        }
    }
}
