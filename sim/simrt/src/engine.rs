//! The simulator: baton scheduler, weak-memory model, race and lifetime detector, arena allocator.
//!
//! Everything in here runs with the thread-local ON flag cleared, so it is never itself simulated.
//! Only the thread holding the baton touches `Sim`.
use crate::rng::Rng;
use crate::sys;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::atomic::{AtomicU32, Ordering::*};

pub const MAXT: usize = 8;
pub type VC = [u32; MAXT];

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
}
pub type Map<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[thread_local]
pub static mut ON: bool = false;
#[thread_local]
pub static mut TID: usize = 0;
/// > 0: allocation failures may be injected on this thread
#[thread_local]
pub static mut ALLOC_FAULTS: u32 = 0;

pub static mut SIM: *mut Sim = core::ptr::null_mut();

/// Run `f` outside the simulation (bookkeeping)
#[inline]
pub fn rt<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        let old = ON;
        ON = false;
        let r = f();
        ON = old;
        r
    }
}
#[inline]
#[allow(static_mut_refs)]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}

// ---- decisions -------------------------------------------------------------------------------
pub const K_SCHED: u8 = 0; // switch at a step: 0 = keep running, k = k-th other runnable thread
pub const K_STALE: u8 = 1; // atomic load: 0 = newest visible value, k = k-th older one
pub const K_PANIC: u8 = 2; // callback failure: 0 = none, 1 = panic / stop / error
pub const K_ALLOC: u8 = 3; // allocation failure
pub const K_STALL: u8 = 4; // suspend this thread until the others cannot continue
pub const K_PICK: u8 = 5; // who runs next when the current thread cannot
pub const K_IO: u8 = 6; // sink / generator failure
pub const K_WAKE: u8 = 7; // spurious end of a weak CAS
pub const NK: usize = 8;
pub const KNAMES: [&str; NK] = [
    "switch", "stale_read", "callback_fault", "alloc_failure", "stall", "pick", "io_fault", "weak_cas_failure",
];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
#[repr(C)]
pub struct Dec {
    pub tid: u8,
    pub kind: u8,
    pub cnt: u32,
    pub val: u32,
}

#[derive(Clone, Debug)]
pub enum Pol {
    /// never preempt
    Seq,
    /// at each step switch with probability p
    Rand(f64),
    /// as Rand, only at locations that several threads have accessed
    Hot(f64),
    /// switch at the given global steps only
    Few(Vec<u64>),
    /// strict priorities, with priority-drop points
    Pct(Vec<u64>),
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub seed: u64,
    pub pol: Pol,
    pub stale: f64,
    pub weak: f64,
    pub panic: f64,
    pub alloc: f64,
    pub io: f64,
    /// the k-th opportunity for a callback/alloc/io fault anywhere fires (deterministic position)
    pub panic_at: Option<u64>,
    pub alloc_at: Option<u64>,
    pub io_at: Option<u64>,
    /// (tid, local step) at which the thread is suspended
    pub stalls: Vec<(usize, u64)>,
}
impl Cfg {
    pub fn quiet(seed: u64) -> Cfg {
        Cfg {
            seed, pol: Pol::Seq, stale: 0., weak: 0., panic: 0., alloc: 0., io: 0.,
            panic_at: None, alloc_at: None, io_at: None, stalls: vec![],
        }
    }
}

#[derive(Clone)]
pub enum Mode {
    Gen,
    Replay(Map<(u8, u8, u32), u32>),
}

// ---- threads ---------------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Unborn,
    Run,
    Chan(usize),
    Join,
    Stalled,
    Done,
}
pub struct Thr {
    pub st: St,
    pub vc: VC,
    pub acq: VC,
    pub rel: VC,
    pub steps: u64,
    pub cnt: [u32; NK],
    pub prio: u64,
    pub op: String,
    /// bytes allocated minus bytes freed by this thread
    pub net: i64,
}

pub struct Store {
    val: u64,
    tid: u8,
    clk: u32,
    rel: Option<VC>,
}
pub struct Loc {
    ord: u32,
    base: u64,
    hist: Vec<Store>,
    /// per thread: (clock of read, absolute index read), increasing
    reads: [Vec<(u32, u64)>; MAXT],
    touched: u8,
}

#[derive(Clone, Copy)]
struct Acc {
    tid: u8,
    write: bool,
    atomic: bool,
    mask: u8,
    clk: u32,
}
#[derive(Default)]
struct Cell {
    accs: Vec<Acc>,
    has_loc: bool,
}

#[derive(Clone, Copy)]
struct Block {
    start: usize,
    len: usize,
    freed: bool,
    by: u8,
}

pub struct Chan {
    pub q: std::collections::VecDeque<(u64, VC)>,
}

pub const ARENA: usize = 0x6000_0000_0000;
pub const ARENA_SZ: usize = 512 << 20;

pub struct Sim {
    pub mode: Mode,
    pub cfg: Cfg,
    pub rng: Rng,
    pub thr: Vec<Thr>,
    pub cur: usize,
    pub locs: Map<usize, Loc>,
    cells: Map<usize, Cell>,
    blocks: Vec<Block>,
    brk: usize,
    pub chans: Vec<Chan>,
    pub steps: u64,
    pub switches: u64,
    pub since_switch: u64,
    pub since_progress: u64,
    pub progress_limit: u64,
    pub hash: u64,
    pub sched_hash: u64,
    pub states: std::collections::HashSet<u64, BuildHasherDefault<Fx>>,
    pub faults: [u64; NK],
    pub opps: [u64; NK],
    pub live_bytes: usize,
    pub live_blocks: usize,
    pub trace: Option<Vec<String>>,
    pub plain_acc: u64,
    pub atomics: u64,
    pub data: (usize, usize),
    pub ledger: Vec<u8>,
    pub ledger_live: usize,
    pub last_panic: String,
    pub obs: String,
    pub probes: [u64; 32],
    pub inject: bool,
    low_prio: u64,
    sc: VC,
    pub peak_live: usize,
    pub stall_ops: u64,
    pub opt_threads: usize,
    /// reads are not subject to race detection (inspection of values nobody holds)
    pub peek: bool,
}

static FUTEX: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];

fn join(a: &mut VC, b: &VC) {
    for i in 0..MAXT {
        if b[i] > a[i] {
            a[i] = b[i]
        }
    }
}

impl Sim {
    pub fn new(mode: Mode, cfg: Cfg, trace: bool) -> Sim {
        let mut rng = Rng::new(cfg.seed);
        let mut thr = vec![];
        for _ in 0..MAXT {
            let prio = 1_000_000 + rng.below(1_000_000);
            thr.push(Thr {
                st: St::Unborn, vc: [0; MAXT], acq: [0; MAXT], rel: [0; MAXT], steps: 0,
                cnt: [0; NK], prio, op: String::new(), net: 0,
            });
        }
        thr[0].st = St::Run;
        thr[0].vc[0] = 1;
        for f in &FUTEX {
            f.store(0, Relaxed);
        }
        let data = unsafe { (&sys::__data_start as *const u8 as usize, &sys::_end as *const u8 as usize) };
        Sim {
            mode, cfg, rng, thr, cur: 0, locs: Map::default(), cells: Map::default(), blocks: vec![],
            brk: ARENA + 64, chans: vec![], steps: 0, switches: 0, since_switch: 0, since_progress: 0,
            progress_limit: 300_000, hash: 0, sched_hash: 0, states: Default::default(), 
            faults: [0; NK], opps: [0; NK], live_bytes: 0, live_blocks: 0,
            trace: if trace { Some(vec![]) } else { None }, plain_acc: 0, atomics: 0, data,
            ledger: vec![], ledger_live: 0, last_panic: String::new(), obs: String::new(),
            probes: [0; 32], inject: true, low_prio: 999_999, sc: [0; MAXT], peak_live: 0, stall_ops: 0, opt_threads: 0, peek: false,
        }
    }

    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            if t.len() < 20_000 {
                let s = f();
                t.push(format!("[{}] t{} {}", self.steps, self.cur, s));
            }
        }
    }

    // ---- decisions
    pub fn decide(&mut self, kind: u8, n: u32, gen: impl FnOnce(&mut Sim) -> u32) -> u32 {
        let tid = self.cur;
        let cnt = self.thr[tid].cnt[kind as usize];
        self.thr[tid].cnt[kind as usize] += 1;
        self.opps[kind as usize] += 1;
        let v = match &self.mode {
            Mode::Replay(m) => {
                let v = m.get(&(tid as u8, kind, cnt)).copied().unwrap_or(0);
                if v >= n { 0 } else { v }
            }
            Mode::Gen => {
                let v = gen(self);
                if v >= n { 0 } else { v }
            }
        };
        if v != 0 {
            let d = Dec { tid: tid as u8, kind, cnt, val: v };
            // kept in shared memory so that it survives a crash of this process
            unsafe {
                let r = &mut *RES;
                if (r.ndec as usize) < MAXDEC {
                    r.decs[r.ndec as usize] = d;
                    r.ndec += 1;
                }
            }
            self.faults[kind as usize] += 1;
        }
        v
    }

    // ---- scheduling
    fn runnable(&self, but: usize) -> Vec<usize> {
        (0..self.thr.len()).filter(|&t| t != but && self.thr[t].st == St::Run).collect()
    }

    fn choose(&mut self, others: &[usize], hot: bool) -> u32 {
        let n = others.len() as u64;
        let step = self.steps;
        match &self.cfg.pol {
            Pol::Seq => 0,
            Pol::Rand(p) => {
                let p = *p;
                if self.rng.chance(p) { 1 + self.rng.below(n) as u32 } else { 0 }
            }
            Pol::Hot(p) => {
                let p = *p;
                if hot && self.rng.chance(p) { 1 + self.rng.below(n) as u32 } else { 0 }
            }
            Pol::Few(pts) => {
                if pts.contains(&step) { 1 + self.rng.below(n) as u32 } else { 0 }
            }
            Pol::Pct(pts) => {
                if pts.contains(&step) {
                    self.low_prio -= 1;
                    let c = self.cur;
                    self.thr[c].prio = self.low_prio;
                }
                let mut best = (self.thr[self.cur].prio, 0u32);
                for (i, &o) in others.iter().enumerate() {
                    if self.thr[o].prio > best.0 {
                        best = (self.thr[o].prio, i as u32 + 1);
                    }
                }
                best.1
            }
        }
    }

    /// Switch the baton to `next`; returns when the caller is scheduled again.
    fn switch(&mut self, next: usize) {
        let me = unsafe { TID };
        debug_assert!(next != me);
        self.cur = next;
        self.switches += 1;
        self.since_switch = 0;
        let ord = next as u64;
        self.sched_hash = (self.sched_hash.rotate_left(7) ^ ord).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.note(|| "runs".into());
        FUTEX[next].store(1, Release);
        sys::futex_wake(&FUTEX[next]);
        wait_baton(me);
    }

    fn progress(&mut self) {
        self.since_progress = 0;
    }

    /// A scheduling point before an operation of the current thread.
    pub fn point(&mut self, hot: bool) {
        self.steps += 1;
        self.since_switch += 1;
        self.since_progress += 1;
        let me = self.cur;
        self.thr[me].steps += 1;
        if self.since_progress > self.progress_limit {
            let s: Vec<String> = (0..self.thr.len())
                .filter(|&t| self.thr[t].st != St::Unborn)
                .map(|t| format!("t{} {:?} in `{}`", t, self.thr[t].st, self.thr[t].op))
                .collect();
            let m = format!("no operation completed within {} steps: {}", self.progress_limit, s.join("; "));
            fail("no-progress", &m);
        }
        let others = self.runnable(me);
        if others.is_empty() {
            return;
        }
        // suspension fault: leaves at least one other thread to run
        if me != 0 {
            let ls = self.thr[me].steps;
            let v = self.decide(K_STALL, 2, |s| s.cfg.stalls.contains(&(me, ls)) as u32);
            if v == 1 {
                self.thr[me].st = St::Stalled;
                let op = self.thr[me].op.clone();
                if !op.is_empty() {
                    self.stall_ops += 1;
                }
                self.note(|| format!("suspended inside `{op}`"));
                let k = self.decide(K_PICK, others.len() as u32, |s| s.rng.below(others.len() as u64) as u32);
                self.switch(others[k as usize]);
                return;
            }
        }
        let mut v = self.decide(K_SCHED, others.len() as u32 + 1, |s| s.choose(&others, hot));
        if v == 0 && self.since_switch > 4000 {
            // fairness: nobody keeps the processor for ever
            if matches!(self.cfg.pol, Pol::Pct(_)) {
                self.low_prio -= 1;
                self.thr[me].prio = self.low_prio;
            }
            v = 1 + ((me as u32 + (self.steps as u32)) % others.len() as u32);
        }
        if v != 0 {
            self.switch(others[v as usize - 1]);
        }
    }

    /// The current thread cannot run (its state is already set): give the baton away.
    fn yield_blocked(&mut self) {
        let me = self.cur;
        loop {
            let others = self.runnable(me);
            if !others.is_empty() {
                let k = self.decide(K_PICK, others.len() as u32, |s| {
                    if let Pol::Pct(_) = s.cfg.pol {
                        let mut b = 0;
                        for i in 0..others.len() {
                            if s.thr[others[i]].prio > s.thr[others[b]].prio {
                                b = i
                            }
                        }
                        b as u32
                    } else if let Pol::Seq = s.cfg.pol {
                        0
                    } else {
                        s.rng.below(others.len() as u64) as u32
                    }
                });
                self.switch(others[k as usize]);
                if self.thr[me].st == St::Run {
                    return;
                }
                continue;
            }
            // nobody can run: resume a suspended thread, then break waits, then the joiner
            if let Some(t) = (0..MAXT).find(|&t| self.thr[t].st == St::Stalled) {
                self.thr[t].st = St::Run;
                self.note(|| format!("t{t} resumed"));
            } else if let Some(t) = (0..MAXT).find(|&t| matches!(self.thr[t].st, St::Chan(_))) {
                self.thr[t].st = St::Run;
            } else if let Some(t) = (0..MAXT).find(|&t| self.thr[t].st == St::Join) {
                self.thr[t].st = St::Run;
            } else {
                fail("harness", "no thread can run");
            }
            if self.thr[me].st == St::Run {
                self.cur = me;
                return;
            }
        }
    }

    pub fn thread_done(&mut self) -> ! {
        let me = self.cur;
        self.progress();
        self.thr[me].st = St::Done;
        self.thr[me].op.clear();
        if (1..MAXT).all(|t| matches!(self.thr[t].st, St::Unborn | St::Done)) {
            self.thr[0].st = St::Run;
        }
        self.yield_blocked();
        fail("harness", "finished thread was scheduled");
    }

    pub fn join_all(&mut self) {
        if (1..MAXT).all(|t| matches!(self.thr[t].st, St::Unborn | St::Done)) {
            // nothing to wait for
        } else {
            self.thr[0].st = St::Join;
            self.yield_blocked();
        }
        for t in 1..MAXT {
            if self.thr[t].st == St::Done {
                let v = self.thr[t].vc;
                join(&mut self.thr[0].vc, &v);
                self.thr[t].st = St::Unborn;
            }
        }
        self.tick(0);
        // the world is sequential again: old accesses all happened before
        self.cells.retain(|_, c| {
            c.accs.clear();
            c.has_loc
        });
    }

    fn tick(&mut self, t: usize) {
        self.thr[t].vc[t] += 1;
    }

    // ---- channels
    pub fn chan_send(&mut self, ch: usize, v: u64) {
        self.point(true);
        while self.chans.len() <= ch {
            self.chans.push(Chan { q: Default::default() });
        }
        let me = self.cur;
        let vc = self.thr[me].vc;
        self.chans[ch].q.push_back((v, vc));
        self.tick(me);
        for t in 0..MAXT {
            if self.thr[t].st == St::Chan(ch) {
                self.thr[t].st = St::Run;
            }
        }
    }
    pub fn chan_recv(&mut self, ch: usize) -> Option<u64> {
        self.point(true);
        while self.chans.len() <= ch {
            self.chans.push(Chan { q: Default::default() });
        }
        let me = self.cur;
        if self.chans[ch].q.is_empty() {
            self.progress();
            self.thr[me].st = St::Chan(ch);
            self.yield_blocked();
        }
        let (v, vc) = self.chans[ch].q.pop_front()?;
        join(&mut self.thr[me].vc, &vc);
        self.tick(me);
        Some(v)
    }

    // ---- memory
    fn tracked(&self, p: usize) -> bool {
        (p >= ARENA && p < ARENA + ARENA_SZ) || (p >= self.data.0 && p < self.data.1)
    }

    fn block_of(&self, p: usize) -> Option<usize> {
        let i = self.blocks.partition_point(|b| b.start <= p);
        if i == 0 { None } else { Some(i - 1) }
    }

    fn check_block(&self, p: usize, n: usize, what: &str) {
        if p < ARENA || p >= ARENA + ARENA_SZ {
            return;
        }
        match self.block_of(p) {
            Some(i) if p + n <= self.blocks[i].start + self.blocks[i].len => {
                if self.blocks[i].freed {
                    let b = self.blocks[i];
                    fail("use-after-free", &format!(
                        "t{} {} {} byte(s) at +{} of a {}-byte allocation freed by t{} (in `{}`)",
                        self.cur, what, n, p - b.start, b.len, b.by, self.thr[self.cur].op));
                }
            }
            _ => fail("out-of-bounds", &format!(
                "t{} {} {} byte(s) outside any allocation (in `{}`)", self.cur, what, n, self.thr[self.cur].op)),
        }
    }

    fn hb(&self, tid: u8, clk: u32) -> bool {
        self.thr[self.cur].vc[tid as usize] >= clk
    }

    fn access(&mut self, p: usize, n: usize, write: bool, atomic: bool) {
        let me = self.cur as u8;
        let vc = self.thr[self.cur].vc;
        let clk = vc[self.cur];
        let mut a = p;
        let end = p + n;
        while a < end {
            let g = a & !7;
            let hi = end.min(g + 8);
            let mask: u8 = (((1u16 << (hi - a)) - 1) << (a - g)) as u8;
            let cell = self.cells.entry(g).or_default();
            let mut bad: Option<Acc> = None;
            let mut i = 0;
            while i < cell.accs.len() {
                let c = cell.accs[i];
                let ordered = c.tid == me || vc[c.tid as usize] >= c.clk;
                if c.mask & mask != 0 && !ordered && (c.write || write) && !(c.atomic && atomic) {
                    bad = Some(c);
                    break;
                }
                // forget entries superseded by this access
                if ordered && c.mask & !mask == 0
                    && ((write && !atomic) || (c.tid == me && c.write == write && c.atomic == atomic)
                        || (!c.write && write && c.atomic == atomic))
                {
                    cell.accs.swap_remove(i);
                    continue;
                }
                i += 1;
            }
            if let Some(c) = bad {
                let me_op = self.thr[self.cur].op.clone();
                let o_op = self.thr[c.tid as usize].op.clone();
                let k = |w: bool, at: bool| match (w, at) {
                    (true, true) => "atomic write",
                    (true, false) => "write",
                    (false, true) => "atomic read",
                    _ => "read",
                };
                fail("data-race", &format!(
                    "{} by t{} (in `{}`) races with {} by t{} (now in `{}`)",
                    k(write, atomic), me, me_op, k(c.write, c.atomic), c.tid, o_op));
            }
            cell.accs.push(Acc { tid: me, write, atomic, mask, clk });
            if atomic {
                cell.has_loc = true;
            } else if write && cell.has_loc {
                cell.has_loc = false;
                for b in 0..8 {
                    self.locs.remove(&(g + b));
                }
            }
            a = g + 8;
        }
    }

    pub fn plain(&mut self, p: usize, n: usize, write: bool) {
        if n == 0 || !self.tracked(p) {
            return;
        }
        self.plain_acc += 1;
        self.check_block(p, n, if write { "writes" } else { "reads" });
        if !(self.peek && !write) {
            self.access(p, n, write, false);
        }
    }

    fn loc(&mut self, p: usize, cur: u64) -> &mut Loc {
        let n = self.locs.len() as u32;
        let tid = self.cur as u8;
        self.locs.entry(p).or_insert_with(|| {
            // first atomic access: the value there was written by a plain write that happened
            // before (else it is reported as a race), so it is visible to everyone
            Loc { ord: n, base: 0, hist: vec![Store { val: cur, tid, clk: 0, rel: None }], reads: Default::default(), touched: 0 }
        })
    }

    fn is_hot(&self, p: usize) -> bool {
        match self.locs.get(&p) {
            Some(l) => (l.touched & !(1u8 << self.cur)) != 0,
            None => false,
        }
    }

    fn sig(&mut self, p: usize, k: u64, val: u64) {
        let me = self.cur as u64;
        let o = match self.locs.get_mut(&p) {
            Some(l) => {
                l.touched |= 1 << me;
                l.ord as u64
            }
            None => 0xFFFF,
        };
        let e = (me << 56) ^ (o << 32) ^ (k << 24);
        self.hash = (self.hash.rotate_left(9) ^ e ^ val.wrapping_mul(31)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    }

    unsafe fn raw_load(p: usize, size: usize) -> u64 {
        match size {
            1 => *(p as *const u8) as u64,
            2 => *(p as *const u16) as u64,
            4 => *(p as *const u32) as u64,
            _ => *(p as *const u64),
        }
    }
    unsafe fn raw_store(p: usize, size: usize, v: u64) {
        match size {
            1 => *(p as *mut u8) = v as u8,
            2 => *(p as *mut u16) = v as u16,
            4 => *(p as *mut u32) = v as u32,
            _ => *(p as *mut u64) = v,
        }
    }

    fn acquire(&mut self, rel: Option<VC>, mo: i32) {
        let me = self.cur;
        if let Some(r) = rel {
            if is_acq(mo) {
                join(&mut self.thr[me].vc, &r);
            } else {
                join(&mut self.thr[me].acq, &r);
            }
        }
    }
    fn release_clock(&self, mo: i32) -> Option<VC> {
        let me = self.cur;
        if is_rel(mo) {
            Some(self.thr[me].vc)
        } else if self.thr[me].rel != [0; MAXT] {
            Some(self.thr[me].rel)
        } else {
            None
        }
    }

    pub unsafe fn at_load(&mut self, p: usize, size: usize, mo: i32) -> u64 {
        if !self.tracked(p) {
            return Self::raw_load(p, size);
        }
        let hot = self.is_hot(p);
        self.point(hot);
        self.atomics += 1;
        self.check_block(p, size, "atomically reads");
        self.access(p, size, false, true);
        let cur = Self::raw_load(p, size);
        let me = self.cur;
        let vc = self.thr[me].vc;
        self.loc(p, cur);
        let (last, min) = {
            let l = &self.locs[&p];
            let last = l.hist.len() - 1;
            let mut min = 0usize;
            for (i, s) in l.hist.iter().enumerate().rev() {
                if vc[s.tid as usize] >= s.clk {
                    min = i;
                    break;
                }
            }
            for t in 0..MAXT {
                // read-read coherence along happens-before
                let k = l.reads[t].partition_point(|r| r.0 <= vc[t]);
                if k > 0 {
                    let idx = (l.reads[t][k - 1].1.saturating_sub(l.base)) as usize;
                    min = min.max(idx);
                }
            }
            (last, min)
        };
        let mut idx = last;
        if last > min && mo != 5 && !self.peek {
            let n = (last - min + 1) as u32;
            let v = self.decide(K_STALE, n, |s| {
                let st = s.cfg.stale;
                if st > 0. && s.rng.chance(st) { 1 + s.rng.below(n as u64 - 1) as u32 } else { 0 }
            });
            idx = last - v as usize;
        }
        let (val, rel, abs) = {
            let l = &self.locs[&p];
            (l.hist[idx].val, l.hist[idx].rel, l.base + idx as u64)
        };
        self.acquire(rel, mo);
        let clk = self.thr[me].vc[me];
        let l = self.locs.get_mut(&p).unwrap();
        match l.reads[me].last_mut() {
            Some(r) if r.1 == abs => {}
            Some(r) if r.0 == clk => r.1 = abs,
            _ => l.reads[me].push((clk, abs)),
        }
        self.tick(me);
        self.sig(p, 1 + (idx != last) as u64, val);
        val
    }

    unsafe fn push_store(&mut self, p: usize, size: usize, val: u64, rel: Option<VC>) {
        Self::raw_store(p, size, val);
        let me = self.cur;
        let clk = self.thr[me].vc[me];
        let l = self.locs.get_mut(&p).unwrap();
        l.hist.push(Store { val, tid: me as u8, clk, rel });
        if l.hist.len() > 24 {
            l.hist.remove(0);
            l.base += 1;
        }
        let abs = l.base + l.hist.len() as u64 - 1;
        match l.reads[me].last_mut() {
            Some(r) if r.0 == clk => r.1 = abs,
            _ => l.reads[me].push((clk, abs)),
        }
        self.tick(me);
    }

    pub unsafe fn at_store(&mut self, p: usize, size: usize, val: u64, mo: i32) {
        if !self.tracked(p) {
            return Self::raw_store(p, size, val);
        }
        let hot = self.is_hot(p);
        self.point(hot);
        self.atomics += 1;
        self.check_block(p, size, "atomically writes");
        self.access(p, size, true, true);
        let cur = Self::raw_load(p, size);
        self.loc(p, cur);
        let rel = self.release_clock(mo);
        self.push_store(p, size, val, rel);
        self.sig(p, 3, val);
    }

    /// Read-modify-write; `f` returns None to fail (CAS). Returns the value read.
    pub unsafe fn at_rmw(&mut self, p: usize, size: usize, mo: i32, fail_mo: i32, weak: bool,
                         f: impl FnOnce(u64) -> Option<u64>) -> u64 {
        if !self.tracked(p) {
            let v = Self::raw_load(p, size);
            if let Some(n) = f(v) {
                Self::raw_store(p, size, n);
            }
            return v;
        }
        let _ = weak;
        let hot = self.is_hot(p);
        self.point(hot);
        self.atomics += 1;
        self.check_block(p, size, "atomically updates");
        let cur = Self::raw_load(p, size);
        match f(cur) {
            Some(n) => {
                self.access(p, size, true, true);
                self.loc(p, cur);
                let prev = self.locs[&p].hist.last().unwrap().rel;
                self.acquire(prev, mo);
                let mut rel = self.release_clock(mo);
                // an RMW continues the release sequence it read from
                match (&mut rel, prev) {
                    (Some(r), Some(q)) => join(r, &q),
                    (None, q) => rel = q,
                    _ => {}
                }
                self.push_store(p, size, n, rel);
                self.sig(p, 4, n);
            }
            None => {
                self.access(p, size, false, true);
                self.loc(p, cur);
                let prev = self.locs[&p].hist.last().unwrap().rel;
                self.acquire(prev, fail_mo);
                let me = self.cur;
                let clk = self.thr[me].vc[me];
                let l = self.locs.get_mut(&p).unwrap();
                let abs = l.base + l.hist.len() as u64 - 1;
                match l.reads[me].last_mut() {
                    Some(r) if r.1 == abs => {}
                    Some(r) if r.0 == clk => r.1 = abs,
                    _ => l.reads[me].push((clk, abs)),
                }
                self.tick(me);
                self.sig(p, 5, cur);
            }
        }
        cur
    }

    pub fn fence(&mut self, mo: i32) {
        self.point(false);
        let me = self.cur;
        if mo == 5 {
            // sequentially consistent fences are totally ordered; modelled (more strongly than
            // required, so never a false alarm) as synchronising with all earlier ones
            let g = self.sc;
            join(&mut self.thr[me].vc, &g);
            let v = self.thr[me].vc;
            join(&mut self.sc, &v);
        }
        if is_acq(mo) {
            let a = self.thr[me].acq;
            join(&mut self.thr[me].vc, &a);
        }
        if is_rel(mo) {
            self.thr[me].rel = self.thr[me].vc;
        }
        self.tick(me);
    }

    // ---- heap
    fn alloc(&mut self, size: usize, align: usize, zero: bool) -> *mut u8 {
        let al = align.max(16);
        let start = (self.brk + al - 1) & !(al - 1);
        if start + size + 64 > ARENA + ARENA_SZ {
            fail("harness", "arena exhausted");
        }
        self.brk = start + size.max(1) + 32;
        self.blocks.push(Block { start, len: size, freed: false, by: 0 });
        self.live_bytes += size;
        self.thr[self.cur].net += size as i64;
        self.live_blocks += 1;
        self.peak_live = self.peak_live.max(self.live_bytes);
        if !zero && size <= 8192 {
            unsafe { core::ptr::write_bytes(start as *mut u8, 0xA5, size) };
        }
        start as *mut u8
    }
    fn free(&mut self, p: usize, check: bool) {
        let i = match self.block_of(p) {
            Some(i) if self.blocks[i].start == p => i,
            _ => {
                fail("bad-free", &format!("t{} frees a pointer that is not the start of an allocation", self.cur));
            }
        };
        if self.blocks[i].freed {
            fail("double-free", &format!(
                "t{} frees a {}-byte allocation already freed by t{} (in `{}`)",
                self.cur, self.blocks[i].len, self.blocks[i].by, self.thr[self.cur].op));
        }
        let len = self.blocks[i].len;
        if check && len > 0 {
            // freeing conflicts with every unordered access
            self.access(p, len.min(4096), true, false);
        }
        self.blocks[i].freed = true;
        self.blocks[i].by = self.cur as u8;
        self.live_bytes -= len;
        self.thr[self.cur].net -= len as i64;
        self.live_blocks -= 1;
        if len <= 8192 {
            unsafe { core::ptr::write_bytes(p as *mut u8, 0xDD, len) };
        }
    }
}

pub fn is_acq(mo: i32) -> bool {
    matches!(mo, 1 | 2 | 4 | 5)
}
pub fn is_rel(mo: i32) -> bool {
    matches!(mo, 3 | 4 | 5)
}

pub fn wait_baton(me: usize) {
    while FUTEX[me].load(Acquire) == 0 {
        sys::futex_wait(&FUTEX[me], 0);
    }
    FUTEX[me].store(0, Relaxed);
}

/// Spawn a simulated thread; it runs when the scheduler first picks it.
pub fn spawn(f: Box<dyn FnOnce() + Send>) {
    rt(|| {
        let s = sim();
        let t = (1..MAXT).find(|&t| s.thr[t].st == St::Unborn).expect("too many threads");
        let pv = s.thr[s.cur].vc;
        join(&mut s.thr[t].vc, &pv);
        s.thr[t].vc[t] += 1;
        let c = s.cur;
        s.tick(c);
        s.thr[t].st = St::Run;
        std::thread::Builder::new()
            .stack_size(512 << 10)
            .spawn(move || {
                unsafe { TID = t };
                wait_baton(t);
                unsafe { ON = true };
                f();
                unsafe { ON = false };
                sim().thread_done();
            })
            .expect("spawn");
    })
}

// ---- results ---------------------------------------------------------------------------------
pub const MAXDEC: usize = 120_000;
pub const OBS: usize = 512 << 10;
pub const TRACE: usize = 4 << 20;
#[repr(C)]
pub struct Res {
    pub status: u32, // 0 = died, 1 = held, 2 = violation, 3 = harness error
    pub kind: [u8; 64],
    pub msg: [u8; 2048],
    pub steps: u64,
    pub switches: u64,
    pub atomics: u64,
    pub plain: u64,
    pub hash: u64,
    pub sched_hash: u64,
    pub faults: [u64; NK],
    pub opps: [u64; NK],
    pub probes: [u64; 32],
    pub stall_ops: u64,
    pub ndec: u32,
    pub decs: [Dec; MAXDEC],
    pub nobs: u32,
    pub obs: [u8; OBS],
    pub ntrace: u32,
    pub trace: [u8; TRACE],
}
pub static mut RES: *mut Res = core::ptr::null_mut();

fn put(dst: &mut [u8], s: &str) -> u32 {
    let mut n = s.len().min(dst.len());
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    dst[..n].copy_from_slice(&s.as_bytes()[..n]);
    if n < dst.len() {
        dst[n] = 0;
    }
    n as u32
}

pub fn finish(status: u32, kind: &str, msg: &str) -> ! {
    unsafe {
        ON = false;
        let s = sim();
        let r = &mut *RES;
        put(&mut r.kind, kind);
        put(&mut r.msg, msg);
        r.steps = s.steps;
        r.switches = s.switches;
        r.atomics = s.atomics;
        r.plain = s.plain_acc;
        r.hash = s.hash;
        r.sched_hash = s.sched_hash;
        r.faults = s.faults;
        r.opps = s.opps;
        r.probes = s.probes;
        r.stall_ops = s.stall_ops;
        r.nobs = put(&mut r.obs, &s.obs);
        r.ntrace = 0;
        if let Some(t) = &s.trace {
            r.ntrace = put(&mut r.trace, &t.join("\n"));
        }
        r.status = status;
        sys::_exit(0);
    }
}

pub fn fail(kind: &str, msg: &str) -> ! {
    unsafe { ON = false };
    sim().note(|| format!("VIOLATION {kind}: {msg}"));
    finish(if kind == "harness" { 3 } else { 2 }, kind, msg)
}

// ---- allocator -------------------------------------------------------------------------------
pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON {
            return System.alloc(l);
        }
        ON = false;
        let p = sim_alloc(l, false);
        ON = true;
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !ON {
            return System.alloc_zeroed(l);
        }
        ON = false;
        let p = sim_alloc(l, true);
        ON = true;
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if a >= ARENA && a < ARENA + ARENA_SZ {
            let old = ON;
            ON = false;
            sim().free(a, old);
            ON = old;
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let a = p as usize;
        let in_arena = a >= ARENA && a < ARENA + ARENA_SZ;
        if !in_arena && !ON {
            return System.realloc(p, l, new);
        }
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            core::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}
unsafe fn sim_alloc(l: Layout, zero: bool) -> *mut u8 {
    let s = sim();
    if ALLOC_FAULTS > 0 && s.inject && !std::thread::panicking() {
        let v = s.decide(K_ALLOC, 2, |s| {
            let k = s.opps[K_ALLOC as usize];
            let p = s.cfg.alloc;
            (s.cfg.alloc_at == Some(k) || (p > 0. && s.rng.chance(p))) as u32
        });
        if v == 1 {
            s.note(|| format!("allocation of {} bytes fails", l.size()));
            return core::ptr::null_mut();
        }
    }
    s.alloc(l.size(), l.align(), zero)
}
