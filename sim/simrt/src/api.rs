//! What scenarios (instrumented code) use.
use crate::engine::*;
use std::any::Any;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

pub use crate::engine::{fail, rt, spawn};

/// Payload of an injected callback failure
pub struct Injected;
/// Payload of an injected allocation failure
pub struct NoMem;

#[derive(Debug, PartialEq, Eq, Clone)]
pub enum Stop {
    Injected,
    NoMem,
    Panic(String),
}

fn classify(p: Box<dyn Any + Send>) -> Stop {
    rt(|| {
        let r = if p.is::<Injected>() {
            Stop::Injected
        } else if p.is::<NoMem>() {
            Stop::NoMem
        } else {
            let s = core::mem::take(&mut sim().last_panic);
            Stop::Panic(s)
        };
        drop(p);
        r
    })
}

/// Run one operation of the code under test. `name` labels it in reports.
pub fn op<R>(name: impl FnOnce() -> String, f: impl FnOnce() -> R) -> Result<R, Stop> {
    rt(|| {
        let n = name();
        let s = sim();
        s.since_progress = 0;
        s.note(|| format!("begin {n}"));
        let c = s.cur;
        s.thr[c].op = n;
    });
    let r = catch_unwind(AssertUnwindSafe(f));
    let r = match r {
        Ok(v) => Ok(v),
        Err(p) => Err(classify(p)),
    };
    rt(|| {
        let s = sim();
        s.since_progress = 0;
        let c = s.cur;
        let n = core::mem::take(&mut s.thr[c].op);
        let how = match &r {
            Ok(_) => "end",
            Err(Stop::Injected) => "end (callback failed)",
            Err(Stop::NoMem) => "end (allocation failed)",
            Err(Stop::Panic(_)) => "end (panicked)",
        };
        s.note(|| format!("{how} {n}"));
        s.point(true);
    });
    r
}

/// As `op`, with allocation failures possible inside.
pub fn op_alloc_faults<R>(name: impl FnOnce() -> String, f: impl FnOnce() -> R) -> Result<R, Stop> {
    op(name, || {
        struct G;
        impl Drop for G {
            fn drop(&mut self) {
                unsafe { ALLOC_FAULTS -= 1 }
            }
        }
        unsafe { ALLOC_FAULTS += 1 };
        let _g = G;
        f()
    })
}

/// A scheduling point in a callback.
pub fn yield_point() {
    if unsafe { ON } {
        rt(|| sim().point(true))
    }
}

fn quiet() -> bool {
    !unsafe { ON } || std::thread::panicking() || !sim().inject
}

/// Should this callback invocation fail (panic, stop, report an error)?
pub fn callback_fault(what: &str) -> bool {
    if quiet() {
        return false;
    }
    rt(|| {
        let s = sim();
        let v = s.decide(K_PANIC, 2, |s| {
            let k = s.opps[K_PANIC as usize];
            let p = s.cfg.panic;
            (s.cfg.panic_at == Some(k) || (p > 0. && s.rng.chance(p))) as u32
        });
        if v == 1 {
            s.note(|| format!("callback {what} fails"));
        }
        v == 1
    })
}
pub fn callback_panic(what: &str) {
    if callback_fault(what) {
        resume_unwind(Box::new(Injected));
    }
}
pub fn io_fault(what: &str) -> bool {
    if quiet() {
        return false;
    }
    rt(|| {
        let s = sim();
        let v = s.decide(K_IO, 2, |s| {
            let k = s.opps[K_IO as usize];
            let p = s.cfg.io;
            (s.cfg.io_at == Some(k) || (p > 0. && s.rng.chance(p))) as u32
        });
        if v == 1 {
            s.note(|| format!("{what} fails"));
        }
        v == 1
    })
}

/// Turn fault injection on/off (off in checking phases)
pub fn faults(on: bool) {
    rt(|| sim().inject = on)
}

/// Nobody else can run, and at least one other thread is suspended.
pub fn alone_with_stalled() -> bool {
    rt(|| {
        let s = sim();
        let me = s.cur;
        (0..s.thr.len()).all(|t| t == me || s.thr[t].st != St::Run) && s.thr.iter().any(|t| t.st == St::Stalled)
    })
}

/// Inspect without being judged for unsynchronised reads; only while `alone_with_stalled`.
pub fn peek(on: bool) {
    rt(|| sim().peek = on)
}

/// One of several calls that make up an operation has completed.
pub fn progress() {
    rt(|| sim().since_progress = 0)
}

pub fn join_all() {
    rt(|| sim().join_all())
}
pub fn send(ch: usize, v: u64) {
    rt(|| sim().chan_send(ch, v))
}
pub fn recv(ch: usize) -> Option<u64> {
    rt(|| sim().chan_recv(ch))
}
pub fn tid() -> usize {
    unsafe { TID }
}
pub fn clock() -> VC {
    rt(|| sim().thr[sim().cur].vc)
}
pub fn hb(a: (usize, u32), b: &VC) -> bool {
    b[a.0] >= a.1
}
pub fn probe(i: usize) {
    rt(|| sim().probes[i] += 1)
}
pub fn note(f: impl FnOnce() -> String) {
    rt(|| sim().note(f))
}
pub fn observe(s: &str) {
    rt(|| {
        let o = &mut sim().obs;
        o.push_str(s);
        o.push('\n');
    })
}
pub fn heap() -> (usize, usize) {
    rt(|| (sim().live_bytes, sim().live_blocks))
}
/// Bytes allocated minus bytes freed by this thread so far
pub fn net_bytes() -> i64 {
    rt(|| sim().thr[sim().cur].net)
}
pub fn steps() -> u64 {
    rt(|| sim().steps)
}

// ---- ownership ledger ---------------------------------------------------------------------
pub fn ledger_new() -> u32 {
    rt(|| {
        let s = sim();
        s.ledger.push(1);
        s.ledger_live += 1;
        s.ledger.len() as u32 - 1
    })
}
pub fn ledger_live(id: u32) -> bool {
    rt(|| sim().ledger.get(id as usize) == Some(&1))
}
pub fn ledger_drop(id: u32, what: &str) {
    rt(|| {
        let s = sim();
        match s.ledger.get_mut(id as usize) {
            Some(x) if *x == 1 => {
                *x = 2;
                s.ledger_live -= 1;
            }
            Some(_) => fail("double-drop", &format!("{what} #{id} destroyed twice (t{}, in `{}`)", s.cur, s.thr[s.cur].op)),
            None => fail("garbage-drop", &format!("destructor ran on memory that is no {what} (t{}, in `{}`)", s.cur, s.thr[s.cur].op)),
        }
    })
}
pub fn ledger_count() -> usize {
    rt(|| sim().ledger_live)
}
pub fn ledger_ids() -> Vec<u32> {
    rt(|| {
        sim().ledger.iter().enumerate().filter(|(_, &x)| x == 1).map(|(i, _)| i as u32).collect()
    })
}
/// Take a message nobody received (final phase)
pub fn try_recv(ch: usize) -> Option<u64> {
    sim().chans.get_mut(ch).and_then(|c| c.q.pop_front()).map(|x| x.0)
}
