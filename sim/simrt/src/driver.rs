//! Seeded search over workloads, schedules and faults; minimisation; replay; evidence.
use crate::engine::*;
use crate::rng::{mix, Rng};
use crate::sys;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::Instant;

pub type Op = [i64; 4];
#[derive(Clone, Debug, PartialEq)]
pub struct Work {
    pub params: Vec<i64>,
    pub threads: Vec<Vec<Op>>,
}

pub trait Scenario {
    fn name(&self) -> &'static str;
    fn real(&self) -> &'static str;
    fn stub(&self) -> &'static str;
    fn gen(&self, rng: &mut Rng, profile: i64) -> Work;
    fn run(&self, w: &Work);
    fn show(&self, w: &Work, op: &Op) -> String {
        let _ = w;
        format!("{op:?}")
    }
    /// the undisturbed counterpart whose observations the run must reproduce
    fn oracle(&self, w: &Work) -> Option<Work> {
        let _ = w;
        None
    }
    fn probes(&self) -> &'static [&'static str] {
        &[]
    }
}

pub const F_STALE: u32 = 1;
pub const F_PANIC: u32 = 2;
pub const F_ALLOC: u32 = 4;
pub const F_STALL: u32 = 8;
pub const F_IO: u32 = 16;
pub const F_SEQ: u32 = 32; // single-threaded scenario: no scheduling policy

#[derive(Clone, Copy)]
pub struct Part {
    pub scen: usize,
    pub profile: i64,
    pub faults: u32,
    pub weight: u64,
    /// schedules tried per workload
    pub spw: u64,
}
pub struct Prop {
    pub id: &'static str,
    pub parts: Vec<Part>,
    pub quick: u64,
    pub thorough: u64,
    pub level: &'static str,
    /// what the runs of this property quantify over
    pub rule: &'static str,
}

pub struct Driver {
    pub scens: Vec<Box<dyn Scenario>>,
    pub props: Vec<Prop>,
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub status: u32,
    pub kind: String,
    pub msg: String,
    pub hash: u64,
    pub sched_hash: u64,
    pub steps: u64,
    pub switches: u64,
    pub decs: Vec<Dec>,
    again: bool, // died without a verdict
}

struct Job {
    scen: usize,
    work: Work,
    cfg: Cfg,
    part: usize,
}

#[repr(C)]
struct Stats {
    runs: u64,
    steps: u64,
    switches: u64,
    atomics: u64,
    plain: u64,
    faults: [u64; NK],
    fault_runs: [u64; NK],
    opps: [u64; NK],
    probes: [u64; 512],
    stall_ops: u64,
    det: u64,
    det_bad: u64,
    nontrivial: u64,
    per_part: [u64; 32],
    multi: u64,
    done: u64,
    harness_err: u64,
    err: [u8; 512],
    nhash: u64,
    nsched: u64,
}
const MAXH: usize = 4 << 20;
struct Shared {
    min_fail: *const AtomicU64,
    stats: *mut Stats,
    hashes: *mut u64,
    scheds: *mut u64,
}

fn shm(n: usize) -> *mut u8 {
    unsafe {
        let p = sys::mmap(core::ptr::null_mut(), n, sys::PROT_RW, sys::MAP_SHARED | sys::MAP_ANON | sys::MAP_NORESERVE, -1, 0);
        assert!(p as isize != -1, "mmap");
        p
    }
}
fn cstr(b: &[u8]) -> String {
    let n = b.iter().position(|&c| c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}
fn loguni(r: &mut Rng, lo: u64, hi: u64) -> u64 {
    let (a, b) = ((lo as f64).ln(), (hi as f64 + 1.0).ln());
    let x = a + (b - a) * ((r.next() >> 11) as f64 / (1u64 << 53) as f64);
    (x.exp() as u64).clamp(lo, hi)
}

pub fn gen_cfg(seed: u64, faults: u32) -> Cfg {
    let mut r = Rng::new(mix(seed, 77));
    let mut c = Cfg::quiet(seed);
    if faults & F_SEQ == 0 {
        let est = loguni(&mut r, 40, 4000);
        c.pol = match r.below(10) {
            0 | 1 => Pol::Rand(r.pick(&[0.02, 0.08, 0.2, 0.5])),
            2 | 3 | 4 => Pol::Hot(r.pick(&[0.05, 0.15, 0.4, 0.8])),
            5 | 6 | 7 => {
                let k = r.range(1, 5);
                Pol::Few((0..k).map(|_| r.below(est) + 1).collect())
            }
            _ => {
                let k = r.range(0, 4);
                Pol::Pct((0..k).map(|_| r.below(est) + 1).collect())
            }
        };
        if faults & F_STALE != 0 {
            c.stale = r.pick(&[0., 0.03, 0.2, 0.6]);
        }
        if faults & F_STALL != 0 && r.chance(0.6) {
            let k = r.range(1, 2);
            for _ in 0..k {
                c.stalls.push((r.range(1, 4) as usize, loguni(&mut r, 1, 1500)));
            }
        }
    }
    if faults & F_PANIC != 0 {
        match r.below(4) {
            0 => {}
            1 => c.panic = r.pick(&[0.02, 0.1, 0.3]),
            _ => c.panic_at = Some(loguni(&mut r, 1, 60)),
        }
    }
    if faults & F_ALLOC != 0 {
        match r.below(4) {
            0 => {}
            1 => c.alloc = r.pick(&[0.02, 0.1, 0.3]),
            _ => c.alloc_at = Some(loguni(&mut r, 1, 60)),
        }
    }
    if faults & F_IO != 0 {
        match r.below(4) {
            0 => {}
            1 => c.io = r.pick(&[0.02, 0.1, 0.3]),
            _ => {
                let hi = r.pick(&[10, 40, 200]);
                c.io_at = Some(loguni(&mut r, 1, hi))
            },
        }
    }
    c
}

impl Driver {
    fn prop(&self, id: &str) -> &Prop {
        match self.props.iter().find(|p| p.id == id) {
            Some(p) => p,
            None => {
                eprintln!("unknown property {id}");
                std::process::exit(2)
            }
        }
    }

    fn job(&self, p: &Prop, seed: u64, i: u64) -> Job {
        let base = mix(seed, p.id.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64)));
        let total: u64 = p.parts.iter().map(|x| x.weight).sum();
        // parts take turns in proportion to their weights
        let spw = p.parts.iter().map(|x| x.spw).max().unwrap();
        let grp = i / spw;
        let mut k = grp % total;
        let mut part = 0;
        while k >= p.parts[part].weight {
            k -= p.parts[part].weight;
            part += 1;
        }
        let pt = p.parts[part];
        let wseed = mix(base, (i / pt.spw).wrapping_mul(2) + 1);
        let work = self.scens[pt.scen].gen(&mut Rng::new(wseed), pt.profile);
        Job { scen: pt.scen, work, cfg: gen_cfg(mix(base, i.wrapping_mul(2)), pt.faults), part }
    }

    /// One simulated run in a process of its own. A process that dies without a verdict is believed only if it dies again:
    /// a run is deterministic, what killed it once and not twice came from outside.
    pub fn exec(&self, scen: usize, work: &Work, mode: Mode, cfg: Cfg, trace: bool) -> Outcome {
        let t = Instant::now();
        let mut o = self.exec_once(scen, work, mode.clone(), cfg.clone(), trace);
        if o.again {
            o = self.exec_once(scen, work, mode, cfg, trace);
            if !o.again {
                eprintln!("note: a simulation process died after {:.1}s and did so only once", t.elapsed().as_secs_f64());
            }
        }
        if std::env::var_os("SIM_SLOW").is_some() && t.elapsed().as_secs_f64() > 1.5 {
            eprintln!("slow: {:.1}s {} params {:?} steps {}", t.elapsed().as_secs_f64(), self.scens[scen].name(), work.params, o.steps);
        }
        o
    }

    fn exec_once(&self, scen: usize, work: &Work, mode: Mode, cfg: Cfg, trace: bool) -> Outcome {
        unsafe {
            let r = &mut *RES;
            r.status = 0;
            r.ndec = 0;
            r.nobs = 0;
            r.ntrace = 0;
            r.kind[0] = 0;
            r.msg[0] = 0;
            let pid = sys::fork();
            if pid == 0 {
                sys::prctl(1, 9i64); // die with the parent
                // processor time decides, not the wall clock: the machine may be busy
                sys::setrlimit(0, &[30, 31]);
                sys::watch_idle();
                sys::setrlimit(4, &[0, 0]);
                if std::env::var_os("SIM_DEBUG").is_none() {
                    use std::os::fd::AsRawFd;
                    if let Ok(f) = std::fs::OpenOptions::new().write(true).open("/dev/null") {
                        sys::syscall(33, f.as_raw_fd() as i64, 2i64);
                        std::mem::forget(f);
                    }
                }
                SIM = Box::into_raw(Box::new(Sim::new(mode, cfg, trace)));
                TID = 0;
                ON = true;
                let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.scens[scen].run(work)));
                ON = false;
                if x.is_err() {
                    let m = format!("scenario panicked: {}", sim().last_panic);
                    finish(3, "harness", &m);
                }
                finish(1, "", "");
            }
            if pid < 0 {
                eprintln!("fork failed");
                std::process::exit(2);
            }
            let mut st = 0;
            while sys::waitpid(pid, &mut st, 0) != pid {}
            let r = &mut *RES;
            let mut o = Outcome {
                status: r.status, kind: cstr(&r.kind), msg: cstr(&r.msg), hash: r.hash, sched_hash: r.sched_hash,
                steps: r.steps, switches: r.switches, decs: r.decs[..r.ndec as usize].to_vec(), again: false,
            };
            if r.status == 0 {
                let sig = st & 0x7f;
                o.again = sig != 0 && sig != 24;
                o.hash = 0;
                o.sched_hash = 0;
                o.steps = 0;
                o.switches = 0;
                if sig == 24 || sig == 9 || sig == 14 {
                    o.status = 2;
                    o.kind = "hang".into();
                    o.msg = "the run did not end (time limit): a thread blocks or loops without touching shared memory".into();
                } else if sig != 0 {
                    o.status = 2;
                    o.kind = "crash".into();
                    o.msg = format!("the process was killed by signal {sig}");
                } else {
                    o.status = 3;
                    o.kind = "harness".into();
                    o.msg = format!("child exited with {}", st >> 8);
                }
            }
            o
        }
    }

    fn obs() -> String {
        unsafe {
            let r = &*RES;
            String::from_utf8_lossy(&r.obs[..r.nobs as usize]).into_owned()
        }
    }

    /// Run a job, including the comparison with its undisturbed counterpart.
    fn exec_full(&self, scen: usize, work: &Work, mode: Mode, cfg: Cfg, trace: bool, cache: &mut Option<(Work, String)>) -> Outcome {
        let expect = match self.scens[scen].oracle(work) {
            Some(ow) => {
                let hit = matches!(cache, Some((w, _)) if *w == ow);
                if !hit {
                    let o = self.exec(scen, &ow, Mode::Replay(Map::default()), Cfg::quiet(1), false);
                    if o.status != 1 {
                        let mut o = o;
                        o.msg = format!("in the undisturbed run: {}", o.msg);
                        return o;
                    }
                    *cache = Some((ow, Self::obs()));
                }
                cache.as_ref().map(|c| c.1.clone())
            }
            None => None,
        };
        let mut o = self.exec(scen, work, mode, cfg, trace);
        if o.status == 1 {
            if let Some(e) = expect {
                let got = Self::obs();
                if got != e {
                    let mut d = String::new();
                    let (mut a, mut b) = (e.lines(), got.lines());
                    loop {
                        match (a.next(), b.next()) {
                            (None, None) => break,
                            (x, y) if x == y => {}
                            (x, y) => {
                                let f = |s: Option<&str>| s.unwrap_or("(nothing)").chars().take(300).collect::<String>();
                                let _ = write!(d, "alone: {} | here: {}", f(x), f(y));
                                break;
                            }
                        }
                    }
                    o.status = 2;
                    o.kind = "differs-from-alone".into();
                    o.msg = d;
                }
            }
        }
        o
    }

    fn worker(&self, p: &Prop, seed: u64, w: u64, nw: u64, runs: u64, deadline: Instant, sh: &Shared) {
        let st = unsafe { &mut *sh.stats.add(w as usize) };
        let minf = unsafe { &*sh.min_fail };
        let mut hs: HashSet<u64, std::hash::BuildHasherDefault<Fx>> = Default::default();
        let mut ss: HashSet<u64, std::hash::BuildHasherDefault<Fx>> = Default::default();
        let mut cache = None;
        let spw = p.parts.iter().map(|x| x.spw).max().unwrap();
        let mut grp = w;
        'outer: loop {
            for k in 0..spw {
                let i = grp * spw + k;
                if i >= runs || i >= minf.load(Relaxed) {
                    break 'outer;
                }
                if Instant::now() > deadline {
                    break 'outer;
                }
                let j = self.job(p, seed, i);
                let o = self.exec_full(j.scen, &j.work, Mode::Gen, j.cfg.clone(), false, &mut cache);
                let r = unsafe { &*RES };
                st.runs += 1;
                st.per_part[j.part] += 1;
                if o.status == 2 {
                    minf.fetch_min(i, Relaxed);
                    break 'outer;
                }
                if o.status == 3 {
                    st.harness_err += 1;
                    let m = format!("run {i}: {}", o.msg);
                    let n = m.len().min(511);
                    st.err[..n].copy_from_slice(&m.as_bytes()[..n]);
                    break 'outer;
                }
                st.steps += o.steps;
                st.switches += o.switches;
                st.atomics += r.atomics;
                st.plain += r.plain;
                st.stall_ops += r.stall_ops;
                for k in 0..NK {
                    st.faults[k] += r.faults[k];
                    st.fault_runs[k] += (r.faults[k] > 0) as u64;
                    st.opps[k] += r.opps[k];
                }
                for k in 0..32 {
                    st.probes[j.scen * 32 + k] += r.probes[k];
                }
                let nt = o.switches > (j.work.threads.len() as u64) || r.faults.iter().any(|&f| f > 0);
                let h = o.hash ^ mix(self.work_hash(&j.work), r.faults[2] + 3 * r.faults[3] + 5 * r.faults[6] + o.decs.iter().fold(0u64, |a, d| mix(a, (d.tid as u64) << 40 | (d.kind as u64) << 32 | d.cnt as u64)));
                if nt {
                    st.nontrivial += 1;
                    if hs.len() < MAXH && hs.insert(h) {
                        unsafe { *sh.hashes.add(w as usize * MAXH + st.nhash as usize) = h };
                        st.nhash += 1;
                    }
                    if ss.len() < MAXH && ss.insert(o.sched_hash ^ mix(o.switches, 9)) {
                        unsafe { *sh.scheds.add(w as usize * MAXH + st.nsched as usize) = o.sched_hash ^ mix(o.switches, 9) };
                        st.nsched += 1;
                    }
                }
                // determinism: same seed, and same recorded decisions, give the same execution
                if i % 97 == 0 {
                    st.det += 1;
                    let a = self.exec_full(j.scen, &j.work, Mode::Gen, j.cfg.clone(), false, &mut cache);
                    let m = Mode::Replay(o.decs.iter().map(|d| ((d.tid, d.kind, d.cnt), d.val)).collect());
                    let b = self.exec_full(j.scen, &j.work, m, Cfg::quiet(j.cfg.seed), false, &mut cache);
                    if a.hash != o.hash || b.hash != o.hash || a.steps != o.steps || b.steps != o.steps {
                        st.det_bad += 1;
                        let m = format!("run {i} is not repeatable: {:x}/{} {:x}/{} {:x}/{} {}{}", o.hash, o.steps, a.hash, a.steps, b.hash, b.steps, a.msg, b.msg);
                        let n = m.len().min(511);
                        st.err[..n].copy_from_slice(&m.as_bytes()[..n]);
                        break 'outer;
                    }
                }
            }
            grp += nw;
        }
        st.done = 1;
    }

    fn work_hash(&self, w: &Work) -> u64 {
        let mut h = 1u64;
        for p in &w.params {
            h = mix(h, *p as u64);
        }
        for t in &w.threads {
            h = mix(h, 0xABCD);
            for o in t {
                for x in o {
                    h = mix(h, *x as u64);
                }
            }
        }
        h
    }

    fn rep(&self, scen: usize, w: &Work, d: &[Dec], cache: &mut Option<(Work, String)>) -> Outcome {
        let m = Mode::Replay(d.iter().map(|d| ((d.tid, d.kind, d.cnt), d.val)).collect());
        self.exec_full(scen, w, m, Cfg::quiet(0), false, cache)
    }

    fn minimise(&self, scen: usize, work: Work, decs: Vec<Dec>, kind: &str, faults: u32, limit: f64) -> (Work, Vec<Dec>, u64) {
        let t0 = Instant::now();
        let mut cache = None;
        let (mut w, mut d) = (work, decs);
        let mut tries = 0u64;
        let left = |f: f64| t0.elapsed().as_secs_f64() < limit * f;
        // fewer decisions
        let mut shrink_decs = |w: &Work, d: &mut Vec<Dec>, f: f64, tries: &mut u64| {
            let mut chunk = (d.len() / 2).max(1);
            while left(f) {
                let mut i = 0;
                let mut any = false;
                while i < d.len() && left(f) {
                    let mut c = d.clone();
                    c.drain(i..(i + chunk).min(c.len()));
                    *tries += 1;
                    let o = self.rep(scen, w, &c, &mut cache);
                    if o.status == 2 && o.kind == kind {
                        *d = o.decs.clone();
                        if d.len() > c.len() {
                            *d = c;
                        }
                        any = true;
                    } else {
                        i += chunk;
                    }
                }
                if chunk == 1 && !any {
                    break;
                }
                chunk = (chunk / 2).max(1);
            }
        };
        shrink_decs(&w, &mut d, 0.3, &mut tries);
        // fewer operations: keep the decisions if that still fails, else search for a new schedule
        let mut cache2 = None;
        let mut again = true;
        while again && left(0.8) {
            again = false;
            for t in 0..w.threads.len() {
                let mut i = w.threads[t].len();
                while i > 0 && left(0.8) {
                    i -= 1;
                    let mut c = w.clone();
                    c.threads[t].remove(i);
                    tries += 1;
                    let mut o = self.rep(scen, &c, &d, &mut cache2);
                    if !(o.status == 2 && o.kind == kind) {
                        for s in 0..60 {
                            if !left(0.8) {
                                break;
                            }
                            tries += 1;
                            o = self.exec_full(scen, &c, Mode::Gen, gen_cfg(mix(tries, s), faults), false, &mut cache2);
                            if o.status == 2 && o.kind == kind {
                                break;
                            }
                        }
                    }
                    if o.status == 2 && o.kind == kind {
                        w = c;
                        d = o.decs;
                        again = true;
                    }
                }
            }
        }
        shrink_decs(&w, &mut d, 1.0, &mut tries);
        (w, d, tries)
    }

    fn write_replay(&self, path: &str, id: &str, scen: usize, w: &Work, d: &[Dec], o: &Outcome, extra: &str) {
        let mut s = String::new();
        let _ = writeln!(s, "numeric-sim replay 1");
        let _ = writeln!(s, "property {id}");
        let _ = writeln!(s, "scenario {}", self.scens[scen].name());
        let _ = writeln!(s, "kind {}", o.kind);
        let _ = writeln!(s, "message {}", o.msg.replace('\n', " / "));
        let _ = writeln!(s, "hash {:x}", o.hash);
        let _ = writeln!(s, "params {}", w.params.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        for (t, ops) in w.threads.iter().enumerate() {
            let _ = writeln!(s, "thread {}", t + 1);
            for o in ops {
                let _ = writeln!(s, "op {} {} {} {} # {}", o[0], o[1], o[2], o[3], self.scens[scen].show(w, o).replace('\n', " "));
            }
        }
        for x in d {
            let _ = writeln!(s, "decision {} {} {} {} # t{} {}", x.tid, x.kind, x.cnt, x.val, x.tid, KNAMES[x.kind as usize]);
        }
        let _ = writeln!(s, "# {extra}");
        let _ = writeln!(s, "# --- trace of the execution ---");
        let r = unsafe { &*RES };
        let t = String::from_utf8_lossy(&r.trace[..r.ntrace as usize]).into_owned();
        for l in t.lines().take(4000) {
            let _ = writeln!(s, "# {l}");
        }
        std::fs::write(path, s).expect("write replay");
    }

    pub fn replay(&self, path: &str) -> i32 {
        let text = match std::fs::read_to_string(path) {
            Ok(t) => t,
            Err(e) => {
                eprintln!("{path}: {e}");
                return 2;
            }
        };
        let (mut id, mut scen, mut kind, mut hash) = (String::new(), 0usize, String::new(), 0u64);
        let mut w = Work { params: vec![], threads: vec![] };
        let mut d = vec![];
        for l in text.lines() {
            let l = l.split(" # ").next().unwrap();
            if l.starts_with('#') {
                continue;
            }
            let mut it = l.splitn(2, ' ');
            let (k, v) = (it.next().unwrap_or(""), it.next().unwrap_or(""));
            let nums = || v.split_whitespace().filter_map(|x| x.parse::<i64>().ok()).collect::<Vec<_>>();
            match k {
                "property" => id = v.into(),
                "scenario" => {
                    scen = match self.scens.iter().position(|s| s.name() == v) {
                        Some(s) => s,
                        None => return 2,
                    }
                }
                "kind" => kind = v.into(),
                "hash" => hash = u64::from_str_radix(v, 16).unwrap_or(0),
                "params" => w.params = nums(),
                "thread" => w.threads.push(vec![]),
                "op" => {
                    let n = nums();
                    w.threads.last_mut().unwrap().push([n[0], n[1], n[2], n[3]]);
                }
                "decision" => {
                    let n = nums();
                    d.push(Dec { tid: n[0] as u8, kind: n[1] as u8, cnt: n[2] as u32, val: n[3] as u32 });
                }
                _ => {}
            }
        }
        let o = self.rep(scen, &w, &d, &mut None);
        println!("replay of {} ({}): status={} kind={} hash={:x}", id, self.scens[scen].name(), o.status, o.kind, o.hash);
        println!("{}", o.msg);
        if o.status == 2 {
            if o.kind == kind && o.hash == hash {
                println!("reproduced exactly");
            }
            println!("VIOLATION property={id} replay={path}");
            1
        } else {
            if o.status == 3 { 2 } else { 0 }
        }
    }

    pub fn one(&self, id: &str, seed: u64, i: u64) -> i32 {
        let p = self.prop(id);
        let j = self.job(p, seed, i);
        println!("{} {:?}\n{:?}", self.scens[j.scen].name(), j.cfg, j.work.params);
        for (t, ops) in j.work.threads.iter().enumerate() {
            println!("thread {}", t + 1);
            for o in ops {
                println!("   {}", self.scens[j.scen].show(&j.work, o));
            }
        }
        let o = self.exec_full(j.scen, &j.work, Mode::Gen, j.cfg, true, &mut None);
        let r = unsafe { &*RES };
        println!("{}", String::from_utf8_lossy(&r.trace[..r.ntrace as usize]));
        println!("obs:\n{}", Self::obs());
        println!("status={} kind={} msg={} steps={} switches={} hash={:x} decs={}", o.status, o.kind, o.msg, o.steps, o.switches, o.hash, o.decs.len());
        0
    }

    pub fn check(&self, id: &str, tier: &str, seed: u64, dir: &str, runs_override: Option<u64>) -> i32 {
        let t0 = Instant::now();
        let p = self.prop(id);
        if p.parts.is_empty() {
            eprintln!("{id}: its scenario could not be built against this tree");
            return 2;
        }
        let thorough = tier == "thorough";
        let runs = runs_override.unwrap_or(if thorough { p.thorough } else { p.quick });
        let cap = std::env::var("SIM_CAP_S").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 3000.0 } else { 150.0 });
        let deadline = t0 + std::time::Duration::from_secs_f64(cap);
        let cpus = sys::cpus();
        let nw = cpus.len().min(8) as u64;
        let sh = Shared {
            min_fail: shm(64) as *const AtomicU64,
            stats: shm(core::mem::size_of::<Stats>() * nw as usize) as *mut Stats,
            hashes: shm(MAXH * 8 * nw as usize) as *mut u64,
            scheds: shm(MAXH * 8 * nw as usize) as *mut u64,
        };
        unsafe { (*sh.min_fail).store(u64::MAX, Relaxed) };
        let mut pids = vec![];
        for w in 0..nw {
            let pid = unsafe { sys::fork() };
            if pid == 0 {
                unsafe { sys::prctl(1, 9i64) };
                sys::pin(cpus[w as usize]);
                new_res();
                self.worker(p, seed, w, nw, runs, deadline, &sh);
                unsafe { sys::_exit(0) };
            }
            pids.push(pid);
        }
        for pid in pids {
            let mut st = 0;
            unsafe { while sys::waitpid(pid, &mut st, 0) != pid {} }
        }
        let search_s = t0.elapsed().as_secs_f64();
        let stats: Vec<&Stats> = (0..nw as usize).map(|w| unsafe { &*sh.stats.add(w) }).collect();
        let minf = unsafe { (*sh.min_fail).load(Relaxed) };
        let mut code = 0;
        let mut violations = 0;
        let sum = |f: &dyn Fn(&Stats) -> u64| stats.iter().map(|s| f(s)).sum::<u64>();
        let mut uniq: HashSet<u64, std::hash::BuildHasherDefault<Fx>> = Default::default();
        let mut uniqs: HashSet<u64, std::hash::BuildHasherDefault<Fx>> = Default::default();
        for (w, s) in stats.iter().enumerate() {
            for k in 0..s.nhash as usize {
                uniq.insert(unsafe { *sh.hashes.add(w * MAXH + k) });
            }
            for k in 0..s.nsched as usize {
                uniqs.insert(unsafe { *sh.scheds.add(w * MAXH + k) });
            }
        }
        for s in &stats {
            if s.harness_err > 0 || s.det_bad > 0 {
                eprintln!("ERROR: {}", cstr(&s.err));
                code = 2;
            } else if s.done == 0 {
                eprintln!("ERROR: a worker died");
                code = 2;
            }
        }
        let mut vio = String::new();
        if minf != u64::MAX {
            code = 1;
            violations = 1;
            let j = self.job(p, seed, minf);
            let o = self.exec_full(j.scen, &j.work, Mode::Gen, j.cfg.clone(), false, &mut None);
            if o.status != 2 {
                eprintln!("ERROR: run {minf} failed in a worker but not when repeated (status {}, {})", o.status, o.msg);
                code = 2;
            } else {
                let faults = p.parts[j.part].faults;
                let lim = if thorough { 60.0 } else { 25.0 };
                let (w, d, tries) = self.minimise(j.scen, j.work.clone(), o.decs.clone(), &o.kind, faults, lim);
                let m = Mode::Replay(d.iter().map(|d| ((d.tid, d.kind, d.cnt), d.val)).collect());
                let mut fo = self.exec_full(j.scen, &w, m, Cfg::quiet(0), true, &mut None);
                let (mut w, mut d) = (w, d);
                if fo.status != 2 {
                    // cannot happen with a deterministic simulator; fall back to the original
                    w = j.work.clone();
                    d = o.decs.clone();
                    let m = Mode::Replay(d.iter().map(|d| ((d.tid, d.kind, d.cnt), d.val)).collect());
                    fo = self.exec_full(j.scen, &w, m, Cfg::quiet(0), true, &mut None);
                }
                let _ = std::fs::create_dir_all(format!("{dir}/replays"));
                let path = format!("{dir}/replays/{id}-seed{seed}-run{minf}.replay");
                let extra = format!("seed {seed}, run {minf}; minimised with {tries} runs from {} operations and {} decisions to {} and {}",
                    j.work.threads.iter().map(|t| t.len()).sum::<usize>(), o.decs.len(), w.threads.iter().map(|t| t.len()).sum::<usize>(), d.len());
                self.write_replay(&path, id, j.scen, &w, &d, &fo, &extra);
                println!("violated: {}: {} [{}; seed {seed}, run {minf}; {extra}]", fo.kind, fo.msg, self.scens[j.scen].name());
                println!("VIOLATION property={id} replay={path}");
                vio = format!("{}: {}", fo.kind, fo.msg);
            }
        }
        // evidence
        let wall = t0.elapsed().as_secs_f64();
        let total = sum(&|s| s.runs);
        let mut e = String::new();
        let js = |s: &str| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " ").replace('\t', " "));
        let _ = write!(e, "{{\n \"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": {},\n \"coverage\": {{\n", js(id), js(if thorough { "thorough" } else { "quick" }), js(p.level));
        let _ = write!(e, "  \"evaluations\": {total},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", uniq.len(), js(&format!("{} An execution is identified by a hash of its workload, its sequence of scheduling, visibility and fault decisions and its shared-memory event history; it counts as non-trivial if a thread was pre-empted (more switches than threads) or at least one fault was injected; distinct_nontrivial counts different hashes. distinct_switch_sequences counts different sequences of context switches alone.", p.rule)));
        let _ = write!(e, "  \"runs_per_hour\": {},\n", (total as f64 / search_s * 3600.0) as u64);
        let _ = write!(e, "  \"search_wall_s\": {:.2},\n", search_s);
        let _ = write!(e, "  \"simulated_time\": {{\"unit\": \"scheduling steps (the code has no clock)\", \"steps\": {}, \"atomic_operations\": {}, \"plain_accesses_checked\": {}}},\n", sum(&|s| s.steps), sum(&|s| s.atomics), sum(&|s| s.plain));
        let _ = write!(e, "  \"nontrivial_runs\": {},\n  \"distinct_switch_sequences\": {},\n  \"context_switches\": {},\n", sum(&|s| s.nontrivial), uniqs.len(), sum(&|s| s.switches));
        e.push_str("  \"faults_injected\": {");
        let mut first = true;
        for k in 1..NK {
            if k == 5 || k == 7 {
                continue;
            }
            let _ = write!(e, "{}{}: {{\"count\": {}, \"runs\": {}, \"opportunities\": {}}}", if first { "" } else { ", " }, js(KNAMES[k]), sum(&|s| s.faults[k]), sum(&|s| s.fault_runs[k]), sum(&|s| s.opps[k]));
            first = false;
        }
        let _ = write!(e, "}},\n  \"suspensions_inside_an_operation\": {},\n", sum(&|s| s.stall_ops));
        let _ = write!(e, "  \"determinism_checks\": {{\"runs_repeated_twice\": {}, \"mismatches\": {}}},\n", sum(&|s| s.det), sum(&|s| s.det_bad));
        e.push_str("  \"parts\": [");
        for (k, pt) in p.parts.iter().enumerate() {
            let s = &self.scens[pt.scen];
            let mut pr = String::new();
            for (n, name) in s.probes().iter().enumerate() {
                let _ = write!(pr, "{}{}: {}", if n > 0 { ", " } else { "" }, js(name), sum(&|s| s.probes[pt.scen * 32 + n]));
            }
            let _ = write!(e, "{}{{\"scenario\": {}, \"profile\": {}, \"runs\": {}, \"real_code\": {}, \"stub\": {}, \"probes_of_scenario\": {{{}}}}}", if k > 0 { ", " } else { "" }, js(s.name()), pt.profile, sum(&|s| s.per_part[k]), js(s.real()), js(s.stub()), pr);
        }
        e.push_str("],\n  \"samples\": [");
        for k in 0..3u64 {
            let j = self.job(p, seed, k * 17 % runs.max(1));
            let ops: Vec<String> = j.work.threads.iter().enumerate().map(|(t, o)| format!("t{}: {}", t + 1, o.iter().map(|o| self.scens[j.scen].show(&j.work, o)).collect::<Vec<_>>().join("; "))).collect();
            let _ = write!(e, "{}{}", if k > 0 { ", " } else { "" }, js(&format!("{} params={:?} | {} | {:?}", self.scens[j.scen].name(), j.work.params, ops.join(" | "), j.cfg)));
        }
        e.push_str("]");
        if !vio.is_empty() {
            let _ = write!(e, ",\n  \"violation\": {}", js(&vio));
        }
        let _ = write!(e, "\n }},\n \"assumptions\": [{}, {}, {}],\n", 
            js("scheduling points are atomic operations, channel operations, operation boundaries and user callbacks; plain accesses between them run without interruption, and any two of them that conflict without ordering are reported as a data race"),
            js("memory model: per-location modification order equals execution order; loads may return any older value that happens-before and coherence permit; read-modify-writes and sequentially consistent loads read the newest value"),
            js("search is a sample: a violation needing a schedule or workload outside what the seeds reached is not seen"));
        let _ = write!(e, " \"wall_s\": {:.2},\n \"violations\": {violations}\n}}\n", wall);
        let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
        if let Err(x) = std::fs::write(format!("{dir}/evidence/{id}.json"), e) {
            eprintln!("ERROR: evidence: {x}");
            code = if code == 1 { 1 } else { 2 };
        }
        println!("{id} {tier}: {total} runs in {search_s:.1}s, {} distinct non-trivial executions, {} steps, exit {code}", uniq.len(), sum(&|s| s.steps));
        code
    }

    pub fn main(&self) {
        init();
        let a: Vec<String> = std::env::args().collect();
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
        let dir = std::env::var("SIM_DIR").unwrap_or_else(|_| ".".into());
        let code = match a.get(1).map(|s| s.as_str()) {
            Some("check") => self.check(&a[2], a.get(3).map(|s| s.as_str()).unwrap_or("quick"), seed, &dir, a.get(4).and_then(|x| x.parse().ok())),
            Some("replay") => self.replay(&a[2]),
            Some("one") => self.one(&a[2], seed, a[3].parse().unwrap()),
            Some("list") => {
                for p in &self.props {
                    println!("{}", p.id);
                }
                0
            }
            _ => {
                eprintln!("usage: check ID [quick|thorough] [runs] | replay FILE | one ID RUN | list");
                2
            }
        };
        std::process::exit(code);
    }
}

fn new_res() {
    unsafe { RES = shm(core::mem::size_of::<Res>()) as *mut Res };
}

fn init() {
    simmem::link_me();
    unsafe {
        let p = sys::mmap(ARENA as *mut u8, ARENA_SZ, sys::PROT_RW, sys::MAP_PRIVATE | sys::MAP_ANON | sys::MAP_NORESERVE | sys::MAP_FIXED_NOREPLACE, -1, 0);
        if p as usize != ARENA {
            eprintln!("ERROR: cannot map the arena");
            std::process::exit(2);
        }
    }
    new_res();
    std::panic::set_hook(Box::new(|info| {
        rt(|| unsafe {
            if !SIM.is_null() {
                sim().last_panic = format!("{info}").lines().skip(1).collect::<Vec<_>>().join(" ");
            } else {
                eprintln!("{info}");
            }
        })
    }));
    std::alloc::set_alloc_error_hook(|_| std::panic::resume_unwind(Box::new(crate::api::NoMem)));
}
