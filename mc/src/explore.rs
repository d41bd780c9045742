//! Stateless exhaustive exploration.
//!
//! An execution is a deterministic function of the answers to `choose`/`dev`. The explorer walks the whole
//! tree of answers depth first, replaying prefixes; an answer domain that differs while replaying a prefix is
//! a hard error (uncaptured nondeterminism), never a verdict.
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Fail {
    pub key: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($key:expr, $($a:tt)*) => { return Err($crate::Fail { key: $key.to_string(), msg: format!($($a)*) }) };
}
#[macro_export]
macro_rules! check {
    ($c:expr, $key:expr, $($a:tt)*) => { if !$c { $crate::fail!($key, $($a)*); } };
}
#[macro_export]
macro_rules! check_eq {
    ($a:expr, $b:expr, $key:expr, $($f:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { $crate::fail!($key, "{}: got {:?}, expected {:?}", format!($($f)*), a, b); }
    }};
}
#[macro_export]
macro_rules! logln {
    ($($a:tt)*) => { if $crate::verbose() { $crate::log_str(|| format!($($a)*)); } };
}

pub struct Job {
    pub name: String,
    /// Budget of environment deviations (suspensions, faults) per execution.
    pub devs: usize,
    pub body: Box<dyn Fn() -> R + Send + Sync>,
}
pub fn job(name: impl Into<String>, devs: usize, body: impl Fn() -> R + Send + Sync + 'static) -> Job {
    Job { name: name.into(), devs, body: Box::new(body) }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Miri,
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, miri: T, quick: T, thorough: T) -> T {
        match self {
            Tier::Miri => miri,
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

// ---------------------------------------------------------------- current execution (thread local)
#[derive(Clone, Copy)]
struct Pt {
    c: u32,
    n: u32,
}
struct Cur {
    trace: Vec<Pt>,
    prefix: usize,
    pos: usize,
    devs_left: usize,
    verbose: bool,
    strict_replay: bool,
    log: Vec<String>,
    states: HashSet<u64, BuildHasherDefault<IdHasher>>,
    outcomes: HashSet<u64, BuildHasherDefault<IdHasher>>,
    counters: BTreeMap<&'static str, u64>,
    slot: *mut u32,
    diverged: Option<String>,
}
#[derive(Default)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}
thread_local! {
    static CUR: RefCell<Option<Cur>> = const { RefCell::new(None) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}
const SLOT_WORDS: usize = 4096;
const SLOT_HDR: usize = 4; // active, job, seq, len

fn with<T>(f: impl FnOnce(&mut Cur) -> T) -> T {
    crate::alloc::exempt(|| CUR.with(|c| f(c.borrow_mut().as_mut().expect("choice outside an execution"))))
}
/// Tells the hang watchdog that a long execution is still getting somewhere.
pub fn alive() {
    with(|c| {
        if !c.slot.is_null() {
            unsafe { c.slot.add(2).write_volatile(c.slot.add(2).read_volatile().wrapping_add(0x10000)) }
        }
    })
}
/// Whether code runs inside an explored execution.
pub fn in_execution() -> bool {
    CUR.with(|c| c.borrow().is_some())
}
pub struct Diverged;

/// Pick one of `n` alternatives; every one of them is explored.
pub fn choose(n: usize) -> usize {
    assert!(n >= 1);
    if n == 1 {
        return 0;
    }
    with(|cur| {
        let i = cur.pos;
        cur.pos += 1;
        if i < cur.trace.len() {
            let p = cur.trace[i];
            if p.n != 0 && p.n as usize != n {
                cur.diverged = Some(format!("choice {i}: domain {n} now, {} before", p.n));
            }
            cur.trace[i].n = n as u32;
            if p.c as usize >= n {
                cur.diverged = Some(format!("choice {i}: value {} outside domain {n}", p.c));
                return 0;
            }
            return p.c as usize;
        }
        if cur.strict_replay {
            cur.diverged = Some(format!("choice {i} beyond the recorded execution"));
        }
        cur.trace.push(Pt { c: 0, n: n as u32 });
        if !cur.slot.is_null() && i + SLOT_HDR < SLOT_WORDS {
            unsafe {
                cur.slot.add(SLOT_HDR + i).write_volatile(0);
                cur.slot.add(3).write_volatile(i as u32 + 1);
            }
        }
        0
    })
}
pub fn flag() -> bool {
    choose(2) == 1
}
/// An environment answer: 0 is the default, every other answer spends one deviation of the budget.
pub fn dev(n: usize) -> usize {
    if with(|c| c.devs_left) == 0 {
        return 0;
    }
    let r = choose(n);
    if r != 0 {
        with(|c| c.devs_left -= 1);
    }
    r
}
/// Pick an element of a slice.
pub fn pick<T: Clone>(s: &[T]) -> T {
    s[choose(s.len())].clone()
}
/// The sizes 0..=dense and every 2^k-1, 2^k, 2^k+1 up to `max`: counters, capacities and lengths at which
/// behaviour could change.
pub fn sizes(dense: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=dense.min(max)).collect();
    let mut p = 1;
    while p <= max + 1 {
        v.extend([p - 1, p, p + 1].into_iter().filter(|&n| n > dense && n <= max));
        p *= 2;
    }
    v.sort();
    v.dedup();
    v
}
/// The sizes up to `max`, and those around 2^16.
pub fn sizes_u16(dense: usize, max: usize) -> Vec<usize> {
    let mut v = sizes(dense, max);
    if max > 1000 {
        v.extend([65535, 65536, 65537].into_iter().filter(|&n| n > max));
    }
    v
}
/// Pick a sequence of length 0..=max over 0..k (shortest first).
pub fn pick_word(k: usize, max: usize) -> Vec<usize> {
    let len = choose(max + 1);
    (0..len).map(|_| choose(k)).collect()
}
/// Pick a composition of `n` into pieces: the cut positions (subset of 1..n).
pub fn pick_cuts(n: usize) -> Vec<usize> {
    (1..n).filter(|_| flag()).collect()
}
pub fn verbose() -> bool {
    CUR.with(|c| c.borrow().as_ref().map_or(false, |c| c.verbose))
}
pub fn log_str(f: impl FnOnce() -> String) {
    let s = crate::alloc::exempt(f);
    with(|c| c.log.push(s))
}
pub fn hash_of(h: &impl Hash) -> u64 {
    let mut s = DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}
/// Record a visited state (canonical, property-relevant).
pub fn state(h: &impl Hash) {
    let h = hash_of(h);
    with(|c| {
        c.states.insert(h);
    })
}
/// Record an observed outcome of the execution.
pub fn outcome(h: &impl Hash) {
    let h = hash_of(h);
    with(|c| {
        c.outcomes.insert(h);
    })
}
pub fn count(name: &'static str) {
    with(|c| *c.counters.entry(name).or_insert(0) += 1)
}

/// Run `f`, catching a panic; the message is returned.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}
fn install_hook() {
    let def = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.try_with(|q| q.get()).unwrap_or(false);
        if quiet {
            let m = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let _ = PANIC.try_with(|p| {
                if let Ok(mut p) = p.try_borrow_mut() {
                    if p.is_none() {
                        *p = Some(format!("panicked at {loc}: {m}"));
                    }
                }
            });
        } else {
            def(info)
        }
    }));
}

// ---------------------------------------------------------------- explorer
struct Task {
    job: usize,
    trace: Vec<Pt>,
    base: usize,
}
#[derive(Default, Clone)]
struct JobStat {
    execs: u64,
    edges: u64,
    max_depth: usize,
    longest: Vec<u32>,
}
struct Violation {
    job: usize,
    choices: Vec<u32>,
    fail: Fail,
    log: Vec<String>,
}
struct Shared {
    queue: Mutex<VecDeque<Task>>,
    cv: Condvar,
    idle: AtomicUsize,
    workers: usize,
    stop: AtomicBool,
    found: Mutex<Vec<Violation>>,
    error: Mutex<Option<String>>,
    capped: AtomicBool,
    execs: AtomicU64,
}

pub struct Known(pub Vec<String>);

fn run_one(j: &Job) -> (R, Option<String>) {
    // nothing of an earlier execution on this thread is left
    crate::drive::reset();
    crate::stream::reset_elems();
    crate::stream::set_fuse(None);
    crate::ast::HEAVY.set(false);
    crate::ast::PANIC_IN.set(usize::MAX);
    crate::alloc::begin();
    let r = match catch(|| (j.body)()) {
        Ok(r) => r,
        Err(p) => Err(Fail { key: "panic".into(), msg: p }),
    };
    let r = match (crate::alloc::end(), r) {
        (Some(m), Ok(())) => Err(Fail { key: "memory".into(), msg: format!("memory error: {m}") }),
        (_, r) => r,
    };
    let d = with(|c| c.diverged.take());
    (r, d)
}

fn new_cur(slot: *mut u32) -> Cur {
    Cur {
        trace: Vec::new(),
        prefix: 0,
        pos: 0,
        devs_left: 0,
        verbose: false,
        strict_replay: false,
        log: Vec::new(),
        states: Default::default(),
        outcomes: Default::default(),
        counters: Default::default(),
        slot,
        diverged: None,
    }
}

fn publish(slot: *mut u32, job: usize, trace: &[Pt], seq: u32, active: bool) {
    if slot.is_null() {
        return;
    }
    unsafe {
        slot.write_volatile(0);
        slot.add(1).write_volatile(job as u32);
        slot.add(2).write_volatile(seq);
        let n = trace.len().min(SLOT_WORDS - SLOT_HDR);
        slot.add(3).write_volatile(n as u32);
        for (i, p) in trace[..n].iter().enumerate() {
            slot.add(SLOT_HDR + i).write_volatile(p.c);
        }
        slot.write_volatile(active as u32);
    }
}

/// Replays one execution; returns its verdict and the log.
fn replay(jobs: &[Job], ji: usize, choices: &[u32], verbose: bool) -> (R, Option<String>, Vec<String>) {
    if cfg!(miri) {
        return replay_here(jobs, ji, choices, verbose);
    }
    std::thread::scope(|s| {
        let f = move || replay_here(jobs, ji, choices, verbose);
        std::thread::Builder::new().stack_size(STACK.load(Ordering::SeqCst)).spawn_scoped(s, f).unwrap().join().unwrap()
    })
}
fn replay_here(jobs: &[Job], ji: usize, choices: &[u32], verbose: bool) -> (R, Option<String>, Vec<String>) {
    CUR.with(|c| *c.borrow_mut() = Some(new_cur(std::ptr::null_mut())));
    with(|c| {
        c.trace = choices.iter().map(|&c| Pt { c, n: 0 }).collect();
        c.prefix = choices.len();
        c.devs_left = jobs[ji].devs;
        c.verbose = verbose;
    });
    let (r, d) = run_one(&jobs[ji]);
    let log = CUR.with(|c| c.borrow_mut().take()).unwrap().log;
    (r, d, log)
}

fn worker(w: usize, jobs: &[Job], sh: &Shared, deadline: Instant, slot: *mut u32, stats: &Mutex<Agg>, max_found: usize) {
    CUR.with(|c| *c.borrow_mut() = Some(new_cur(slot)));
    let mut js: Vec<JobStat> = vec![JobStat::default(); jobs.len()];
    let mut seq = 0u32;
    'tasks: loop {
        let task = {
            let mut q = sh.queue.lock().unwrap();
            loop {
                if sh.stop.load(Ordering::Relaxed) {
                    break None;
                }
                if let Some(t) = q.pop_front() {
                    break Some(t);
                }
                let idle = sh.idle.fetch_add(1, Ordering::SeqCst) + 1;
                if idle == sh.workers {
                    sh.cv.notify_all();
                    break None;
                }
                q = sh.cv.wait_timeout(q, Duration::from_millis(50)).unwrap().0;
                if sh.idle.load(Ordering::SeqCst) == sh.workers {
                    break None;
                }
                sh.idle.fetch_sub(1, Ordering::SeqCst);
            }
        };
        let Some(mut task) = task else { break };
        let j = &jobs[task.job];
        let mut fresh_from = task.base.saturating_sub(1);
        loop {
            if sh.stop.load(Ordering::Relaxed) {
                break 'tasks;
            }
            with(|c| {
                std::mem::swap(&mut c.trace, &mut task.trace);
                c.prefix = c.trace.len();
                c.pos = 0;
                c.devs_left = j.devs;
            });
            seq = seq.wrapping_add(1);
            CUR.with(|c| {
                let c = c.borrow();
                publish(slot, task.job, &c.as_ref().unwrap().trace, seq, true)
            });
            let (r, d) = run_one(j);
            if !slot.is_null() {
                unsafe { slot.write_volatile(0) };
            }
            let (used, pre) = with(|c| {
                std::mem::swap(&mut c.trace, &mut task.trace);
                (c.pos, c.prefix)
            });
            let d = d.or_else(|| (used < pre && r.is_ok()).then(|| format!("execution ended after {used} of {pre} prefix choices")));
            if let (Some(d), true) = (d, r.is_ok()) {
                let ch: Vec<u32> = task.trace.iter().map(|p| p.c).collect();
                *sh.error.lock().unwrap() = Some(format!("nondeterminism in job {} ({}): {d}; choices {ch:?}", task.job, j.name));
                sh.stop.store(true, Ordering::SeqCst);
                sh.cv.notify_all();
                break 'tasks;
            }
            task.trace.truncate(used);
            let st = &mut js[task.job];
            st.execs += 1;
            st.edges += (task.trace.len() - fresh_from.min(task.trace.len())) as u64;
            if task.trace.len() > st.max_depth || st.execs == 1 {
                st.max_depth = task.trace.len();
                st.longest = task.trace.iter().map(|p| p.c).collect();
            }
            if let Err(f) = r {
                let choices: Vec<u32> = task.trace.iter().map(|p| p.c).collect();
                let mut fo = sh.found.lock().unwrap();
                if !fo.iter().any(|v| v.fail.key == f.key && v.job == task.job) {
                    fo.push(Violation { job: task.job, choices, fail: f, log: vec![] });
                }
                if fo.len() >= max_found {
                    sh.stop.store(true, Ordering::SeqCst);
                    sh.cv.notify_all();
                    break 'tasks;
                }
            }
            if js[task.job].execs & 0xff == 0 {
                sh.execs.fetch_add(256, Ordering::Relaxed);
                if Instant::now() > deadline {
                    sh.capped.store(true, Ordering::SeqCst);
                    sh.stop.store(true, Ordering::SeqCst);
                    sh.cv.notify_all();
                    break 'tasks;
                }
            }
            // share work with idle workers
            if sh.idle.load(Ordering::Relaxed) > 0 {
                if let Some(i) = (task.base..task.trace.len()).find(|&i| task.trace[i].c + 1 < task.trace[i].n) {
                    let mut q = sh.queue.lock().unwrap();
                    if q.len() < sh.workers * 2 {
                        for alt in task.trace[i].c + 1..task.trace[i].n {
                            let mut t = task.trace[..=i].to_vec();
                            t[i].c = alt;
                            q.push_back(Task { job: task.job, trace: t, base: i + 1 });
                        }
                        task.base = i + 1;
                        sh.cv.notify_all();
                    }
                }
            }
            // backtrack
            let next = (task.base..task.trace.len()).rev().find(|&i| task.trace[i].c + 1 < task.trace[i].n);
            let Some(i) = next else { break };
            task.trace.truncate(i + 1);
            task.trace[i].c += 1;
            fresh_from = i;
        }
    }
    let _ = w;
    let cur = CUR.with(|c| c.borrow_mut().take()).unwrap();
    let mut a = stats.lock().unwrap();
    for (i, s) in js.into_iter().enumerate() {
        let t = &mut a.jobs[i];
        t.execs += s.execs;
        t.edges += s.edges;
        if s.max_depth > t.max_depth || (t.longest.is_empty() && s.execs > 0) {
            t.max_depth = s.max_depth;
            t.longest = s.longest;
        }
    }
    if a.states.is_empty() {
        a.states = cur.states;
    } else {
        a.states.extend(cur.states);
    }
    if a.outcomes.is_empty() {
        a.outcomes = cur.outcomes;
    } else {
        a.outcomes.extend(cur.outcomes);
    }
    for (k, v) in cur.counters {
        *a.counters.entry(k).or_insert(0) += v;
    }
}
#[derive(Default)]
struct Agg {
    jobs: Vec<JobStat>,
    states: HashSet<u64, BuildHasherDefault<IdHasher>>,
    outcomes: HashSet<u64, BuildHasherDefault<IdHasher>>,
    counters: BTreeMap<&'static str, u64>,
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jlist<T>(v: impl IntoIterator<Item = T>, f: impl Fn(T) -> String) -> String {
    format!("[{}]", v.into_iter().map(f).collect::<Vec<_>>().join(","))
}

/// A memory-mapped crash record shared with the supervising process.
#[cfg(not(miri))]
fn map_slots(path: &str, n: usize) -> *mut u32 {
    use std::os::fd::AsRawFd;
    extern "C" {
        fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    }
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap();
    f.set_len((n * SLOT_WORDS * 4) as u64).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), n * SLOT_WORDS * 4, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1);
    p as *mut u32
}

static HANG_S: AtomicU32 = AtomicU32::new(20);

/// Entry point of a harness binary. Protocol with `/verif/check`:
/// `--tier T --out FILE [--slots FILE] [--cap SECONDS] [--known KEY]*` explores everything;
/// `--tier T --replay JOB c,c,c [--verbose]` runs one execution. Exit 0 held, 1 violation, 2 error.
/// Stack of the threads that run executions, in bytes.
pub static STACK: AtomicUsize = AtomicUsize::new(16 << 20);

pub fn main(jobs_of: impl Fn(Tier) -> Vec<Job>) {
    install_hook();
    let mut args = std::env::args().skip(1);
    let (mut tier, mut out, mut slots, mut cap, mut rep, mut verbose) = (Tier::Quick, None, None, 100_000u64, None, false);
    let mut known: Vec<String> = Vec::new();
    let mut shard = (0usize, 1usize);
    while let Some(a) = args.next() {
        match a.as_str() {
            "--tier" => {
                tier = match args.next().unwrap().as_str() {
                    "miri" => Tier::Miri,
                    "thorough" => Tier::Thorough,
                    _ => Tier::Quick,
                }
            }
            "--out" => out = args.next(),
            "--slots" => slots = args.next(),
            "--cap" => cap = args.next().unwrap().parse().unwrap(),
            "--hang" => HANG_S.store(args.next().unwrap().parse().unwrap(), Ordering::Relaxed),
            "--known" => known.push(args.next().unwrap()),
            "--verbose" => verbose = true,
            "--shard" => {
                let a = args.next().unwrap();
                let (i, n) = a.split_once('/').unwrap();
                shard = (i.parse().unwrap(), n.parse().unwrap());
            }
            "--replay" => {
                let j: usize = args.next().unwrap().parse().unwrap();
                let c = args.next().unwrap();
                let c: Vec<u32> = c.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
                rep = Some((j, c));
            }
            x => panic!("unknown argument {x}"),
        }
    }
    let mut i = 0;
    let mut jobs = jobs_of(tier);
    jobs.retain(|_| {
        i += 1;
        (i - 1) % shard.1 == shard.0
    });
    let jobs = jobs;
    if let Some((j, c)) = rep {
        let (r, d, log) = replay(&jobs, j, &c, verbose);
        println!("job {} ({})", j, jobs[j].name);
        for l in log {
            println!("  {l}");
        }
        if let Err(f) = r {
            println!("FAIL key={} {}", f.key, f.msg);
            std::process::exit(1);
        }
        if let Some(d) = d {
            println!("DIVERGED {d}");
            std::process::exit(2);
        }
        println!("OK");
        return;
    }
    let t0 = Instant::now();
    let workers = if cfg!(miri) { 1 } else { std::thread::available_parallelism().map_or(4, |n| n.get()).min(8) };
    #[cfg(not(miri))]
    let slot_base = slots.as_deref().map(|p| map_slots(p, workers)).unwrap_or(std::ptr::null_mut()) as usize;
    #[cfg(miri)]
    let slot_base = {
        let _ = slots;
        0usize
    };
    let sh = Shared {
        queue: Mutex::new((0..jobs.len()).map(|job| Task { job, trace: vec![], base: 0 }).collect()),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        workers,
        stop: AtomicBool::new(false),
        found: Mutex::new(vec![]),
        error: Mutex::new(None),
        capped: AtomicBool::new(false),
        execs: AtomicU64::new(0),
    };
    let agg = Mutex::new(Agg { jobs: vec![JobStat::default(); jobs.len()], ..Default::default() });
    let deadline = t0 + Duration::from_secs(cap);
    // With known findings listed, exploration continues past them so that other violations still surface.
    let max_found = if known.is_empty() { 1 } else { 64 };
    if cfg!(miri) {
        worker(0, &jobs, &sh, deadline, std::ptr::null_mut(), &agg, max_found);
    } else {
        let done_flag = AtomicBool::new(false);
        std::thread::scope(|s| {
            let done = &done_flag;
            let hs: Vec<_> = (0..workers)
                .map(|w| {
                    let (jobs, sh, agg) = (&jobs, &sh, &agg);
                    std::thread::Builder::new()
                        .stack_size(STACK.load(Ordering::SeqCst))
                        .spawn_scoped(s, move || {
                            let slot = if slot_base == 0 { std::ptr::null_mut() } else { unsafe { (slot_base as *mut u32).add(w * SLOT_WORDS) } };
                            worker(w, jobs, sh, deadline, slot, agg, max_found)
                        })
                        .unwrap()
                })
                .collect();
            if slot_base != 0 {
                s.spawn(move || {
                    let mut last: Vec<(u32, Instant)> = vec![(0, Instant::now()); workers];
                    while !done.load(Ordering::Relaxed) {
                        std::thread::sleep(Duration::from_millis(50));
                        for w in 0..workers {
                            let p = unsafe { (slot_base as *mut u32).add(w * SLOT_WORDS) };
                            let (act, seq) = unsafe { (p.read_volatile(), p.add(2).read_volatile()) };
                            if act == 0 || last[w].0 != seq {
                                last[w] = (seq, Instant::now());
                            } else if last[w].1.elapsed() > Duration::from_secs(HANG_S.load(Ordering::Relaxed) as u64) {
                                // leave only the hanging slot marked, for the supervisor
                                for o in 0..workers {
                                    if o != w {
                                        unsafe { (slot_base as *mut u32).add(o * SLOT_WORDS).write_volatile(0) };
                                    }
                                }
                                extern "C" {
                                    fn _exit(c: i32) -> !;
                                }
                                unsafe { _exit(97) }
                            }
                        }
                    }
                });
            }
            let mut bad = false;
            for h in hs {
                bad |= h.join().is_err();
            }
            done.store(true, Ordering::Relaxed);
            if bad {
                eprintln!("explorer worker panicked");
                std::process::exit(2);
            }
        });
    }
    if let Some(e) = sh.error.lock().unwrap().take() {
        eprintln!("ERROR: {e}");
        std::process::exit(2);
    }
    let mut found = sh.found.into_inner().unwrap();
    // Replay every violation twice: the verdict must be identical.
    for v in &mut found {
        for _ in 0..2 {
            let (r, _, log) = replay(&jobs, v.job, &v.choices, true);
            match r {
                Err(f) if f.key == v.fail.key => v.log = log,
                o => {
                    eprintln!("ERROR: violation of job {} not reproducible: {:?} then {:?}; choices {:?}", jobs[v.job].name, v.fail, o, v.choices);
                    std::process::exit(2);
                }
            }
        }
    }
    let agg = agg.into_inner().unwrap();
    let mut samples = Vec::new();
    if found.is_empty() && !cfg!(miri) {
        let step = (jobs.len() / 6).max(1);
        for ji in (0..jobs.len()).step_by(step).take(8) {
            if agg.jobs[ji].execs == 0 {
                continue;
            }
            let (r, _, log) = replay(&jobs, ji, &agg.jobs[ji].longest, true);
            let log: Vec<_> = log.into_iter().take(40).collect();
            samples.push(format!("{}: {} => {}", jobs[ji].name, log.join("; "), if r.is_ok() { "held" } else { "violated" }));
        }
    }
    let execs: u64 = agg.jobs.iter().map(|j| j.execs).sum();
    let edges: u64 = agg.jobs.iter().map(|j| j.edges).sum();
    let json = format!(
        "{{\"executions\":{},\"edges\":{},\"states\":{},\"outcomes\":{},\"wall_s\":{:.3},\"capped\":{},\"counters\":{{{}}},\"jobs\":{},\"samples\":{},\"violations\":{}}}",
        execs,
        edges,
        agg.states.len(),
        agg.outcomes.len(),
        t0.elapsed().as_secs_f64(),
        sh.capped.load(Ordering::SeqCst),
        agg.counters.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","),
        jlist(jobs.iter().zip(&agg.jobs), |(j, s)| format!(
            "{{\"name\":{},\"deviation_budget\":{},\"executions\":{},\"edges\":{},\"max_depth\":{}}}",
            jstr(&j.name),
            j.devs,
            s.execs,
            s.edges,
            s.max_depth
        )),
        jlist(&samples, |s| jstr(s)),
        jlist(&found, |v| format!(
            "{{\"job\":{},\"job_name\":{},\"choices\":{},\"key\":{},\"msg\":{},\"log\":{}}}",
            v.job,
            jstr(&jobs[v.job].name),
            jlist(&v.choices, |c| c.to_string()),
            jstr(&v.fail.key),
            jstr(&v.fail.msg),
            jlist(&v.log, |s| jstr(s))
        ))
    );
    match out {
        Some(o) if !cfg!(miri) => std::fs::write(o, json).unwrap(),
        _ => println!("RESULT {json}"),
    }
    std::process::exit(if found.is_empty() { 0 } else { 1 });
}
