//! Models for loom: the real code of the repository, compiled against loom's synchronisation types.
use loom::cell::UnsafeCell;
use loom::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use loom::sync::Arc;
use parcom_internals::future::notify::Notify;
use parcom_runners::default_runner::DefaultSequence;
use parcom_sequence_core::{BufferWriter, SequenceBuffer, SequenceBuilder, SequenceControl, SequenceLoader, SequenceSource};
use parcom_sequences::generic::{GenericSequenceBuffer, GenericSequenceBuilder, GenericSequenceLoader};
use parcom_sequences::BufferStrategy;
use std::collections::BTreeSet;
use std::future::{Future, Ready};
use std::pin::{pin, Pin};
use std::sync::atomic::{AtomicI64, AtomicU64};
use std::sync::Mutex;
use std::task::{Context, Poll, Wake, Waker};

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick {
            q
        } else {
            t
        }
    }
}
pub struct Model {
    pub name: String,
    pub bound: Option<usize>,
    pub f: Box<dyn Fn() -> String + Send + Sync>,
}
pub fn model(name: impl Into<String>, bound: impl Into<Option<usize>>, f: impl Fn() -> String + Send + Sync + 'static) -> Model {
    Model { name: name.into().replace(", ", ",").replace(' ', "-"), bound: bound.into(), f: Box::new(f) }
}
static SCHEDULES: AtomicU64 = AtomicU64::new(0);
static STEPS: AtomicU64 = AtomicU64::new(0);
static OUTCOMES: Mutex<BTreeSet<String>> = Mutex::new(BTreeSet::new());
static LIVE: AtomicI64 = AtomicI64::new(0);

pub fn main(models: impl Fn(Tier) -> Vec<Model>) {
    let a: Vec<String> = std::env::args().collect();
    let at = |k: &str| a.iter().position(|x| x == k);
    let tier = match at("--tier").map(|i| a[i + 1].as_str()) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut seen = BTreeSet::new();
    let ms: Vec<Model> = models(tier).into_iter().filter(|m| seen.insert(m.name.clone())).collect();
    if at("--list").is_some() {
        for m in ms {
            println!("{}", m.name);
        }
        return;
    }
    let name = &a[at("--model").expect("--model") + 1];
    let Some(m) = ms.into_iter().find(|m| m.name == *name) else {
        eprintln!("no model {name}");
        std::process::exit(2);
    };
    // loom prints to stderr at every wait: keep the descriptor for what matters only
    let err = unsafe {
        let e = dup(2);
        let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
        dup2(std::os::fd::AsRawFd::as_raw_fd(&null), 2);
        e
    };
    ERR.store(err as i64, Relaxed);
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload();
        let m = m.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| m.downcast_ref::<String>().cloned()).unwrap_or_default();
        tell(&format!("panicked at {}: {m}", i.location().map(|l| l.to_string()).unwrap_or_default()));
        unsafe { _exit(101) }
    }));
    let mut b = loom::model::Builder::new();
    b.preemption_bound = m.bound;
    b.max_branches = 20_000;
    b.max_threads = 4;
    b.log = false;
    let f = m.f;
    b.check(move || {
        SCHEDULES.fetch_add(1, Relaxed);
        LIVE.store(0, Relaxed);
        let o = f();
        must(LIVE.load(Relaxed) == 0, "drops", || format!("{} items alive in the end", LIVE.load(Relaxed)));
        OUTCOMES.lock().unwrap().insert(o);
    });
    let o = OUTCOMES.lock().unwrap();
    println!(
        "MODEL {{\"name\": {:?}, \"schedules\": {}, \"outcomes\": {}, \"steps\": {}, \"bound\": {}, \"seen\": {:?}}}",
        m.name,
        SCHEDULES.load(Relaxed),
        o.len(),
        STEPS.load(Relaxed),
        m.bound.map_or("\"none\"".into(), |b| b.to_string()),
        o.iter().take(6).collect::<Vec<_>>()
    );
}
extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn _exit(code: i32) -> !;
}
static ERR: AtomicI64 = AtomicI64::new(2);
fn tell(s: &str) {
    let s = format!("{s}\n");
    use std::io::Write;
    let mut f = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(ERR.load(Relaxed) as i32) };
    let _ = f.write_all(s.as_bytes());
    std::mem::forget(f);
}
#[track_caller]
pub fn must(ok: bool, key: &str, msg: impl FnOnce() -> String) {
    if !ok {
        tell(&format!("VIOLATION-KEY {key}"));
        panic!("{}", msg());
    }
}

// ------------------------------------------------------------------ running futures
struct Parker(loom::sync::Notify);
unsafe impl Send for Parker {}
unsafe impl Sync for Parker {}
impl Wake for Parker {
    fn wake(self: std::sync::Arc<Self>) {
        self.0.notify();
    }
}
/// Polls, sleeps until woken, polls again. (loom also wakes it once for no reason.)
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    let p = std::sync::Arc::new(Parker(loom::sync::Notify::new()));
    let w = Waker::from(p.clone());
    let mut cx = Context::from_waker(&w);
    loop {
        STEPS.fetch_add(1, Relaxed);
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
        p.0.wait();
    }
}
pub fn now<F: Future>(f: F) -> F::Output {
    match once(pin!(f)) {
        Poll::Ready(r) => r,
        Poll::Pending => panic!("not ready at once"),
    }
}
/// One poll with a waker that does nothing.
pub fn once<F: Future>(f: Pin<&mut F>) -> Poll<F::Output> {
    STEPS.fetch_add(1, Relaxed);
    f.poll(&mut Context::from_waker(Waker::noop()))
}

/// A task that runs wherever it is woken: within the wake-up, on the thread that wakes it, if it is not running.
struct Inline {
    state: AtomicUsize,
    fut: std::cell::UnsafeCell<Option<Pin<Box<dyn Future<Output = ()>>>>>,
}
unsafe impl Send for Inline {}
unsafe impl Sync for Inline {}
const IDLE: usize = 0;
const RUNNING: usize = 1;
const AGAIN: usize = 2;
const DONE: usize = 3;
impl Wake for Inline {
    fn wake(self: std::sync::Arc<Self>) {
        loop {
            match self.state.compare_exchange(IDLE, RUNNING, SeqCst, SeqCst) {
                Ok(_) => break,
                Err(RUNNING) if self.state.compare_exchange(RUNNING, AGAIN, SeqCst, SeqCst).is_err() => {}
                Err(_) => return,
            }
        }
        let w = Waker::from(self.clone());
        loop {
            STEPS.fetch_add(1, Relaxed);
            // only the thread that made it RUNNING is here
            let fut = unsafe { &mut *self.fut.get() };
            let ready = fut.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&w)).is_ready();
            if ready {
                let gone = fut.take();
                self.state.store(DONE, SeqCst);
                drop(gone);
                return;
            }
            if self.state.compare_exchange(RUNNING, IDLE, SeqCst, SeqCst).is_ok() {
                return;
            }
            self.state.store(RUNNING, SeqCst);
        }
    }
}
/// Runs `f` in the threads that wake it, and `meanwhile` in this one; `f` must have ended when that has.
pub fn inline(f: impl Future<Output = ()> + 'static, meanwhile: impl FnOnce()) {
    let t = std::sync::Arc::new(Inline { state: AtomicUsize::new(IDLE), fut: std::cell::UnsafeCell::new(Some(Box::pin(f))) });
    t.clone().wake();
    meanwhile();
    must(t.state.load(SeqCst) == DONE, "lost", || "the task sleeps after the end of loading".into());
}

// ------------------------------------------------------------------ items, source, loading side
/// An item whose contents loom watches: reading it without having been told about the write is an error.
pub struct Item(UnsafeCell<u32>);
impl Item {
    pub fn new(v: u32) -> Self {
        LIVE.fetch_add(1, Relaxed);
        let c = UnsafeCell::new(0);
        c.with_mut(|p| unsafe { *p = v });
        Item(c)
    }
    pub fn get(&self) -> u32 {
        self.0.with(|p| unsafe { *p })
    }
}
impl Drop for Item {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, Relaxed);
        self.0.with_mut(|p| unsafe { *p = u32::MAX });
    }
}
impl PartialEq for Item {
    fn eq(&self, o: &Self) -> bool {
        self.get() == o.get()
    }
}
impl Clone for Item {
    fn clone(&self) -> Self {
        Item::new(self.get())
    }
}
unsafe impl Send for Item {}
unsafe impl Sync for Item {}

/// Writes chunks of the given sizes, numbering the items, then ends (or fails at the call given).
pub struct Chunks {
    sizes: Vec<usize>,
    at: usize,
    next: u32,
    fail: Option<usize>,
}
impl SequenceSource for Chunks {
    type Item = Item;
    type Error = ();
    type Next<'a, C>
        = Ready<C::Result>
    where
        Self: 'a,
        C: 'a + SequenceControl<Item = Item, Error = ()>;
    fn next<'a, C>(&'a mut self, c: C, _: usize) -> Ready<C::Result>
    where
        C: 'a + SequenceControl<Item = Item, Error = ()>,
    {
        if self.fail == Some(self.at) {
            self.fail = None;
            return std::future::ready(c.cancel(()));
        }
        let Some(&n) = self.sizes.get(self.at) else {
            return std::future::ready(c.finish());
        };
        self.at += 1;
        let mut w = c.request_writer(n);
        for _ in 0..n {
            if w.push_item(Item::new(self.next)).is_err() {
                must(false, "writer", || format!("a writer granted for {n} refused an item"));
            }
            self.next += 1;
        }
        std::future::ready(w.advance())
    }
}
pub struct Room(pub usize);
impl BufferStrategy for Room {
    fn calc_capacity(&self, n: usize) -> usize {
        n.max(self.0)
    }
}
pub type Loader = GenericSequenceLoader<Item, Chunks, Room>;
pub type Buffer = GenericSequenceBuffer<Item>;
pub fn build(sizes: &[usize], room: usize, fail: Option<usize>) -> (Buffer, Loader) {
    GenericSequenceBuilder::verif_new(Room(room)).build(Chunks { sizes: sizes.to_vec(), at: 0, next: 0, fail })
}
/// The loader lives with the loading thread, not in the sequence.
pub struct B;
pub struct NoLoader;
impl SequenceLoader for NoLoader {
    type Length = usize;
    type Segment = [Item];
    type Error = ();
    type Load<'a> = Ready<Result<parcom_sequence_core::LoadInfo, ()>>;
    fn force_commit(&mut self) {}
    fn load(&mut self) -> Self::Load<'_> {
        unreachable!()
    }
}
impl SequenceBuilder<Chunks> for B {
    type Length = usize;
    type Segment = [Item];
    type Buffer = Buffer;
    type Loader = NoLoader;
    fn build(&self, _: Chunks) -> (Buffer, NoLoader) {
        unreachable!()
    }
}
pub type Seq = DefaultSequence<Chunks, B>;
pub fn sequence(buf: Buffer) -> (Seq, Arc<Notify>, Arc<AtomicBool>) {
    let s = Seq::new(buf, NoLoader);
    let (n, f) = s.verif_handles();
    (s, n, f)
}
/// What the owner of the loader does: commit, then mark the end, then signal.
#[derive(Clone, Copy)]
pub struct Side {
    pub force: bool,
    /// Signals only after something was appended.
    pub lazy: bool,
    /// Gives up after so many loads without marking the end.
    pub loads: usize,
}
pub const ALL: Side = Side { force: false, lazy: false, loads: usize::MAX };
pub fn loading(mut ld: Loader, n: Arc<Notify>, f: Arc<AtomicBool>, side: Side) {
    for _ in 0..side.loads {
        let (mut new, done) = match now(ld.load()) {
            Ok(i) => (i.commited() > 0, i.is_done()),
            Err(()) => (false, false),
        };
        if side.force && !done {
            ld.force_commit();
            new = true;
        }
        if done {
            f.store(true, SeqCst);
        }
        if new || done || !side.lazy {
            n.send();
        }
        if done {
            break;
        }
    }
}
/// The items of a segment must be the next ones.
pub fn take(seg: &[Item], at: &mut u32) {
    for i in seg {
        let v = i.get();
        must(v == *at, "items", || format!("item {v} in place of {at}"));
        *at += 1;
    }
}
/// Items alive.
pub fn live() -> i64 {
    LIVE.load(Relaxed)
}
