//! A manual executor that owns every wake-up. Environment events ("gates") suspend a future and are fired by
//! the driver; a suspended future must be waiting for an outstanding event with the waker of its last poll.
use crate::explore::{dev, in_execution};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::{pin, Pin};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub struct Flag {
    pub woken: AtomicBool,
    pub wakes: AtomicUsize,
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.woken.store(true, Ordering::SeqCst);
        self.wakes.fetch_add(1, Ordering::SeqCst);
    }
}
/// A fresh waker with its observable flag.
pub fn waker() -> (Arc<Flag>, Waker) {
    let f = Arc::new(Flag { woken: AtomicBool::new(false), wakes: AtomicUsize::new(0) });
    (f.clone(), Waker::from(f))
}

struct Ev {
    fired: Cell<bool>,
    waker: RefCell<Option<Waker>>,
    polls: Cell<usize>,
}
/// Polls of one suspended input future after which it counts as being spun on.
const SPIN_LIMIT: usize = 1_000;
thread_local! {
    /// While set, gates never suspend (the harness itself is reading).
    static CALM: Cell<bool> = const { Cell::new(false) };
    /// Every gate suspends this often before the environment is asked.
    static FORCED: Cell<usize> = const { Cell::new(0) };
    static EVENTS: RefCell<Vec<Rc<Ev>>> = const { RefCell::new(Vec::new()) };
}
pub fn reset() {
    FORCED.set(0);
    EVENTS.with(|e| e.borrow_mut().clear())
}
/// Runs `f` with an input that never suspends.
pub fn calm<T>(f: impl FnOnce() -> T) -> T {
    struct Back(bool);
    impl Drop for Back {
        fn drop(&mut self) {
            CALM.set(self.0)
        }
    }
    let _b = Back(CALM.replace(true));
    f()
}
/// From here to the next `reset`, every input future suspends `n` times before it completes.
pub fn force_suspensions(n: usize) {
    FORCED.set(n)
}
/// Number of outstanding environment events.
pub fn outstanding() -> usize {
    EVENTS.with(|e| e.borrow().len())
}
/// Fires the i-th outstanding event.
pub fn fire(i: usize) {
    let ev = EVENTS.with(|e| e.borrow_mut().remove(i));
    ev.fired.set(true);
    let w = ev.waker.borrow_mut().take();
    if let Some(w) = w {
        w.wake()
    }
}

/// A point where the environment may suspend the caller any number of times within the deviation budget.
#[derive(Default)]
pub struct Gate {
    ev: Option<Rc<Ev>>,
    forced: usize,
    done: bool,
}
impl Gate {
    pub fn new() -> Self {
        Self::default()
    }
    /// Suspends iff the environment says so.
    pub fn poll(&mut self, cx: &mut Context<'_>) -> Poll<()> {
        if self.done {
            panic!("CONTRACT: a completed future of the input was polled again");
        }
        if let Some(ev) = &self.ev {
            if !ev.fired.get() {
                *ev.waker.borrow_mut() = Some(cx.waker().clone());
                ev.polls.set(ev.polls.get() + 1);
                if ev.polls.get() > SPIN_LIMIT {
                    panic!("PROGRESS: a suspended input was polled {SPIN_LIMIT} times while nothing happened");
                }
                return Poll::Pending;
            }
            self.ev = None;
        }
        let forced = self.forced < FORCED.get();
        self.forced += forced as usize;
        if !CALM.get() && (forced || (in_execution() && dev(2) == 1)) {
            let ev = Rc::new(Ev { fired: Cell::new(false), waker: RefCell::new(Some(cx.waker().clone())), polls: Cell::new(0) });
            crate::alloc::exempt(|| EVENTS.with(|e| e.borrow_mut().push(ev.clone())));
            self.ev = Some(ev);
            return Poll::Pending;
        }
        self.done = true;
        Poll::Ready(())
    }
}
impl Drop for Gate {
    fn drop(&mut self) {
        if let Some(ev) = self.ev.take() {
            let _ = EVENTS.try_with(|e| {
                if let Ok(mut e) = e.try_borrow_mut() {
                    e.retain(|x| !Rc::ptr_eq(x, &ev))
                }
            });
        }
    }
}
/// A future that may be suspended by the environment and then yields its value.
pub struct Gated<T>(Option<T>, Gate);
impl<T> Gated<T> {
    pub fn new(v: T) -> Self {
        Gated(Some(v), Gate::new())
    }
}
impl<T> Unpin for Gated<T> {}
impl<T> Future for Gated<T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        let me = self.get_mut();
        match me.1.poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(()) => Poll::Ready(me.0.take().unwrap()),
        }
    }
}

/// Polls without an event in between after which a future counts as making no progress.
pub const POLL_LIMIT: usize = 5_000;

/// Polls once with a fresh waker.
pub fn poll_once<F: Future + ?Sized>(f: Pin<&mut F>) -> (Poll<F::Output>, Arc<Flag>) {
    let (fl, w) = waker();
    (f.poll(&mut Context::from_waker(&w)), fl)
}

/// Drives a future to completion, firing events as needed. Panics (a violation) if the future is suspended with
/// nothing to wait for, was not woken by its event through its latest waker, or makes no progress.
pub fn run<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    run_pinned(f.as_mut())
}
/// Like `run`, but the future may be dropped at any of its suspensions (spending a deviation).
pub fn run_or_drop<F: Future>(f: F) -> Option<F::Output> {
    let mut f = pin!(f);
    let mut polls = 0;
    loop {
        polls += 1;
        if polls > POLL_LIMIT {
            panic!("PROGRESS: polled {POLL_LIMIT} times without completing");
        }
        let (p, fl) = poll_once(f.as_mut());
        if let Poll::Ready(v) = p {
            return Some(v);
        }
        if dev(2) == 1 {
            return None;
        }
        if !fl.woken.load(Ordering::SeqCst) {
            if outstanding() == 0 {
                panic!("PROGRESS: suspended with no input event outstanding and no wake-up requested");
            }
            fire(0);
        }
    }
}
pub fn run_pinned<F: Future + ?Sized>(mut f: Pin<&mut F>) -> F::Output {
    let mut polls = 0;
    loop {
        polls += 1;
        if polls > POLL_LIMIT {
            panic!("PROGRESS: polled {POLL_LIMIT} times without completing");
        }
        let (p, fl) = poll_once(f.as_mut());
        if let Poll::Ready(v) = p {
            return v;
        }
        if fl.woken.load(Ordering::SeqCst) {
            continue;
        }
        if outstanding() == 0 {
            panic!("PROGRESS: suspended with no input event outstanding and no wake-up requested");
        }
        // spurious poll before the event: only the new waker counts afterwards
        if !CALM.get() && in_execution() && dev(2) == 1 {
            continue;
        }
        polls = 0;
        fire(0);
        if !fl.woken.load(Ordering::SeqCst) {
            panic!("PROGRESS: the event it waits for did not wake the task through the waker of its last poll");
        }
    }
}
