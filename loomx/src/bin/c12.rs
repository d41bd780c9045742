//! C12 with real threads: no notification is lost, none is premature, and what was written before it is visible.
use loom::cell::UnsafeCell;
use loom::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use loom::sync::Arc;
use loom::thread;
use loomx::*;
use parcom_internals::future::notify::Notify;
use std::future::Future;
use std::pin::pin;
use std::task::{Context, Poll, Waker};

/// Written by a sender before it sends.
struct Data(UnsafeCell<u32>);
unsafe impl Send for Data {}
unsafe impl Sync for Data {}
impl Data {
    fn set(&self, v: u32) {
        self.0.with_mut(|p| unsafe { *p = v })
    }
    fn get(&self) -> u32 {
        self.0.with(|p| unsafe { *p })
    }
}
struct Shared {
    n: Notify,
    data: Data,
    sent: AtomicUsize,
}
fn shared() -> Arc<Shared> {
    Arc::new(Shared { n: Notify::new(), data: Data(UnsafeCell::new(0)), sent: AtomicUsize::new(0) })
}

/// A waker whose task runs right where it is woken.
struct Inline {
    n: &'static Notify,
    act: usize,
    left: std::sync::atomic::AtomicUsize,
    woken: std::sync::atomic::AtomicUsize,
    side: std::sync::Mutex<Option<std::pin::Pin<Box<parcom_internals::future::notify::Wait<'static>>>>>,
}
impl std::task::Wake for Inline {
    fn wake(self: std::sync::Arc<Self>) {
        self.woken.fetch_add(1, SeqCst);
        match self.act {
            0 => must(once(Box::pin(self.n.wait()).as_mut()).is_pending() || self.woken.load(SeqCst) > 0, "premature", || "a new wait is ready".into()),
            1 => {
                let side = self.side.lock().unwrap().take();
                if let Some(mut w) = side {
                    must(once(w.as_mut()).is_ready(), "lost", || "a wait obtained before the send has not ended when wakers are woken".into());
                }
            }
            _ => {
                if self.left.fetch_add(1, SeqCst) == 0 {
                    self.n.send()
                }
            }
        }
    }
}

fn main() {
    loomx::main(|t| {
        let mut v = vec![];
        // waits obtained before the threads run must all end
        for (waiters, senders, bound) in [(1, 1, None), (2, 1, None), (1, 2, None), (2, 2, Some(3)), (3, 1, Some(2))] {
            if bound.is_some() && t == Tier::Quick {
                continue;
            }
            v.push(model(format!("{waiters} waits, {senders} sends"), bound, move || {
                let s = shared();
                // a wait borrows the notifier, which lives until every thread is done
                let n: &'static Notify = unsafe { &*(&s.n as *const Notify) };
                let ws: Vec<_> = (0..waiters).map(|_| n.wait()).collect();
                let mut hs = vec![];
                for w in ws {
                    let s = s.clone();
                    hs.push(thread::spawn(move || {
                        block_on(w);
                        must(s.sent.load(SeqCst) > 0, "premature", || "a wait ended before any send".into());
                        if senders == 1 {
                            must(s.data.get() == 7, "visible", || "the sender's writes are not visible".into());
                        }
                    }));
                }
                for _ in 1..senders {
                    let s = s.clone();
                    hs.push(thread::spawn(move || {
                        s.sent.fetch_add(1, SeqCst);
                        s.n.send()
                    }));
                }
                if senders == 1 {
                    s.data.set(7);
                }
                s.sent.fetch_add(1, SeqCst);
                s.n.send();
                for h in hs {
                    h.join().unwrap();
                }
                "done".into()
            }));
        }
        // the usual protocol: obtain a wait, look at the condition, sleep
        for checks in [1, 2] {
            v.push(model(format!("condition set before the send, {checks} rounds"), None, move || {
                let s = shared();
                let h = {
                    let s = s.clone();
                    thread::spawn(move || {
                        for k in 1..=checks {
                            s.sent.store(k, Relaxed);
                            s.n.send();
                        }
                    })
                };
                let mut slept = 0;
                loop {
                    let w = s.n.wait();
                    if s.sent.load(Relaxed) == checks {
                        break;
                    }
                    block_on(w);
                    slept += 1;
                    must(slept <= checks, "premature", || "a wait ended without a send of its own".into());
                }
                h.join().unwrap();
                format!("slept {slept}")
            }));
        }
        v.push(model("dropped after one poll", None, || {
            let s = shared();
            let h = {
                let s = s.clone();
                thread::spawn(move || {
                    s.data.set(7);
                    s.n.send();
                })
            };
            let mut early = 0;
            {
                let w = s.n.wait();
                // nothing sent yet, or everything
                let mut w = pin!(w);
                let first = once(w.as_mut()).is_ready();
                if first {
                    early = 1;
                }
                drop(w);
            }
            h.join().unwrap();
            format!("first {early}")
        }));
        v.push(model("the last waker is woken", None, || {
            let s = shared();
            let n: &'static Notify = unsafe { &*(&s.n as *const Notify) };
            let w = n.wait();
            let h = {
                let s = s.clone();
                thread::spawn(move || {
                    s.data.set(7);
                    s.n.send();
                })
            };
            let mut w = Box::pin(w);
            let ready = once(w.as_mut()).is_ready();
            if !ready {
                block_on(w);
            }
            must(s.data.get() == 7, "visible", || "the sender's writes are not visible".into());
            h.join().unwrap();
            format!("ready at once {ready}")
        }));
        // a wait obtained after a send ends only with another one
        v.push(model("wait after a send", None, || {
            let s = shared();
            s.n.send();
            let n: &'static Notify = unsafe { &*(&s.n as *const Notify) };
            let w = n.wait();
            let h = {
                let s = s.clone();
                thread::spawn(move || {
                    let mut w = Box::pin(w);
                    let r = once(w.as_mut()).is_ready();
                    must(!r || s.sent.load(SeqCst) > 0, "premature", || "a wait ended by an earlier send".into());
                    if !r {
                        block_on(w);
                    }
                    r
                })
            };
            s.sent.store(1, SeqCst);
            s.n.send();
            let r = h.join().unwrap();
            format!("ready at once {r}")
        }));
        // waits awaited together in one task, hence with one waker
        for (waits, senders, late) in [(2, 1, false), (2, 1, true), (2, 2, false), (3, 1, false)] {
            if (waits, senders) != (2, 1) && t == Tier::Quick {
                continue;
            }
            let name = format!("{waits} waits joined in one task, {senders} sends{}", if late { ", one abandoned" } else { "" });
            v.push(model(name, if waits + senders > 3 { Some(3) } else { None }, move || {
                let s = shared();
                let n: &'static Notify = unsafe { &*(&s.n as *const Notify) };
                let mut ws: Vec<_> = (0..waits).map(|_| Some(Box::pin(n.wait()))).collect();
                let mut hs = vec![];
                for _ in 0..senders {
                    let s = s.clone();
                    hs.push(thread::spawn(move || {
                        s.sent.fetch_add(1, SeqCst);
                        s.n.send()
                    }));
                }
                let mut polls = 0;
                block_on(std::future::poll_fn(|cx| {
                    polls += 1;
                    for w in &mut ws {
                        if w.as_mut().is_some_and(|w| w.as_mut().poll(cx).is_ready()) {
                            must(s.sent.load(SeqCst) > 0, "premature", || "a wait ended before any send".into());
                            *w = None;
                        }
                    }
                    if late && polls == 1 {
                        // one is given up while the other goes on
                        *ws.last_mut().unwrap() = None;
                    }
                    if ws.iter().all(|w| w.is_none()) {
                        Poll::Ready(())
                    } else {
                        Poll::Pending
                    }
                }));
                for h in hs {
                    h.join().unwrap();
                }
                format!("{} polls", polls.min(3))
            }));
        }
        // wakers that run their task at once, inside the notification that wakes it
        for act in 0..3 {
            for other in [false, true] {
                let name = format!("a waker that {} at once{}", ["waits again", "polls another wait", "sends"][act], if other { ", two senders" } else { "" });
                v.push(model(name, None, move || {
                    let s = shared();
                    let n: &'static Notify = unsafe { &*(&s.n as *const Notify) };
                    let inline = std::sync::Arc::new(Inline { n, act, left: Default::default(), woken: Default::default(), side: std::sync::Mutex::new(Some(Box::pin(n.wait()))) });
                    let wk = Waker::from(inline.clone());
                    let (mut a, mut b) = (Box::pin(n.wait()), Box::pin(n.wait()));
                    let h = other.then(|| {
                        let s = s.clone();
                        thread::spawn(move || {
                            s.sent.fetch_add(1, SeqCst);
                            s.n.send()
                        })
                    });
                    let seen = s.sent.load(SeqCst);
                    let first = a.as_mut().poll(&mut Context::from_waker(&wk)).is_ready();
                    let second = once(b.as_mut()).is_ready();
                    must(other || seen == 0 && !first && !second, "premature", || "a wait ended before any send".into());
                    s.sent.fetch_add(1, SeqCst);
                    n.send();
                    if let Some(h) = h {
                        h.join().unwrap();
                    }
                    must(first || inline.woken.load(SeqCst) > 0, "lost", || "the waiter was not woken".into());
                    must(first || a.as_mut().poll(&mut Context::from_waker(&wk)).is_ready(), "lost", || "the wait did not end".into());
                    must(second || once(b.as_mut()).is_ready(), "lost", || "the wait beside it did not end".into());
                    *inline.side.lock().unwrap() = None;
                    format!("{first} {second} {}", inline.woken.load(SeqCst))
                }));
            }
        }
        // a wait abandoned while others wait
        v.push(model("an abandoned wait beside another", None, || {
            let s = shared();
            let n: &'static Notify = unsafe { &*(&s.n as *const Notify) };
            let (a, b) = (n.wait(), n.wait());
            let h1 = {
                let s = s.clone();
                thread::spawn(move || {
                    let mut a = Box::pin(a);
                    let r = once(a.as_mut()).is_ready();
                    drop(a);
                    drop(s);
                    r
                })
            };
            let h2 = {
                let s = s.clone();
                thread::spawn(move || {
                    block_on(b);
                    drop(s);
                })
            };
            s.n.send();
            let r = h1.join().unwrap();
            h2.join().unwrap();
            format!("{r}")
        }));
        if t == Tier::Thorough {
            v.push(model("two waits in a row, two senders", t.pick(Some(3), None), || {
                let s = shared();
                let n: &'static Notify = unsafe { &*(&s.n as *const Notify) };
                let w = n.wait();
                let h = {
                    let s = s.clone();
                    thread::spawn(move || {
                        block_on(w);
                        drop(s)
                    })
                };
                let g = {
                    let s = s.clone();
                    thread::spawn(move || s.n.send())
                };
                s.n.send();
                let w = n.wait();
                let mut w = Box::pin(w);
                let r = once(w.as_mut()).is_ready();
                h.join().unwrap();
                g.join().unwrap();
                must(!r || once(Box::pin(n.wait()).as_mut()).is_pending(), "premature", || "a new wait is ready".into());
                format!("{r}")
            }));
        }
        v
    })
}
