//! C12 (single-threaded part): every history of waits, polls, sends and drops on a notifier.
use mc::drive::{waker, Flag};
use mc::*;
use parcom_internals::future::notify::{Notify, Wait};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::Ordering;
use std::sync::Arc;
use std::task::{Context, Waker};

struct W<'a> {
    fut: Pin<Box<Wait<'a>>>,
    /// Sends before it was created.
    born: usize,
    polled: Option<Arc<Flag>>,
}
/// `reuse`: wakers are shared between waits and polls instead of fresh each time.
fn history(depth: usize, max_waits: usize, reuse: bool) -> R {
    let shared: Vec<(Arc<Flag>, Waker)> = if reuse { (0..2).map(|_| waker()).collect() } else { vec![] };
    let notify = Notify::new();
    let mut waits: Vec<W> = vec![];
    let mut sends = 0;
    for _ in 0..depth {
        let n = waits.len();
        // send, new wait, poll i, drop i
        let c = choose(1 + (n < max_waits) as usize + 2 * n);
        if c == 0 {
            let suspended: Vec<_> = waits.iter().filter_map(|w| w.polled.as_ref()).map(|f| (f.clone(), f.wakes.load(Ordering::SeqCst))).collect();
            notify.send();
            sends += 1;
            logln!("send");
            for (f, before) in suspended {
                check!(f.wakes.load(Ordering::SeqCst) > before, "lost", "a suspended waiter was not woken by the next notification through its latest waker");
            }
            for w in &mut waits {
                w.polled = None;
            }
        } else if n < max_waits && c == 1 {
            waits.push(W { fut: Box::pin(notify.wait()), born: sends, polled: None });
            logln!("wait {n}");
        } else {
            let k = c - 1 - (n < max_waits) as usize;
            let i = k / 2;
            if k % 2 == 1 {
                waits.remove(i);
                logln!("drop wait {i}");
                continue;
            }
            let (f, w) = if reuse { shared[choose(2)].clone() } else { waker() };
            let r = waits[i].fut.as_mut().poll(&mut Context::from_waker(&w)).is_ready();
            logln!("poll wait {i} -> {}", if r { "ready" } else { "pending" });
            check_eq!(r, sends > waits[i].born, if r { "premature" } else { "lost" }, "wait {i} ready ({} notifications since it was obtained)", sends - waits[i].born);
            if r {
                count("completions");
                waits.remove(i);
            } else {
                waits[i].polled = Some(f);
            }
        }
        state(&(sends.min(3), waits.iter().map(|w| (w.born, w.polled.is_some())).collect::<Vec<_>>()));
    }
    outcome(&(sends, waits.len()));
    drop(waits);
    drop(notify);
    drop(shared);
    Ok(())
}
/// Nothing of the wakers is kept once the notifier is gone.
fn released(depth: usize) -> R {
    let (f, w) = waker();
    {
        let notify = Notify::new();
        let mut waits: Vec<_> = (0..2).map(|_| Some(Box::pin(notify.wait()))).collect();
        for _ in 0..depth {
            match choose(4) {
                0 => notify.send(),
                1 => waits[choose(2)] = Some(Box::pin(notify.wait())),
                2 => waits[choose(2)] = None,
                _ => {
                    if let Some(x) = &mut waits[choose(2)] {
                        let _ = x.as_mut().poll(&mut Context::from_waker(&w));
                    }
                }
            }
        }
    }
    drop(w);
    check_eq!(Arc::strong_count(&f), 1, "leak", "references to the waker left");
    Ok(())
}
/// A wait polled after `k` notifications, and after `k` polls without one, is ready exactly if there was one.
fn many_sends(k: usize) -> R {
    let notify = Notify::new();
    let before = choose(3);
    for _ in 0..before {
        notify.send();
    }
    let pre = flag();
    logln!("{before} sends, a wait{}, {k} sends, poll", if pre { ", a poll" } else { "" });
    let mut w = Box::pin(notify.wait());
    let (f, wk) = waker();
    if pre {
        check!(w.as_mut().poll(&mut Context::from_waker(&wk)).is_pending(), "premature", "ready before any notification");
    }
    for _ in 0..k {
        notify.send();
    }
    check_eq!(f.wakes.load(Ordering::SeqCst) > 0, pre && k > 0, "lost", "woken");
    let r = w.as_mut().poll(&mut Context::from_waker(&wk)).is_ready();
    check_eq!(r, k > 0, "lost", "ready after {k} notifications");
    // and a wait obtained now needs one more
    let mut w = Box::pin(notify.wait());
    check!(w.as_mut().poll(&mut Context::from_waker(&wk)).is_pending(), "premature", "a fresh wait is ready after {k} earlier notifications");
    notify.send();
    check!(w.as_mut().poll(&mut Context::from_waker(&wk)).is_ready(), "lost", "not ready after its notification");
    state(&(k, pre, before));
    Ok(())
}
/// `k` waiters at once, polled `times` times each; some dropped; one notification completes all that are left.
fn many_waits(k: usize) -> R {
    let notify = Notify::new();
    let times = 1 + choose(3);
    let drops = choose(3);
    let rounds = 1 + choose(2);
    logln!("{k} waiters polled {times} times, drop pattern {drops}, {rounds} rounds");
    for _ in 0..rounds {
        let mut ws: Vec<_> = (0..k).map(|_| Some((Box::pin(notify.wait()), waker()))).collect();
        for t in 0..times {
            for w in ws.iter_mut().flatten() {
                // only the waker of the latest poll counts
                w.1 = waker();
                check!(w.0.as_mut().poll(&mut Context::from_waker(&w.1 .1)).is_pending(), "premature", "ready before any notification (poll {t})");
            }
        }
        match drops {
            0 => {}
            1 => (0..k).filter(|i| i % 2 == 0).for_each(|i| ws[i] = None),
            _ => (0..k / 2).for_each(|i| ws[i] = None),
        }
        notify.send();
        for (i, w) in ws.iter_mut().enumerate().filter_map(|(i, w)| w.as_mut().map(|w| (i, w))) {
            check!(w.1 .0.woken.load(Ordering::SeqCst), "lost", "waiter {i} of {k} was not woken");
            check!(w.0.as_mut().poll(&mut Context::from_waker(&w.1 .1)).is_ready(), "lost", "waiter {i} of {k} is not ready");
        }
    }
    state(&(k, times, drops, rounds));
    Ok(())
}
/// One wait polled `k` times, then notified: its latest waker is woken.
fn many_polls(k: usize) -> R {
    let notify = Notify::new();
    let same = flag();
    logln!("a wait polled {k} times, same waker {same}");
    let mut w = Box::pin(notify.wait());
    let mut wk = waker();
    for _ in 0..k {
        if !same {
            wk = waker();
        }
        check!(w.as_mut().poll(&mut Context::from_waker(&wk.1)).is_pending(), "premature", "ready before any notification");
    }
    notify.send();
    check_eq!(wk.0.woken.load(Ordering::SeqCst), k > 0, "lost", "woken through its latest waker after {k} polls");
    check!(w.as_mut().poll(&mut Context::from_waker(&wk.1)).is_ready(), "lost", "not ready after its notification");
    state(&(k, same));
    Ok(())
}
fn main() {
    mc::main(|t| {
        let sends = sizes(t.pick(3, 1100, 4000), t.pick(5, 1 << 20, 1 << 24) + 1);
        let waits = sizes(t.pick(3, 140, 600), t.pick(4, 4097, 65537));
        let polls = sizes(t.pick(3, 300, 600), t.pick(4, 65537, 262145));
        let mut v = vec![];
        if t == Tier::Thorough {
            v.push(job("2^32 notifications", 0, || {
                let notify = Notify::new();
                let (k, (_, wk)) = ((1u64 << 32) - 1 + choose(3) as u64, waker());
                let mut w = Box::pin(notify.wait());
                for i in 0..k {
                    notify.send();
                    if i % (1 << 22) == 0 {
                        alive();
                    }
                }
                check!(w.as_mut().poll(&mut Context::from_waker(&wk)).is_ready(), "lost", "not ready after {k} notifications");
                state(&k);
                Ok(())
            }));
        }
        v.extend([
            job("many notifications", 0, move || many_sends(pick(&sends))),
            job("many waiters", 0, move || many_waits(pick(&waits))),
            job("many polls", 0, move || many_polls(pick(&polls))),
            job("histories, fresh wakers", 0, move || history(t.pick(4, 12, 13), 3, false)),
            job("histories, shared wakers", 0, move || history(t.pick(3, 10, 11), 3, true)),
            job("histories, one wait", 0, move || history(t.pick(5, 14, 18), 1, false)),
            job("wakers released", 0, move || released(t.pick(3, 7, 9))),
        ]);
        v
    })
}
