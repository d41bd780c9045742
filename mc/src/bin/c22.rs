//! C22: an optional future against every behaviour of its inner future.
use mc::drive::waker;
use mc::*;
use parcom_internals::future::option_future::OptionFuture;
use std::cell::RefCell;
use std::future::Future;
use std::marker::PhantomPinned;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

#[derive(Default)]
struct Log {
    polls: usize,
    drops: usize,
    done: bool,
    last: Option<Waker>,
    addr: Option<usize>,
    bad: Option<String>,
    value_drops: usize,
}
struct Value(Rc<RefCell<Log>>, u32);
impl Drop for Value {
    fn drop(&mut self) {
        self.0.borrow_mut().value_drops += 1
    }
}
/// Completes at its `left`-th poll; address-sensitive.
struct Inner {
    log: Rc<RefCell<Log>>,
    left: usize,
    wake: bool,
    _pin: PhantomPinned,
}
impl Future for Inner {
    type Output = Value;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Value> {
        let me = unsafe { self.get_unchecked_mut() };
        let addr = me as *mut Inner as usize;
        let mut l = me.log.borrow_mut();
        if l.done {
            l.bad = Some("polled after it completed".into());
        }
        if l.addr.is_some_and(|a| a != addr) {
            l.bad = Some("moved after it was polled".into());
        }
        l.addr = Some(addr);
        l.polls += 1;
        l.last = Some(cx.waker().clone());
        if me.left == 0 {
            l.done = true;
            drop(l);
            return Poll::Ready(Value(me.log.clone(), 77));
        }
        me.left -= 1;
        if me.wake {
            cx.waker().wake_by_ref();
        }
        Poll::Pending
    }
}
impl Drop for Inner {
    fn drop(&mut self) {
        self.log.borrow_mut().drops += 1
    }
}
fn one(max: usize, long: &[usize]) -> R {
    let log = Rc::new(RefCell::new(Log::default()));
    let present = flag();
    let (left, abandon) = if long.is_empty() {
        let left = choose(max + 1);
        (left, choose(left + 2)) // polls before it is dropped (left + 1: run to completion)
    } else {
        let left = pick(long);
        (left, left + choose(2))
    };
    let wake = flag();
    logln!("present {present}, inner completes at poll {}, polls {abandon}", left + 1);
    let mk = || Inner { log: log.clone(), left, wake, _pin: PhantomPinned };
    let mut f = Box::pin(if present { OptionFuture::some(mk()) } else { OptionFuture::none() });
    let mut ready = None;
    for i in 0..abandon {
        let (fl, w) = waker();
        let r = f.as_mut().poll(&mut Context::from_waker(&w));
        if !present {
            check!(matches!(r, Poll::Ready(None)), "absent", "an absent future is not ready with nothing at once");
            ready = Some(None);
            break;
        }
        {
            let l = log.borrow();
            check_eq!(l.polls, i + 1, "polls", "polls of the inner future after {} polls", i + 1);
            check!(l.last.as_ref().unwrap().will_wake(&w), "waker", "the inner future was not polled with the caller's waker");
        }
        match r {
            Poll::Pending => {
                check!(i < left, "late", "pending although the inner future completed at this poll");
                check_eq!(fl.woken.load(std::sync::atomic::Ordering::SeqCst), wake, "waker", "woken");
            }
            Poll::Ready(None) => fail!("value", "a present future completed with nothing"),
            Poll::Ready(Some(v)) => {
                check_eq!(i, left, "early", "poll at which it completed");
                check_eq!(v.1, 77, "value", "value");
                check_eq!(log.borrow().value_drops, 0, "value", "drops of the value");
                ready = Some(Some(v));
                break;
            }
        }
    }
    check_eq!(ready.is_some(), if present { abandon > left } else { abandon > 0 }, "late", "completed");
    let done = log.borrow().done;
    check!(log.borrow().drops <= done as usize, "drops", "the inner future was dropped before it completed");
    outcome(&(present, left, abandon));
    state(&(present, log.borrow().polls, done));
    drop(f);
    check_eq!(log.borrow().drops, present as usize, "drops", "drops of the inner future");
    let had = matches!(ready, Some(Some(_)));
    drop(ready);
    check_eq!(log.borrow().value_drops, had as usize, "drops", "drops of the value");
    if let Some(b) = &log.borrow().bad {
        fail!("contract", "the inner future was {b}");
    }
    Ok(())
}
/// Nested: optional of optional.
fn nested(max: usize) -> R {
    let log = Rc::new(RefCell::new(Log::default()));
    let (outer, inner) = (flag(), flag());
    let left = choose(max + 1);
    let mk = || Inner { log: log.clone(), left, wake: false, _pin: PhantomPinned };
    let i = if inner { OptionFuture::some(mk()) } else { OptionFuture::none() };
    let mut f = Box::pin(if outer { OptionFuture::some(i) } else { drop(i); OptionFuture::none() });
    let want = if outer && inner { left } else { 0 };
    for n in 0..=want {
        let (_, w) = waker();
        match f.as_mut().poll(&mut Context::from_waker(&w)) {
            Poll::Pending => check!(n < want, "late", "still pending at poll {n}"),
            Poll::Ready(v) => {
                check_eq!(n, want, "early", "poll at which it completed");
                check_eq!(v.map(|v| v.map(|v| v.1)), outer.then(|| inner.then_some(77)), "value", "value");
            }
        }
    }
    drop(f);
    check_eq!(log.borrow().drops, inner as usize, "drops", "drops of the inner future");
    Ok(())
}
fn main() {
    mc::main(|t| {
        let n = t.pick(3, 200, 400);
        let long = explore::sizes(0, t.pick(4, 1 << 20, 1 << 22));
        vec![job("optional future", 0, move || one(n, &[])), job("optional future, many polls", 0, move || one(0, &long)), job("nested optional futures", 0, move || nested(n))]
    })
}
