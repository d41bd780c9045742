//! A streaming sequence whose loader is driven step by step by the explorer.
use crate::drive;
use crate::explore::{choose, state, Fail, R};
use crate::stream::*;
use crate::{check, logln};
use parcom_internals::future::notify::Notify;
use parcom_runners::default_runner::DefaultSequence;
use parcom_sequence_core::{SequenceBuffer, SequenceBuilder, SequenceLoader};
use parcom_sequences::generic::{GenericSequenceBuffer, GenericSequenceLoader, Iter};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::marker::PhantomData;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll};

/// The real buffer, with the loading side running in between the reader's operations on it.
pub struct Hooked<T: Elem> {
    inner: GenericSequenceBuffer<T>,
    live: Rc<RefCell<Live<T>>>,
}
pub struct HookedIter<'a, T: Elem> {
    inner: Iter<'a, T>,
    live: &'a Rc<RefCell<Live<T>>>,
}
/// The loading side takes some steps here.
fn window<T: Elem>(live: &Rc<RefCell<Live<T>>>) {
    if let Ok(mut l) = live.try_borrow_mut() {
        while l.windows > 0 && l.enabled() && choose(2) == 1 {
            l.windows -= 1;
            if let Err(f) = l.act() {
                l.fail.get_or_insert(f);
            }
        }
    }
}
impl<T: Elem> SequenceBuffer for Hooked<T> {
    type Length = usize;
    type Segment = [T];
    type Iter<'a> = HookedIter<'a, T>;
    fn advance(&mut self, n: usize) -> usize {
        window(&self.live);
        let r = self.inner.advance(n);
        window(&self.live);
        r
    }
    fn segments(&self) -> HookedIter<'_, T> {
        window(&self.live);
        HookedIter { inner: self.inner.segments(), live: &self.live }
    }
}
impl<'a, T: Elem> Iterator for HookedIter<'a, T> {
    type Item = &'a [T];
    fn next(&mut self) -> Option<&'a [T]> {
        window(self.live);
        let r = self.inner.next();
        window(self.live);
        r
    }
}
/// Names the buffer and loader types of a streaming sequence.
pub struct HB<T>(PhantomData<T>);
pub type HLoader<T> = GenericSequenceLoader<T, Scripted<T>, Strat>;
impl<T: Elem> SequenceBuilder<Scripted<T>> for HB<T> {
    type Length = usize;
    type Segment = [T];
    type Buffer = Hooked<T>;
    type Loader = HLoader<T>;
    fn build(&self, _: Scripted<T>) -> (Self::Buffer, Self::Loader) {
        unreachable!()
    }
}
pub type LiveSeq<T> = DefaultSequence<Scripted<T>, HB<T>>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Act {
    Load,
    Flag,
    Send,
}
/// The loading side: what the owner of the loader does, one observable action at a time.
pub struct Live<T: Elem> {
    pub loader: Option<HLoader<T>>,
    pub notify: Option<Arc<Notify>>,
    pub flag: Option<Arc<AtomicBool>>,
    pub log: Rc<RefCell<SrcLog>>,
    acts: VecDeque<Act>,
    /// Loads left before the source goes silent for ever (it never says it is finished).
    pub loads: usize,
    pub committed: usize,
    /// The completion flag was set.
    pub done: bool,
    /// Everything taken in is committed at once.
    pub force: bool,
    /// Signals are also sent when nothing was appended.
    pub eager: bool,
    /// Steps the loading side may still take in between the operations of one poll.
    pub windows: usize,
    pub fail: Option<Fail>,
}
pub struct Opts {
    pub strat: Strat,
    pub force: bool,
    pub eager: bool,
    pub windows: usize,
}
pub fn live<T: Elem>(o: &Opts, steps: Vec<Step>) -> (LiveSeq<T>, Rc<RefCell<Live<T>>>) {
    let log: Rc<RefCell<SrcLog>> = Default::default();
    let loads = steps.len();
    let (inner, loader) = build(o.strat, Scripted::<T>::fixed(&log, steps));
    let (_, unused) = build(o.strat, Scripted::<T>::fixed(&Default::default(), []));
    let live = Rc::new(RefCell::new(Live {
        loader: Some(loader),
        notify: None,
        flag: None,
        log,
        acts: if loads > 0 { VecDeque::from([Act::Load]) } else { VecDeque::new() },
        loads,
        committed: 0,
        done: false,
        force: o.force,
        eager: o.eager,
        windows: o.windows,
        fail: None,
    }));
    let seq = LiveSeq::new(Hooked { inner, live: live.clone() }, unused);
    let (n, f) = seq.verif_handles();
    live.borrow_mut().notify = Some(n);
    live.borrow_mut().flag = Some(f);
    (seq, live)
}
impl<T: Elem> Live<T> {
    /// Whether the loading side has anything left to do.
    pub fn enabled(&self) -> bool {
        !self.acts.is_empty()
    }
    /// Everything that happened so far has been signalled.
    pub fn settled(&self) -> bool {
        self.acts.front().map_or(true, |a| *a == Act::Load)
    }
    pub fn act(&mut self) -> R {
        match self.acts.pop_front().unwrap() {
            Act::Load => {
                self.loads -= 1;
                let l = self.loader.as_mut().unwrap();
                let r = drive::run(l.load());
                if let Some(f) = self.log.borrow_mut().fail.take() {
                    return Err(f);
                }
                let (mut n, done) = match r {
                    Ok(i) => (i.commited(), i.is_done()),
                    Err(_) => (0, false),
                };
                self.committed += n;
                if self.force && !done {
                    l.force_commit();
                    n += self.log.borrow().accepted.len() - self.committed;
                    self.committed = self.log.borrow().accepted.len();
                }
                logln!("loader: {n} more, {} in all{}", self.committed, if done { ", done" } else { "" });
                if done {
                    check!(self.committed == self.log.borrow().accepted.len(), "load", "the end with {} of {} committed", self.committed, self.log.borrow().accepted.len());
                    self.acts.extend([Act::Flag, Act::Send]);
                } else {
                    if n > 0 || self.eager {
                        self.acts.push_back(Act::Send);
                    }
                    if self.loads > 0 {
                        self.acts.push_back(Act::Load);
                    }
                }
            }
            Act::Flag => {
                logln!("loader: completion flag");
                self.flag.as_ref().unwrap().store(true, Ordering::SeqCst);
                self.done = true;
            }
            Act::Send => {
                logln!("loader: signal");
                self.notify.as_ref().unwrap().send();
            }
        }
        Ok(())
    }
    pub fn items(&self, from: usize, n: usize) -> Vec<u32> {
        self.log.borrow().accepted[from..from + n].iter().map(|&i| ident::<T>(i)).collect()
    }
}

/// Interleaves the polls of `f` with the loading side: `f` is polled when it was woken, or `spurious` times
/// without; `idle` judges it whenever it sleeps although everything that happened has been signalled.
/// None: the source went silent and `f` rightly sleeps for ever, or it was abandoned.
pub fn interleave<T: Elem, F: Future + ?Sized>(
    mut f: Pin<&mut F>,
    live: &Rc<RefCell<Live<T>>>,
    spurious: &mut usize,
    abandon: &mut usize,
    mut idle: impl FnMut(&Live<T>) -> R,
) -> Result<Option<F::Output>, Fail> {
    let mut fl: Option<Arc<drive::Flag>> = None;
    let mut spins = 0;
    loop {
        let woken = fl.as_ref().map_or(true, |f| f.woken.load(Ordering::SeqCst));
        let (enabled, settled) = {
            let l = live.borrow();
            state(&(l.committed, l.done, l.acts.len(), l.loads, woken, spins));
            (l.enabled(), l.settled())
        };
        // a future that keeps asking to be polled is as good as asleep when nothing else happens
        let sleeps = !woken || spins > 20;
        if sleeps && settled {
            idle(&live.borrow())?;
        }
        let mut moves = vec![];
        if woken && (spins < 5 || !enabled && spins <= 20) || !woken && *spurious > 0 && enabled {
            moves.push(0);
        }
        if enabled {
            moves.push(1);
        }
        if *abandon > 0 && fl.is_some() {
            moves.push(2);
        }
        if moves.is_empty() || moves == [2] {
            return Ok(None);
        }
        match moves[choose(moves.len())] {
            0 => {
                if woken {
                    spins += 1;
                } else {
                    *spurious -= 1;
                }
                let (f2, w) = drive::waker();
                let p = f.as_mut().poll(&mut Context::from_waker(&w));
                if let Some(f) = live.borrow_mut().fail.take() {
                    return Err(f);
                }
                match p {
                    Poll::Ready(v) => return Ok(Some(v)),
                    Poll::Pending => logln!("pending{}", if f2.woken.load(Ordering::SeqCst) { " (wants to be polled again)" } else { "" }),
                }
                fl = Some(f2);
            }
            1 => {
                spins = 0;
                live.borrow_mut().act()?
            }
            _ => {
                *abandon -= 1;
                logln!("abandoned");
                return Ok(None);
            }
        }
    }
}

/// Polls `f` whenever it was woken and lets the loading side take `burst` actions whenever it sleeps: one of
/// the schedules of `interleave`, for long streams.
pub fn lockstep<T: Elem, F: Future + ?Sized>(
    mut f: Pin<&mut F>,
    live: &Rc<RefCell<Live<T>>>,
    burst: usize,
    mut idle: impl FnMut(&Live<T>) -> R,
) -> Result<Option<F::Output>, Fail> {
    let mut fl: Option<Arc<drive::Flag>> = None;
    loop {
        crate::explore::alive();
        let mut spins = 0;
        while spins < 20 && fl.as_ref().map_or(true, |f| f.woken.load(Ordering::SeqCst)) {
            spins += 1;
            let (f2, w) = drive::waker();
            if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(&w)) {
                return Ok(Some(v));
            }
            fl = Some(f2);
        }
        let mut l = live.borrow_mut();
        if l.settled() {
            idle(&l)?;
        }
        if !l.enabled() {
            return Ok(None);
        }
        let mut n = 0;
        while n < burst && l.enabled() {
            n += 1;
            l.act()?;
        }
    }
}
