//! Scripted sources for the loading side: what a source does at each call is decided by the explorer.
use crate::drive::Gate;
use crate::explore::{choose, dev, Fail};
use crate::{check, check_eq, logln, R};
use parcom_sequence_core::{BufferWriter, SequenceBuilder, SequenceControl, SequenceLoader, SequenceSource};
use parcom_sequences::generic::{GenericSequenceBuffer, GenericSequenceBuilder, GenericSequenceLoader};
use parcom_sequences::BufferStrategy;
use std::cell::{Cell, RefCell};
use std::future::{poll_fn, Future};
use std::pin::Pin;
use std::rc::Rc;

thread_local! {
    static NEXT: Cell<u32> = const { Cell::new(0) };
    static MADE: Cell<u32> = const { Cell::new(0) };
    static DROPS: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    static DROPPED: Cell<u32> = const { Cell::new(0) };
}
pub fn reset_elems() {
    NEXT.set(0);
    MADE.set(0);
    DROPPED.set(0);
    DROPS.with(|d| d.borrow_mut().clear());
}
fn dropped(id: Option<u32>) {
    DROPPED.set(DROPPED.get() + 1);
    if let Some(i) = id {
        DROPS.with(|d| {
            let (mut d, i) = (d.borrow_mut(), i as usize);
            if d.len() <= i {
                crate::alloc::exempt(|| d.resize(i + 1, 0));
            }
            d[i] = d[i].saturating_add(1)
        });
    }
}
/// An element with an identity, whose drops are counted.
pub trait Elem: 'static {
    const COUNTED: bool;
    const IDENT: bool;
    fn make(id: u32) -> Self;
    fn id(&self) -> u32;
}
/// A new element and its number.
pub fn fresh<T: Elem>() -> (T, u32) {
    let n = NEXT.get();
    NEXT.set(n + 1);
    MADE.set(MADE.get() + 1);
    (T::make(n), n)
}
pub fn made() -> u32 {
    MADE.get()
}
/// Drops so far (0 for kinds that are not counted).
pub fn drops() -> u32 {
    DROPPED.get()
}
/// How often element `id` was dropped (kinds with an identity).
pub fn drops_of(id: u32) -> u8 {
    DROPS.with(|d| d.borrow().get(id as usize).copied().unwrap_or(0))
}
/// What `id` of element number `n` reads as.
pub fn ident<T: Elem>(n: u32) -> u32 {
    if T::IDENT {
        n
    } else {
        0
    }
}
pub struct Owned(Box<u32>);
impl Elem for Owned {
    const COUNTED: bool = true;
    const IDENT: bool = true;
    fn make(id: u32) -> Self {
        Owned(Box::new(id))
    }
    fn id(&self) -> u32 {
        *self.0
    }
}
impl Drop for Owned {
    fn drop(&mut self) {
        dropped(Some(*self.0))
    }
}
impl Elem for u8 {
    const COUNTED: bool = false;
    const IDENT: bool = true;
    fn make(id: u32) -> Self {
        id as u8
    }
    fn id(&self) -> u32 {
        *self as u32
    }
}
pub struct Zst;
impl Elem for Zst {
    const COUNTED: bool = true;
    const IDENT: bool = false;
    fn make(_: u32) -> Self {
        Zst
    }
    fn id(&self) -> u32 {
        0
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        dropped(None)
    }
}
thread_local! {
    static FUSE: Cell<Option<u32>> = const { Cell::new(None) };
}
/// The element whose drop panics.
pub fn set_fuse(id: Option<u32>) {
    FUSE.set(id)
}
/// Its drop panics, once, if it is the chosen one.
pub struct Brittle(Box<u32>);
impl Elem for Brittle {
    const COUNTED: bool = true;
    const IDENT: bool = true;
    fn make(id: u32) -> Self {
        Brittle(Box::new(id))
    }
    fn id(&self) -> u32 {
        *self.0
    }
}
impl Drop for Brittle {
    fn drop(&mut self) {
        dropped(Some(*self.0));
        if FUSE.get() == Some(*self.0) && !std::thread::panicking() {
            FUSE.set(None);
            panic!("the drop of element {}", self.0);
        }
    }
}
#[derive(Clone)]
#[repr(align(32))]
pub struct Wide(u32, u8);
impl Elem for Wide {
    const COUNTED: bool = false;
    const IDENT: bool = true;
    fn make(id: u32) -> Self {
        Wide(id, id as u8)
    }
    fn id(&self) -> u32 {
        assert_eq!(self.0 as u8, self.1, "torn element");
        self.0
    }
}
/// All elements made so far are gone, each once.
pub fn all_dropped<T: Elem>() -> R {
    if T::COUNTED {
        if T::IDENT {
            for i in 0..made() {
                check_eq!(drops_of(i), 1, "drops", "drops of element {i}");
            }
        }
        check_eq!(drops(), made(), "drops", "elements dropped of {}", made());
    }
    Ok(())
}

/// Buffer strategies (each grants at least what is asked for).
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Strat {
    Exact,
    More(usize),
    AtLeast(usize),
    Double,
}
pub const STRATS: [Strat; 5] = [Strat::Exact, Strat::More(1), Strat::AtLeast(3), Strat::AtLeast(8), Strat::Double];
impl BufferStrategy for Strat {
    fn calc_capacity(&self, min: usize) -> usize {
        match *self {
            Strat::Exact => min,
            Strat::More(k) => min + k,
            Strat::AtLeast(k) => min.max(k),
            Strat::Double => 2 * min,
        }
    }
}
pub fn build<S: SequenceSource>(strat: Strat, source: S) -> (GenericSequenceBuffer<S::Item>, GenericSequenceLoader<S::Item, S, Strat>) {
    SequenceBuilder::<S>::build(&GenericSequenceBuilder::verif_new(strat), source)
}

/// What a source does at one call.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Step {
    Finish,
    /// Report an error without asking for a writer.
    Fail,
    /// Ask for `grant`, push up to `push`, drop the last `shrink`; then advance, or cancel.
    Write { grant: usize, push: usize, shrink: usize, cancel: bool },
    /// Never completes.
    Hang,
}
/// What happened on the source's side.
#[derive(Default)]
pub struct SrcLog {
    /// Numbers of the elements of advanced writes, in order.
    pub accepted: Vec<u32>,
    pub finished: bool,
    /// Capacity of the writer of the last call, when it was granted.
    pub wcap: Option<usize>,
    /// Capacity and contents asked for and written in the last call.
    pub last: Option<Step>,
    pub err: Option<u32>,
    pub calls: usize,
    pub fail: Option<Fail>,
}
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct SErr(pub u32);

pub struct Scripted<T> {
    pub log: Rc<RefCell<SrcLog>>,
    /// The steps of the following calls; chosen by `pick` when exhausted.
    pub steps: std::collections::VecDeque<Step>,
    pub pick: Rc<dyn Fn() -> Step>,
    /// Held resource whose release is observable.
    pub token: Option<Rc<()>>,
    pub _p: std::marker::PhantomData<T>,
}
impl<T: Elem> Scripted<T> {
    pub fn new(log: &Rc<RefCell<SrcLog>>, pick: impl Fn() -> Step + 'static) -> Self {
        Scripted { log: log.clone(), steps: Default::default(), pick: Rc::new(pick), token: None, _p: std::marker::PhantomData }
    }
    pub fn fixed(log: &Rc<RefCell<SrcLog>>, steps: impl IntoIterator<Item = Step>) -> Self {
        let mut s = Self::new(log, || Step::Finish);
        s.steps = steps.into_iter().collect();
        s
    }
}
pub type BoxFut<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;
pub async fn pause() {
    let mut g = Gate::new();
    poll_fn(move |cx| g.poll(cx)).await
}
/// Pushes `push` new elements; agreement of the writer with what it took is checked.
pub fn fill<T: Elem, W: BufferWriter<Item = T>>(w: &mut W, grant: usize, push: usize, ids: &mut Vec<u32>) -> R {
    for k in 0..push {
        let (e, id) = fresh::<T>();
        match w.push_item(e) {
            Ok(()) => ids.push(id),
            Err(e) => {
                check_eq!(e.id(), ident::<T>(id), "refused", "refused element");
                check!(k >= grant, "refused", "a writer granted for {grant} refused element {k}");
                break;
            }
        }
    }
    agree(w, ids)
}
/// The writer's view agrees with the elements written and kept.
pub fn agree<T: Elem, W: BufferWriter<Item = T>>(w: &mut W, ids: &[u32]) -> R {
    check_eq!(w.len(), ids.len(), "writer", "length of the writer");
    let got: Vec<u32> = w.as_slice().iter().map(|e| e.id()).collect();
    let want: Vec<u32> = ids.iter().map(|&i| ident::<T>(i)).collect();
    check_eq!(got, want, "writer", "contents of the writer");
    let got: Vec<u32> = w.as_mut_slice().iter().map(|e| e.id()).collect();
    check_eq!(got, want, "writer", "mutable contents of the writer");
    check!(w.capacity() >= w.len(), "writer", "capacity {} below the length {}", w.capacity(), w.len());
    let spare = w.capacity() - w.len();
    check_eq!(w.spare_capacity().len(), spare, "writer", "spare space with {} of {} used", w.len(), w.capacity());
    Ok(())
}
impl<T: Elem> SequenceSource for Scripted<T> {
    type Item = T;
    type Error = SErr;
    type Next<'a, C>
        = BoxFut<'a, C::Result>
    where
        Self: 'a,
        C: 'a + SequenceControl<Item = T, Error = SErr>;

    fn next<'a, C>(&'a mut self, control: C, _hint: usize) -> Self::Next<'a, C>
    where
        C: 'a + SequenceControl<Item = T, Error = SErr>,
    {
        Box::pin(async move {
            self.log.borrow_mut().calls += 1;
            self.log.borrow_mut().wcap = None;
            pause().await;
            let step = self.steps.pop_front().unwrap_or_else(|| (self.pick)());
            logln!("source: {step:?}");
            self.log.borrow_mut().last = Some(step.clone());
            match step {
                Step::Hang => std::future::pending().await,
                Step::Finish => {
                    self.log.borrow_mut().finished = true;
                    control.finish()
                }
                Step::Fail => {
                    let n = self.log.borrow().calls as u32;
                    self.log.borrow_mut().err = Some(n);
                    control.cancel(SErr(n))
                }
                Step::Write { grant, push, shrink, cancel } => {
                    let mut w = control.request_writer(grant);
                    let mut ids = vec![];
                    let cap = w.capacity();
                    self.log.borrow_mut().wcap = Some(cap);
                    let r = (|| -> R {
                        check!(cap >= grant, "writer", "capacity {cap} of a writer granted for {grant}");
                        agree(&mut w, &ids)?;
                        fill(&mut w, grant, push, &mut ids)
                    })();
                    self.note(r);
                    pause().await;
                    let r = (|| -> R {
                        let n = ids.len() - shrink.min(ids.len());
                        w.shrink_to(n);
                        let gone = ids.split_off(n);
                        if T::COUNTED && T::IDENT {
                            for g in gone {
                                check_eq!(drops_of(g), 1, "drops", "drops of element {g} that was shrunk away");
                            }
                        }
                        agree(&mut w, &ids)?;
                        check_eq!(w.capacity(), cap, "writer", "capacity after writing");
                        Ok(())
                    })();
                    self.note(r);
                    if cancel {
                        let n = self.log.borrow().calls as u32;
                        self.log.borrow_mut().err = Some(n);
                        let r = w.cancel(SErr(n));
                        if T::COUNTED && T::IDENT {
                            let r = (|| -> R {
                                for g in ids {
                                    check_eq!(drops_of(g), 1, "drops", "drops of element {g} of a cancelled writer");
                                }
                                Ok(())
                            })();
                            self.note(r);
                        }
                        r
                    } else {
                        crate::alloc::exempt(|| self.log.borrow_mut().accepted.extend(ids));
                        w.advance()
                    }
                }
            }
        })
    }
}
impl<T> Scripted<T> {
    fn note(&self, r: R) {
        if let Err(f) = r {
            self.log.borrow_mut().fail.get_or_insert(f);
        }
    }
}
/// What the reader sees: the elements of all segments, and whether each segment is as long as claimed.
pub fn visible<T: Elem>(b: &GenericSequenceBuffer<T>) -> Vec<u32> {
    use parcom_sequence_core::SequenceBuffer;
    b.segments().flat_map(|s| s.iter().map(|e| e.id())).collect()
}
/// The accounting of one load: returns what is held back afterwards.
pub struct Account {
    pub committed: usize,
    pub held: usize,
    pub done: bool,
}
impl Account {
    pub fn new() -> Self {
        Account { committed: 0, held: 0, done: false }
    }
    /// Checks the report of a load against the source's log.
    pub fn load<T: Elem, L: SequenceLoader<Error = SErr>>(&mut self, r: Result<parcom_sequence_core::LoadInfo, SErr>, log: &mut SrcLog) -> R {
        if let Some(f) = log.fail.take() {
            return Err(f);
        }
        match r {
            Ok(i) => {
                check!(log.err.is_none(), "report", "an error of the source was not reported");
                logln!("load: committed {}, held {}, capacity {}, done {}", i.commited(), i.uncommited(), i.buffer_capacity(), i.is_done());
                check_eq!(i.is_done(), log.finished, "report", "done");
                self.committed += i.commited();
                check_eq!(self.committed + i.uncommited(), log.accepted.len(), "accounting", "committed {} in all + {} held back", self.committed, i.uncommited());
                check!(i.uncommited() <= i.buffer_capacity(), "accounting", "{} held back in a capacity of {}", i.uncommited(), i.buffer_capacity());
                if i.is_done() {
                    check_eq!((i.uncommited(), i.buffer_capacity()), (0, 0), "accounting", "held back and capacity at the end");
                } else if let Some(w) = log.wcap {
                    // the writer's space starts after what stays held back from before
                    let stays = if i.commited() > 0 { 0 } else { self.held };
                    check_eq!(i.buffer_capacity(), stays + w, "accounting", "capacity ({stays} held back before, {w} granted)");
                }
                self.held = i.uncommited();
                self.done = i.is_done();
            }
            Err(e) => {
                logln!("load: error {e:?}");
                check_eq!(Some(e.0), log.err.take(), "report", "error");
            }
        }
        Ok(())
    }
    pub fn forced(&mut self) {
        self.committed += self.held;
        self.held = 0;
    }
}
/// All write steps with small numbers.
pub fn any_write(max: usize, shrinks: bool, cancels: bool) -> Step {
    let grant = choose(max + 1);
    // exactly what was granted, less, or more than that
    let pushes: &[usize] = if grant == 0 { &[0, 1, 4] } else { &[0, 1, 4, usize::MAX] };
    let push = grant.wrapping_add(pushes[choose(pushes.len())] as usize);
    let shrink = if shrinks { [0, 1, 9][choose(1 + push.min(2))] } else { 0 };
    let cancel = cancels && choose(2) == 1;
    Step::Write { grant, push, shrink, cancel }
}
pub fn forced_by_env() -> bool {
    dev(2) == 1
}
