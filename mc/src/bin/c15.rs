//! C15: every history of operations on a buffer writer, over every state of the buffer it was granted from.
use mc::stream::*;
use mc::*;
use parcom_sequence_core::{BufferWriter, SequenceControl, SequenceLoader, SequenceSource};
use parcom_sequence_sources::utf8_validator::{Utf8ValidationError, Utf8Validator};
use std::cell::RefCell;
use std::future::Future;
use std::pin::pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Advance,
    Cancel,
    /// The writer is dropped with its load.
    Abandon,
}
struct St {
    /// Earlier writes (grant, pushes), then the examined one.
    before: Vec<(usize, usize)>,
    grant: usize,
    depth: usize,
    kinds: Vec<usize>,
    end: End,
    kept: Vec<u32>,
    earlier: Vec<u32>,
    r: R,
    /// Bytes to carry over through a validator before the examined writer.
    carry: Vec<u8>,
}
struct Src<T>(Rc<RefCell<St>>, std::marker::PhantomData<T>);
fn ops<T: Elem, W: BufferWriter<Item = T>>(w: &mut W, st: &St, ids: &mut Vec<u32>) -> R {
    let cap = w.capacity();
    check!(cap >= st.grant, "capacity", "capacity {cap} of a writer granted for {}", st.grant);
    agree(w, ids)?;
    for _ in 0..st.depth {
        let n = ids.len();
        let gone: Vec<u32> = match pick(&st.kinds) {
            0 => {
                let (e, id) = fresh::<T>();
                match w.push_item(e) {
                    Ok(()) => {
                        logln!("push {id}");
                        check!(n < cap, "overfull", "element {n} accepted with a capacity of {cap}");
                        ids.push(id);
                        vec![]
                    }
                    Err(e) => {
                        logln!("push {id} refused");
                        check_eq!(e.id(), ident::<T>(id), "refused", "refused element");
                        check_eq!(n, cap, "refused", "elements held when one was refused");
                        if T::COUNTED && T::IDENT {
                            check_eq!(drops_of(id), 0, "refused", "drops of the refused element");
                        }
                        drop(e);
                        vec![]
                    }
                }
            }
            k @ (1 | 2 | 3) => {
                let to = match k {
                    1 => n.saturating_sub(1),
                    2 => 0,
                    _ => n,
                };
                logln!("shrink to {to}");
                w.shrink_to(to);
                ids.split_off(to)
            }
            4 => {
                if n == 0 {
                    continue;
                }
                let (e, id) = fresh::<T>();
                logln!("overwrite the last by {id}");
                w.as_mut_slice()[n - 1] = e;
                vec![std::mem::replace(&mut ids[n - 1], id)]
            }
            5 => {
                let s = w.spare_capacity();
                check_eq!(s.len(), cap - n, "spare", "spare space");
                if s.is_empty() {
                    continue;
                }
                let (e, id) = fresh::<T>();
                logln!("write {id} into the spare space");
                s[0].write(e);
                unsafe { w.set_len(n + 1) };
                ids.push(id);
                vec![]
            }
            _ => {
                let r = catch(|| w.shrink_to(n + 1));
                check!(r.is_err(), "shrink", "growing by shrink_to was not refused");
                vec![]
            }
        };
        if T::COUNTED && T::IDENT {
            for g in gone {
                check_eq!(drops_of(g), 1, "drops", "drops of element {g} that was removed");
            }
            for &i in ids.iter() {
                check_eq!(drops_of(i), 0, "drops", "drops of element {i} that is held");
            }
        }
        check_eq!(w.capacity(), cap, "capacity", "capacity");
        agree(w, ids)?;
        state(&(ids.len(), cap.min(100), st.grant));
    }
    Ok(())
}
impl<T: Elem> SequenceSource for Src<T> {
    type Item = T;
    type Error = SErr;
    type Next<'a, C>
        = BoxFut<'a, C::Result>
    where
        C: 'a + SequenceControl<Item = T, Error = SErr>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> BoxFut<'a, C::Result>
    where
        C: 'a + SequenceControl<Item = T, Error = SErr>,
    {
        Box::pin(async move {
            let mut st = self.0.borrow_mut();
            if !st.before.is_empty() {
                let (g, n) = st.before.remove(0);
                let mut w = control.request_writer(g);
                for _ in 0..n {
                    let (e, id) = fresh::<T>();
                    if w.push_item(e).is_err() {
                        break;
                    }
                    st.earlier.push(id);
                }
                return w.advance();
            }
            if !st.carry.is_empty() {
                let mut w = control.request_writer(4);
                let mut ids = vec![];
                for b in std::mem::take(&mut st.carry) {
                    let _ = w.push_item(T::make(b as u32));
                    ids.push(b as u32);
                }
                st.r = (|| {
                    let got: Vec<u32> = w.as_slice().iter().map(|e| e.id()).collect();
                    check_eq!(got, ids, "contents", "contents");
                    Ok(())
                })();
                return w.advance();
            }
            let mut w = control.request_writer(st.grant);
            let mut ids = vec![];
            st.r = ops(&mut w, &st, &mut ids);
            st.kept = ids;
            match st.end {
                End::Advance => {
                    drop(st);
                    w.advance()
                }
                End::Cancel => {
                    drop(st);
                    w.cancel(SErr(9))
                }
                End::Abandon => {
                    drop(st);
                    std::future::pending::<()>().await;
                    unreachable!()
                }
            }
        })
    }
}
fn once<F: Future>(f: F) -> Option<F::Output> {
    match pin!(f).poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(v) => Some(v),
        Poll::Pending => None,
    }
}
fn writer<T: Elem>(depth: usize, kinds: &[usize], max: usize, strats: &[Strat]) -> R {
    reset_elems();
    let strat = pick(strats);
    let before: Vec<(usize, usize)> = pick(&[vec![], vec![(3, 1)], vec![(2, 2)], vec![(4, 2), (1, 1)], vec![(1, 1), (3, 2)]]);
    let grant = choose(max + 1);
    let end = pick(&[End::Advance, End::Cancel, End::Abandon]);
    logln!("{strat:?}, earlier writes {before:?}, granted {grant}, then {end:?}");
    let nb = before.len();
    let st = Rc::new(RefCell::new(St { before, grant, depth, kinds: kinds.to_vec(), end, kept: vec![], earlier: vec![], r: Ok(()), carry: vec![] }));
    let (buffer, mut loader) = build(strat, Src::<T>(st.clone(), Default::default()));
    for _ in 0..nb {
        let _ = once(loader.load()).unwrap();
    }
    let seen = visible(&buffer);
    let r = once(loader.load());
    let s = st.borrow();
    s.r.clone()?;
    match (&r, end) {
        (Some(Ok(i)), End::Advance) => check_eq!(i.uncommited() + visible(&buffer).len(), s.earlier.len() + s.kept.len(), "kept", "items after advancing"),
        (Some(Err(SErr(9))), End::Cancel) | (None, End::Abandon) => {}
        _ => fail!("result", "{end:?} gave {:?}", r.map(|r| r.map(|i| i.commited()))),
    }
    loader.force_commit();
    let mut want = s.earlier.clone();
    match end {
        End::Advance => want.extend(&s.kept),
        _ => {
            if T::COUNTED && T::IDENT && end == End::Cancel {
                for &k in &s.kept {
                    check_eq!(drops_of(k), 1, "drops", "drops of element {k} of a writer that ended by {end:?}");
                }
            }
        }
    }
    let want: Vec<u32> = want.iter().map(|&i| ident::<T>(i)).collect();
    let got = visible(&buffer);
    if end == End::Abandon {
        // what was held back, or written and not advanced, is of no defined fate; what was committed stays
        check!(got.starts_with(&seen), "kept", "items after abandoning: {got:?}, committed before {seen:?}");
    } else {
        check_eq!(got, want, "kept", "items after {end:?}");
    }
    outcome(&(want.len(), got.len()));
    drop(s);
    drop((buffer, loader, st));
    all_dropped::<T>()
}
/// The writer a validator hands on, with up to three bytes carried over from the write before.
fn validator(depth: usize, kinds: &[usize], max: usize, strats: &[Strat]) -> R {
    reset_elems();
    let strat = pick(strats);
    let carry: Vec<u8> = pick(&[&b""[..], b"xyz", b"x\xc3", b"\xe3\x81", b"x\xf0\x9f\x98"]).to_vec();
    let grant = choose(max + 1);
    let end = pick(&[End::Advance, End::Cancel, End::Abandon]);
    logln!("{strat:?}, bytes before {carry:x?}, granted {grant}, then {end:?}");
    let st = Rc::new(RefCell::new(St { before: vec![], grant, depth, kinds: kinds.to_vec(), end, kept: vec![], earlier: vec![], r: Ok(()), carry: carry.clone() }));
    let (buffer, mut loader) = build(strat, Utf8Validator::new(Src::<u8>(st.clone(), Default::default())));
    let whole = carry.len() - carry.iter().rev().take_while(|b| **b > 127).count();
    if !carry.is_empty() {
        match once(loader.load()) {
            Some(Ok(i)) => check_eq!(i.commited() + i.uncommited(), whole, "carry", "valid bytes loaded"),
            _ => fail!("result", "the first load failed"),
        }
        st.borrow().r.clone()?;
    }
    // the numbers of the elements are their bytes here, all ASCII, so nothing written completes the carried bytes
    let seen = visible(&buffer);
    let r = once(loader.load());
    let s = st.borrow();
    s.r.clone()?;
    match (&r, end) {
        (Some(Ok(_)), End::Advance) => {}
        (Some(Err(Utf8ValidationError::InvalidSequence)), End::Advance) => check!(whole < carry.len(), "result", "valid bytes refused"),
        (Some(Err(Utf8ValidationError::Inner(SErr(9)))), End::Cancel) | (None, End::Abandon) => {}
        _ => fail!("result", "{end:?} gave another result"),
    }
    loader.force_commit();
    let mut want: Vec<u32> = carry[..whole].iter().map(|&b| b as u32).collect();
    if end == End::Advance && whole == carry.len() {
        want.extend(&s.kept);
    }
    let got = visible(&buffer);
    if end == End::Abandon {
        check!(got.starts_with(&seen), "kept", "bytes after abandoning: {got:?}, committed before {seen:?}");
    } else if let Some(Err(Utf8ValidationError::InvalidSequence)) = r {
        check!(want.starts_with(&got), "kept", "bytes after an invalid sequence: {got:?} of {want:?}");
    } else {
        check_eq!(got, want, "kept", "bytes after {end:?}");
    }
    Ok(())
}
/// A large writer: filled until it refuses, cut back, filled again.
struct Big<T> {
    grant: usize,
    cut: usize,
    partial: bool,
    end: End,
    r: Rc<RefCell<(R, Vec<u32>)>>,
    _p: std::marker::PhantomData<T>,
}
fn big_ops<T: Elem, W: BufferWriter<Item = T>>(w: &mut W, grant: usize, cut: usize, partial: bool, ids: &mut Vec<u32>) -> R {
    let cap = w.capacity();
    check!(cap >= grant, "capacity", "capacity {cap} of a writer granted for {grant}");
    for round in 0..2 {
        let upto = if partial { cap / 2 } else { usize::MAX };
        while ids.len() < upto {
            let n = ids.len();
            let (e, id) = fresh::<T>();
            match w.push_item(e) {
                Ok(()) => {
                    check!(n < cap, "overfull", "element {n} accepted with a capacity of {cap}");
                    ids.push(id)
                }
                Err(e) => {
                    check_eq!(e.id(), ident::<T>(id), "refused", "refused element");
                    check_eq!(n, cap, "refused", "elements held when one was refused");
                    break;
                }
            }
            // a zero-sized element needs no room: no writer refuses one
            if ids.len() > grant + 10 && size_of::<T>() == 0 {
                break;
            }
        }
        agree(w, ids)?;
        if round == 0 {
            let to = cut.min(ids.len());
            w.shrink_to(to);
            let gone = ids.split_off(to);
            if T::COUNTED && T::IDENT {
                for g in gone {
                    check_eq!(drops_of(g), 1, "drops", "drops of element {g} that was removed");
                }
            }
            check_eq!(w.capacity(), cap, "capacity", "capacity");
            agree(w, ids)?;
        }
    }
    Ok(())
}
impl<T: Elem> SequenceSource for Big<T> {
    type Item = T;
    type Error = SErr;
    type Next<'a, C>
        = BoxFut<'a, C::Result>
    where
        C: 'a + SequenceControl<Item = T, Error = SErr>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> BoxFut<'a, C::Result>
    where
        C: 'a + SequenceControl<Item = T, Error = SErr>,
    {
        Box::pin(async move {
            let mut w = control.request_writer(self.grant);
            let mut ids = vec![];
            let r = big_ops(&mut w, self.grant, self.cut, self.partial, &mut ids);
            *self.r.borrow_mut() = (r, ids);
            match self.end {
                End::Advance => w.advance(),
                End::Cancel => w.cancel(SErr(9)),
                End::Abandon => {
                    std::future::pending::<()>().await;
                    unreachable!()
                }
            }
        })
    }
}
fn big<T: Elem>(ns: &[usize], strats: &[Strat]) -> R {
    reset_elems();
    let strat = pick(strats);
    let grant = pick(ns);
    let cut = pick(&[0, 1, grant / 2, grant.saturating_sub(1), grant]);
    let partial = flag();
    let end = pick(&[End::Advance, End::Cancel, End::Abandon]);
    logln!("{strat:?}, granted {grant}, cut back to {cut}, half full: {partial}, then {end:?}");
    let st = Rc::new(RefCell::new((Ok(()), vec![])));
    let src = Big::<T> { grant, cut, partial, end, r: st.clone(), _p: Default::default() };
    let (buffer, mut loader) = build(strat, src);
    let r = once(loader.load());
    let s = st.borrow();
    s.0.clone()?;
    match (&r, end) {
        (Some(Ok(_)), End::Advance) | (Some(Err(SErr(9))), End::Cancel) | (None, End::Abandon) => {}
        _ => fail!("result", "{end:?} gave another result"),
    }
    loader.force_commit();
    let want: Vec<u32> = if end == End::Advance { s.1.iter().map(|&i| ident::<T>(i)).collect() } else { vec![] };
    let got = visible(&buffer);
    check_eq!(got.len(), want.len(), "kept", "items after {end:?}");
    check!(got == want, "kept", "other items after {end:?} of {grant}");
    drop(s);
    drop((buffer, loader, st));
    all_dropped::<T>()
}
/// One element's drop panics, wherever it happens: while shrinking, cancelling, overwriting or abandoning.
struct BSrc {
    before: Vec<(usize, usize)>,
    earlier: Rc<RefCell<Vec<u32>>>,
    grant: usize,
    push: usize,
    shrinks: Vec<usize>,
    again: usize,
    bomb: usize,
    end: End,
    r: Rc<RefCell<(R, Vec<u32>)>>,
}
impl SequenceSource for BSrc {
    type Item = Brittle;
    type Error = SErr;
    type Next<'a, C>
        = BoxFut<'a, C::Result>
    where
        C: 'a + SequenceControl<Item = Brittle, Error = SErr>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> BoxFut<'a, C::Result>
    where
        C: 'a + SequenceControl<Item = Brittle, Error = SErr>,
    {
        Box::pin(async move {
            if !self.before.is_empty() {
                let (g, n) = self.before.remove(0);
                let mut w = control.request_writer(g);
                for _ in 0..n {
                    let (e, id) = fresh::<Brittle>();
                    if w.push_item(e).is_err() {
                        break;
                    }
                    self.earlier.borrow_mut().push(id);
                }
                return w.advance();
            }
            let mut w = control.request_writer(self.grant);
            let mut ids = vec![];
            let mut push = |w: &mut C::Writer, ids: &mut Vec<u32>, n: usize| {
                for _ in 0..n {
                    let (e, id) = fresh::<Brittle>();
                    if w.push_item(e).is_ok() {
                        ids.push(id);
                    }
                }
            };
            push(&mut w, &mut ids, self.push);
            set_fuse(ids.get(self.bomb).copied());
            let r = (|| {
                for &to in &self.shrinks {
                    let to = to.min(ids.len());
                    let p = catch(|| w.shrink_to(to));
                    logln!("shrink to {to}{}", if p.is_err() { ", a drop panicked" } else { "" });
                    for g in ids.split_off(to) {
                        check_eq!(drops_of(g), 1, "drops", "drops of element {g} that was removed");
                    }
                    agree(&mut w, &ids)?;
                }
                push(&mut w, &mut ids, self.again);
                agree(&mut w, &ids)
            })();
            *self.r.borrow_mut() = (r, ids);
            match self.end {
                End::Advance => w.advance(),
                End::Cancel => w.cancel(SErr(9)),
                End::Abandon => {
                    std::future::pending::<()>().await;
                    unreachable!()
                }
            }
        })
    }
}
fn brittle(max: usize, shrinks: usize) -> R {
    reset_elems();
    set_fuse(None);
    let strat = pick(&[Strat::Exact, Strat::AtLeast(3), Strat::Double]);
    let before = pick(&[vec![], vec![(3, 1)], vec![(2, 2)], vec![(4, 2), (1, 1)]]);
    let push = choose(max + 1);
    let grant = pick(&[push, push + 2]);
    let bomb = choose(push + 1);
    let shrinks: Vec<usize> = (0..choose(shrinks + 1)).map(|_| choose(push + 1)).collect();
    let again = choose(2);
    let end = pick(&[End::Advance, End::Cancel, End::Abandon]);
    logln!("{strat:?}, earlier writes {before:?}, granted {grant}, {push} written, the drop of number {bomb} panics, then {end:?}");
    state(&(push, bomb, shrinks.clone(), again, before.len()));
    let n = before.len();
    let (earlier, st) = (Rc::new(RefCell::new(vec![])), Rc::new(RefCell::new((Ok(()), vec![]))));
    let src = BSrc { before, earlier: earlier.clone(), grant, push, shrinks, again, bomb, end, r: st.clone() };
    let (buffer, mut loader) = build(strat, src);
    for _ in 0..n {
        let _ = once(loader.load()).unwrap();
    }
    let r = catch(|| once(loader.load()).map(|r| r.map(|_| ())));
    let s = st.borrow();
    s.0.clone()?;
    match (&r, end) {
        (Ok(Some(Ok(()))), End::Advance) | (Ok(Some(Err(SErr(9)))), End::Cancel) | (Ok(None), End::Abandon) => {}
        (Err(_), End::Cancel | End::Abandon) if s.1.len() > bomb => count("drops that panicked at the end of a writer"),
        _ => fail!("result", "{end:?} gave {r:?}"),
    }
    loader.force_commit();
    let mut want = earlier.borrow().clone();
    if end == End::Advance {
        want.extend(&s.1);
    } else {
        for &i in &s.1 {
            check_eq!(drops_of(i), 1, "drops", "drops of element {i} of a writer that ended by {end:?}");
        }
    }
    let got = visible(&buffer);
    check_eq!(got, want, "kept", "items after {end:?}");
    drop(s);
    let _ = catch(|| drop((buffer, loader)));
    all_dropped::<Brittle>()
}
fn main() {
    mc::main(|t| {
        let mut v = vec![];
        v.push(job("items whose drop panics", 0, move || brittle(t.pick(2, 4, 5), t.pick(1, 2, 3))));
        let ns = explore::sizes_u16(t.pick(1, 20, 70), t.pick(2, 4097, 65537));
        let s = STRATS.to_vec();
        let n = ns.clone();
        v.push(job("owning items, large", 0, move || big::<Owned>(&n, &s)));
        if t != Tier::Miri {
            let n = ns.clone();
            v.push(job("zero-sized items, large", 0, move || big::<Zst>(&n, &[Strat::Exact, Strat::Double])));
            v.push(job("over-aligned items, large", 0, move || big::<Wide>(&ns, &[Strat::Exact, Strat::More(1)])));
        }
        let all: Vec<usize> = (0..7).collect();
        let few = vec![0, 1, 5];
        let (d, dd, m) = (t.pick(2, 5, 6), t.pick(3, 8, 11), t.pick(2, 3, 4));
        let strats = STRATS.to_vec();
        let two = vec![Strat::Exact, Strat::Double];
        let s = strats.clone();
        let a = all.clone();
        v.push(job("owning items, every operation", 0, move || writer::<Owned>(d, &a, m, &s)));
        let s = two.clone();
        let a = few.clone();
        v.push(job("owning items, long", 0, move || writer::<Owned>(dd, &a, m, &s)));
        let s = two.clone();
        let a = all.clone();
        v.push(job("zero-sized items", 0, move || writer::<Zst>(d - 1, &a, m, &s)));
        if t != Tier::Miri {
            let s = two.clone();
            let a = all.clone();
            v.push(job("over-aligned items", 0, move || writer::<Wide>(d - 1, &a, m, &s)));
            let s = two.clone();
            let a = all.clone();
            v.push(job("bytes", 0, move || writer::<u8>(d - 1, &a, m, &s)));
        }
        let a = all.clone();
        let s = strats.clone();
        v.push(job("validator's writer", 0, move || validator(d, &a, m, &s)));
        let s = two;
        v.push(job("validator's writer, long", 0, move || validator(dd, &few, m, &s)));
        v
    })
}
