//! C13: the loader against every script of its source.
use mc::stream::*;
use mc::*;
use parcom_sequence_core::{SequenceBuffer, SequenceBuilder, SequenceLoader};
use parcom_sequences::{generic::GenericSequenceBuilder, BufferStrategy};
use parcom_sequence_sources::iterator_source::IteratorSource;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Reader {
    /// Stays at the start and reads everything.
    Stays,
    /// Skips what it has seen after each load.
    Follows,
    /// Gone before loading starts.
    Gone,
}
fn loads<T: Elem>(n: usize, max: usize, strats: &[Strat], shrinks: bool, cancels: bool) -> R {
    reset_elems();
    drive::reset();
    let strat = pick(strats);
    let reader = pick(&[Reader::Stays, Reader::Follows, Reader::Gone]);
    let log: Rc<RefCell<SrcLog>> = Default::default();
    let src = Scripted::<T>::new(&log, move || {
        let c = choose(2 + cancels as usize);
        match c {
            0 => any_write(max, shrinks, cancels),
            1 => Step::Finish,
            _ => Step::Fail,
        }
    });
    logln!("{strat:?}, reader {reader:?}");
    let (buffer, mut loader) = build(strat, src);
    let mut buffer = (reader != Reader::Gone).then_some(buffer);
    let mut acc = Account::new();
    let mut skipped = 0;
    let mut look = |acc: &Account, log: &SrcLog, buffer: &mut Option<parcom_sequences::generic::GenericSequenceBuffer<T>>| -> R {
        let Some(b) = buffer else { return Ok(()) };
        let want: Vec<u32> = log.accepted[skipped..acc.committed].iter().map(|&i| ident::<T>(i)).collect();
        check_eq!(visible(b), want, "delivery", "items visible after {} were committed and {skipped} skipped", acc.committed);
        if reader == Reader::Follows {
            let n = want.len() - dev(2).min(want.len());
            check_eq!(b.advance(n), 0, "delivery", "missing after skipping {n} visible items");
            skipped += n;
        }
        Ok(())
    };
    for _ in 0..n {
        if forced_by_env() {
            logln!("force_commit");
            loader.force_commit();
            acc.forced();
            look(&acc, &log.borrow(), &mut buffer)?;
        }
        let r = drive::run(loader.load());
        acc.load::<T, parcom_sequences::generic::GenericSequenceLoader<T, Scripted<T>, Strat>>(r, &mut log.borrow_mut())?;
        look(&acc, &log.borrow(), &mut buffer)?;
        state(&(acc.committed, acc.held, acc.done, strat));
        if acc.done {
            check_eq!(acc.committed, log.borrow().accepted.len(), "delivery", "committed at the end");
            break;
        }
    }
    if !acc.done {
        loader.force_commit();
        acc.forced();
        look(&acc, &log.borrow(), &mut buffer)?;
    }
    outcome(&(acc.committed, acc.done));
    if flag() {
        drop(loader);
        look(&acc, &log.borrow(), &mut buffer)?;
        drop(buffer);
    } else {
        drop(buffer);
        drop(loader);
    }
    all_dropped::<T>()
}
/// Many loads, or few loads of many items, to the end.
fn long<T: Elem>(loads: usize, k: usize) -> R {
    reset_elems();
    drive::reset();
    let strat = pick(&STRATS);
    let reader = pick(&[Reader::Stays, Reader::Follows, Reader::Gone]);
    let (pattern, force) = (choose(5), choose(3));
    logln!("{strat:?}, reader {reader:?}, {loads} loads of {k}, pattern {pattern}, forced commits {force}");
    let log: Rc<RefCell<SrcLog>> = Default::default();
    let w = |grant, push, shrink, cancel| Step::Write { grant, push, shrink, cancel };
    let src = Scripted::<T>::fixed(
        &log,
        (0..loads).map(|i| match pattern {
            0 => w(k, k, 0, false),
            // as much as fits into what it got for asking for less
            1 => w(k / 2, k, 0, false),
            2 => w([k, 0, 1][i % 3], [k, 0, 1][i % 3], 0, false),
            3 => w(k, k, 0, i % 3 == 1),
            _ => w(k + 1, k, k / 3, false),
        }),
    );
    let (buffer, mut loader) = build(strat, src);
    let mut buffer = (reader != Reader::Gone).then_some(buffer);
    let mut acc = Account::new();
    let mut skipped = 0;
    let mut look = |acc: &Account, log: &SrcLog, buffer: &mut Option<parcom_sequences::generic::GenericSequenceBuffer<T>>| -> R {
        let Some(b) = buffer else { return Ok(()) };
        let mut want = log.accepted[skipped..acc.committed].iter().map(|&i| ident::<T>(i));
        let mut n = 0;
        for s in b.segments() {
            for e in s {
                check_eq!(Some(e.id()), want.next(), "delivery", "item {n} visible after {} were committed and {skipped} skipped", acc.committed);
                n += 1;
            }
        }
        check_eq!(n, acc.committed - skipped, "delivery", "number of items visible after {} were committed and {skipped} skipped", acc.committed);
        if reader == Reader::Follows {
            check_eq!(b.advance(n), 0, "delivery", "missing after skipping {n} visible items");
            skipped += n;
        }
        Ok(())
    };
    for i in 0..loads + 1 {
        if [false, i % 2 == 1, true][force] {
            loader.force_commit();
            acc.forced();
        }
        let r = drive::run(loader.load());
        acc.load::<T, parcom_sequences::generic::GenericSequenceLoader<T, Scripted<T>, Strat>>(r, &mut log.borrow_mut())?;
        if loads <= 40 || i % 64 < 2 || i + 2 >= loads {
            look(&acc, &log.borrow(), &mut buffer)?;
        }
    }
    check!(acc.done, "report", "not done after the end of the source");
    check_eq!(acc.committed, log.borrow().accepted.len(), "delivery", "committed at the end");
    state(&(strat, loads, k, pattern, force));
    drop(loader);
    look(&acc, &log.borrow(), &mut buffer)?;
    drop(buffer);
    all_dropped::<T>()
}
/// The iterator source over every division of its items into chunks, loaded to the end.
fn iterator(chunks: usize, max: usize) -> R {
    let n = choose(chunks + 1);
    iterate((0..n).map(|_| choose(max + 1)).collect())
}
fn iterate(lens: Vec<usize>) -> R {
    let strat = pick(&STRATS);
    let n = lens.len();
    let mut items: Vec<Vec<Wide>> = vec![];
    let mut next = 0;
    for k in lens {
        items.push((0..k).map(|i| <Wide as Elem>::make(next + i as u32)).collect());
        next += k as u32;
    }
    logln!("{strat:?}, chunks of {:?}", items.iter().map(|c| c.len()).collect::<Vec<_>>());
    // strategies are shared in every way there is
    match choose(if n <= 3 { 5 } else { 1 }) {
        0 => iterate_with(strat, strat, items, next),
        1 => iterate_with(&strat, strat, items, next),
        2 => iterate_with(Rc::new(strat), strat, items, next),
        3 => iterate_with(Arc::new(strat), strat, items, next),
        _ => iterate_with(Rc::new(&strat), strat, items, next),
    }
}
fn iterate_with<B: BufferStrategy>(shared: B, strat: Strat, items: Vec<Vec<Wide>>, next: u32) -> R {
    let n = items.len();
    let (buffer, mut loader) = SequenceBuilder::build(&GenericSequenceBuilder::verif_new(shared), IteratorSource::new(items.clone()));
    let (mut committed, mut held, mut given, mut at) = (0, 0, 0, 0);
    let mut calls = 0;
    loop {
        if forced_by_env() {
            loader.force_commit();
            committed += held;
            held = 0;
        }
        let Ok(i) = drive::run(loader.load());
        calls += 1;
        committed += i.commited();
        held = i.uncommited();
        // one chunk at a time; a chunk of nothing may as well be left out
        while committed + held != given && items.get(at).is_some_and(|c| c.is_empty()) {
            at += 1;
        }
        given += items.get(at).map_or(0, |c| c.len());
        at += 1;
        if i.is_done() {
            given += items.get(at..).map_or(0, |c| c.iter().map(|c| c.len()).sum());
        }
        check_eq!(committed + held, given, "accounting", "committed and held back after {calls} loads");
        if calls <= 40 || i.is_done() {
            check_eq!(visible(&buffer), (0..committed as u32).collect::<Vec<_>>(), "delivery", "visible items");
        }
        check!(i.is_done() || calls <= n, "report", "not done after {calls} loads of {n} chunks");
        if i.is_done() {
            break;
        }
        check!(held <= i.buffer_capacity(), "accounting", "{held} held back in a capacity of {}", i.buffer_capacity());
        state(&(committed, held, strat));
    }
    check_eq!(committed, next as usize, "delivery", "committed at the end");
    outcome(&(n, committed));
    Ok(())
}
fn main() {
    mc::main(|t| {
        let mut v = vec![];
        v.push(job("iterator source", 2, move || iterator(t.pick(2, 6, 7), t.pick(2, 3, 4))));
        let many = sizes(t.pick(2, 60, 200), t.pick(3, 2049, 8193));
        let large = sizes_u16(t.pick(2, 24, 80), t.pick(3, 16385, 131073));
        let (many3, large3) = (many.clone(), large.clone());
        v.push(job("iterator source, long chunks", 0, move || {
            iterate(match choose(3) {
                0 => vec![1; pick(&many3)],
                1 => vec![pick(&large3)],
                _ => vec![pick(&[1, 3]), pick(&large3), 2],
            })
        }));
        let (many2, large2) = (many.clone(), large.clone());
        v.push(job("many long loads, owning items", 0, move || if flag() { long::<Owned>(pick(&many), 1) } else { long::<Owned>(3, pick(&large)) }));
        v.push(job("many long loads, over-aligned items", 0, move || if flag() { long::<Wide>(pick(&many2), choose(3)) } else { long::<Wide>(1 + choose(3), pick(&large2)) }));
        let few = vec![Strat::Exact, Strat::AtLeast(3), Strat::Double];
        let all = STRATS.to_vec();
        let mut add = |name: &str, devs: usize, s: &[Strat], n: usize, max: usize, shrinks: bool, cancels: bool, kind: usize| {
            let s = s.to_vec();
            v.push(job(name, devs, move || match kind {
                0 => loads::<Owned>(n, max, &s, shrinks, cancels),
                1 => loads::<u8>(n, max, &s, shrinks, cancels),
                2 => loads::<Zst>(n, max, &s, shrinks, cancels),
                _ => loads::<Wide>(n, max, &s, shrinks, cancels),
            }))
        };
        add("owning items, all source behaviour", 1, if t == Tier::Thorough { &all } else { &few }, t.pick(2, 3, 3), t.pick(1, 1, 2), t != Tier::Miri, true, 0);
        add("owning items, larger writes", 1, &all, t.pick(1, 2, 2), t.pick(2, 4, 5), true, true, 0);
        add("owning items, longer", 1, &few, t.pick(1, 4, 5), t.pick(1, 2, 2), false, t == Tier::Thorough, 0);
        add("owning items, many suspensions", t.pick(2, 3, 5), &all, 2, 1, true, true, 0);
        add("owning items, many loads", 0, &few, t.pick(2, 7, 8), 1, false, t == Tier::Thorough, 0);
        add("bytes", 1, &few, t.pick(1, 3, 5), t.pick(1, 2, 2), false, true, 1);
        add("zero-sized items", 1, &few, t.pick(1, 3, 4), 1, true, true, 2);
        add("over-aligned items", 0, &few, t.pick(1, 3, 4), 3, false, true, 3);
        v
    })
}
