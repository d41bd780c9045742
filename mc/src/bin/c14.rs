//! C14 (single-threaded part): every history of commits, iterations and advances on the shared buffer.
use mc::stream::*;
use mc::*;
use parcom_sequence_core::{SequenceBuffer, SequenceLoader};
use std::cell::RefCell;
use std::rc::Rc;

/// One load that commits whatever is held and then takes `n` items in; the items become visible at once.
fn commit<T: Elem>(loader: &mut parcom_sequences::generic::GenericSequenceLoader<T, Scripted<T>, Strat>, log: &RefCell<SrcLog>, how: usize) -> R {
    let r = drive::run(loader.load());
    if let Some(f) = log.borrow_mut().fail.take() {
        return Err(f);
    }
    check!(r.is_ok(), "load", "a load failed");
    if how == 0 {
        loader.force_commit();
    }
    Ok(())
}
fn history<T: Elem>(depth: usize, max: usize, strat: Strat) -> R {
    reset_elems();
    drive::reset();
    let log: Rc<RefCell<SrcLog>> = Default::default();
    let next = Rc::new(RefCell::new(0));
    let n2 = next.clone();
    let src = Scripted::<T>::new(&log, move || {
        let n = *n2.borrow();
        Step::Write { grant: n, push: n, shrink: 0, cancel: false }
    });
    let (mut buffer, mut loader) = build(strat, src);
    let mut visible_total = 0; // committed
    let mut pos = 0;
    let mut ops = 0;
    'outer: while ops < depth {
        // an iteration, during which segments may be committed; then an advance
        let mut at = pos;
        {
            let mut it = buffer.segments();
            loop {
                if ops >= depth {
                    break 'outer;
                }
                let c = choose(3 + max);
                if c == 0 {
                    break;
                }
                ops += 1;
                if c == 1 {
                    match it.next() {
                        Some(s) => {
                            let got: Vec<u32> = s.iter().map(|e| e.id()).collect();
                            let acc = &log.borrow().accepted;
                            check!(at + got.len() <= visible_total, "beyond", "a segment of {} items at {at} of {visible_total} committed", got.len());
                            let want: Vec<u32> = acc[at..at + got.len()].iter().map(|&i| ident::<T>(i)).collect();
                            check_eq!(got, want, "contents", "segment at {at}");
                            at += got.len();
                            logln!("segment of {} items", got.len());
                        }
                        None => {
                            logln!("no segment");
                            check_eq!(at, visible_total, "ended", "place where an iteration ran out");
                        }
                    }
                } else {
                    *next.borrow_mut() = c - 2;
                    logln!("commit {}", c - 2);
                    commit(&mut loader, &log, 0)?;
                    visible_total += c - 2;
                    check_eq!(visible_total, log.borrow().accepted.len(), "load", "items taken in");
                }
                state(&(pos, at, visible_total));
            }
            // a fresh look from the position shows everything
            let all: Vec<u32> = buffer.segments().flat_map(|s| s.iter().map(|e| e.id())).collect();
            let want: Vec<u32> = log.borrow().accepted[pos..].iter().map(|&i| ident::<T>(i)).collect();
            check_eq!(all, want, "contents", "segments from {pos}");
        }
        ops += 1;
        let n = choose(visible_total - pos + 3);
        let missing = buffer.advance(n);
        logln!("advance {n} -> {missing} missing");
        let want = (pos + n).saturating_sub(visible_total);
        check_eq!(missing, want, "advance", "items missing after advancing by {n} from {pos} with {visible_total} committed");
        pos = (pos + n).min(visible_total);
        let all: Vec<u32> = buffer.segments().flat_map(|s| s.iter().map(|e| e.id())).collect();
        let want: Vec<u32> = log.borrow().accepted[pos..].iter().map(|&i| ident::<T>(i)).collect();
        check_eq!(all, want, "contents", "segments after advancing to {pos}");
    }
    outcome(&(pos, visible_total));
    if flag() {
        drop(loader);
        let all: Vec<u32> = buffer.segments().flat_map(|s| s.iter().map(|e| e.id())).collect();
        let want: Vec<u32> = log.borrow().accepted[pos..].iter().map(|&i| ident::<T>(i)).collect();
        check_eq!(all, want, "contents", "segments after the loader is gone");
        drop(buffer);
    } else {
        drop(buffer);
        drop(loader);
    }
    all_dropped::<T>()
}
/// Many commits, made before, during or between the reads of one iteration, then one long advance.
fn many<T: Elem>(ns: &[usize], strat: Strat) -> R {
    reset_elems();
    drive::reset();
    let n = pick(ns);
    let per = pick(&[1usize, 3]);
    let uneven = flag();
    let lag = choose(4); // read after every commit, after every second, once in the middle, at the end only
    let log: Rc<RefCell<SrcLog>> = Default::default();
    let i = Rc::new(RefCell::new(0usize));
    let i2 = i.clone();
    let src = Scripted::<T>::new(&log, move || {
        *i2.borrow_mut() += 1;
        let k = if uneven { *i2.borrow() % (2 * per) } else { per };
        Step::Write { grant: k, push: k, shrink: 0, cancel: false }
    });
    logln!("{strat:?}, {n} commits of {per} items (uneven: {uneven}), reads {lag}");
    let (mut buffer, mut loader) = build(strat, src);
    let mut at = 0;
    {
        let mut it = buffer.segments();
        for c in 0..n {
            commit(&mut loader, &log, 0)?;
            explore::alive();
            let read = match lag {
                0 => usize::MAX,
                1 if c % 2 == 1 => 1,
                2 if c == n / 2 => usize::MAX,
                _ => 0,
            };
            for _ in 0..read {
                match it.next() {
                    Some(s) => {
                        let acc = &log.borrow().accepted;
                        check!(at + s.len() <= acc.len(), "beyond", "a segment of {} items at {at} of {} committed", s.len(), acc.len());
                        for (e, w) in s.iter().zip(&acc[at..]) {
                            check_eq!(e.id(), ident::<T>(*w), "contents", "item in a segment at {at}");
                        }
                        at += s.len();
                    }
                    None => {
                        check_eq!(at, log.borrow().accepted.len(), "ended", "place where an iteration ran out");
                        break;
                    }
                }
            }
        }
        for s in it.by_ref() {
            at += s.len();
        }
        check_eq!(at, log.borrow().accepted.len(), "ended", "place where an iteration ran out");
    }
    let total = at;
    let first = pick(&[0, 1, total / 2, total.saturating_sub(1)]).min(total);
    let then = pick(&[0, 1, (total - first) / 2, (total - first).saturating_sub(1), total - first, total - first + 1, usize::MAX]);
    logln!("advance by {first}, then by {then}");
    check_eq!(buffer.advance(first), 0, "advance", "items missing after advancing by {first} of {total}");
    let missing = buffer.advance(then);
    check_eq!(missing, then - then.min(total - first), "advance", "items missing after advancing by {then} from {first} of {total}");
    let pos = first + then.min(total - first);
    commit(&mut loader, &log, 0)?;
    let mut at = pos;
    for s in buffer.segments() {
        for e in s {
            check_eq!(Some(e.id()), log.borrow().accepted.get(at).map(|w| ident::<T>(*w)), "contents", "item {at} after advancing to {pos}");
            at += 1;
        }
    }
    check_eq!(at, log.borrow().accepted.len(), "contents", "items readable after advancing to {pos} and one more commit");
    outcome(&(n, pos == total));
    drop((buffer, loader));
    all_dropped::<T>()
}
/// A few segments of many items each.
fn large<T: Elem>(per: &[usize], strat: Strat) -> R {
    drive::reset();
    let per = pick(per);
    let log: Rc<RefCell<SrcLog>> = Default::default();
    let src = Scripted::<T>::new(&log, move || Step::Write { grant: per, push: per, shrink: 0, cancel: false });
    let (mut buffer, mut loader) = build(strat, src);
    let n = 1 + choose(2);
    for _ in 0..n {
        commit(&mut loader, &log, 0)?;
    }
    let total = log.borrow().accepted.len();
    let stops: Vec<usize> = [1, 255, 256, 65535, 65536, per - 1, per, per + 1, total - 1, total].into_iter().filter(|x| *x <= total).collect();
    let mut at = 0;
    logln!("{strat:?}, {n} commits of {per} items");
    for _ in 0..2 {
        let to = pick(&stops);
        if to < at {
            return Ok(());
        }
        logln!("at {at}: advance to {to}");
        check_eq!(buffer.advance(to - at), 0, "advance", "items missing after advancing from {at} to {to} of {total}");
        at = to;
        let mut i = at;
        for s in buffer.segments() {
            for e in s {
                check_eq!(Some(e.id()), log.borrow().accepted.get(i).map(|w| ident::<T>(*w)), "contents", "item {i} after advancing to {at}");
                i += 1;
            }
        }
        check_eq!(i, total, "contents", "items readable after advancing to {at}");
    }
    check_eq!(buffer.advance(total), at, "advance", "items missing after advancing by {total} from {at}");
    state(&(n, per, at));
    drop((buffer, loader));
    all_dropped::<T>()
}
fn main() {
    mc::main(|t| {
        let per = t.pick(vec![3, 300], vec![300, 65535, 65536, 65537, 70000], vec![300, 65535, 65536, 65537, 70000, 1 << 20]);
        let per2 = per.clone();
        let d = t.pick(3, 7, 8);
        let ns = explore::sizes(t.pick(1, 40, 100), t.pick(2, 4097, 16385));
        let (n2, n3) = (ns.clone(), ns.clone());
        vec![
            job("many commits, owning items", 0, move || many::<Owned>(&ns, Strat::Exact)),
            job("many commits, over-aligned items, growing buffers", 0, move || many::<Wide>(&n2, Strat::Double)),
            job("many commits, zero-sized items, roomy buffers", 0, move || many::<Zst>(&n3, Strat::AtLeast(8))),
            job("large segments, owning items", 0, move || large::<Owned>(&per, Strat::Exact)),
            job("large segments, over-aligned items", 0, move || large::<Wide>(&per2, Strat::Double)),
            job("owning items", 0, move || history::<Owned>(d, 2, Strat::Exact)),
            job("bytes, roomy buffers", 0, move || history::<u8>(d, 2, Strat::AtLeast(8))),
            job("zero-sized items", 0, move || history::<Zst>(d, 2, Strat::Exact)),
            job("small segments, longer", 0, move || history::<Owned>(t.pick(4, 8, 9), 1, Strat::Exact)),
        ]
    })
}
