//! C24: streams of every length are read, skipped over and released, in every order; what the reader passed is
//! released at once.
use mc::drive::{poll_once, run};
use mc::live::{live, Live, LiveSeq, Opts};
use mc::stream::*;
use mc::*;
use parcom_core::{SegmentStream, Sequence};
use parcom_sequence_core::{SequenceBuffer, SequenceLoader};
use parcom_sequences::generic::{GenericSequenceBuffer, GenericSequenceLoader};
use std::cell::RefCell;
use std::pin::pin;
use std::rc::Rc;

type Ld<T> = GenericSequenceLoader<T, Scripted<T>, Strat>;
fn script(segs: usize, size: usize) -> impl Iterator<Item = Step> {
    (0..segs).map(move |_| Step::Write { grant: size, push: size, shrink: 0, cancel: false })
}
/// How far the reader goes.
fn amount(max: usize) -> usize {
    match choose(7) {
        0 => 0,
        1 => 1,
        2 => max / 2,
        3 => max / 2 + 1,
        4 => max.saturating_sub(1),
        5 => max,
        _ => max + 3,
    }
}
struct World<T: Elem> {
    buf: Option<GenericSequenceBuffer<T>>,
    ld: Option<Ld<T>>,
    size: usize,
    committed: usize,
    pos: usize,
}
impl<T: Elem> World<T> {
    fn load(&mut self, n: usize) -> R {
        let l = self.ld.as_mut().unwrap();
        for _ in 0..n {
            if run(l.load()).is_err() {
                fail!("load", "the load failed");
            }
            l.force_commit();
            self.committed += self.size;
        }
        Ok(())
    }
    /// Passed segments are gone, and nothing that was not passed is.
    fn released(&self) -> R {
        if !T::COUNTED {
            return Ok(());
        }
        let d = drops() as usize;
        let reader = match &self.buf {
            Some(_) => self.pos.min(self.committed),
            None => self.committed,
        };
        let full = reader / self.size * self.size;
        check!(d >= full, "kept", "{} of {} items were passed ({} per segment, reader {}), only {d} released", full, self.committed, self.size, if self.buf.is_some() { "there" } else { "gone" });
        check!(d <= reader, "lost", "{d} items released, only {reader} were passed");
        Ok(())
    }
}
/// The buffer and the loader themselves.
fn chain<T: Elem>(lens: &[usize], size: usize, rounds: usize) -> R {
    reset_elems();
    let n = pick(lens);
    let base = alloc::live();
    let log: Rc<RefCell<SrcLog>> = Default::default();
    {
        let total = n * size;
        let (buf, ld) = build(Strat::Exact, Scripted::<T>::fixed(&log, script(n, size)));
        let mut w = World { buf: Some(buf), ld: Some(ld), size, committed: 0, pos: 0 };
        let mut left = n;
        logln!("{n} segments of {size}");
        for r in 0..rounds {
            // load some, then the reader does something, perhaps without the loader
            if w.ld.is_some() {
                let k = if r + 1 == rounds { left } else { [0, 1, left / 2, left][choose(4)].min(left) };
                w.load(k)?;
                left -= k;
                logln!("loaded {k}");
                if flag() {
                    w.ld = None;
                    logln!("loader dropped");
                }
            }
            w.released()?;
            let b = w.buf.as_mut().unwrap();
            match choose(4) {
                // read everything there is
                0 => {
                    let mut at = w.pos.min(w.committed);
                    for s in b.segments() {
                        check!(at + s.len() <= w.committed, "read", "items beyond the end");
                        if T::IDENT {
                            if let Some(e) = s.first() {
                                check_eq!(e.id() & 0xff, ident::<T>(at as u32) & 0xff, "read", "first item of a segment");
                            }
                        }
                        at += s.len();
                    }
                    check_eq!(at, w.committed, "read", "items read");
                }
                // skip in one go
                1 => {
                    let k = amount(total - w.pos.min(total));
                    let r = b.advance(k);
                    logln!("advanced by {k}");
                    check_eq!(r, (w.pos + k).saturating_sub(w.committed.max(w.pos)), "advance", "left over");
                    w.pos = (w.pos + k).min(w.committed.max(w.pos));
                }
                // skip piece by piece
                2 => {
                    let piece = [1, size, size + 1][choose(3)];
                    let k = amount(total - w.pos.min(total));
                    logln!("advanced by {k} in pieces of {piece}");
                    let mut k = k;
                    while k > 0 {
                        let s = piece.min(k);
                        let r = b.advance(s);
                        let take = s.min(w.committed - w.pos);
                        check_eq!(r, s - take, "advance", "left over");
                        w.pos += take;
                        k -= s;
                        if take < s {
                            break;
                        }
                    }
                }
                _ => {}
            }
            w.released()?;
        }
        // both are released, in either order, or the reader first while loading goes on
        match choose(3) {
            0 => {
                w.ld = None;
                w.released()?;
                w.buf = None;
            }
            1 => {
                w.buf = None;
                w.released()?;
                if w.ld.is_some() && n > 0 {
                    logln!("loading goes on without a reader");
                    for _ in 0..n.min(5) {
                        let l = w.ld.as_mut().unwrap();
                        let before = made() as usize;
                        let _ = run(l.load());
                        l.force_commit();
                        w.committed += made() as usize - before;
                        w.released()?;
                    }
                }
                w.ld = None;
            }
            _ => w.buf = None,
        }
    }
    all::<T>()?;
    drop(log);
    check_eq!(alloc::live(), base, "leak", "live blocks in the end");
    state(&(n, size));
    Ok(())
}
fn all<T: Elem>() -> R {
    if T::COUNTED {
        check_eq!(drops(), made(), "drops", "items dropped");
    }
    Ok(())
}

/// The streaming sequence.
fn whole<T: Elem>(lens: &[usize], size: usize) -> R {
    reset_elems();
    drive::reset();
    let n = pick(lens);
    logln!("{n} segments of {size}");
    let base = alloc::live();
    let finish = flag();
    let mut steps: Vec<Step> = script(n, size).collect();
    if finish {
        steps.push(Step::Finish);
    }
    let o = Opts { strat: Strat::Exact, force: true, eager: false, windows: 0 };
    let (seq, lv): (LiveSeq<T>, Rc<RefCell<Live<T>>>) = live::<T>(&o, steps);
    // how much is loaded before the reader starts
    let first = [0, 1, n / 2, n + 1][choose(4)];
    let step = |k: usize| -> R {
        for _ in 0..k {
            if lv.borrow().enabled() {
                lv.borrow_mut().act()?;
            }
        }
        Ok(())
    };
    step(first * 3)?;
    let total = n * size;
    let mut seq = Some(seq);
    let mut pos = 0;
    match choose(3) {
        0 => {
            logln!("read");
            let s = seq.as_mut().unwrap();
            let mut g = s.segments();
            let mut at = 0;
            loop {
                let done;
                {
                    let mut f = pin!(g.next(1));
                    let mut idle = 0;
                    loop {
                        if let (std::task::Poll::Ready(r), _) = poll_once(f.as_mut()) {
                            done = r.map(|s| s.len());
                            break;
                        }
                        idle += 1;
                        if idle > 6 && !lv.borrow().enabled() {
                            done = None;
                            break;
                        }
                        check!(idle < 20, "progress", "no progress");
                        step(1)?;
                    }
                }
                match done {
                    Some(l) => at += l,
                    None => break,
                }
            }
            check_eq!(at, total, "read", "items read");
        }
        1 => {
            let k = amount(total);
            logln!("advance {k}");
            let mut f = Box::pin(seq.take().unwrap().advance(k));
            let mut polls = 0;
            let give_up = flag().then(|| choose(3));
            loop {
                if let (std::task::Poll::Ready(s), _) = poll_once(f.as_mut()) {
                    seq = Some(s);
                    pos = k;
                    break;
                }
                polls += 1;
                if give_up.is_some_and(|g| polls > g) {
                    logln!("abandoned");
                    break;
                }
                if !lv.borrow().enabled() && polls > 4 * (n + 3) {
                    check!(!finish && k > total, "progress", "no progress");
                    break;
                }
                step(2)?;
            }
        }
        _ => {}
    }
    step(3 * (n + 2))?;
    if T::COUNTED && seq.is_some() {
        let d = drops() as usize;
        let full = pos.min(total) / size * size;
        check!(d >= full && d <= pos.min(total), "kept", "{d} items released, {pos} were passed");
    }
    if flag() {
        drop(seq);
        if T::COUNTED {
            check_eq!(drops(), made(), "kept", "items released once the reader is gone");
        }
        drop(lv);
    } else {
        lv.borrow_mut().loader = None;
        drop(seq);
        drop(lv);
    }
    all::<T>()?;
    check_eq!(alloc::live(), base, "leak", "live blocks in the end");
    Ok(())
}
fn main() {
    // a chain of segments that is released recursively does not fit
    STACK.store(1 << 20, std::sync::atomic::Ordering::SeqCst);
    mc::main(|t| {
        let small: Vec<usize> = (0..t.pick(3, 6, 12)).collect();
        let big = match t {
            Tier::Miri => vec![100],
            Tier::Quick => vec![100_000],
            Tier::Thorough => vec![1_000, 100_000, 1_000_000],
        };
        let mut v = vec![];
        for size in [1, 2, 3] {
            let s = small.clone();
            v.push(job(format!("buffer and loader, short streams, {size} per segment"), 0, move || chain::<Owned>(&s, size, t.pick(1, 2, 3))));
            let s = small.clone();
            v.push(job(format!("streaming sequence, short streams, {size} per segment"), 0, move || whole::<Owned>(&s, size)));
        }
        let s = small.clone();
        v.push(job("buffer and loader, short streams of nothing-sized items", 0, move || chain::<Zst>(&s, 1, t.pick(1, 2, 3))));
        let b = big.clone();
        v.push(job("buffer and loader, long streams", 0, move || chain::<u8>(&b, 1, 1)));
        let b = big.clone();
        v.push(job("buffer and loader, long streams of owned items", 0, move || chain::<Owned>(&b, 2, 1)));
        v.push(job("streaming sequence, long streams", 0, move || whole::<Owned>(&big, 1)));
        v
    })
}
