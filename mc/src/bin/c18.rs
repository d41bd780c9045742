//! C18 (single-threaded part): advancing a sequence that is being loaded, under every interleaving of the
//! loading side's actions with the polls of the advance and with the operations inside one poll.
use mc::live::*;
use mc::stream::*;
use mc::*;
use parcom_core::{SegmentStream, Sequence};
use std::pin::pin;

fn script(loads: usize, max: usize) -> Vec<Step> {
    let n = choose(loads + 1);
    let mut s: Vec<Step> = (0..n)
        .map(|_| match choose(max + 2) {
            k if k > max => Step::Fail,
            k => Step::Write { grant: k, push: k, shrink: 0, cancel: false },
        })
        .collect();
    if choose(2) == 0 {
        s.push(Step::Finish);
    }
    s
}
#[derive(Clone, Copy)]
struct Plan {
    spurious: usize,
    /// Advances in a row.
    advances: usize,
    /// Largest amount.
    amount: usize,
    loads: usize,
    max: usize,
    /// Read one segment before some advances.
    peek: bool,
}
fn skip<T: Elem>(o: &Opts, p: &Plan) -> R {
    reset_elems();
    drive::reset();
    let steps = script(p.loads, p.max);
    logln!("script {steps:?}");
    let (mut seq, live) = live::<T>(o, steps);
    let mut spurious = p.spurious;
    let mut pos = 0usize; // position asked for, not capped at the end
    let advances = 1 + choose(p.advances);
    for i in 0..=advances {
        // what is readable from here, once everything there is has been read
        if p.peek && i < advances && choose(2) == 1 || i == advances {
            let at0 = pos;
            let mut segs = seq.segments();
            let mut at = at0;
            let mut n = if i == advances { usize::MAX } else { 1 };
            while n > 0 {
                n -= 1;
                let f = pin!(segs.next(1));
                let got = interleave(f, &live, &mut 0, &mut 0, |l| {
                    check!(!l.done && l.committed <= at, "sleeps", "the reader sleeps at {at} of {} committed{}", l.committed, if l.done { ", finished" } else { "" });
                    Ok(())
                })?;
                match got {
                    None => return Ok(()),
                    Some(None) => {
                        let l = live.borrow();
                        check!(l.done, "early-end", "the end before loading had finished");
                        check_eq!(at, l.committed.max(at0), "early-end", "items passed at the end");
                        break;
                    }
                    Some(Some(s)) => {
                        let s: Vec<u32> = s.iter().map(|e| e.id()).collect();
                        let l = live.borrow();
                        check!(s.is_empty() || at + s.len() <= l.committed, "position", "{} items delivered at {at} of {} committed", s.len(), l.committed);
                        check_eq!(s, if s.is_empty() { vec![] } else { l.items(at, s.len()) }, "position", "items at {at}");
                        at += s.len();
                    }
                }
            }
            if i == advances {
                break;
            }
        }
        let n = choose(p.amount + 1);
        logln!("advance by {n}");
        let need = pos + n;
        let f = pin!(seq.advance(n));
        let r = interleave(f, &live, &mut spurious, &mut 0, |l| {
            check!(!l.done && l.committed < need, "sleeps", "the advance by {n} from {pos} sleeps although {} items were committed and signalled{}", l.committed, if l.done { " and loading finished" } else { "" });
            Ok(())
        })?;
        match r {
            None => {
                count("silent streams");
                return Ok(());
            }
            Some(s) => {
                let l = live.borrow();
                check!(l.committed >= need || l.done, "early", "the advance by {n} from {pos} completed with {} items committed and loading not finished", l.committed);
                outcome(&(pos, n, l.committed, l.done));
                pos = need;
                seq = s;
            }
        }
    }
    Ok(())
}
/// Many appends, with the loading side a fixed number of actions ahead at each sleep of the advance.
fn long<T: Elem>(ns: &[usize], strat: Strat) -> R {
    reset_elems();
    drive::reset();
    let n = pick(ns);
    let kind = choose(4); // items per load: 1, 3, alternately 0 and 2, or one in sixteen loads
    let per = |i: usize| [1, 3, i % 2 * 2, (i % 16 == 15) as usize][kind];
    let total: usize = (0..n).map(per).sum();
    let ends = flag();
    let (force, eager) = (flag(), flag());
    let burst = pick(&[1, 2, 64, usize::MAX]);
    let first = pick(&[0, 1, total / 2]);
    let then = pick(&[0, 1, total / 3, total.saturating_sub(first + 1), total.saturating_sub(first), total + 1, usize::MAX / 2]);
    logln!("{strat:?}, {n} loads of kind {kind} ({total} items), ends: {ends}, forced: {force}, eager: {eager}, {burst} actions at a time, advance by {first}, then {then}");
    let mut steps: Vec<Step> = (0..n).map(|i| Step::Write { grant: per(i), push: per(i), shrink: 0, cancel: false }).collect();
    if ends {
        steps.push(Step::Finish);
    }
    let (mut seq, live) = live::<T>(&Opts { strat, force, eager, windows: 0 }, steps);
    let mut pos = 0usize;
    for n in [first, then] {
        let need = pos + n;
        let f = pin!(seq.advance(n));
        let r = lockstep(f, &live, burst, |l| {
            check!(!l.done && l.committed < need, "sleeps", "the advance by {n} from {pos} sleeps although {} items were committed and signalled{}", l.committed, if l.done { " and loading finished" } else { "" });
            Ok(())
        })?;
        let l = live.borrow();
        match r {
            None => {
                check!(!l.done && l.committed < need, "sleeps", "the advance by {n} from {pos} sleeps for ever with {} committed", l.committed);
                return Ok(());
            }
            Some(s) => {
                check!(l.committed >= need || l.done, "early", "the advance by {n} from {pos} completed with {} items committed and loading not finished", l.committed);
                pos = need;
                seq = s;
            }
        }
    }
    let mut at = pos;
    {
        let mut segs = seq.segments();
        loop {
            let f = pin!(segs.next(1));
            let Some(Some(s)) = lockstep(f, &live, usize::MAX, |_| Ok(()))? else { break };
            let l = live.borrow();
            let got: Vec<u32> = s.iter().map(|e| e.id()).collect();
            check!(s.is_empty() || at + s.len() <= l.committed, "position", "{} items delivered at {at} of {} committed", s.len(), l.committed);
            check_eq!(got, if s.is_empty() { vec![] } else { l.items(at, s.len()) }, "position", "items at {at}");
            at += s.len();
        }
    }
    check_eq!(at, live.borrow().committed.max(pos), "position", "items passed at the end");
    outcome(&(n, pos.min(total)));
    drop(seq);
    live.borrow_mut().loader = None;
    all_dropped::<T>()
}
fn main() {
    mc::main(|t| {
        let mut jobs = vec![];
        let ns = explore::sizes(t.pick(1, 12, 40), t.pick(2, 513, 4097));
        for strat in [Strat::Exact, Strat::AtLeast(8)] {
            let ns = ns.clone();
            jobs.push(job(format!("long streams {strat:?}"), 0, move || long::<Owned>(&ns, strat)));
        }
        jobs.push(job("long streams zst", 0, move || long::<Zst>(&ns, Strat::Double)));
        fn add<T: Elem>(jobs: &mut Vec<Job>, name: String, o: Opts, p: Plan) {
            jobs.push(job(name, 0, move || skip::<T>(&o, &p)))
        }
        let base = Plan { spurious: 1, advances: 2, amount: t.pick(2, 3, 3), loads: t.pick(1, 2, 3), max: t.pick(1, 1, 2), peek: false };
        for force in [true, false] {
            for eager in [false, true] {
                let o = |windows| Opts { strat: Strat::Exact, force, eager, windows };
                add::<u8>(&mut jobs, format!("many appends force={force} eager={eager}"), o(0), Plan { advances: 1, loads: t.pick(2, 3, 4), max: t.pick(1, 1, 2), amount: t.pick(2, 4, 8), ..base });
                add::<u8>(&mut jobs, format!("several advances force={force} eager={eager}"), o(0), Plan { advances: t.pick(2, 2, 3), loads: t.pick(1, 2, 2), ..base });
                add::<u8>(&mut jobs, format!("inside polls force={force} eager={eager}"), o(t.pick(2, 3, 6)), Plan { advances: 1, spurious: 0, ..base });
                add::<Owned>(&mut jobs, format!("after reading force={force} eager={eager}"), o(t.pick(0, 1, 2)), Plan { peek: true, max: t.pick(1, 1, 2), ..base });
                add::<Zst>(&mut jobs, format!("zst force={force} eager={eager}"), o(t.pick(0, 1, 2)), base);
            }
        }
        for strat in STRATS {
            add::<Wide>(&mut jobs, format!("strategy {strat:?}"), Opts { strat, force: false, eager: false, windows: t.pick(0, 1, 2) }, base);
        }
        jobs
    })
}
