//! C17 (single-threaded part): segments of a sequence that is being loaded, under every interleaving of the
//! loading side's actions with the reader's polls and with the operations inside one poll.
use mc::live::*;
use mc::stream::*;
use mc::*;
use parcom_core::{SegmentStream, Sequence};
use std::cell::RefCell;
use std::pin::pin;
use std::rc::Rc;

/// What the source does: loads of 0..=max items, then the end or silence.
pub fn script(loads: usize, max: usize) -> Vec<Step> {
    let n = choose(loads + 1);
    let mut s: Vec<Step> = (0..n)
        .map(|_| match choose(max + 2) {
            k if k > max => Step::Fail,
            k => Step::Write { grant: k, push: k, shrink: 0, cancel: false },
        })
        .collect();
    if choose(2) == 0 {
        s.push(Step::Finish);
    }
    s
}
#[derive(Clone, Copy)]
struct Reader {
    spurious: usize,
    abandon: usize,
    /// How often the reader starts over with a new stream of segments.
    restart: usize,
}
fn read<T: Elem>(o: &Opts, rd: &Reader, loads: usize, max: usize) -> R {
    reset_elems();
    drive::reset();
    let steps = script(loads, max);
    logln!("script {steps:?}");
    let (mut seq, live) = live::<T>(o, steps);
    let r = read_all(&mut seq, &live, rd);
    drop(seq);
    live.borrow_mut().loader = None;
    r
}
fn read_all<T: Elem>(seq: &mut LiveSeq<T>, live: &Rc<RefCell<Live<T>>>, rd: &Reader) -> R {
    let (mut spurious, mut abandon, mut restart) = (rd.spurious, rd.abandon, rd.restart);
    'again: loop {
        let mut segs = seq.segments();
        let mut at = 0;
        loop {
            let left = abandon;
            let got = {
                let f = pin!(segs.next(1));
                interleave(f, live, &mut spurious, &mut abandon, |l| {
                    check!(!l.done, "sleeps", "the reader sleeps although the end was signalled");
                    check!(l.committed == at, "sleeps", "the reader sleeps at {at} although {} items were committed and signalled", l.committed);
                    Ok(())
                })?
                .map(|s| s.map(|s| s.iter().map(|e| e.id()).collect::<Vec<u32>>()))
            };
            match got {
                None if abandon < left => count("abandoned waits"),
                None => {
                    count("silent streams");
                    return Ok(());
                }
                Some(Some(s)) => {
                    logln!("segment {s:?}");
                    let l = live.borrow();
                    check!(at + s.len() <= l.committed, "beyond", "{} items delivered of {} committed", at + s.len(), l.committed);
                    check_eq!(s, l.items(at, s.len()), "items", "segment at {at}");
                    at += s.len();
                    outcome(&(at, l.committed, l.done));
                }
                Some(None) => {
                    logln!("end");
                    {
                        let l = live.borrow();
                        check!(l.done, "early-end", "the end was reported before loading had finished ({} committed)", l.committed);
                        check_eq!(at, l.committed, "early-end", "items delivered at the end");
                    }
                    // told again, and again from the start
                    let f = pin!(segs.next(1));
                    match interleave(f, live, &mut 0, &mut 0, |_| Ok(()))? {
                        Some(None) => {}
                        Some(Some(s)) if s.is_empty() => {}
                        Some(Some(s)) => fail!("after-end", "a segment of {} items after the end", s.len()),
                        None => fail!("after-end", "the reader sleeps after the end"),
                    }
                    if restart > 0 {
                        restart -= 1;
                        continue 'again;
                    }
                    return Ok(());
                }
            }
            if restart > 0 && choose(2) == 1 {
                restart -= 1;
                logln!("a new stream of segments");
                continue 'again;
            }
        }
    }
}
/// Many appends, with the loading side a fixed number of actions ahead at each sleep of the reader.
fn long<T: Elem>(ns: &[usize], strat: Strat) -> R {
    reset_elems();
    drive::reset();
    let n = pick(ns);
    let kind = choose(4); // items per load: 1, 3, alternately 0 and 2, or one in sixteen loads
    let ends = flag();
    let (force, eager) = (flag(), flag());
    let burst = pick(&[1, 2, 5, 64, usize::MAX]);
    logln!("{strat:?}, {n} loads of kind {kind}, ends: {ends}, forced: {force}, eager: {eager}, {burst} actions at a time");
    let mut steps: Vec<Step> = (0..n)
        .map(|i| {
            let k = [1, 3, i % 2 * 2, (i % 16 == 15) as usize][kind];
            Step::Write { grant: k, push: k, shrink: 0, cancel: false }
        })
        .collect();
    if ends {
        steps.push(Step::Finish);
    }
    let (mut seq, live) = live::<T>(&Opts { strat, force, eager, windows: 0 }, steps);
    let mut at = 0;
    {
        let mut segs = seq.segments();
        loop {
            let f = pin!(segs.next(1));
            let got = lockstep(f, &live, burst, |l| {
                check!(!l.done, "sleeps", "the reader sleeps although the end was signalled");
                check!(l.committed == at, "sleeps", "the reader sleeps at {at} although {} items were committed and signalled", l.committed);
                Ok(())
            })?;
            let l = live.borrow();
            match got {
                None => {
                    check!(!l.done && at == l.committed, "sleeps", "the reader sleeps at {at} of {} at the end", l.committed);
                    break;
                }
                Some(None) => {
                    check!(l.done, "early-end", "the end was reported before loading had finished ({} committed)", l.committed);
                    check_eq!(at, l.committed, "early-end", "items delivered at the end");
                    break;
                }
                Some(Some(s)) => {
                    check!(at + s.len() <= l.committed, "beyond", "{} items delivered of {} committed", at + s.len(), l.committed);
                    let got: Vec<u32> = s.iter().map(|e| e.id()).collect();
                    check_eq!(got, l.items(at, s.len()), "items", "segment at {at}");
                    at += s.len();
                }
            }
        }
    }
    outcome(&(n, at));
    drop(seq);
    live.borrow_mut().loader = None;
    all_dropped::<T>()
}
fn main() {
    mc::main(|t| {
        let mut jobs = vec![];
        let ns = explore::sizes(t.pick(1, 12, 40), t.pick(2, 1025, 16385));
        for strat in [Strat::Exact, Strat::AtLeast(8)] {
            let ns = ns.clone();
            jobs.push(job(format!("many appends {strat:?}"), 0, move || long::<Owned>(&ns, strat)));
        }
        jobs.push(job("many appends zst", 0, move || long::<Zst>(&ns, Strat::Double)));
        let base = Reader { spurious: 1, abandon: 0, restart: 0 };
        let (loads, max) = t.pick((2, 1), (3, 1), (4, 2));
        fn add<T: Elem>(jobs: &mut Vec<Job>, name: String, o: Opts, r: Reader, loads: usize, max: usize) {
            jobs.push(job(name, 0, move || read::<T>(&o, &r, loads, max)))
        }
        for force in [true, false] {
            for eager in [false, true] {
                let o = |windows| Opts { strat: Strat::Exact, force, eager, windows };
                add::<u8>(&mut jobs, format!("whole polls force={force} eager={eager}"), o(0), Reader { spurious: t.pick(1, 1, 2), ..base }, loads, max);
                add::<u8>(&mut jobs, format!("inside polls force={force} eager={eager}"), o(t.pick(2, 3, 6)), base, t.pick(1, 2, 3), max);
                add::<Zst>(&mut jobs, format!("inside polls zst force={force} eager={eager}"), o(t.pick(1, 2, 4)), base, t.pick(1, 2, 3), max);
                add::<Owned>(&mut jobs, format!("abandoned waits force={force} eager={eager}"), o(t.pick(0, 0, 2)), Reader { abandon: t.pick(1, 2, 2), ..base }, t.pick(1, 2, 3), max.min(t.pick(1, 1, 2)));
                add::<Owned>(&mut jobs, format!("started over force={force} eager={eager}"), o(t.pick(0, 0, 2)), Reader { restart: t.pick(1, 1, 2), ..base }, t.pick(1, 2, 3), max.min(t.pick(1, 1, 2)));
            }
        }
        for strat in STRATS {
            add::<Wide>(&mut jobs, format!("strategy {strat:?}"), Opts { strat, force: false, eager: false, windows: t.pick(0, 1, 2) }, base, loads, max);
        }
        jobs
    })
}
