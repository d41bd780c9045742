//! C06: by value = by reference; a parser value can be reused and run twice at the same time.
use mc::ast::*;
use mc::drive::{self, run};
use mc::seq::*;
use mc::*;
use parcom_core::*;
use std::future::Future;
use std::task::Poll;

fn want(ast: &Ast, text: &'static str) -> Option<(Out, Vec<Call>)> {
    let mut spec = Spec { text, metric: &|_| (0, 0, 0), log: vec![] };
    match spec.run(ast, 0) {
        Out::Loop => None,
        o => Some((o, spec.log)),
    }
}
fn main() {
    mc::main(|t| {
        let leaves = vec![Leaf::A, Leaf::Any, Leaf::AB, Leaf::Eps, Leaf::MissAfter, Leaf::FatalAfter];
        let al = |l: &Vec<Leaf>| Alphabet { leaves: l.clone(), un: ALL_UN.to_vec(), bin: ALL_BIN.to_vec() };
        let (a1, a2, a3) = (al(&leaves), al(&leaves), al(&leaves));
        let (n1, n2, n3) = (t.pick(2, 4, 5), t.pick(2, 4, 4), t.pick(1, 3, 3));
        let (i1, i2, i3) = (words(&['a', 'b'], t.pick(2, 3, 3)), words(&['a', 'b'], t.pick(1, 2, 2)), words(&['a', 'b'], t.pick(1, 2, 2)));
        let (a4, a5) = (al(&leaves), al(&leaves));
        let (i4, i5) = (words(&['a', 'b'], t.pick(1, 2, 2)), words(&['a', 'b'], 1));
        let (a6, n6) = (al(&leaves), t.pick(1, 3, 4));
        let (i6, i7) = (words(&['a', 'b'], 2), words(&['a', 'b'], t.pick(3, 5, 7)));
        let many = sizes(t.pick(2, 8, 40), t.pick(3, 65, 257));
        vec![
            job("one parser run many times", 0, move || {
                // every expression of up to two nodes, run over and over on changing inputs
                let ast = Ast::gen(&a4, 2);
                let turns = if matches!(ast, Ast::L(..)) { t.pick(3, 66_000, 200_000) } else { t.pick(3, 1_100, 66_000) };
                logln!("{ast:?} run {turns} times");
                let wants: Vec<_> = i4.iter().map(|x| want(&ast, x)).collect();
                let log: Log = Default::default();
                let p = build::<&'static str>(&ast, &log);
                for i in 0..turns {
                    let k = i % i4.len();
                    let Some((w, l)) = &wants[k] else { continue };
                    log.borrow_mut().clear();
                    judge(w, &got(run(p.parse(i4[k]))), i4[k])?;
                    check_eq!(*log.borrow(), *l, "calls", "component runs of run {i}");
                }
                state(&ast);
                Ok(())
            }),
            job("one parser run many times at once", 0, move || {
                let ast = Ast::gen(&a5, t.pick(2, 3, 3));
                let n = pick(&many);
                logln!("{ast:?} run {n} times at once");
                let wants: Vec<_> = i5.iter().map(|x| want(&ast, x)).collect();
                let log: Log = Default::default();
                drive::reset();
                drive::force_suspensions(1);
                let p = build::<TestSeq<str>>(&ast, &log);
                let mut runs: Vec<_> = (0..n)
                    .filter(|i| wants[i % i5.len()].is_some())
                    .map(|i| (i % i5.len(), Some(Box::pin(p.parse(TestSeq::new(pieces(i5[i % i5.len()], 1), false))))))
                    .collect();
                let mut polls = 0;
                while runs.iter().any(|r| r.1.is_some()) {
                    polls += 1;
                    check!(polls < 400, "progress", "no progress");
                    for (k, r) in &mut runs {
                        let Some(f) = r else { continue };
                        if let Poll::Ready(g) = step(f.as_mut()) {
                            judge(&wants[*k].as_ref().unwrap().0, &got(g), i5[*k])?;
                            *r = None;
                        }
                    }
                    while drive::outstanding() > 0 {
                        drive::fire(drive::outstanding() - 1);
                    }
                }
                state(&(&ast, n));
                Ok(())
            }),
            job("by value and by reference", 0, move || {
                let ast = Ast::gen(&a1, n1);
                let text = pick(&i1);
                logln!("{ast:?} on {text:?}");
                if want(&ast, text).is_none() {
                    return Ok(());
                }
                let mut res = vec![];
                for once in [false, true] {
                    let log: Log = Default::default();
                    let p = build::<&'static str>(&ast, &log);
                    let g = if once { got(run(p.parse_once(text))) } else { got(run(p.parse(text))) };
                    let calls = log.borrow().clone();
                    res.push((g, calls));
                }
                outcome(&res[0]);
                check_eq!(res[0], res[1], "differ", "by reference and by value");
                state(&(&ast, text));
                Ok(())
            }),
            job("running a parser twice", 0, move || {
                let ast = Ast::gen(&a2, n2);
                let (x, y) = (pick(&i2), pick(&i2));
                logln!("{ast:?} on {x:?} then {y:?}");
                let (Some((wx, lx)), Some((wy, ly))) = (want(&ast, x), want(&ast, y)) else { return Ok(()) };
                let log: Log = Default::default();
                let p = build::<&'static str>(&ast, &log);
                judge(&wx, &got(run(p.parse(x))), x)?;
                check_eq!(*log.borrow(), lx, "calls", "component runs of the first parse");
                log.borrow_mut().clear();
                judge(&wy, &got(run(p.parse(y))), y)?;
                check_eq!(*log.borrow(), ly, "calls", "component runs of the second parse");
                state(&(&ast, x, y));
                log.borrow_mut().clear();
                judge(&wx, &got(run(p.parse_once(x))), x)?;
                check_eq!(*log.borrow(), lx, "calls", "component runs of the final parse by value");
                Ok(())
            }),
            job("two runs of one parser interleaved", t.pick(1, 2, 3), move || {
                let ast = Ast::gen(&a3, n3);
                let (x, y) = (pick(&i3), pick(&i3));
                logln!("{ast:?} on {x:?} and {y:?}");
                let (Some((wx, _)), Some((wy, _))) = (want(&ast, x), want(&ast, y)) else { return Ok(()) };
                let log: Log = Default::default();
                drive::reset();
                let p = build::<TestSeq<str>>(&ast, &log);
                let mut fx = Box::pin(p.parse(TestSeq::new(pieces(x, 1), false)));
                let mut fy = Box::pin(p.parse(TestSeq::new(pieces(y, 1), false)));
                // every time one of them is suspended, the other one gets to run
                let (mut gx, mut gy) = (None, None);
                let mut polls = 0;
                while gx.is_none() || gy.is_none() {
                    polls += 1;
                    check!(polls < 200, "progress", "no progress");
                    if gx.is_none() {
                        if let Poll::Ready(r) = step(fx.as_mut()) {
                            gx = Some(got(r));
                        }
                    }
                    if gy.is_none() {
                        if let Poll::Ready(r) = step(fy.as_mut()) {
                            gy = Some(got(r));
                        }
                    }
                    while drive::outstanding() > 0 {
                        drive::fire(0);
                    }
                }
                judge(&wx, &gx.unwrap(), x)?;
                judge(&wy, &gy.unwrap(), y)?;
                state(&(&ast, x, y));
                Ok(())
            }),
            job("a run within or after an unfinished run", 0, move || unfinished(Ast::gen(&a6, n6), &i6)),
            job("an expression run within or after an unfinished run", 0, move || {
                // rich in what the expression parser keeps while it runs
                let (t, o) = (pick(&[Leaf::Any, Leaf::A, Leaf::FatalAfter]), pick(&[Leaf::Any, Leaf::B]));
                let e = Ast::B(Bin::Expr, Box::new(Ast::L(t, 0)), Box::new(Ast::L(o, 1)));
                unfinished(
                    match choose(3) {
                        0 => e,
                        1 => Ast::U(Un::Rep, Box::new(e)),
                        _ => Ast::U(Un::Coll, Box::new(e)),
                    },
                    &i7,
                )
            }),
        ]
    })
}
/// One run of a parser is left at any of its suspensions, for ever or for the time of a second run.
fn unfinished(ast: Ast, inputs: &[&'static str]) -> R {
    let (x, y) = (pick(inputs), pick(inputs));
    let (Some((wx, _)), Some((wy, ly))) = (want(&ast, x), want(&ast, y)) else { return Ok(()) };
    let log: Log = Default::default();
    drive::reset();
    drive::force_suspensions(1);
    let p = build::<TestSeq<str>>(&ast, &log);
    let how = choose(3);
    let mut fx = Some(Box::pin(p.parse(TestSeq::new(pieces(x, 1), false))));
    let mut n = 0;
    loop {
        if let Poll::Ready(g) = step(fx.as_mut().unwrap().as_mut()) {
            judge(&wx, &got(g), x)?;
            fx = None;
            break;
        }
        n += 1;
        check!(n < 400, "progress", "no progress");
        if flag() {
            break;
        }
        while drive::outstanding() > 0 {
            drive::fire(0);
        }
    }
    logln!("{ast:?} left on {x:?} after {n} suspensions, then run on {y:?} ({how})");
    if how == 0 {
        fx = None;
    }
    log.borrow_mut().clear();
    if how == 2 {
        // begun anew, given up at once, begun again
        drop(p.parse(TestSeq::new(pieces(y, 1), false)));
        let mut f = Box::pin(p.parse(TestSeq::new(pieces(y, 1), false)));
        let _ = step(f.as_mut());
        drop(f);
        log.borrow_mut().clear();
    }
    judge(&wy, &got(finish(&mut Box::pin(p.parse(TestSeq::new(pieces(y, 1), false))))?), y)?;
    check_eq!(*log.borrow(), ly, "calls", "component runs of the second run");
    state(&(&ast, x, y, n));
    if let Some(fx) = &mut fx {
        judge(&wx, &got(finish(fx)?), x)?;
    }
    Ok(())
}
/// Drives a run to its end; every input event fires, those another run waits for included.
fn finish<F: Future>(f: &mut std::pin::Pin<Box<F>>) -> Result<F::Output, mc::Fail> {
    for _ in 0..400 {
        while drive::outstanding() > 0 {
            drive::fire(0);
        }
        if let Poll::Ready(r) = step(f.as_mut()) {
            return Ok(r);
        }
    }
    fail!("progress", "no progress")
}
fn step<F: Future>(f: std::pin::Pin<&mut F>) -> Poll<F::Output> {
    drive::poll_once(f).0
}
