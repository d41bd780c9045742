//! C03: every combinator expression up to a size against the reference interpreter of ordered choice.
use mc::ast::*;
use mc::drive::run;
use mc::seq::*;
use mc::*;
use parcom_core::*;

fn main() {
    mc::main(|t| {
        let all = Alphabet {
            leaves: vec![Leaf::A, Leaf::B, Leaf::Any, Leaf::AB, Leaf::Eps, Leaf::MissAfter, Leaf::FatalAfter],
            un: vec![Un::Opt, Un::Rep, Un::Map, Un::MapErr, Un::AndThen, Un::AndThenFatal, Un::Ref, Un::Boxed],
            bin: vec![Bin::Join, Bin::Or, Bin::OrUnify, Bin::JoinUnifyErr],
        };
        let core = Alphabet {
            leaves: vec![Leaf::A, Leaf::Any, Leaf::MissAfter, Leaf::FatalAfter],
            un: vec![Un::Opt, Un::Rep, Un::AndThen],
            bin: vec![Bin::Join, Bin::Or],
        };
        let mut v = vec![];
        let lad = Ladder::new(t);
        v.push(job("long repetitions, deep nesting", 0, move || {
            let (ast, text) = lad.case();
            logln!("{:.200}... on {} bytes", format!("{ast:?}"), text.len());
            compare(&ast, text, 0)
        }));
        for (name, al, size, len) in [("all operators", all, t.pick(2, 5, 6), t.pick(2, 3, 3)), ("core operators", core, t.pick(3, 7, 8), t.pick(2, 4, 4))] {
            let inputs = words(&['a', 'b'], len);
            v.push(job(name, 0, move || {
                let ast = Ast::gen(&al, size);
                let text = pick(&inputs);
                logln!("{ast:?} on {text:?}");
                compare(&ast, text, 1)
            }));
        }
        v
    })
}

fn compare(ast: &Ast, text: &'static str, how: usize) -> R {
    let once = flag();
    logln!("by value {once}");
    let mut spec = Spec { text, metric: &|_| (0, 0, 0), log: vec![] };
    let want = spec.run(ast, 0);
    if let Out::Loop = want {
        count("skipped: repetition of an empty match");
        return Ok(());
    }
    let log: Log = Default::default();
    let p = build::<TestSeq<str>>(ast, &log);
    let s = TestSeq::new(pieces(text, how), false);
    let got = if once { run(p.parse_once(s)) } else { run(p.parse(s)) };
    match (&want, got) {
        (Out::Ok(w, n), Ok((g, s))) => {
            outcome(&("ok", w));
            check_eq!(g, *w, "output", "output");
            check_eq!(s.pos(), *n, "rest", "position after success");
        }
        (Out::Err(w), Err((g, _))) => {
            outcome(&("err", w));
            check_eq!(g, *w, "error", "error");
        }
        (Out::Ok(w, _), Err((e, _))) => fail!("fails", "failed with {e:?}, expected {w:?}"),
        (Out::Err(w), Ok((g, _))) => fail!("succeeds", "succeeded with {g:?}, expected {w:?}"),
        (Out::Loop, _) => unreachable!(),
    }
    check_eq!(*log.borrow(), spec.log, "calls", "component runs");
    state(&(ast, text));
    Ok(())
}
