//! C05: a terminating error anywhere in an expression.
use mc::ast::*;
use mc::drive::run;
use mc::seq::*;
use mc::*;
use parcom_core::*;

fn has_fatal(a: &Ast) -> bool {
    match a {
        Ast::L(l, _) => *l == Leaf::FatalAfter,
        Ast::U(u, x) => *u == Un::AndThenFatal || has_fatal(x),
        Ast::B(_, x, y) => has_fatal(x) || has_fatal(y),
    }
}
fn main() {
    mc::main(|t| {
        let big = Alphabet { leaves: vec![Leaf::A, Leaf::Any, Leaf::MissAfter, Leaf::FatalAfter], un: ALL_UN.to_vec(), bin: ALL_BIN.to_vec() };
        let small = Alphabet {
            leaves: vec![Leaf::A, Leaf::MissAfter, Leaf::FatalAfter],
            un: vec![Un::Opt, Un::Rep, Un::Coll, Un::AndThenFatal, Un::Fold],
            bin: vec![Bin::Join, Bin::Or, Bin::Expr],
        };
        let mut v = vec![];
        let lad = Ladder::new(t);
        v.push(job("long repetitions, deep nesting", 0, move || {
            let (ast, text) = lad.case();
            if !has_fatal(&ast) {
                count("expressions without a terminating component, not run");
                return Ok(());
            }
            one(&ast, text, 0)
        }));
        for (name, al, size, len) in [("all operators", big, t.pick(2, 5, 6), t.pick(2, 3, 3)), ("core operators", small, t.pick(3, 7, 8), t.pick(2, 2, 3))] {
            let inputs = words(&['a', 'b'], len);
            v.push(job(name, 0, move || {
                let ast = Ast::gen(&al, size);
                if !has_fatal(&ast) {
                    count("expressions without a terminating component, not run");
                    return Ok(());
                }
                one(&ast, pick(&inputs), 1)
            }));
        }
        v
    })
}
fn one(ast: &Ast, text: &'static str, how: usize) -> R {
    let once = flag();
    logln!("{text:.20} {:.300} on {} bytes by value {once}", format!("{ast:?}"), text.len());
    let mut spec = Spec { text, metric: &|_| (0, 0, 0), log: vec![] };
    let want = spec.run(ast, 0);
    if let Out::Loop = want {
        count("skipped: repetition of an empty match");
        return Ok(());
    }
    let log: Log = Default::default();
    let p = build::<TestSeq<str>>(ast, &log);
    let s = TestSeq::new(pieces(text, how), false);
    let g = if once { got(run(p.parse_once(s))) } else { got(run(p.parse(s))) };
    judge(&want, &g, text)?;
    if let Err(e) = &g {
        check_eq!(e.should_terminate(), matches!(&want, Out::Err(w) if w.term), "kind", "terminating");
        if e.term {
            count("terminated");
        }
    }
    check_eq!(*log.borrow(), spec.log, "calls", "component runs");
    state(&(ast, text));
    Ok(())
}
