//! C02: an input that suspends gives the result of one that does not.
use mc::ast::*;
use mc::drive::{self, run};
use mc::seq::*;
use mc::prim::*;
use mc::*;
use parcom_core::*;

fn main() {
    mc::main(|t| {
        let mut v = vec![];
        let devs = t.pick(1, 3, 4);
        v.push(job("primitives on text", devs, move || {
            drive::reset();
            text_job(choose(4), 2, t.pick(2, 3, 4), 2, 1)?;
            check_eq!(drive::outstanding(), 0, "leftover", "input events still awaited after completion");
            Ok(())
        }));
        v.push(job("primitives on items", devs, move || {
            drive::reset();
            items_job(|i| i as u8, 2, t.pick(2, 3, 4), 2, 1)?;
            check_eq!(drive::outstanding(), 0, "leftover", "input events still awaited after completion");
            Ok(())
        }));
        // every input future suspends n times before it completes
        let many = sizes(t.pick(2, 40, 200), t.pick(3, 1025, 65537));
        v.push(job("long suspensions, primitives", 0, move || {
            let n = pick(&many);
            logln!("every input future suspends {n} times");
            drive::reset();
            drive::force_suspensions(n);
            if flag() {
                text_job(choose(4), 2, 2, 2, 1)
            } else {
                items_job(|i| i as u8, 2, 2, 2, 1)
            }
        }));
        let many = sizes(t.pick(2, 12, 40), t.pick(3, 257, 1025));
        let inputs = words(&['a', 'b'], 2);
        let al = Alphabet { leaves: vec![Leaf::A, Leaf::Any, Leaf::AB, Leaf::MissAfter, Leaf::FatalAfter], un: ALL_UN.to_vec(), bin: ALL_BIN.to_vec() };
        v.push(job("long suspensions, all operators", 0, move || {
            let n = pick(&many);
            let ast = Ast::gen(&al, 3);
            let text = pick(&inputs);
            logln!("{ast:?} on {text:?}: every input future suspends {n} times");
            let mut spec = Spec { text, metric: &|_| (0, 0, 0), log: vec![] };
            let want = spec.run(&ast, 0);
            if let Out::Loop = want {
                return Ok(());
            }
            let log: Log = Default::default();
            let p = build::<TestSeq<str>>(&ast, &log);
            drive::reset();
            drive::force_suspensions(n);
            let once = flag();
            let s = TestSeq::new(pieces(text, 1), false);
            let g = if once { got(run(p.parse_once(s))) } else { got(run(p.parse(s))) };
            judge(&want, &g, text)?;
            check_eq!(*log.borrow(), spec.log, "calls", "component runs");
            Ok(())
        }));
        let big = sizes_u16(t.pick(3, 40, 200), t.pick(5, 1025, 16385));
        v.push(job("long literals, many empty pieces", 0, move || {
            let (n, often) = (pick(&big), choose(3));
            logln!("every input future suspends {often} times");
            drive::reset();
            drive::force_suspensions(often);
            if flag() {
                long_literal(n)
            } else {
                long_empties(n)
            }
        }));
        // long chains: nobody may go to sleep in the middle of one, whether its input suspends or not
        let lad = Ladder::up_to(t, t.pick(9, 4097, 65537));
        v.push(job("long repetitions, deep nesting", 0, move || {
            let (ast, text) = lad.case();
            let (n, how) = (choose(3), choose(2));
            logln!("{:.200}... on {} bytes, pieces {how}: every input future suspends {n} times", format!("{ast:?}"), text.len());
            let mut spec = Spec { text, metric: &|_| (0, 0, 0), log: vec![] };
            let want = spec.run(&ast, 0);
            if let Out::Loop = want {
                return Ok(());
            }
            let log: Log = Default::default();
            let p = build::<TestSeq<str>>(&ast, &log);
            drive::reset();
            drive::force_suspensions(n);
            let s = TestSeq::new(pieces(text, how), false);
            let g = if flag() { got(run(p.parse_once(s))) } else { got(run(p.parse(s))) };
            judge(&want, &g, text)?;
            check_eq!(*log.borrow(), spec.log, "calls", "component runs");
            check_eq!(drive::outstanding(), 0, "leftover", "input events still awaited after completion");
            state(&(&ast, text, n, how));
            Ok(())
        }));
        let sets = [
            // (name, leaves, unary, binary, nodes, input length, suspensions)
            ("all operators, one suspension", vec![Leaf::A, Leaf::Any, Leaf::AB, Leaf::Eps, Leaf::MissAfter, Leaf::FatalAfter], ALL_UN.to_vec(), ALL_BIN.to_vec(), t.pick(2, 4, 4), t.pick(2, 2, 3), 1),
            ("all operators, more suspensions", vec![Leaf::A, Leaf::Any, Leaf::AB, Leaf::MissAfter, Leaf::FatalAfter], ALL_UN.to_vec(), ALL_BIN.to_vec(), t.pick(1, 3, 4), t.pick(1, 2, 2), t.pick(2, 3, 3)),
            ("backtracking, many suspensions", vec![Leaf::A, Leaf::AB, Leaf::MissAfter], vec![Un::Opt, Un::Rep, Un::Coll], vec![Bin::Or, Bin::Join, Bin::Expr], t.pick(1, 3, 4), t.pick(1, 3, 3), t.pick(2, 4, 5)),
        ];
        for (name, leaves, un, bin, size, len, devs) in sets {
            let al = Alphabet { leaves, un, bin };
            let inputs = words(&['a', 'b'], len);
            v.push(job(name, devs, move || {
                let ast = Ast::gen(&al, size);
                let text = pick(&inputs);
                let how = choose(if size > 3 { 2 } else { 3 });
                let once = size <= 3 && flag();
                let lazy = size <= 3 && flag();
                logln!("{ast:?} on {text:?}, pieces {how}, lazy {lazy} by value {once}");
                let mut spec = Spec { text, metric: &|_| (0, 0, 0), log: vec![] };
                let want = spec.run(&ast, 0);
                if let Out::Loop = want {
                    count("skipped: repetition of an empty match");
                    return Ok(());
                }
                let log: Log = Default::default();
                let p = build::<TestSeq<str>>(&ast, &log);
                let s = TestSeq::new(pieces(text, how), lazy);
                drive::reset();
                let g = if once { got(run(p.parse_once(s))) } else { got(run(p.parse(s))) };
                judge(&want, &g, text)?;
                check_eq!(*log.borrow(), spec.log, "calls", "component runs");
                check_eq!(drive::outstanding(), 0, "leftover", "input events still awaited after completion");
                state(&(&ast, text, how));
                Ok(())
            }));
        }
        v
    })
}
