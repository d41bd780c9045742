//! C08: the binary expression parser against precedence climbing, over every token string and every operator table.
use mc::drive::{self, run};
use mc::seq::*;
use mc::*;
use parcom_core::*;
use parcom_parsers::bin_expr::{Associativity, BinExprParser, Operator};
use parcom_util::Either;

/// What a token means. Failing tokens are consumed before the failure.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Tok {
    Term,
    Op(usize, bool),
    Garbage,
    FatalTerm,
    FatalOp,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Er(&'static str, bool);
impl ParseError for Er {
    fn should_terminate(&self) -> bool {
        self.1
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Op(usize, usize, bool);
impl Operator for Op {
    fn precedence(&self) -> usize {
        self.1
    }
    fn associativity(&self) -> Associativity {
        if self.2 {
            Associativity::Left
        } else {
            Associativity::Right
        }
    }
}
/// Expressions in reverse polish notation: no deep recursion, and one string per tree.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Ex(Vec<u32>);
struct Tm(u32);
impl From<Tm> for Ex {
    fn from(t: Tm) -> Ex {
        Ex(vec![t.0])
    }
}
impl From<(Ex, Op, Ex)> for Ex {
    fn from((mut l, o, mut r): (Ex, Op, Ex)) -> Ex {
        l.0.append(&mut r.0);
        l.0.push(1_000_000 + o.0 as u32);
        l
    }
}
type S = TestSeq<[(u32, Tok)]>;
async fn next(s: S) -> (Option<(u32, Tok)>, S) {
    match parcom_parsers::primitive::any_item().parse(s).await {
        Ok((t, s)) => (Some(t), s),
        // the built-in item parser consumes nothing on failure
        Err((_, s)) => (None, unsafe { s.unwrap() }),
    }
}
async fn term(s: S) -> ParseResult<S, Tm, Er> {
    match next(s).await {
        (Some((i, Tok::Term)), s) => Ok((Tm(i), s)),
        (Some((_, Tok::FatalTerm)), s) => Err((Er("term", true), s.into())),
        (_, s) => Err((Er("term", false), s.into())),
    }
}
async fn op(s: S) -> ParseResult<S, Op, Er> {
    match next(s).await {
        (Some((i, Tok::Op(p, l))), s) => Ok((Op(i as usize, p, l), s)),
        (Some((_, Tok::FatalOp)), s) => Err((Er("op", true), s.into())),
        (_, s) => Err((Er("op", false), s.into())),
    }
}

type Want = Result<(Vec<u32>, Er, usize), Er>;
fn spec(toks: &[Tok]) -> Want {
    let term = |i: usize| match toks.get(i) {
        Some(Tok::Term) => Ok(()),
        Some(Tok::FatalTerm) => Err(Er("term", true)),
        _ => Err(Er("term", false)),
    };
    let op = |i: usize| match toks.get(i) {
        Some(Tok::Op(p, l)) => Ok((i, *p, *l)),
        Some(Tok::FatalOp) => Err(Er("op", true)),
        _ => Err(Er("op", false)),
    };
    term(0)?;
    let mut ops = vec![];
    let why = loop {
        let at = 1 + 2 * ops.len();
        match op(at) {
            Err(e) if e.1 => return Err(e),
            Err(e) => break e,
            Ok(o) => match term(at + 1) {
                Err(e) if e.1 => return Err(e),
                Err(e) => break e,
                Ok(()) => ops.push(o),
            },
        }
    };
    fn climb(ops: &[(usize, usize, bool)], k: &mut usize, min: u128, out: &mut Vec<u32>) {
        out.push(2 * *k as u32);
        while *k < ops.len() {
            let (i, p, l) = ops[*k];
            if (p as u128) < min {
                break;
            }
            *k += 1;
            climb(ops, k, p as u128 + l as u128, out);
            out.push(1_000_000 + i as u32);
        }
    }
    let mut out = vec![];
    climb(&ops, &mut 0, 0, &mut out);
    Ok((out, why, 1 + 2 * ops.len()))
}
fn check_one(toks: &[Tok], one_piece: bool, once: bool) -> R {
    let items: Vec<(u32, Tok)> = toks.iter().enumerate().map(|(i, t)| (i as u32, *t)).collect();
    let cuts: Vec<usize> = if one_piece { vec![] } else { (1..items.len()).collect() };
    let s = S::new(std::rc::Rc::new(cut_items(&items, &cuts, &[])), false);
    drive::reset();
    let p = BinExprParser::<S, _, _, Ex>::new(term, op);
    let want = spec(toks);
    outcome(&want);
    let g = if once { run(p.parse_once(s)) } else { run(p.parse(s)) };
    match (g, want) {
        (Ok(((e, why), s)), Ok((w, ww, n))) => {
            check_eq!(e.0, w, "tree", "tree (postfix; operators are 1000000 + their position)");
            let why = match why {
                Either::First(e) => ("op", e),
                Either::Last(e) => ("term", e),
            };
            check_eq!(why, (ww.0, ww), "reason", "reason for stopping");
            check_eq!(s.pos(), n, "rest", "tokens consumed");
        }
        (Err((e, _)), Err(w)) => {
            let e = match e {
                Either::First(e) => ("op", e),
                Either::Last(e) => ("term", e),
            };
            check_eq!(e, (w.0, w), "error", "error");
        }
        (Ok(_), Err(w)) => fail!("succeeds", "succeeded, expected {w:?}"),
        (Err((e, _)), Ok(w)) => fail!("fails", "failed with {e:?}, expected {w:?}"),
    }
    Ok(())
}

fn main() {
    mc::main(|t| {
        const M: usize = usize::MAX;
        let mut v = vec![];
        let n = t.pick(4, 8, 9);
        v.push(job("every token string", 0, move || {
            let al = [Tok::Term, Tok::Op(0, true), Tok::Op(0, false), Tok::Op(1, true), Tok::Op(M, false), Tok::Garbage, Tok::FatalTerm, Tok::FatalOp];
            let toks: Vec<Tok> = pick_word(al.len(), n).into_iter().map(|i| al[i]).collect();
            logln!("{toks:?}");
            state(&toks);
            check_one(&toks, false, false)
        }));
        let n = t.pick(3, 7, 8);
        v.push(job("every operator sequence", 0, move || {
            let al: Vec<(usize, bool)> = [0, 1, 2, M - 1, M].iter().flat_map(|&p| [(p, true), (p, false)]).collect();
            let ops = pick_word(al.len(), n);
            let mut toks = vec![Tok::Term];
            for i in ops {
                toks.push(Tok::Op(al[i].0, al[i].1));
                toks.push(Tok::Term);
            }
            logln!("{toks:?}");
            state(&toks);
            check_one(&toks, true, false)
        }));
        // precedences around every power of two, where a narrowed or signed comparison would go wrong
        let vals: Vec<usize> = {
            let mut v: Vec<usize> = (0..usize::BITS).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).chain([M - 2, M - 1, M, M / 2, M / 2 + 1, M / 3]).collect();
            v.sort();
            v.dedup();
            v
        };
        let few: Vec<usize> = vals.iter().copied().filter(|p| [0, 8, 16, 31, 32, 63].iter().any(|k| p.abs_diff(1 << k) <= 1) || *p >= M - 1).collect();
        for (n, vals) in [(2, t.pick(few[..3].to_vec(), vals.clone(), vals)), (3, t.pick(few[..2].to_vec(), few.clone(), few))] {
            v.push(job(format!("every {n} precedences of any size"), 0, move || {
                let mut toks = vec![Tok::Term];
                for _ in 0..n {
                    toks.push(Tok::Op(pick(&vals), flag()));
                    toks.push(Tok::Term);
                }
                logln!("{toks:?}");
                state(&toks);
                check_one(&toks, true, false)
            }));
        }
        let n = t.pick(1, 10, 11);
        v.push(job("deep operator stacks", 0, move || {
            // a rising staircase of precedences, then every sequence of operators falling back into it
            let up = choose(n);
            let assoc = flag();
            let tail = pick_word(4, t.pick(1, 5, 6));
            let mut toks = vec![Tok::Term];
            for i in 0..up {
                toks.push(Tok::Op(i + 1, assoc));
                toks.push(Tok::Term);
            }
            for i in tail {
                let (p, l) = [(0, true), (up / 2, true), (up / 2, false), (up, false)][i];
                toks.push(Tok::Op(p, l));
                toks.push(Tok::Term);
            }
            match choose(4) {
                0 => {}
                1 => toks.push(Tok::Op(0, true)),
                2 => toks.extend([Tok::Op(0, true), Tok::FatalTerm]),
                _ => toks.push(Tok::FatalOp),
            }
            let once = flag();
            logln!("{toks:?}");
            state(&toks);
            check_one(&toks, true, once)
        }));
        let n = sizes(t.pick(4, 800, 2000), t.pick(5, 16385, 65537));
        v.push(job("long chains", 0, move || {
            let len = pick(&n);
            let kind = choose(6);
            let mut toks = vec![Tok::Term];
            for i in 0..len {
                toks.push(match kind {
                    0 => Tok::Op(3, true),
                    1 => Tok::Op(3, false),
                    2 => Tok::Op(i, true),
                    3 => Tok::Op(len - i, false),
                    4 => Tok::Op(i % 3, i % 2 == 0),
                    _ => Tok::Op(i % 7, true),
                });
                toks.push(Tok::Term);
            }
            logln!("{len} operators, kind {kind}");
            state(&toks);
            // ended by the end of input, a dangling operator, or a terminating error
            match choose(3) {
                0 => {}
                1 => toks.push(Tok::Op(0, true)),
                _ => toks.extend([Tok::Op(0, true), Tok::FatalTerm]),
            }
            check_one(&toks, true, flag())
        }));
        let n = t.pick(2, 6, 7);
        v.push(job("suspended inputs", t.pick(1, 3, 3), move || {
            let al = [Tok::Term, Tok::Op(0, true), Tok::Op(1, false), Tok::Garbage, Tok::FatalTerm];
            let toks: Vec<Tok> = pick_word(al.len(), n).into_iter().map(|i| al[i]).collect();
            logln!("{toks:?}");
            check_one(&toks, false, false)
        }));
        v
    })
}
