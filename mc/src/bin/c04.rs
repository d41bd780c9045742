//! C04: after every recovery, components run at the position and metrics of the anchor.
use mc::ast::*;
use mc::drive::run;
use mc::*;
use parcom_core::measured::IntoMeasured;
use parcom_core::*;
use parcom_metrics::{end_of_line as eol, EndOfLine, LineColumn};

fn metric<E: EndOfLine + 'static>(text: &str) -> (usize, usize, usize) {
    let s = text.into_measured::<LineColumn<E>>();
    let m = mc::seq::now(std::future::IntoFuture::into_future(s.advance(primitive::BytesDelta::from_str(text)))).metrics();
    (m.total_count, m.line, m.column)
}
fn one<E: EndOfLine + Clone + 'static>(ast: &Ast, text: &'static str) -> R {
    let once = flag();
    logln!("{:.300} on {text:.30?} by value {once}", format!("{ast:?}"));
    let mut spec = Spec { text, metric: &metric::<E>, log: vec![] };
    let want = spec.run(ast, 0);
    if let Out::Loop = want {
        count("skipped: repetition of an empty match");
        return Ok(());
    }
    let log: Log = Default::default();
    type M<E> = primitive::str::Measured<'static, LineColumn<E>>;
    let p = build::<M<E>>(ast, &log);
    let s = text.into_measured::<LineColumn<E>>();
    let r = if once { run(p.parse_once(s)) } else { run(p.parse(s)) };
    if let (Ok((_, s)), Out::Ok(_, n)) = (&r, &want) {
        let m = s.metrics();
        check_eq!((m.total_count, m.line, m.column), metric::<E>(&text[..*n]), "metrics", "metrics after the parse");
    }
    judge(&want, &got(r), text)?;
    check_eq!(*log.borrow(), spec.log, "calls", "positions and metrics at which components ran");
    state(&(ast, text));
    Ok(())
}

fn main() {
    mc::main(|t| {
        let un = vec![Un::Opt, Un::Rep, Un::AndThen, Un::Coll, Un::Fold, Un::CollTake, Un::CollOpt, Un::FoldTake, Un::FoldOpt];
        let bin = vec![Bin::Join, Bin::Or, Bin::Expr];
        let al = || Alphabet { leaves: vec![Leaf::A, Leaf::Any, Leaf::Nl, Leaf::AB, Leaf::MissAfter], un: un.clone(), bin: bin.clone() };
        let (a1, a2) = (al(), al());
        let (n1, n2) = (t.pick(2, 4, 5), t.pick(3, 4, 5));
        let small = Alphabet { leaves: vec![Leaf::A, Leaf::Nl, Leaf::MissAfter], un: vec![Un::Opt, Un::Rep, Un::Coll], bin };
        let n3 = t.pick(3, 7, 8);
        let (i1, i2, i3) = (words(&['a', 'b', '\n'], t.pick(2, 4, 4)), words(&['a', '\r', '\n'], t.pick(2, 4, 4)), words(&['a', '\n'], t.pick(2, 3, 3)));
        let lad = Ladder::up_to(t, t.pick(9, 1025, 4097));
        vec![
            job("long repetitions, deep nesting", 0, move || {
                let (ast, text) = lad.case();
                one::<eol::LF>(&ast, text)
            }),
            job("lines ended by LF", 0, move || {
                let (a, t) = (Ast::gen(&a1, n1), pick(&i1));
                one::<eol::LF>(&a, t)
            }),
            job("lines ended by CRLF", 0, move || {
                let (a, t) = (Ast::gen(&a2, n2), pick(&i2));
                one::<eol::CRLF>(&a, t)
            }),
            job("deeper backtracking", 0, move || {
                let (a, t) = (Ast::gen(&small, n3), pick(&i3));
                one::<eol::LF>(&a, t)
            }),
        ]
    })
}
