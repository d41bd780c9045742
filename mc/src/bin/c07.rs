//! C07: stacks of iterative adapters over a scripted iterative parser, against list operations.
use mc::drive::{self, run};
use mc::seq::*;
use mc::*;
use parcom_core::*;
use parcom_parsers::iterative::*;
use parcom_parsers::{IterativeParserExtension, ParserExtension};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;

type S = TestSeq<[u8]>;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Er {
    what: Vec<&'static str>,
    term: bool,
}
impl ParseError for Er {
    fn should_terminate(&self) -> bool {
        self.term
    }
}
struct Er2(Er);
impl ParseError for Er2 {
    fn should_terminate(&self) -> bool {
        self.0.term
    }
}
impl From<Er> for Er2 {
    fn from(mut e: Er) -> Er2 {
        e.what.push("via try_map_each");
        Er2(e)
    }
}
type Nx<'a> = Pin<Box<dyn Future<Output = ParseResult<S, Option<i64>, Er>> + 'a>>;
trait DynState {
    fn next<'a>(&'a mut self, s: S) -> Nx<'a>;
}
trait DynIter {
    fn state<'a>(&'a self) -> St<'a>;
    fn once(self: Box<Self>) -> St<'static>;
}
struct St<'a>(Box<dyn DynState + 'a>);
struct It(Box<dyn DynIter>);
impl<'x> IterativeParserState<S> for St<'x> {
    type Output = i64;
    type Error = Er;
    fn parse_next(&mut self, s: S) -> impl Future<Output = ParseResult<S, Option<i64>, Er>> {
        self.0.next(s)
    }
}
impl IterativeParserOnce<S> for It {
    type Output = i64;
    type Error = Er;
    type StateOnce = St<'static>;
    fn parse_iterative_once(self) -> St<'static> {
        self.0.once()
    }
}
impl IterativeParser<S> for It {
    type State<'a> = St<'a>;
    fn parse_iterative(&self) -> St<'_> {
        self.0.state()
    }
}
struct Conv<P, F>(P, F);
struct ConvSt<P, F>(P, F);
impl<P: IterativeParser<S, Output = i64> + 'static, F: Fn(P::Error) -> Er + Clone + 'static> DynIter for Conv<P, F> {
    fn state<'a>(&'a self) -> St<'a> {
        St(Box::new(ConvSt(self.0.parse_iterative(), self.1.clone())))
    }
    fn once(self: Box<Self>) -> St<'static> {
        St(Box::new(ConvSt(self.0.parse_iterative_once(), self.1)))
    }
}
impl<P: IterativeParserState<S, Output = i64>, F: Fn(P::Error) -> Er> DynState for ConvSt<P, F> {
    fn next<'a>(&'a mut self, s: S) -> Nx<'a> {
        Box::pin(async move { self.0.parse_next(s).await.map_err(|(e, s)| ((self.1)(e), s)) })
    }
}
fn it<P: IterativeParser<S, Output = i64> + 'static>(p: P, f: impl Fn(P::Error) -> Er + Clone + 'static) -> It {
    It(Box::new(Conv(p, f)))
}

// ------------------------------------------------------------------ the scripted parser at the bottom
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum End {
    End(usize),
    Fail(bool, usize),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Script {
    by: By,
    items: Vec<i64>,
    end: End,
}
/// what produces the items of a script
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum By {
    Itself,
    /// the repetition of a component that plays the script by its position
    Repeat,
    /// the option of such a component
    Optional,
}
struct Comp {
    sc: Script,
    log: Log,
}
impl Comp {
    async fn go(&self, s: S) -> ParseResult<S, i64, Er> {
        let pos = s.pos();
        self.log.borrow_mut().push(Ev::Ask(pos));
        // items take up one and two in turn
        let i = pos / 3 * 2 + pos % 3;
        if let Some(&v) = self.sc.items.get(i) {
            return Ok((v, s.advance(cost(i)).await));
        }
        let (term, c) = match self.sc.end {
            End::End(c) => (false, c),
            End::Fail(term, c) => (term, c),
        };
        Err((Er { what: vec!["bottom"], term }, s.advance(c).await.into()))
    }
}
impl ParserOnce<S> for Comp {
    type Output = i64;
    type Error = Er;
    async fn parse_once(self, s: S) -> ParserResult<S, Self> {
        self.go(s).await
    }
}
impl Parser<S> for Comp {
    async fn parse(&self, s: S) -> ParserResult<S, Self> {
        self.go(s).await
    }
}
fn cost(i: usize) -> usize {
    1 + i % 2
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Ev {
    /// the bottom parser was asked for an item, at this position
    Ask(usize),
    /// the mapping of the adapter at this level saw this item
    See(usize, i64),
    FoldSee(i64),
}
type Log = Rc<RefCell<Vec<Ev>>>;
struct Bottom {
    sc: Script,
    log: Log,
}
struct BottomSt {
    sc: Script,
    log: Log,
    at: usize,
}
impl IterativeParserState<S> for BottomSt {
    type Output = i64;
    type Error = Er;
    async fn parse_next(&mut self, s: S) -> ParseResult<S, Option<i64>, Er> {
        self.log.borrow_mut().push(Ev::Ask(s.pos()));
        if let Some(&v) = self.sc.items.get(self.at) {
            let c = cost(self.at);
            self.at += 1;
            return Ok((Some(v), s.advance(c).await));
        }
        match self.sc.end {
            End::End(c) => Ok((None, s.advance(c).await)),
            End::Fail(term, c) => Err((Er { what: vec!["bottom"], term }, s.advance(c).await.into())),
        }
    }
}
impl IterativeParserOnce<S> for Bottom {
    type Output = i64;
    type Error = Er;
    type StateOnce = BottomSt;
    fn parse_iterative_once(self) -> BottomSt {
        BottomSt { sc: self.sc, log: self.log, at: 0 }
    }
}
impl IterativeParser<S> for Bottom {
    type State<'a> = BottomSt;
    fn parse_iterative(&self) -> BottomSt {
        BottomSt { sc: self.sc.clone(), log: self.log.clone(), at: 0 }
    }
}

// ------------------------------------------------------------------ adapters
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Ad {
    MapEach,
    TryMapEach,
    MapWhile,
    Scan,
    Take(usize),
}
const ADS: [Ad; 8] = [Ad::MapEach, Ad::TryMapEach, Ad::MapWhile, Ad::Scan, Ad::Take(0), Ad::Take(1), Ad::Take(2), Ad::Take(3)];
fn m(x: i64) -> i64 {
    x * 7 + 1
}
fn tm(x: i64) -> Result<i64, bool> {
    match x.rem_euclid(5) {
        1 => Err(false),
        2 => Err(true),
        _ => Ok(x + 3),
    }
}
fn mw(x: i64) -> Option<i64> {
    (x.rem_euclid(3) != 0).then_some(x + 2)
}
fn sc(st: &mut i64, x: i64) -> i64 {
    *st = *st * 2 + x;
    *st
}
fn build(sct: &Script, ads: &[Ad], log: &Log) -> It {
    let mut p = match sct.by {
        By::Itself => it(Bottom { sc: sct.clone(), log: log.clone() }, |e| e),
        By::Repeat => it(Comp { sc: sct.clone(), log: log.clone() }.repeat(), |e| e),
        By::Optional => it(Comp { sc: sct.clone(), log: log.clone() }.optional(), |e| e),
    };
    for (lv, a) in ads.iter().enumerate() {
        let l = log.clone();
        let see = move |x| l.borrow_mut().push(Ev::See(lv, x));
        p = match a {
            Ad::MapEach => it(
                p.map_each(move |x| {
                    see(x);
                    m(x)
                }),
                |e| e,
            ),
            Ad::TryMapEach => it(
                p.try_map_each(move |x| {
                    see(x);
                    tm(x).map_err(|term| Er2(Er { what: vec!["mapping"], term }))
                }),
                |e: Er2| e.0,
            ),
            Ad::MapWhile => it(
                p.map_while(move |x| {
                    see(x);
                    mw(x)
                }),
                |e| e,
            ),
            Ad::Scan => it(
                p.scan(1, move |st: &mut i64, x| {
                    see(x);
                    sc(st, x)
                }),
                |e| e,
            ),
            Ad::Take(n) => it(p.take(*n), |e| e),
        };
    }
    p
}
// ------------------------------------------------------------------ the list semantics
struct Ref<'a> {
    sc: &'a Script,
    ads: &'a [Ad],
    at: usize,
    pos: usize,
    scan: Vec<i64>,
    left: Vec<usize>,
    log: Vec<Ev>,
}
impl<'a> Ref<'a> {
    fn new(sc: &'a Script, ads: &'a [Ad]) -> Self {
        let left = ads.iter().map(|a| if let Ad::Take(n) = a { *n } else { 0 }).collect();
        Ref { sc, ads, at: 0, pos: 0, scan: vec![1; ads.len()], left, log: vec![] }
    }
    fn next(&mut self, lv: usize) -> Result<Option<i64>, Er> {
        if lv == 0 {
            if self.sc.by == By::Optional && self.at == 1 {
                return Ok(None);
            }
            self.log.push(Ev::Ask(self.pos));
            if let Some(&v) = self.sc.items.get(self.at) {
                self.pos += cost(self.at);
                self.at += 1;
                return Ok(Some(v));
            }
            return match self.sc.end {
                // a component that misses has consumed nothing
                End::End(_) | End::Fail(false, _) if self.sc.by != By::Itself => Ok(None),
                End::End(c) => {
                    self.pos += c;
                    Ok(None)
                }
                End::Fail(term, c) => {
                    self.pos += c;
                    Err(Er { what: vec!["bottom"], term })
                }
            };
        }
        let i = lv - 1;
        let ad = self.ads[i];
        if let Ad::Take(_) = ad {
            if self.left[i] == 0 {
                return Ok(None);
            }
        }
        let r = self.next(lv - 1);
        let v = match (r, ad) {
            (Err(mut e), Ad::TryMapEach) => {
                e.what.push("via try_map_each");
                return Err(e);
            }
            (Ok(Some(v)), _) => v,
            (o, _) => return o,
        };
        if !matches!(ad, Ad::Take(_)) {
            self.log.push(Ev::See(i, v));
        }
        match ad {
            Ad::MapEach => Ok(Some(m(v))),
            Ad::TryMapEach => match tm(v) {
                Ok(v) => Ok(Some(v)),
                Err(false) => Ok(None),
                Err(true) => Err(Er { what: vec!["mapping"], term: true }),
            },
            Ad::MapWhile => Ok(mw(v)),
            Ad::Scan => Ok(Some(sc(&mut self.scan[i], v))),
            Ad::Take(_) => {
                self.left[i] -= 1;
                Ok(Some(v))
            }
        }
    }
}

fn input() -> S {
    S::items(&[&[1, 2, 3, 4, 5], &[6, 7], &[8, 9, 10, 11, 12, 13, 14, 15, 16]])
}
fn one(script: &Script, ads: &[Ad], terminal: usize, how: usize) -> R {
    let log: Log = Default::default();
    drive::reset();
    let p = build(script, ads, &log);
    match how {
        0 => with(p, &log, script, ads, terminal, false),
        1 => with(p, &log, script, ads, terminal, true),
        // a reference to an iterative parser is one
        2 => with(&p, &log, script, ads, terminal, false),
        _ => with(&p, &log, script, ads, terminal, true),
    }
}
fn with<P: IterativeParser<S, Output = i64, Error = Er>>(p: P, log: &Log, script: &Script, ads: &[Ad], terminal: usize, once: bool) -> R {
    let top = ads.len();
    let rounds = if once { 1 } else { 2 };
    let top_take = matches!(ads.last(), Some(Ad::Take(_)));
    match terminal {
        0 => {
            // collect
            let mut r = Ref::new(script, ads);
            let mut want = (vec![], None);
            let mut at;
            loop {
                at = r.pos;
                match r.next(top) {
                    Ok(Some(v)) => want.0.push(v),
                    Ok(None) => break,
                    Err(e) => {
                        want.1 = Some(e);
                        break;
                    }
                }
            }
            outcome(&want);
            let p = p.collect::<Vec<i64>>();
            let mut p = Some(p);
            for _ in 0..rounds {
                log.borrow_mut().clear();
                let g = if once { run(p.take().unwrap().parse_once(input())) } else { run(p.as_ref().unwrap().parse(input())) };
                match g {
                    Ok((v, s)) => {
                        check_eq!(v, want, "collect", "collected");
                        check_eq!(s.pos(), at, "rest", "position after the last collected item");
                    }
                    Err((e, _)) => fail!("collect", "collect failed with {e:?}"),
                }
                check_eq!(*log.borrow(), r.log, "calls", "items asked for and mapped");
            }
        }
        1 => {
            // fold
            let mut r = Ref::new(script, ads);
            let mut acc = vec![-1];
            let want = loop {
                match r.next(top) {
                    Ok(Some(v)) => {
                        r.log.push(Ev::FoldSee(v));
                        acc.push(v)
                    }
                    Ok(None) => break Ok(acc),
                    Err(e) => break Err(e),
                }
            };
            outcome(&want);
            let l = log.clone();
            let p = p.fold(vec![-1], move |mut a: Vec<i64>, v| {
                l.borrow_mut().push(Ev::FoldSee(v));
                a.push(v);
                a
            });
            let mut p = Some(p);
            for _ in 0..rounds {
                log.borrow_mut().clear();
                let g = if once { run(p.take().unwrap().parse_once(input())) } else { run(p.as_ref().unwrap().parse(input())) };
                match (g, &want) {
                    (Ok((v, s)), Ok(w)) => {
                        check_eq!(v, *w, "fold", "folded");
                        check_eq!(s.pos(), r.pos, "rest", "position after the items asked for");
                    }
                    (Err((e, _)), Err(w)) => check_eq!(e, *w, "fold", "error"),
                    (g, w) => fail!("fold", "fold gave {:?}, expected {w:?}", g.map(|x| x.0).map_err(|x| x.0)),
                }
                check_eq!(*log.borrow(), r.log, "calls", "items asked for and mapped");
            }
        }
        _ => {
            // step by step, some steps past the end of an exhausted take
            let mut p = Some(p);
            for _ in 0..rounds {
                log.borrow_mut().clear();
                let mut r = Ref::new(script, ads);
                if once {
                    steps(&mut p.take().unwrap().parse_iterative_once(), &mut r, top, top_take, input(), log)?;
                } else {
                    steps(&mut p.as_ref().unwrap().parse_iterative(), &mut r, top, top_take, input(), log)?;
                }
            }
        }
    }
    Ok(())
}
fn steps(st: &mut impl IterativeParserState<S, Output = i64, Error = Er>, r: &mut Ref, top: usize, top_take: bool, mut s: S, log: &Log) -> R {
    let mut extra = 2;
    loop {
        let w = r.next(top);
        let g = run(st.parse_next(s));
        match (g, w) {
            (Ok((v, rest)), Ok(w)) => {
                check_eq!(v, w, "step", "item");
                check_eq!(rest.pos(), r.pos, "rest", "position after the step");
                s = rest;
                if w.is_none() {
                    extra -= 1;
                    let exhausted = top_take && r.left[top - 1] == 0;
                    if !exhausted || extra == 0 {
                        break;
                    }
                }
            }
            (Err((e, _)), Err(w)) => {
                check_eq!(e, w, "step", "error");
                break;
            }
            (g, w) => fail!("step", "step gave {:?}, expected {w:?}", g.map(|x| x.0).map_err(|x| x.0)),
        }
    }
    check_eq!(*log.borrow(), r.log, "calls", "items asked for and mapped");
    Ok(())
}

/// Two iterations of one parser at once: after `at` steps of the first the second runs to its end (or is given up
/// after `upto` steps), then the first goes on.
fn two(script: &Script, ads: &[Ad], at: usize, upto: usize) -> R {
    let log: Log = Default::default();
    drive::reset();
    let p = build(script, ads, &log);
    let (mut r1, mut r2) = (Ref::new(script, ads), Ref::new(script, ads));
    let (mut i1, mut i2) = (p.parse_iterative(), p.parse_iterative());
    let mut a = Walk { s: Some(input()), log: log.clone() };
    a.steps(&mut i1, &mut r1, ads.len(), at)?;
    Walk { s: Some(input()), log: log.clone() }.steps(&mut i2, &mut r2, ads.len(), upto)?;
    a.steps(&mut i1, &mut r1, ads.len(), usize::MAX)?;
    // and, once both are over, a third
    let mut r3 = Ref::new(script, ads);
    let mut i3 = p.parse_iterative();
    Walk { s: Some(input()), log }.steps(&mut i3, &mut r3, ads.len(), usize::MAX)
}
struct Walk {
    /// where it is, until its iteration ends
    s: Option<S>,
    log: Log,
}
impl Walk {
    fn steps(&mut self, st: &mut impl IterativeParserState<S, Output = i64, Error = Er>, r: &mut Ref, top: usize, n: usize) -> R {
        for _ in 0..n {
            let Some(s) = self.s.take() else { break };
            self.log.borrow_mut().clear();
            r.log.clear();
            let w = r.next(top);
            match (run(st.parse_next(s)), w) {
                (Ok((v, rest)), Ok(w)) => {
                    check_eq!(v, w, "step", "item");
                    check_eq!(rest.pos(), r.pos, "rest", "position after the step");
                    if w.is_some() {
                        self.s = Some(rest);
                    }
                }
                (Err((e, _)), Err(w)) => check_eq!(e, w, "step", "error"),
                (g, w) => fail!("step", "step gave {:?}, expected {w:?}", g.map(|x| x.0).map_err(|x| x.0)),
            }
            check_eq!(*self.log.borrow(), r.log, "calls", "items asked for and mapped");
        }
        Ok(())
    }
}

fn gen(items: usize, depth: usize, ads: &[Ad]) -> (Script, Vec<Ad>) {
    let stack: Vec<Ad> = pick_word(ads.len(), depth).into_iter().map(|i| ads[i]).collect();
    let its: Vec<i64> = pick_word(5, items).into_iter().map(|i| i as i64).collect();
    let end = pick(&[End::End(0), End::End(1), End::Fail(false, 1), End::Fail(true, 1)]);
    (Script { by: pick(&[By::Itself, By::Repeat, By::Optional]), items: its, end }, stack)
}

fn main() {
    mc::main(|t| {
        let mut v = vec![];
        for (name, items, depth, devs) in [
            ("stacks of adapters", t.pick(1, 3, 4), t.pick(1, 3, 3), 0),
            ("deep stacks of adapters", t.pick(1, 2, 3), t.pick(1, 4, 4), 0),
            ("suspended inputs", t.pick(1, 2, 3), t.pick(1, 2, 2), t.pick(1, 2, 3)),
        ] {
            v.push(job(name, devs, move || {
                let (script, ads) = gen(items, depth, &ADS);
                let terminal = choose(3);
                let how = choose(if ads.len() < 2 { 4 } else { 2 });
                logln!("{script:?} under {ads:?}, terminal {terminal}, {}", ["by reference", "by value", "a reference by reference", "a reference by value"][how]);
                state(&(&script, &ads));
                one(&script, &ads, terminal, how)
            }));
        }
        v.push(job("two iterations of one parser", 0, move || {
            let (script, ads) = gen(t.pick(1, 2, 3), t.pick(1, 2, 3), &ADS);
            let (at, upto) = (choose(t.pick(2, 4, 5)), pick(&[usize::MAX, 1, 2]));
            logln!("{script:?} under {ads:?}, a second iteration of {upto} steps after {at} steps of the first");
            state(&(&script, &ads, at, upto));
            two(&script, &ads, at, upto)
        }));
        let n = sizes_u16(t.pick(3, 70, 300), t.pick(3, 1025, 4097));
        v.push(job("long iterations", 0, move || {
            // lengths: every script of n equal items for every single adapter and every count of take
            let len = pick(&n);
            let some = |n: &Vec<usize>| {
                let i = choose(n.len() + 1);
                n.get(i).copied().unwrap_or(usize::MAX)
            };
            let ad = choose(6);
            let ads = match ad {
                0 => vec![],
                1 => vec![Ad::MapEach],
                2 => vec![Ad::MapWhile],
                3 => vec![Ad::TryMapEach],
                4 => vec![Ad::Take(some(&n))],
                _ => vec![Ad::Take(some(&n)), Ad::MapEach],
            };
            let terminal = choose(3);
            logln!("{len} items under {ads:?}, terminal {terminal}");
            state(&(len, &ads));
            let script = Script { by: pick(&[By::Itself, By::Repeat]), items: vec![4; len], end: End::End(0) };
            long(&script, &ads, terminal)
        }));
        v
    })
}
fn long(script: &Script, ads: &[Ad], terminal: usize) -> R {
    let mut r = Ref::new(script, ads);
    let mut want = vec![];
    let mut at = 0;
    while let Ok(Some(v)) = r.next(ads.len()) {
        want.push(v);
        at = r.pos;
    }
    let log: Log = Default::default();
    let total: usize = (0..script.items.len()).map(cost).sum();
    let big = vec![0u8; total + 2];
    let s = S::items(&[&big]);
    let p = build(script, ads, &log);
    match terminal {
        0 => {
            let Ok((v, s)) = run(p.collect::<Vec<i64>>().parse(s)) else { fail!("collect", "failed") };
            check_eq!(v.0, want, "collect", "collected");
            check_eq!(s.pos(), at, "rest", "position");
        }
        1 => {
            let Ok((v, s)) = run(p.fold(vec![], |mut a: Vec<i64>, x| { a.push(x); a }).parse_once(s)) else { fail!("fold", "failed") };
            check_eq!(v, want, "fold", "folded");
            check_eq!(s.pos(), r.pos, "rest", "position");
        }
        _ => {
            let mut r = Ref::new(script, ads);
            let mut st = p.parse_iterative();
            return steps(&mut st, &mut r, ads.len(), matches!(ads.last(), Some(Ad::Take(_))), s, &log);
        }
    }
    check_eq!(*log.borrow(), r.log, "calls", "items asked for and mapped");
    Ok(())
}
