//! C23: parses, advances, segment waits and loads are dropped at every suspension point, or a component fails or
//! panics at every call; everything is released exactly once, and what was committed stays readable.
//!
//! "Exactly once" is judged by the checking allocator (every value owns memory: a double release is an error, a lost
//! one shows in the count of live blocks) and by counted elements.
use mc::ast::{self, pieces, words, Alphabet, Ast, Leaf, Log, Out, Spec, ALL_BIN, ALL_UN, HEAVY, PANIC_IN};
use mc::drive::{self, poll_once, run};
use mc::live::*;
use mc::seq::*;
use mc::stream::*;
use mc::utf8::*;
use mc::*;
use parcom_core::*;
use parcom_parsers::bin_expr::{Associativity, BinExprParser, Operator};
use parcom_parsers::iterative::*;
use parcom_parsers::primitive::{any_item, atom, the_item};
use parcom_parsers::IterativeParserExtension;
use parcom_sequence_core::{SequenceBuffer, SequenceLoader};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::{pin, Pin};
use std::rc::Rc;
use std::task::Poll;

/// Polls; at every suspension the future may be dropped (None).
fn drive_or_drop<F: Future>(f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    for _ in 0..drive::POLL_LIMIT {
        if let Poll::Ready(r) = poll_once(f.as_mut()).0 {
            return Some(r);
        }
        if flag() {
            logln!("dropped");
            return None;
        }
        if drive::outstanding() > 0 {
            drive::fire(0);
        }
    }
    panic!("PROGRESS: polled {} times without completing", drive::POLL_LIMIT)
}
fn balance(base: i64) -> R {
    check_eq!(alloc::live() - base, 0, "leak", "blocks still held");
    Ok(())
}
/// What is done to a run: it may be suspended and dropped, or the call with this number panics.
fn panics_in(calls: usize) -> Option<usize> {
    match choose(calls + 1) {
        0 => None,
        k => Some(k - 1),
    }
}

// ------------------------------------------------------------------ parses
fn parses(al: &Alphabet, size: usize, inputs: &[&'static str], panics: bool) -> R {
    let ast = Ast::gen(al, size);
    let text = pick(inputs);
    let how = choose(2);
    let once = flag();
    logln!("{ast:?} on {text:?}, pieces {how}, by value {once}");
    drive::reset();
    HEAVY.set(false);
    let calls = {
        let mut spec = Spec { text, metric: &|_| (0, 0, 0), log: vec![] };
        if let Out::Loop = spec.run(&ast, 0) {
            count("skipped: repetition of an empty match");
            return Ok(());
        }
        spec.log.len()
    };
    let fail = if panics { Some(choose(calls)) } else { None };
    let base = alloc::live();
    HEAVY.set(true);
    PANIC_IN.set(fail.unwrap_or(usize::MAX));
    let log: Log = Default::default();
    let p = ast::build::<TestSeq<str>>(&ast, &log);
    let s = TestSeq::new(pieces(text, how), false);
    let r = catch(|| {
        if once {
            drive_or_drop(p.parse_once(s)).map(|r| drop(r))
        } else {
            let r = drive_or_drop(p.parse(s)).map(|r| drop(r));
            drop(p);
            r
        }
    });
    PANIC_IN.set(usize::MAX);
    HEAVY.set(false);
    match &r {
        Ok(_) => {}
        Err(m) => check!(fail.is_some() && m.contains("a component gives up"), "panic", "{m}"),
    }
    drop(r);
    check_eq!(Rc::strong_count(&log), 1, "captured", "holders of what the components captured");
    drop(log);
    balance(base)?;
    check_eq!(drive::outstanding(), 0, "leftover", "input events still awaited");
    state(&(&ast, text, fail));
    Ok(())
}

// ------------------------------------------------------------------ iterative adapters
type S = TestSeq<[u8]>;
#[derive(Debug)]
struct Val(Box<i64>);
#[derive(Debug)]
struct Er(Box<bool>);
impl ParseError for Er {
    fn should_terminate(&self) -> bool {
        *self.0
    }
}
struct ErB(Er);
impl ParseError for ErB {
    fn should_terminate(&self) -> bool {
        *self.0 .0
    }
}
impl From<Er> for ErB {
    fn from(e: Er) -> ErB {
        ErB(e)
    }
}
type Nx<'a> = Pin<Box<dyn Future<Output = ParseResult<S, Option<Val>, Er>> + 'a>>;
trait DynState {
    fn next<'a>(&'a mut self, s: S) -> Nx<'a>;
}
trait DynIter {
    fn state<'a>(&'a self) -> St<'a>;
    fn once(self: Box<Self>) -> St<'static>;
}
struct St<'a>(Box<dyn DynState + 'a>);
struct It(Box<dyn DynIter>);
impl<'x> IterativeParserState<S> for St<'x> {
    type Output = Val;
    type Error = Er;
    fn parse_next(&mut self, s: S) -> impl Future<Output = ParseResult<S, Option<Val>, Er>> {
        self.0.next(s)
    }
}
impl IterativeParserOnce<S> for It {
    type Output = Val;
    type Error = Er;
    type StateOnce = St<'static>;
    fn parse_iterative_once(self) -> St<'static> {
        self.0.once()
    }
}
impl IterativeParser<S> for It {
    type State<'a> = St<'a>;
    fn parse_iterative(&self) -> St<'_> {
        self.0.state()
    }
}
struct Conv<P, F>(P, F);
struct ConvSt<P, F>(P, F);
impl<P: IterativeParser<S, Output = Val> + 'static, F: Fn(P::Error) -> Er + Clone + 'static> DynIter for Conv<P, F> {
    fn state<'a>(&'a self) -> St<'a> {
        St(Box::new(ConvSt(self.0.parse_iterative(), self.1.clone())))
    }
    fn once(self: Box<Self>) -> St<'static> {
        St(Box::new(ConvSt(self.0.parse_iterative_once(), self.1)))
    }
}
impl<P: IterativeParserState<S, Output = Val>, F: Fn(P::Error) -> Er> DynState for ConvSt<P, F> {
    fn next<'a>(&'a mut self, s: S) -> Nx<'a> {
        Box::pin(async move { self.0.parse_next(s).await.map_err(|(e, s)| ((self.1)(e), s)) })
    }
}
fn it<P: IterativeParser<S, Output = Val> + 'static>(p: P, f: impl Fn(P::Error) -> Er + Clone + 'static) -> It {
    It(Box::new(Conv(p, f)))
}
/// Counts the calls into components; one of them may panic.
#[derive(Clone)]
struct Calls(Rc<Cell<usize>>, Option<usize>);
impl Calls {
    fn hit(&self) {
        let n = self.0.get();
        self.0.set(n + 1);
        if self.1 == Some(n) {
            panic!("a component gives up");
        }
    }
}
struct Bottom {
    items: usize,
    end: Option<bool>,
    calls: Calls,
}
struct BottomSt {
    items: usize,
    end: Option<bool>,
    calls: Calls,
    mem: Vec<Val>,
}
impl IterativeParserState<S> for BottomSt {
    type Output = Val;
    type Error = Er;
    async fn parse_next(&mut self, s: S) -> ParseResult<S, Option<Val>, Er> {
        self.calls.hit();
        let v = Val(Box::new(self.items as i64));
        let s = s.advance(1).await;
        if self.items == 0 {
            return match self.end {
                None => Ok((None, s)),
                Some(t) => Err((Er(Box::new(t)), s.into())),
            };
        }
        self.items -= 1;
        self.mem.push(Val(Box::new(0)));
        Ok((Some(v), s))
    }
}
impl IterativeParserOnce<S> for Bottom {
    type Output = Val;
    type Error = Er;
    type StateOnce = BottomSt;
    fn parse_iterative_once(self) -> BottomSt {
        self.parse_iterative()
    }
}
impl IterativeParser<S> for Bottom {
    type State<'a> = BottomSt;
    fn parse_iterative(&self) -> BottomSt {
        BottomSt { items: self.items, end: self.end, calls: self.calls.clone(), mem: vec![] }
    }
}
fn stack(items: usize, end: Option<bool>, ads: &[usize], calls: &Calls) -> It {
    let mut p = it(Bottom { items, end, calls: calls.clone() }, |e| e);
    for &a in ads {
        let c = calls.clone();
        p = match a {
            0 => it(
                p.map_each(move |v: Val| {
                    c.hit();
                    Val(Box::new(*v.0 + 1))
                }),
                |e| e,
            ),
            1 | 2 => it(
                p.try_map_each(move |v: Val| {
                    c.hit();
                    if *v.0 == 1 {
                        Err(ErB(Er(Box::new(a == 2))))
                    } else {
                        Ok(v)
                    }
                }),
                |e: ErB| e.0,
            ),
            3 => it(
                p.map_while(move |v: Val| {
                    c.hit();
                    (*v.0 != 1).then_some(v)
                }),
                |e| e,
            ),
            4 => it(
                p.scan(Rc::new(0i64), move |st: &mut Rc<i64>, v: Val| {
                    c.hit();
                    *st = Rc::new(**st + *v.0);
                    Val(Box::new(**st))
                }),
                |e| e,
            ),
            _ => it(p.take(2), |e| e),
        };
    }
    p
}
fn adapters(depth: usize, items: usize, panics: bool) -> R {
    drive::reset();
    let n = choose(items + 1);
    let end = [None, Some(false), Some(true)][choose(3)];
    let ads: Vec<usize> = (0..choose(depth + 1)).map(|_| choose(6)).collect();
    let terminal = choose(3);
    let once = flag();
    logln!("{n} items, then {end:?}; adapters {ads:?}, terminal {terminal}, by value {once}");
    let total = {
        let c = Calls(Default::default(), None);
        // how many calls there are without a panic and without suspension
        let _ = attempt(n, end, &ads, terminal, once, &c, true);
        c.0.get()
    };
    let base = alloc::live();
    let c = Calls(Default::default(), if panics { panics_in(total) } else { None });
    let r = catch(|| attempt(n, end, &ads, terminal, once, &c, panics));
    match &r {
        Ok(()) => {}
        Err(m) => check!(c.1.is_some() && m.contains("a component gives up"), "panic", "{m}"),
    }
    drop(r);
    check_eq!(Rc::strong_count(&c.0), 1, "captured", "holders of what the components captured");
    drop(c);
    balance(base)?;
    Ok(())
}
fn attempt(n: usize, end: Option<bool>, ads: &[usize], terminal: usize, once: bool, c: &Calls, plain: bool) {
    let p = stack(n, end, ads, c);
    let s = S::items(&[&[1, 2, 3, 4], &[5, 6, 7, 8, 9, 10]]);
    async fn steps(mut st: St<'_>, mut s: S) -> usize {
        let mut k = 0;
        let mut got = vec![];
        while k < 5 {
            k += 1;
            match st.parse_next(s).await {
                Ok((Some(v), r)) => {
                    got.push(v);
                    s = r
                }
                _ => break,
            }
        }
        k
    }
    fn go<F: Future>(f: F, plain: bool) {
        if plain {
            let mut f = Box::pin(f);
            loop {
                if poll_once(f.as_mut()).0.is_ready() {
                    break;
                }
                if drive::outstanding() > 0 {
                    drive::fire(0);
                }
            }
        } else {
            drop(drive_or_drop(f));
        }
    }
    match (terminal, once) {
        (0, true) => go(p.collect::<Vec<Val>>().parse_once(s), plain),
        (0, false) => {
            let p = p.collect::<Vec<Val>>();
            go(p.parse(s), plain)
        }
        (1, _) => {
            let c = c.clone();
            let p = p.fold(Rc::new(vec![0i64]), move |mut a: Rc<Vec<i64>>, v: Val| {
                c.hit();
                Rc::make_mut(&mut a).push(*v.0);
                a
            });
            if once {
                go(p.parse_once(s), plain)
            } else {
                go(p.parse(s), plain)
            }
        }
        (_, true) => go(steps(p.parse_iterative_once(), s), plain),
        _ => go(steps(p.parse_iterative(), s), plain),
    }
}

// ------------------------------------------------------------------ binary expressions
type BS = TestSeq<[u8]>;
thread_local! {
    static CALLS: RefCell<Option<Calls>> = const { RefCell::new(None) };
}
fn hit() {
    let c = CALLS.with(|c| c.borrow().clone());
    if let Some(c) = c {
        c.hit()
    }
}
struct Ex(Box<i64>);
struct Tm(Box<i64>);
struct Op(u8, Box<i64>);
impl Operator for Op {
    fn precedence(&self) -> usize {
        match self.0 {
            b'+' => 1,
            b'*' => 2,
            _ => 3,
        }
    }
    fn associativity(&self) -> Associativity {
        if self.0 == b'^' {
            Associativity::Right
        } else {
            Associativity::Left
        }
    }
}
impl From<Tm> for Ex {
    fn from(t: Tm) -> Ex {
        hit();
        Ex(t.0)
    }
}
impl From<(Ex, Op, Ex)> for Ex {
    fn from((l, o, r): (Ex, Op, Ex)) -> Ex {
        hit();
        Ex(Box::new((*l.0).wrapping_mul(31) + (*o.1).wrapping_mul(7) + *r.0))
    }
}
async fn token(s: BS) -> (Option<u8>, BS) {
    match any_item().parse(s).await {
        Ok((t, s)) => (Some(t), s),
        // the built-in item parser consumes nothing on failure
        Err((_, s)) => (None, unsafe { s.unwrap() }),
    }
}
async fn bterm(s: BS) -> ParseResult<BS, Tm, Er> {
    hit();
    let v = Box::new(1);
    match token(s).await {
        (Some(b'1'), s) => Ok((Tm(v), s)),
        (t, s) => Err((Er(Box::new(t == Some(b'!'))), s.into())),
    }
}
async fn bop(s: BS) -> ParseResult<BS, Op, Er> {
    hit();
    let v = Box::new(2);
    match token(s).await {
        (Some(c @ (b'+' | b'*' | b'^')), s) => Ok((Op(c, v), s)),
        (t, s) => Err((Er(Box::new(t == Some(b'!'))), s.into())),
    }
}
fn expr(text: &[u8], panics: bool) -> R {
    drive::reset();
    let once = flag();
    logln!("{:?}, by value {once}", String::from_utf8_lossy(text));
    let go = |plain: bool| {
        let p = BinExprParser::<BS, _, _, Ex>::new(bterm, bop);
        let s = BS::items(&[text]);
        if plain {
            drop(run(p.parse(s)))
        } else if once {
            drop(drive_or_drop(p.parse_once(s)))
        } else {
            drop(drive_or_drop(p.parse(s)))
        }
    };
    let mut total = 0;
    if panics {
        let c = Calls(Default::default(), None);
        CALLS.with(|x| *x.borrow_mut() = Some(c.clone()));
        go(true);
        total = c.0.get();
    }
    let c = Calls(Default::default(), if panics { Some(choose(total)) } else { None });
    CALLS.with(|x| *x.borrow_mut() = Some(c.clone()));
    let base = alloc::live();
    let r = catch(|| go(panics));
    CALLS.with(|x| *x.borrow_mut() = None);
    if let Err(m) = &r {
        check!(panics && m.contains("a component gives up"), "panic", "{m}");
    }
    drop(r);
    balance(base)?;
    state(&(text, once));
    Ok(())
}

// ------------------------------------------------------------------ streaming
/// Owns memory and can be copied; compares by its letter.
struct Lt(Box<(u32, u8)>);
thread_local! {
    static CLONES: Cell<i64> = const { Cell::new(0) };
    static LETTERS: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
}
impl Elem for Lt {
    const COUNTED: bool = false;
    const IDENT: bool = true;
    fn make(id: u32) -> Self {
        CLONES.set(CLONES.get() + 1);
        Lt(Box::new((id, LETTERS.with(|t| t.borrow().get(id as usize).copied().unwrap_or(b'?')))))
    }
    fn id(&self) -> u32 {
        self.0 .0
    }
}
impl Clone for Lt {
    fn clone(&self) -> Lt {
        CLONES.set(CLONES.get() + 1);
        Lt(self.0.clone())
    }
}
impl Drop for Lt {
    fn drop(&mut self) {
        CLONES.set(CLONES.get() - 1);
    }
}
impl PartialEq for Lt {
    fn eq(&self, o: &Lt) -> bool {
        self.0 .1 == o.0 .1
    }
}
fn lt(c: u8) -> Lt {
    CLONES.set(CLONES.get() + 1);
    Lt(Box::new((u32::MAX, c)))
}
#[derive(Clone, Copy)]
struct Plan {
    loads: usize,
    max: usize,
    windows: usize,
    strat: Strat,
    force: bool,
}
fn script(p: &Plan) -> Vec<Step> {
    let n = choose(p.loads + 1);
    let mut s: Vec<Step> = (0..n)
        .map(|_| match choose(p.max + 2) {
            k if k > p.max => Step::Fail,
            k => Step::Write { grant: k, push: k, shrink: 0, cancel: false },
        })
        .collect();
    if flag() {
        s.push(Step::Finish);
    }
    s
}
fn streaming(p: &Plan) -> R {
    reset_elems();
    drive::reset();
    CLONES.set(0);
    let steps = script(p);
    let what = choose(7);
    LETTERS.with(|l| {
        alloc::exempt(|| {
            *l.borrow_mut() = b"abab".to_vec();
        })
    });
    logln!("script {steps:?}, action {what}");
    let steps: Vec<Step> = alloc::exempt(|| steps.clone());
    let base = alloc::live();
    let held = streaming_in(p, steps.clone(), what);
    let r = match held {
        Ok(r) => r,
        Err(f) => return Err(f),
    };
    if r {
        count("abandoned");
    }
    check_eq!(CLONES.get(), 0, "drops", "elements still alive in the end");
    // the copy of the script handed over is gone as well
    balance(base + 0)?;
    drop(steps);
    Ok(())
}
fn streaming_in(p: &Plan, steps: Vec<Step>, what: usize) -> Result<bool, Fail> {
    let o = Opts { strat: p.strat, force: p.force, eager: false, windows: p.windows };
    let (seq, live) = live::<Lt>(&o, steps);
    let mut seq = Some(seq);
    let mut ab = 1;
    let idle = |_: &Live<Lt>| Ok(());
    // (the sequence afterwards, if it survived; where it stands)
    let mut pos = 0;
    match what {
        0 => {
            // waits for segments
            let n = 1 + choose(2);
            let s = seq.as_mut().unwrap();
            let mut g = s.segments();
            for _ in 0..n {
                let f = Box::pin(g.next(1));
                let mut f = f;
                match interleave(f.as_mut(), &live, &mut 0, &mut ab, idle)? {
                    Some(Some(_)) => {}
                    _ => break,
                }
            }
        }
        1 | 2 => {
            let n = choose(3);
            let mut f = Box::pin(seq.take().unwrap().advance(n));
            if let Some(s) = interleave(f.as_mut(), &live, &mut 0, &mut ab, idle)? {
                seq = Some(s);
                pos = n;
            }
            if what == 2 {
                if let Some(s) = seq.take() {
                    let mut f = Box::pin(s.advance(1));
                    if let Some(s) = interleave(f.as_mut(), &live, &mut 0, &mut ab, idle)? {
                        seq = Some(s);
                        pos += 1;
                    }
                }
            }
        }
        k => {
            // parses
            let s = seq.take().unwrap();
            type LS = LiveSeq<Lt>;
            async fn prog(k: usize, s: LS) -> Option<(Vec<Lt>, LS)> {
                let mut got = vec![];
                let s = match k {
                    3 => {
                        let (a, s) = any_item().parse(s).await.ok()?;
                        got.push(a);
                        let (b, s) = any_item().parse(s).await.ok()?;
                        got.push(b);
                        s
                    }
                    4 => the_item(lt(b'a')).parse_once(s).await.ok()?.1,
                    5 => atom(vec![lt(b'a'), lt(b'b'), lt(b'a')]).parse_once(s).await.ok()?.1,
                    _ => {
                        let s = atom([lt(b'a')]).parse(s).await.ok()?.1;
                        let (a, s) = any_item().parse_once(s).await.ok()?;
                        got.push(a);
                        s
                    }
                };
                Some((got, s))
            }
            let mut f = Box::pin(prog(k, s));
            if let Some(Some((got, s))) = interleave(f.as_mut(), &live, &mut 0, &mut ab, idle)? {
                pos = match k {
                    3 | 6 => 2,
                    4 => 1,
                    _ => 3,
                };
                drop(got);
                seq = Some(s);
            }
        }
    }
    // what was committed remains readable
    if let Some(mut s) = seq.take() {
        let mut g = s.segments();
        let mut at = pos;
        loop {
            let mut f = pin!(g.next(1));
            match interleave(f.as_mut(), &live, &mut 0, &mut 0, |l| {
                check!(!l.done && l.committed <= at, "sleeps", "the reader sleeps at {at} of {} committed", l.committed);
                Ok(())
            })? {
                Some(Some(x)) => {
                    for e in x {
                        check_eq!(e.id(), at as u32, "readable", "item");
                        at += 1;
                    }
                }
                Some(None) => {
                    check_eq!(at, live.borrow().committed.max(pos), "readable", "items read");
                    break;
                }
                None => {
                    check_eq!(at, live.borrow().committed.max(pos), "readable", "items read");
                    break;
                }
            }
        }
        drop(g);
        if flag() {
            drop(s);
            drop(live);
        } else {
            live.borrow_mut().loader = None;
            drop(live);
            drop(s);
        }
    } else {
        // nobody can reach what was committed
        let l = live.borrow();
        let held = l.log.borrow().accepted.len() - l.committed;
        check_eq!(CLONES.get(), held as i64, "drops", "elements alive once the sequence is gone ({} of {} committed)", l.committed, l.log.borrow().accepted.len());
    }
    Ok(ab == 0)
}

// ------------------------------------------------------------------ loads
fn loads(strat: Strat, n: usize, asks: usize, max: usize, drops_allowed: usize) -> R {
    reset_elems();
    drive::reset();
    let base = alloc::live();
    let log: Rc<RefCell<SrcLog>> = Default::default();
    {
        let left = Cell::new(asks);
        let src = Scripted::<Owned>::new(&log, move || {
            if left.get() == 0 {
                return Step::Finish;
            }
            left.set(left.get() - 1);
            match choose(3) {
                0 => Step::Finish,
                1 => Step::Fail,
                _ => any_write(max, true, true),
            }
        });
        let (mut buf, mut ld) = build(strat, src);
        let mut seen: Vec<u32> = vec![];
        let mut drops_left = drops_allowed;
        for _ in 0..1 + choose(n) {
            let before = made();
            let acc = log.borrow().accepted.len();
            let done;
            {
                let mut f = Box::pin(ld.load());
                loop {
                    if let Poll::Ready(r) = poll_once(f.as_mut()).0 {
                        done = Some(r.map(|i| i.is_done()).unwrap_or(false));
                        break;
                    }
                    if drops_left > 0 && flag() {
                        drops_left -= 1;
                        logln!("load dropped");
                        done = None;
                        break;
                    }
                    if drive::outstanding() > 0 {
                        drive::fire(0);
                    }
                }
            }
            if let Some(f) = log.borrow_mut().fail.take() {
                return Err(f);
            }
            if done.is_none() {
                // an abandoned writer is like a cancelled one
                check_eq!(log.borrow().accepted.len(), acc, "abandoned", "elements handed over");
                for id in before..made() {
                    check_eq!(drops_of(id), 1, "drops", "drops of element {id} of an abandoned load");
                }
            }
            // what was committed before is still there
            let now: Vec<u32> = visible(&buf);
            check!(now.len() >= seen.len(), "readable", "{} items readable, {} before", now.len(), seen.len());
            check_eq!(now, log.borrow().accepted[..now.len()].to_vec(), "readable", "committed items");
            for id in &now {
                check_eq!(drops_of(*id), 0, "drops", "drops of committed element {id}");
            }
            seen = now;
            if done == Some(true) {
                break;
            }
        }
        if flag() {
            // what had been handed over is not lost
            ld.force_commit();
            check_eq!(visible(&buf), log.borrow().accepted, "handed over", "readable items in the end");
        }
        if flag() {
            drop(ld);
            check!(visible(&buf).len() >= seen.len(), "readable", "items readable without the loader");
            if flag() {
                buf.advance(1);
            }
            drop(buf);
        } else {
            drop(buf);
            for id in seen {
                check_eq!(drops_of(id), 1, "drops", "drops of committed element {id} once the reader is gone");
            }
            drop(ld);
        }
    }
    all_dropped::<Owned>()?;
    drop(log);
    balance(base)
}

fn main() {
    mc::main(|t| {
        let leaves = || vec![Leaf::A, Leaf::Any, Leaf::AB, Leaf::Eps, Leaf::MissAfter, Leaf::FatalAfter];
        let mut v = vec![];
        for (name, size, len, devs, panics) in [
            ("parses dropped while suspended", t.pick(2, 4, 4), t.pick(1, 2, 3), 1, false),
            ("parses dropped at a later suspension", t.pick(1, 3, 4), t.pick(2, 3, 3), t.pick(1, 2, 2), false),
            ("parses with a component that panics", t.pick(2, 4, 4), t.pick(1, 2, 3), 0, true),
        ] {
            let al = Alphabet { leaves: leaves(), un: ALL_UN.to_vec(), bin: ALL_BIN.to_vec() };
            let inputs = words(&['a', 'b'], len);
            v.push(job(name, devs, move || parses(&al, size, &inputs, panics)));
        }
        v.push(job("adapters dropped while suspended", t.pick(1, 1, 2), move || adapters(t.pick(1, 2, 3), t.pick(1, 3, 3), false)));
        v.push(job("adapters with a component that panics", 0, move || adapters(t.pick(1, 2, 3), t.pick(1, 3, 3), true)));
        for panics in [false, true] {
            let what = if panics { "with a component that panics" } else { "dropped while suspended" };
            let devs = if panics { 0 } else { 1 };
            let n = t.pick(2, 4, 5);
            v.push(job(format!("expressions {what}"), devs, move || {
                // terms and operators in turn, then a token that stops it (or the end)
                let mut text = vec![];
                for i in 0..1 + choose(n) {
                    if i > 0 {
                        text.push(b"+*^"[choose(3)]);
                    }
                    text.push(b'1');
                }
                match choose(4) {
                    0 => {}
                    1 => text.push(b'?'),
                    2 => text.push(b'!'),
                    _ => {
                        text.push(b'+');
                        text.push(b"?!"[choose(2)]);
                    }
                }
                expr(&text, panics)
            }));
            v.push(job(format!("long expressions {what}"), devs, move || {
                let mut text = vec![b'1'];
                for _ in 0..[9, 17, 33][choose(t.pick(1, 3, 3))] {
                    text.extend(b"^1");
                }
                text.extend([&b""[..], b"+1", b"!", b"^!"][choose(4)]);
                expr(&text, panics)
            }));
        }
        for force in [true, false] {
            let p = Plan { loads: t.pick(1, 2, 3), max: t.pick(1, 2, 2), windows: 0, strat: Strat::Exact, force };
            v.push(job(format!("streaming force={force}"), 0, move || streaming(&p)));
            let p = Plan { loads: t.pick(1, 1, 2), windows: t.pick(1, 2, 3), ..p };
            v.push(job(format!("streaming force={force}, inside polls"), 0, move || streaming(&p)));
        }
        let n = t.pick(1, 2, 3);
        v.push(job("validated loads dropped while suspended", t.pick(1, 2, 3), move || {
            let b: Vec<u8> = pick_word(9, n).into_iter().flat_map(|i| TOKENS[i].to_vec()).collect();
            let strat = pick(&STRATS);
            let cuts = pick_cuts(b.len());
            stream(&b, cuts, vec![], strat, How { abandon: true, extra: choose(2), ..How::default() })
        }));
        for strat in STRATS {
            v.push(job(format!("loads {strat:?}"), t.pick(1, 2, 3), move || loads(strat, t.pick(2, 2, 3), t.pick(2, 3, 3), t.pick(1, 1, 2), t.pick(1, 1, 2))));
        }
        v
    })
}
