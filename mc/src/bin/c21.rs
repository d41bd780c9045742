//! C21 (single-threaded part): parsers on a sequence that is being loaded, under every interleaving of the loading
//! side's actions with the polls of the parse and with the operations inside one poll, against the complete input.
use mc::live::*;
use mc::stream::*;
use mc::*;
use parcom_core::*;
use parcom_parsers::primitive::{any_item, atom, the_item};
use parcom_parsers::{IterativeParserExtension, ParserExtension};
use std::cell::RefCell;
use std::pin::pin;

/// An item that stands for itself (identity) and for a letter (what parsers compare).
#[derive(Clone)]
struct Sym(u32, u8);
thread_local! {
    static TEXT: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
}
impl Elem for Sym {
    const COUNTED: bool = false;
    const IDENT: bool = true;
    fn make(id: u32) -> Self {
        Sym(id, TEXT.with(|t| t.borrow().get(id as usize).copied().unwrap_or(b'?')))
    }
    fn id(&self) -> u32 {
        self.0
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        self.1 == o.1
    }
}
fn sym(c: u8) -> Sym {
    Sym(u32::MAX, c)
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Er(&'static str, bool);
impl ParseError for Er {
    fn should_terminate(&self) -> bool {
        self.1
    }
}
impl From<parcom_util::error::Miss<()>> for Er {
    fn from(e: parcom_util::error::Miss<()>) -> Er {
        Er("miss", e.should_terminate())
    }
}

// ------------------------------------------------------------------ programs
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Leaf {
    Any,
    A,
    Lit(&'static str),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Wrap {
    Plain,
    Map,
    MapErrFatal,
    AndThen,
    Ref,
    Boxed,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum It {
    /// Everything up to a 'b', collected by a fold.
    Fold,
    Take(usize),
    MapEach,
    Scan,
    /// Ends at the second item.
    MapWhile,
    TryMapEach,
    TakeOfTake,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Stp {
    P(Leaf, Wrap),
    I(It),
    /// Look at the next items without consuming them.
    Peek(usize),
    Advance(usize),
}
type Out = Vec<u32>;

/// Items until a 'b' (which is consumed); a missing item is an error.
struct UntilB;
struct UntilBState;
impl<S: Sequence<Segment = [Sym], Length = usize>> IterativeParserState<S> for UntilBState {
    type Output = u32;
    type Error = Er;
    async fn parse_next(&mut self, s: S) -> ParseResult<S, Option<u32>, Er> {
        match any_item().parse_once(s).await {
            Ok((i, r)) => Ok(((i.1 != b'b').then_some(i.0), r)),
            Err((e, r)) => Err((e.into(), r)),
        }
    }
}
impl<S: Sequence<Segment = [Sym], Length = usize>> IterativeParserOnce<S> for UntilB {
    type Output = u32;
    type Error = Er;
    type StateOnce = UntilBState;
    fn parse_iterative_once(self) -> UntilBState {
        UntilBState
    }
}
impl<S: Sequence<Segment = [Sym], Length = usize>> IterativeParser<S> for UntilB {
    type State<'a> = UntilBState;
    fn parse_iterative(&self) -> UntilBState {
        UntilBState
    }
}
type Res<S> = Result<(Out, S), Er>;
fn lose<S: Sequence, O>(r: ParseResult<S, O, impl Into<Er> + ParseError>, f: impl FnOnce(O) -> Out) -> Res<S> {
    match r {
        Ok((o, s)) => Ok((f(o), s)),
        Err((e, _)) => {
            let t = e.should_terminate();
            let e: Er = e.into();
            assert_eq!(t, e.1);
            Err(e)
        }
    }
}
async fn wrapped<S: Sequence<Segment = [Sym], Length = usize>, O: 'static, P>(p: P, w: Wrap, o: fn(O) -> Out, s: S) -> Res<S>
where
    P: Parser<S, Output = O>,
    P::Error: Into<Er>,
    Er: From<P::Error>,
{
    match w {
        Wrap::Plain => lose(p.parse_once(s).await, o),
        Wrap::Map => lose(p.map(move |x| [o(x), vec![7]].concat()).parse(s).await, |x| x),
        Wrap::MapErrFatal => lose(p.map_err(|_| Er("fatal", true)).parse(s).await, o),
        Wrap::AndThen => lose(
            p.and_then(move |x| {
                let x = o(x);
                match x.first() {
                    Some(i) if i % 3 == 1 => Err(Er("refused", false)),
                    _ => Ok(x),
                }
            })
            .parse(s)
            .await,
            |x| x,
        ),
        Wrap::Ref => lose(p.as_ref().parse(s).await, o),
        Wrap::Boxed => lose(p.boxed().parse(s).await, o),
    }
}
async fn folded<S: Sequence<Segment = [Sym], Length = usize>, P>(p: P, s: S) -> Res<S>
where
    P: IterativeParser<S, Output = u32, Error = Er>,
{
    lose(
        p.fold(vec![], |mut v, x| {
            v.push(x);
            v
        })
        .parse(s)
        .await,
        |x| x,
    )
}
async fn iterated<S: Sequence<Segment = [Sym], Length = usize>>(i: It, s: S) -> Res<S> {
    match i {
        It::Fold => folded(UntilB, s).await,
        It::Take(n) => folded(UntilB.take(n), s).await,
        It::MapEach => folded(UntilB.map_each(|x| x + 100), s).await,
        It::Scan => {
            folded(
                UntilB.scan(0u32, |st: &mut u32, x| {
                    *st += x + 1;
                    *st
                }),
                s,
            )
            .await
        }
        It::MapWhile => {
            let seen = std::cell::Cell::new(0);
            folded(
                UntilB.map_while(|x| {
                    seen.set(seen.get() + 1);
                    (seen.get() < 2).then_some(x)
                }),
                s,
            )
            .await
        }
        It::TryMapEach => {
            let seen = std::cell::Cell::new(0);
            folded(
                UntilB.try_map_each(|x| {
                    seen.set(seen.get() + 1);
                    if seen.get() < 2 {
                        Ok(x)
                    } else {
                        Err(Er("mapping", true))
                    }
                }),
                s,
            )
            .await
        }
        It::TakeOfTake => folded(UntilB.take(2).map_each(|x| x).take(1), s).await,
    }
}
async fn peek<S: Sequence<Segment = [Sym], Length = usize>>(n: usize, s: &mut S) -> Out {
    let mut v = vec![];
    let mut segs = s.segments();
    while v.len() < n {
        let Some(g) = segs.next(n - v.len()).await else { break };
        let g: Vec<u32> = g.iter().map(|e| e.0).collect();
        v.extend(g);
    }
    v.truncate(n);
    v
}
async fn run_prog<S: Sequence<Segment = [Sym], Length = usize>>(prog: Vec<Stp>, mut s: S) -> Res<S> {
    let mut out = vec![];
    for st in prog {
        let o;
        (o, s) = match st {
            Stp::P(Leaf::Any, w) => wrapped(any_item(), w, |x: Sym| vec![x.0], s).await?,
            Stp::P(Leaf::A, w) => wrapped(the_item(sym(b'a')), w, |()| vec![], s).await?,
            Stp::P(Leaf::Lit(l), w) => wrapped(atom(l.bytes().map(sym).collect::<Vec<_>>()), w, |()| vec![], s).await?,
            Stp::I(i) => iterated(i, s).await?,
            Stp::Peek(n) => (peek(n, &mut s).await, s),
            Stp::Advance(n) => (vec![], s.advance(n).await),
        };
        out.push(1000);
        out.extend(o);
    }
    Ok((out, s))
}

// ------------------------------------------------------------------ what it means
#[derive(Clone, Debug)]
struct Want {
    out: Result<(Out, usize), Er>,
    /// Items that must be there to decide it; None: whether the input ends there as well.
    need: usize,
    end: bool,
}
struct Model<'a> {
    text: &'a [u8],
    at: usize,
    need: usize,
    end: bool,
}
impl<'a> Model<'a> {
    fn look(&mut self, i: usize) -> Option<u8> {
        match self.text.get(i) {
            Some(&c) => {
                self.need = self.need.max(i + 1);
                Some(c)
            }
            None => {
                self.need = self.need.max(self.text.len());
                self.end = true;
                None
            }
        }
    }
    fn any(&mut self) -> Result<(u32, u8), Er> {
        let c = self.look(self.at).ok_or(Er("miss", false))?;
        self.at += 1;
        Ok((self.at as u32 - 1, c))
    }
    fn leaf(&mut self, l: Leaf) -> Result<Out, Er> {
        match l {
            Leaf::Any => Ok(vec![self.any()?.0]),
            Leaf::A => self.lit("a"),
            Leaf::Lit(s) => self.lit(s),
        }
    }
    fn lit(&mut self, l: &str) -> Result<Out, Er> {
        for (k, c) in l.bytes().enumerate() {
            if self.look(self.at + k) != Some(c) {
                return Err(Er("miss", false));
            }
        }
        self.at += l.len();
        Ok(vec![])
    }
    fn until_b(&mut self) -> Result<Option<u32>, Er> {
        let (i, c) = self.any()?;
        Ok((c != b'b').then_some(i))
    }
    fn step(&mut self, s: Stp) -> Result<Out, Er> {
        match s {
            Stp::P(l, w) => {
                let r = self.leaf(l);
                match w {
                    Wrap::Map => r.map(|mut x| {
                        x.push(7);
                        x
                    }),
                    Wrap::MapErrFatal => r.map_err(|_| Er("fatal", true)),
                    Wrap::AndThen => r.and_then(|x| match x.first() {
                        Some(i) if i % 3 == 1 => Err(Er("refused", false)),
                        _ => Ok(x),
                    }),
                    _ => r,
                }
            }
            Stp::I(it) => {
                let mut v = vec![];
                let mut sum = 0;
                loop {
                    if let It::Take(n) = it {
                        if v.len() == n {
                            return Ok(v);
                        }
                    }
                    if it == It::TakeOfTake && v.len() == 1 {
                        return Ok(v);
                    }
                    let Some(x) = self.until_b()? else { return Ok(v) };
                    match it {
                        It::MapEach => v.push(x + 100),
                        It::Scan => {
                            sum += x + 1;
                            v.push(sum);
                        }
                        It::MapWhile if v.len() == 1 => return Ok(v),
                        It::TryMapEach if v.len() == 1 => return Err(Er("mapping", true)),
                        _ => v.push(x),
                    }
                }
            }
            Stp::Peek(n) => {
                let mut v = vec![];
                for k in 0..n {
                    match self.look(self.at + k) {
                        Some(_) => v.push((self.at + k) as u32),
                        None => break,
                    }
                }
                Ok(v)
            }
            Stp::Advance(n) => {
                if self.at + n > self.text.len() {
                    self.end = true;
                }
                self.at += n;
                self.need = self.need.max(self.at.min(self.text.len()));
                Ok(vec![])
            }
        }
    }
}
fn want(text: &[u8], prog: &[Stp]) -> Want {
    let mut m = Model { text, at: 0, need: 0, end: false };
    let mut out = vec![];
    let r = prog.iter().try_for_each(|&s| {
        let o = m.step(s)?;
        out.push(1000);
        out.extend(o);
        Ok(())
    });
    Want { out: r.map(|()| (out, m.at)), need: m.need, end: m.end }
}

// ------------------------------------------------------------------ runs
#[derive(Clone)]
struct Plan {
    steps: Vec<Stp>,
    /// Steps in a row.
    prog: usize,
    /// Length of the text.
    len: usize,
    /// Empty appends and failing loads among the chunks.
    extra: usize,
    spurious: usize,
    /// The source may go silent instead of ending.
    silent: bool,
}
fn go(o: &Opts, p: &Plan) -> R {
    reset_elems();
    drive::reset();
    let text: Vec<u8> = (0..choose(p.len + 1)).map(|_| [b'a', b'b'][choose(2)]).collect();
    let mut steps = vec![];
    let mut extra = p.extra;
    let mut at = 0;
    loop {
        // pieces of the text, with empty writes and errors of the source in between
        while extra > 0 {
            match choose(3) {
                0 => break,
                1 => steps.push(Step::Write { grant: 0, push: 0, shrink: 0, cancel: false }),
                _ => steps.push(Step::Fail),
            }
            extra -= 1;
        }
        if at == text.len() {
            break;
        }
        let n = 1 + choose(text.len() - at);
        at += n;
        steps.push(Step::Write { grant: n, push: n, shrink: 0, cancel: false });
    }
    let silent = p.silent && flag();
    if !silent {
        steps.push(Step::Finish);
    }
    let prog: Vec<Stp> = (0..1 + choose(p.prog)).map(|_| pick(&p.steps)).collect();
    logln!("text {:?}, script {steps:?}, program {prog:?}", String::from_utf8_lossy(&text));
    TEXT.with(|t| *t.borrow_mut() = text.clone());
    let w = want(&text, &prog);

    // the complete input in memory
    let items: Vec<Sym> = text.iter().enumerate().map(|(i, &c)| Sym(i as u32, c)).collect();
    let over = w.out.as_ref().map_or(true, |o| o.1 > text.len()) && prog.iter().any(|s| matches!(s, Stp::Advance(_)));
    if !over {
        let whole = drive::run(run_prog(prog.clone(), &items[..])).map(|(o, r)| (o, text.len() - r.len()));
        check_eq!(whole, w.out, "whole", "on the complete input");
    }

    let (seq, live) = live::<Sym>(o, steps);
    let mut spurious = p.spurious;
    let f = pin!(run_prog(prog, seq));
    let r = interleave(f, &live, &mut spurious, &mut 0, |l| {
        check!(
            !l.done && (l.committed < w.need || w.end),
            "sleeps",
            "the parse sleeps with {} items committed, {} of which decide it{}{}",
            l.committed,
            w.need,
            if w.end { " together with the end" } else { "" },
            if l.done { "; loading has finished" } else { "" }
        );
        Ok(())
    })?;
    let Some(r) = r else {
        check!(silent, "sleeps", "no result although loading has finished");
        check!(w.end || live.borrow().committed < w.need, "sleeps", "no result although all it needs was committed");
        count("silent streams");
        return Ok(());
    };
    {
        let l = live.borrow();
        check!(l.done || !w.end && l.committed >= w.need, "early", "a result with {} of {} items needed{}", l.committed, w.need, if w.end { " and the end" } else { "" });
        outcome(&(&w.out, l.committed, l.done));
    }
    match (r, &w.out) {
        (Err(e), Err(we)) => check_eq!(e, *we, "result", "error"),
        (Ok((o, mut s)), Ok((wo, wat))) => {
            check_eq!(o, *wo, "result", "output");
            let mut segs = s.segments();
            let mut at = *wat;
            loop {
                let f = pin!(segs.next(1));
                let got = interleave(f, &live, &mut 0, &mut 0, |l| {
                    check!(!l.done && l.committed <= at, "rest", "the reader of the rest sleeps at {at} of {} committed", l.committed);
                    Ok(())
                })?;
                match got {
                    None => return Ok(()),
                    Some(None) => {
                        check!(live.borrow().done, "rest", "the end before loading had finished");
                        check_eq!(at, text.len().max(*wat), "rest", "items read at the end");
                        break;
                    }
                    Some(Some(s)) => {
                        let ids: Vec<u32> = s.iter().map(|e| e.0).collect();
                        let wids: Vec<u32> = (at as u32..(at + ids.len()) as u32).collect();
                        check_eq!(ids, wids, "rest", "remaining items");
                        at += ids.len();
                    }
                }
            }
        }
        (Ok((o, _)), Err(e)) => fail!("result", "output {o:?} instead of the error {e:?}"),
        (Err(e), Ok(o)) => fail!("result", "error {e:?} instead of the output {o:?}"),
    }
    Ok(())
}
/// Long texts in many chunks, with the loading side a fixed number of actions ahead at each sleep of the parse.
fn long(ns: &[usize], strat: Strat) -> R {
    reset_elems();
    drive::reset();
    let n = pick(ns);
    let kind = choose(5); // fold, literal, literal that differs in its last item, folded take, advance
    let tail = pick(&[&b""[..], b"b", b"bab"]);
    let chunk = pick(&[1, 3, 17, usize::MAX]);
    let silent = flag();
    let (force, eager) = (flag(), flag());
    let burst = pick(&[1, 2, 64, usize::MAX]);
    let text: Vec<u8> = (0..n).map(|_| b'a').chain(tail.iter().copied()).collect();
    logln!("{strat:?}, {n} items and {tail:?} in chunks of {chunk}, then {}, parser {kind}, forced: {force}, eager: {eager}, {burst} actions at a time", if silent { "silence" } else { "the end" });
    TEXT.with(|t| *t.borrow_mut() = text.clone());
    let mut steps: Vec<Step> = text.chunks(chunk.min(text.len().max(1))).map(|c| Step::Write { grant: c.len(), push: c.len(), shrink: 0, cancel: false }).collect();
    if !silent {
        steps.push(Step::Finish);
    }
    let lit = |last: u8| -> Vec<Sym> { (0..n).map(|i| sym(if i + 1 == n { last } else { b'a' })).collect() };
    let folded_all: Out = (0..n as u32).collect();
    // what it yields, how many items decide it, and whether the end does too
    let (want, need, end): (Result<(Out, usize), Er>, usize, bool) = match kind {
        0 if tail.is_empty() => (Err(Er("miss", false)), n, true),
        0 => (Ok((folded_all, n + 1)), n + 1, false),
        1 => (Ok((vec![], n)), n, false),
        2 if n == 0 => (Ok((vec![], 0)), 0, false),
        2 => (Err(Er("miss", false)), n, false),
        3 => (Ok(((0..n as u32 / 2).collect(), n / 2)), n / 2, false),
        _ => (Ok((vec![], n)), n, false),
    };
    let (seq, live) = live::<Sym>(&Opts { strat, force, eager, windows: 0 }, steps);
    let f: std::pin::Pin<Box<dyn std::future::Future<Output = Res<LiveSeq<Sym>>>>> = match kind {
        0 => Box::pin(iterated(It::Fold, seq)),
        1 => Box::pin(wrapped(atom(lit(b'a')), Wrap::Plain, |()| vec![], seq)),
        2 => Box::pin(wrapped(atom(lit(b'b')), Wrap::Plain, |()| vec![], seq)),
        3 => Box::pin(iterated(It::Take(n / 2), seq)),
        _ => Box::pin(async move { Ok((vec![], seq.advance(n).await)) }),
    };
    let mut f = f;
    let r = lockstep(f.as_mut(), &live, burst, |l| {
        check!(!l.done && (l.committed < need || end), "sleeps", "the parse sleeps with {} items committed, {need} of which decide it", l.committed);
        Ok(())
    })?;
    let Some(r) = r else {
        check!(silent && (end || live.borrow().committed < need), "sleeps", "no result although all it needs was committed");
        return Ok(());
    };
    {
        let l = live.borrow();
        check!(l.done || !end && l.committed >= need, "early", "a result with {} of {need} items needed", l.committed);
    }
    outcome(&(n, want.is_ok()));
    match (r, want) {
        (Err(e), Err(w)) => check_eq!(e, w, "result", "error"),
        (Ok((o, mut s)), Ok((wo, wat))) => {
            check!(o == wo, "result", "another output ({} items of {})", o.len(), wo.len());
            let mut segs = s.segments();
            let mut at = wat;
            loop {
                let f = pin!(segs.next(1));
                let Some(Some(s)) = lockstep(f, &live, usize::MAX, |_| Ok(()))? else { break };
                for e in s {
                    check_eq!(e.0, at as u32, "rest", "remaining item");
                    at += 1;
                }
            }
            check_eq!(at, live.borrow().committed, "rest", "items read at the end");
        }
        (Ok(_), Err(e)) => fail!("result", "an output instead of the error {e:?}"),
        (Err(e), Ok(_)) => fail!("result", "error {e:?} instead of an output"),
    }
    Ok(())
}
/// Bytes from the repository's own source, validated once, twice or not at all, parsed while they are loaded.
mod chain {
    use super::*;
    use mc::drive;
    use parcom_internals::future::notify::Notify;
    use parcom_runners::default_runner::DefaultSequence;
    use parcom_sequence_core::{SequenceBuilder, SequenceLoader, SequenceSource};
    use parcom_sequence_sources::iterator_source::IteratorSource;
    use parcom_sequence_sources::utf8_validator::Utf8Validator;
    use parcom_sequences::generic::GenericSequenceBuilder;
    use std::future::Future;
    use std::sync::atomic::{AtomicBool, Ordering};
    use std::sync::Arc;
    use std::task::{Context, Poll};

    const PROGS: usize = 6;
    type Got<S> = Result<(Vec<u8>, S), ()>;
    async fn one<S: Sequence<Segment = [u8], Length = usize>>(p: &[u8], s: S) -> Got<S> {
        match atom(p).parse(s).await {
            Ok(((), s)) => Ok((p.to_vec(), s)),
            Err(_) => Err(()),
        }
    }
    async fn any<S: Sequence<Segment = [u8], Length = usize>>(s: S) -> Got<S> {
        match any_item().parse(s).await {
            Ok((b, s)) => Ok((vec![b], s)),
            Err(_) => Err(()),
        }
    }
    async fn prog<S: Sequence<Segment = [u8], Length = usize>>(k: usize, s: S) -> Got<S> {
        match k {
            0 => any(s).await,
            1 => one(b"a", s).await,
            2 => one("é".as_bytes(), s).await,
            3 => one("aé".as_bytes(), s).await,
            4 => {
                let (a, s) = any(s).await?;
                let (b, s) = any(s).await?;
                Ok(([a, b].concat(), s))
            }
            _ => any(s.advance(2).await).await,
        }
    }
    /// What a program makes of the complete input, and how many items decide it (and whether the end does).
    fn want(k: usize, all: &[u8]) -> (Result<(Vec<u8>, usize), ()>, usize, bool) {
        let lit = |p: &[u8]| match p.iter().zip(all).position(|(a, b)| a != b) {
            Some(i) => (Err(()), i + 1, false),
            None if all.len() >= p.len() => (Ok((p.to_vec(), p.len())), p.len(), false),
            None => (Err(()), all.len(), true),
        };
        let take = |from: usize, n: usize| match all.get(from..from + n) {
            Some(v) => (Ok((v.to_vec(), from + n)), from + n, false),
            None => (Err(()), all.len(), true),
        };
        match k {
            0 => take(0, 1),
            1 => lit(b"a"),
            2 => lit("é".as_bytes()),
            3 => lit("aé".as_bytes()),
            4 => take(0, 2),
            _ => take(2, 1),
        }
    }
    struct Loading<L> {
        loader: L,
        notify: Arc<Notify>,
        flag: Arc<AtomicBool>,
        committed: usize,
        /// what the loading side does next: load, or set the flag, or signal
        next: Vec<u8>,
        force: bool,
        ended: bool,
    }
    impl<L: SequenceLoader> Loading<L> {
        fn act(&mut self) {
            match self.next.pop().unwrap() {
                b'l' => {
                    let (n, end) = match drive::run(self.loader.load()) {
                        Ok(i) => {
                            self.committed += i.commited();
                            if self.force && !i.is_done() {
                                self.loader.force_commit();
                                self.committed += i.uncommited();
                            }
                            (i.commited() + i.uncommited(), i.is_done())
                        }
                        // an error ends the stream here; what was taken in is delivered
                        Err(_) => {
                            self.loader.force_commit();
                            (1, true)
                        }
                    };
                    logln!("loader: {} committed{}", self.committed, if end { ", ended" } else { "" });
                    self.next = match (end, n) {
                        (true, _) => vec![b's', b'f'],
                        (_, 0) => vec![b'l'],
                        _ => vec![b'l', b's'],
                    };
                }
                b'f' => {
                    self.ended = true;
                    self.flag.store(true, Ordering::SeqCst)
                }
                _ => self.notify.send(),
            }
        }
        fn settled(&self) -> bool {
            matches!(self.next.last(), None | Some(b'l'))
        }
    }
    fn interleave<F: Future, L: SequenceLoader>(f: F, l: &mut Loading<L>, mut idle: impl FnMut(&Loading<L>) -> R) -> Result<F::Output, Fail> {
        let mut f = pin!(f);
        let mut fl: Option<Arc<drive::Flag>> = None;
        let mut spins = 0;
        loop {
            let woken = fl.as_ref().map_or(true, |f| f.woken.load(Ordering::SeqCst));
            state(&(l.committed, &l.next, woken, spins));
            let asleep = !woken || spins > 4;
            if asleep && l.settled() {
                idle(l)?;
            }
            let poll = woken && spins <= 4;
            check!(poll || !l.next.is_empty() || woken && spins < 20, "sleeps", "the parse sleeps although the stream has ended");
            if l.next.is_empty() || poll && choose(2) == 0 {
                spins += 1;
                let (f2, w) = drive::waker();
                if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(&w)) {
                    return Ok(v);
                }
                fl = Some(f2);
            } else {
                spins = 0;
                l.act();
            }
        }
    }
    fn run<S: SequenceSource<Item = u8>>(bytes: &[u8], strat: Strat, source: S, unused: S) -> R {
        let (buffer, loader) = build(strat, source);
        let k = choose(PROGS);
        let force = flag();
        logln!("program {k}, forced: {force}");
        let seq: DefaultSequence<S, GenericSequenceBuilder<Strat>> = DefaultSequence::new(buffer, SequenceBuilder::<S>::build(&GenericSequenceBuilder::verif_new(strat), unused).1);
        let (notify, flag) = seq.verif_handles();
        let mut l = Loading { loader, notify, flag, committed: 0, next: vec![b'l'], force, ended: false };
        // what is delivered is text and a prefix of the stream, all of it if the stream is text
        let valid = std::str::from_utf8(bytes).map_or_else(|e| e.valid_up_to(), |s| s.len());
        let (w, need, end) = want(k, &bytes[..valid]);
        let sure = valid == bytes.len();
        let r = interleave(prog(k, seq), &mut l, |l| {
            check!(!l.ended && (l.committed < need || end || !sure), "sleeps", "the parse sleeps with {} items committed, {need} of which decide it{}", l.committed, if l.ended { "; the stream has ended" } else { "" });
            Ok(())
        })?;
        outcome(&(k, r.is_ok(), l.committed, l.ended));
        if sure {
            check!(l.ended || !end && l.committed >= need, "early", "a result with {} of {need} items needed", l.committed);
        }
        let (o, mut s) = match (r, w) {
            (Ok((o, s)), Ok((wo, _))) => {
                check_eq!(o, wo, "result", "output");
                (o, s)
            }
            (Err(()), Err(())) => return Ok(()),
            // a stream that breaks off may do so before the parse had what it needs
            (Err(()), Ok(_)) if !sure && l.ended => return Ok(()),
            (Err(()), Ok(o)) => fail!("result", "an error instead of {o:?}"),
            (Ok((o, _)), Err(())) => fail!("result", "output {o:?} instead of an error"),
        };
        let mut at = o.len() + if k == 5 { 2 } else { 0 };
        let mut segs = s.segments();
        while let Some(s) = interleave(segs.next(1), &mut l, |_| Ok(()))? {
            check!(bytes[at..valid].starts_with(s), "rest", "{s:x?} read at {at}");
            at += s.len();
        }
        check!(l.ended && (!sure || at == bytes.len()), "rest", "the end at {at} of {}", bytes.len());
        Ok(())
    }
    pub fn go(tokens: &[&[u8]], n: usize, strats: &[Strat]) -> R {
        drive::reset();
        let bytes: Vec<u8> = pick_word(tokens.len(), n).into_iter().flat_map(|i| tokens[i].to_vec()).collect();
        let mut chunks = vec![vec![]];
        let cuts = pick_cuts(bytes.len());
        for (i, b) in bytes.iter().enumerate() {
            if cuts.contains(&i) {
                chunks.push(vec![]);
            }
            chunks.last_mut().unwrap().push(*b);
        }
        let strat = pick(strats);
        let valid = std::str::from_utf8(&bytes).is_ok();
        let via = choose(3);
        logln!("{chunks:x?}, {strat:?}, validated {via} times");
        let src = |c: Vec<Vec<u8>>| IteratorSource::<_, u8>::new(c);
        match via {
            0 if !valid => Ok(()),
            0 => run(&bytes, strat, src(chunks), src(vec![])),
            1 => run(&bytes, strat, Utf8Validator::new(src(chunks)), Utf8Validator::new(src(vec![]))),
            _ => run(&bytes, strat, Utf8Validator::new(Utf8Validator::new(src(chunks))), Utf8Validator::new(Utf8Validator::new(src(vec![])))),
        }
    }
}
fn main() {
    mc::main(|t| {
        let prim = vec![Stp::P(Leaf::Any, Wrap::Plain), Stp::P(Leaf::A, Wrap::Plain), Stp::P(Leaf::Lit(""), Wrap::Plain), Stp::P(Leaf::Lit("b"), Wrap::Plain), Stp::P(Leaf::Lit("ab"), Wrap::Plain), Stp::P(Leaf::Lit("aba"), Wrap::Plain)];
        let mut wraps = vec![];
        for w in [Wrap::Map, Wrap::MapErrFatal, Wrap::AndThen, Wrap::Ref, Wrap::Boxed] {
            wraps.extend([Stp::P(Leaf::Any, w), Stp::P(Leaf::Lit("ab"), w)]);
        }
        let iters: Vec<Stp> = [It::Fold, It::Take(0), It::Take(1), It::Take(2), It::MapEach, It::Scan, It::MapWhile, It::TryMapEach, It::TakeOfTake].map(Stp::I).to_vec();
        let raw = vec![Stp::Peek(1), Stp::Peek(2), Stp::Advance(0), Stp::Advance(1), Stp::Advance(2), Stp::P(Leaf::Any, Wrap::Plain)];
        let mut jobs = vec![];
        let ns = explore::sizes(t.pick(1, 9, 40), t.pick(2, 513, 4097));
        for strat in [Strat::Exact, Strat::AtLeast(8), Strat::Double] {
            let ns = ns.clone();
            jobs.push(job(format!("long texts {strat:?}"), 0, move || long(&ns, strat)));
        }
        let n = t.pick(1, 2, 3);
        jobs.push(job("validated bytes", 0, move || chain::go(&[b"a", "é".as_bytes(), b"\xff", b"\xc3"], n, &[Strat::Exact, Strat::AtLeast(3), Strat::Double])));
        let mut add = |name: String, o: Opts, p: Plan| jobs.push(job(name, 0, move || go(&o, &p)));
        let base = Plan { steps: vec![], prog: t.pick(1, 2, 2), len: t.pick(1, 2, 3), extra: 0, spurious: 0, silent: true };
        for (name, steps) in [("primitives", &prim), ("adapted", &wraps), ("iterative", &iters), ("raw", &raw)] {
            for (force, eager) in [(true, false), (false, false), (false, true)] {
                let o = |strat, windows| Opts { strat, force, eager, windows };
                let n = format!("{name} force={force} eager={eager}");
                add(format!("{n} polls"), o(Strat::Exact, 0), Plan { steps: steps.clone(), extra: if eager { t.pick(0, 0, 1) } else { 0 }, ..base.clone() });
                add(format!("{n} inside polls"), o(Strat::Exact, t.pick(1, 2, 3)), Plan { steps: steps.clone(), prog: t.pick(1, 1, 2), silent: false, ..base.clone() });
            }
            add(format!("{name} longer"), Opts { strat: Strat::Exact, force: true, eager: false, windows: 0 }, Plan { steps: steps.clone(), prog: t.pick(1, 1, 2), len: t.pick(1, 3, 4), silent: false, ..base.clone() });
            add(format!("{name} spurious polls"), Opts { strat: Strat::Exact, force: true, eager: false, windows: 0 }, Plan { steps: steps.clone(), prog: 1, spurious: t.pick(0, 1, 2), extra: t.pick(0, 1, 1), ..base.clone() });
            for strat in STRATS {
                add(format!("{name} {strat:?}"), Opts { strat, force: false, eager: false, windows: t.pick(0, 1, 2) }, Plan { steps: steps.clone(), prog: 1, len: t.pick(1, 2, 3), silent: false, ..base.clone() });
            }
        }
        jobs
    })
}
