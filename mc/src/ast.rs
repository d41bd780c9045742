//! Combinator expressions over type-erased components: enumeration, construction from the real combinators, and
//! a reference interpreter of ordered-choice grammar semantics.
use crate::explore::choose;
use crate::seq::Probe;
use parcom_core::{primitive::BytesDelta, IterativeParser, IterativeParserOnce, ParseError, ParseResult, Parser, ParserOnce, RewindSequence};
use parcom_parsers::primitive::{any_char, atom, the_char};
use parcom_parsers::{iterative, util::Boxed, *};
use parcom_util::error::{Fatal, Miss};
use parcom_util::{Either, EitherBoth};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::marker::PhantomData;
use std::pin::Pin;
use std::rc::Rc;

pub trait In: RewindSequence<Segment = str, Length = BytesDelta> + Probe + 'static {}
impl<S: RewindSequence<Segment = str, Length = BytesDelta> + Probe + 'static> In for S {}

thread_local! {
    /// Every leaf result and every error owns memory, so that the allocator sees what becomes of it.
    pub static HEAVY: Cell<bool> = const { Cell::new(false) };
    /// The component call (counted down) that panics.
    pub static PANIC_IN: Cell<usize> = const { Cell::new(usize::MAX) };
}
/// Memory owned by a value; of no other significance.
pub struct Tok(Option<Box<u8>>);
impl Default for Tok {
    fn default() -> Tok {
        Tok(HEAVY.get().then(|| Box::new(0)))
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        Tok(self.0.clone())
    }
}
impl PartialEq for Tok {
    fn eq(&self, _: &Tok) -> bool {
        true
    }
}
impl Eq for Tok {}
impl std::hash::Hash for Tok {
    fn hash<H: std::hash::Hasher>(&self, _: &mut H) {}
}
impl std::fmt::Debug for Tok {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
        Ok(())
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Tree {
    C(char, Tok),
    U(Leaf, Tok),
    Pair(Box<Tree>, Box<Tree>),
    First(Box<Tree>),
    Last(Box<Tree>),
    U0(Box<Tree>),
    U1(Box<Tree>),
    Opt(Result<Box<Tree>, Er>),
    Rep(Vec<Tree>, Er),
    Coll(Vec<Tree>, Option<Er>),
    Fold(Vec<Tree>),
    M(Box<Tree>),
    A(Box<Tree>),
    Term(Box<Tree>),
    Bin(Box<Tree>, Box<Tree>, Box<Tree>),
    Expr(Box<Tree>, Er),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum K {
    Leaf(Leaf),
    First(Box<Er>),
    Last(Box<Er>),
    B0(Box<Er>),
    B1(Box<Er>),
    Both(Box<Er>, Box<Er>),
    M(Box<Er>),
    Inner(Box<Er>),
    Rej(Box<Tree>),
    U0(Box<Er>),
    U1(Box<Er>),
}
/// An error with the termination verdict its real type gave.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Er {
    pub k: K,
    pub term: bool,
    pub tok: Tok,
}
impl ParseError for Er {
    fn should_terminate(&self) -> bool {
        self.term
    }
}
pub fn er(k: K, term: bool) -> Er {
    Er { k, term, tok: Tok::default() }
}
fn bx<T>(t: T) -> Box<T> {
    Box::new(t)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Leaf {
    A,
    B,
    Any,
    AB,
    Eps,
    /// consumes one character if there is one, then misses
    MissAfter,
    /// consumes one character if there is one, then fails fatally
    FatalAfter,
    Nl,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Un {
    Opt,
    Rep,
    Map,
    MapErr,
    /// refuses outputs whose first character is 'a' with a miss
    AndThen,
    /// refuses outputs whose first character is 'b' with a fatal error
    AndThenFatal,
    Ref,
    Boxed,
    Coll,
    Fold,
    CollTake,
    CollOpt,
    FoldTake,
    FoldOpt,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bin {
    Join,
    Or,
    OrUnify,
    JoinUnifyErr,
    Expr,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ast {
    L(Leaf, usize),
    U(Un, Box<Ast>),
    B(Bin, Box<Ast>, Box<Ast>),
}
pub struct Alphabet {
    pub leaves: Vec<Leaf>,
    pub un: Vec<Un>,
    pub bin: Vec<Bin>,
}
impl Ast {
    /// Every expression of at most `budget` nodes, each exactly once. Returns the nodes used.
    pub fn gen(al: &Alphabet, budget: usize) -> Ast {
        let mut id = 0;
        Self::gen1(al, budget, &mut id).0
    }
    fn gen1(al: &Alphabet, budget: usize, id: &mut usize) -> (Ast, usize) {
        let (l, u, b) = (al.leaves.len(), if budget >= 2 { al.un.len() } else { 0 }, if budget >= 3 { al.bin.len() } else { 0 });
        let c = choose(l + u + b);
        if c < l {
            *id += 1;
            (Ast::L(al.leaves[c], *id - 1), 1)
        } else if c < l + u {
            let (a, n) = Self::gen1(al, budget - 1, id);
            (Ast::U(al.un[c - l], bx(a)), n + 1)
        } else {
            let (x, n) = Self::gen1(al, budget - 2, id);
            let (y, m) = Self::gen1(al, budget - 1 - n, id);
            (Ast::B(al.bin[c - l - u], bx(x), bx(y)), n + m + 1)
        }
    }
}

// ------------------------------------------------------------------ observation of component calls
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Call {
    pub leaf: usize,
    pub left: usize,
    pub metric: (usize, usize, usize),
}
pub type Log = Rc<RefCell<Vec<Call>>>;

// ------------------------------------------------------------------ type erasure
type Fut<'a, S> = Pin<Box<dyn Future<Output = ParseResult<S, Tree, Er>> + 'a>>;
pub trait DynParser<S: In> {
    fn by_ref<'a>(&'a self, s: S) -> Fut<'a, S>;
    fn by_val(self: Box<Self>, s: S) -> Fut<'static, S>;
}
pub struct DynP<S: In>(pub Box<dyn DynParser<S>>);
impl<S: In> ParserOnce<S> for DynP<S> {
    type Output = Tree;
    type Error = Er;
    fn parse_once(self, s: S) -> impl Future<Output = ParseResult<S, Tree, Er>> {
        self.0.by_val(s)
    }
}
impl<S: In> Parser<S> for DynP<S> {
    fn parse(&self, s: S) -> impl Future<Output = ParseResult<S, Tree, Er>> {
        self.0.by_ref(s)
    }
}
/// Adapts a real parser's output and error types; nothing else.
struct Conv<P, FO, FE>(P, FO, FE);
impl<S: In, P: Parser<S> + 'static, FO: Fn(P::Output) -> Tree + Clone + 'static, FE: Fn(P::Error) -> Er + Clone + 'static> DynParser<S> for Conv<P, FO, FE> {
    fn by_ref<'a>(&'a self, s: S) -> Fut<'a, S> {
        Box::pin(async move {
            match self.0.parse(s).await {
                Ok((v, r)) => Ok(((self.1)(v), r)),
                Err((e, r)) => Err(((self.2)(e), r)),
            }
        })
    }
    fn by_val(self: Box<Self>, s: S) -> Fut<'static, S> {
        let Conv(p, fo, fe) = *self;
        Box::pin(async move {
            match p.parse_once(s).await {
                Ok((v, r)) => Ok((fo(v), r)),
                Err((e, r)) => Err((fe(e), r)),
            }
        })
    }
}
fn conv<S: In, P: Parser<S> + 'static>(p: P, fo: impl Fn(P::Output) -> Tree + Clone + 'static, fe: impl Fn(P::Error) -> Er + Clone + 'static) -> DynP<S> {
    DynP(Box::new(Conv(p, fo, fe)))
}
/// Records where a component is run, then runs it.
struct Logged<P> {
    id: usize,
    log: Log,
    p: P,
}
impl<P> Logged<P> {
    fn note(&self, s: &mut impl Probe) {
        let (left, metric) = (s.left(), s.metric());
        crate::alloc::exempt(|| self.log.borrow_mut().push(Call { leaf: self.id, left, metric }));
        match PANIC_IN.get() {
            usize::MAX => {}
            0 => panic!("a component gives up"),
            n => PANIC_IN.set(n - 1),
        }
    }
}
impl<S: In, P: Parser<S>> ParserOnce<S> for Logged<P> {
    type Output = P::Output;
    type Error = P::Error;
    async fn parse_once(self, mut s: S) -> ParseResult<S, P::Output, P::Error> {
        self.note(&mut s);
        self.p.parse_once(s).await
    }
}
impl<S: In, P: Parser<S>> Parser<S> for Logged<P> {
    async fn parse(&self, mut s: S) -> ParseResult<S, P::Output, P::Error> {
        self.note(&mut s);
        self.p.parse(s).await
    }
}

// ------------------------------------------------------------------ wrappers used to make both sides of a choice distinct types
struct Lt(Tree);
struct Rt(Tree);
struct Ut(Tree);
impl From<Lt> for Ut {
    fn from(x: Lt) -> Ut {
        Ut(Tree::U0(bx(x.0)))
    }
}
impl From<Rt> for Ut {
    fn from(x: Rt) -> Ut {
        Ut(Tree::U1(bx(x.0)))
    }
}
struct Le(Er);
struct Re(Er);
struct Ue(Er);
impl ParseError for Le {
    fn should_terminate(&self) -> bool {
        self.0.term
    }
}
impl ParseError for Re {
    fn should_terminate(&self) -> bool {
        self.0.term
    }
}
impl ParseError for Ue {
    fn should_terminate(&self) -> bool {
        self.0.term
    }
}
impl From<Le> for Ue {
    fn from(x: Le) -> Ue {
        let t = x.0.term;
        Ue(er(K::U0(bx(x.0)), t))
    }
}
impl From<Re> for Ue {
    fn from(x: Re) -> Ue {
        let t = x.0.term;
        Ue(er(K::U1(bx(x.0)), t))
    }
}
/// Retypes output and error of a component.
struct Wrap<S, P, O, E, FO, FE>(P, FO, FE, PhantomData<(S, O, E)>);
impl<S: In, P: Parser<S>, O, E: ParseError, FO: Fn(P::Output) -> O, FE: Fn(P::Error) -> E> ParserOnce<S> for Wrap<S, P, O, E, FO, FE> {
    type Output = O;
    type Error = E;
    async fn parse_once(self, s: S) -> ParseResult<S, O, E> {
        match self.0.parse_once(s).await {
            Ok((v, r)) => Ok(((self.1)(v), r)),
            Err((e, r)) => Err(((self.2)(e), r)),
        }
    }
}
impl<S: In, P: Parser<S>, O, E: ParseError, FO: Fn(P::Output) -> O, FE: Fn(P::Error) -> E> Parser<S> for Wrap<S, P, O, E, FO, FE> {
    async fn parse(&self, s: S) -> ParseResult<S, O, E> {
        match self.0.parse(s).await {
            Ok((v, r)) => Ok(((self.1)(v), r)),
            Err((e, r)) => Err(((self.2)(e), r)),
        }
    }
}
fn wrap<S: In, P: Parser<S>, O, E: ParseError, FO: Fn(P::Output) -> O, FE: Fn(P::Error) -> E>(p: P, fo: FO, fe: FE) -> Wrap<S, P, O, E, FO, FE> {
    Wrap(p, fo, fe, PhantomData)
}
/// A parser that owns another one and runs it through the real by-reference combinator.
struct ViaRef<S: In>(DynP<S>);
impl<S: In> ParserOnce<S> for ViaRef<S> {
    type Output = Tree;
    type Error = Er;
    async fn parse_once(self, s: S) -> ParseResult<S, Tree, Er> {
        Ref::new(&self.0).parse_once(s).await
    }
}
impl<S: In> Parser<S> for ViaRef<S> {
    async fn parse(&self, s: S) -> ParseResult<S, Tree, Er> {
        let r = Ref::new(&self.0);
        let r2 = r;
        r2.parse(s).await
    }
}

struct Inner(Er);
impl From<Er> for Inner {
    fn from(e: Er) -> Self {
        let t = e.term;
        Inner(er(K::Inner(bx(e)), t))
    }
}
impl ParseError for Inner {
    fn should_terminate(&self) -> bool {
        self.0.term
    }
}

// ------------------------------------------------------------------ binary expressions
pub struct Op(Tree);
/// (precedence, left associative) of an operator with this output.
pub fn op_kind(t: &Tree) -> (usize, bool) {
    match first_char(t) {
        Some('a') => (0, true),
        Some('b') => (1, false),
        _ => (1, true),
    }
}
impl bin_expr::Operator for Op {
    fn precedence(&self) -> usize {
        op_kind(&self.0).0
    }
    fn associativity(&self) -> bin_expr::Associativity {
        if op_kind(&self.0).1 {
            bin_expr::Associativity::Left
        } else {
            bin_expr::Associativity::Right
        }
    }
}
struct Ex(Tree);
struct Tm(Tree);
impl From<Tm> for Ex {
    fn from(t: Tm) -> Ex {
        Ex(Tree::Term(bx(t.0)))
    }
}
impl From<(Ex, Op, Ex)> for Ex {
    fn from((l, o, r): (Ex, Op, Ex)) -> Ex {
        Ex(Tree::Bin(bx(l.0), bx(o.0), bx(r.0)))
    }
}

pub fn first_char(t: &Tree) -> Option<char> {
    match t {
        Tree::C(c, _) => Some(*c),
        Tree::U(l, _) => match l {
            Leaf::A | Leaf::AB => Some('a'),
            Leaf::B => Some('b'),
            Leaf::Nl => Some('\n'),
            _ => None,
        },
        Tree::Pair(a, b) => first_char(a).or_else(|| first_char(b)),
        Tree::First(a) | Tree::Last(a) | Tree::U0(a) | Tree::U1(a) | Tree::M(a) | Tree::A(a) | Tree::Term(a) | Tree::Expr(a, _) => first_char(a),
        Tree::Opt(r) => r.as_ref().ok().and_then(|x| first_char(x)),
        Tree::Rep(v, _) | Tree::Coll(v, _) | Tree::Fold(v) => v.iter().find_map(first_char),
        Tree::Bin(a, _, _) => first_char(a),
    }
}

fn ident(e: Er) -> Er {
    e
}
fn either(e: Either<Er, Er>) -> Er {
    let t = e.should_terminate();
    match e {
        Either::First(e) => er(K::First(bx(e)), t),
        Either::Last(e) => er(K::Last(bx(e)), t),
    }
}
fn either_both(e: EitherBoth<Er, Er>) -> Er {
    let t = e.should_terminate();
    match e {
        EitherBoth::First(e) => er(K::B0(bx(e)), t),
        EitherBoth::Last(e) => er(K::B1(bx(e)), t),
        EitherBoth::Both(a, b) => er(K::Both(bx(a), bx(b)), t),
    }
}
fn or_out(o: Either<Tree, Tree>) -> Tree {
    match o {
        Either::First(t) => Tree::First(bx(t)),
        Either::Last(t) => Tree::Last(bx(t)),
    }
}

fn push(mut v: Vec<Tree>, t: Tree) -> Vec<Tree> {
    v.push(t);
    v
}

/// Builds the real parser.
pub fn build<S: In>(a: &Ast, log: &Log) -> DynP<S> {
    match a {
        Ast::L(l, id) => {
            let l = *l;
            let (id, log) = (*id, log.clone());
            let miss = move |e: Miss<()>| er(K::Leaf(l), e.should_terminate());
            let unit = move |()| Tree::U(l, Tok::default());
            match l {
                Leaf::A => conv(Logged { id, log, p: the_char('a') }, unit, miss),
                Leaf::B => conv(Logged { id, log, p: the_char('b') }, unit, miss),
                Leaf::Nl => conv(Logged { id, log, p: the_char('\n') }, unit, miss),
                Leaf::AB => conv(Logged { id, log, p: atom("ab") }, unit, miss),
                Leaf::Any => conv(Logged { id, log, p: any_char::<S>() }, |c| Tree::C(c, Tok::default()), miss),
                Leaf::Eps => conv(Logged { id, log, p: |s: S| async move { Ok::<_, (Miss<()>, _)>(((), s)) } }, unit, miss),
                Leaf::MissAfter => conv(
                    Logged {
                        id,
                        log,
                        p: |s: S| async move {
                            match any_char().parse(s).await {
                                Ok((_, s)) => Err::<((), S), _>((Miss(()), s.into())),
                                Err((e, s)) => Err((e, s)),
                            }
                        },
                    },
                    unit,
                    miss,
                ),
                Leaf::FatalAfter => conv(
                    Logged {
                        id,
                        log,
                        p: |s: S| async move {
                            match any_char().parse(s).await {
                                Ok((_, s)) => Err::<((), S), _>((Fatal(()), s.into())),
                                Err((_, s)) => Err((Fatal(()), s)),
                            }
                        },
                    },
                    unit,
                    move |e: Fatal<()>| er(K::Leaf(l), e.should_terminate()),
                ),
            }
        }
        Ast::U(u, x) => {
            let p = build::<S>(x, log);
            match u {
                Un::Opt => conv(p.optional(), |r| Tree::Opt(r.map(bx)), ident),
                Un::Rep => conv(p.repeat(), |(v, e)| Tree::Rep(v, e), ident),
                Un::Map => conv(p.map(|t| Tree::M(bx(t))), |t| t, ident),
                Un::MapErr => conv(
                    p.map_err(|e| {
                        let t = e.term;
                        er(K::M(bx(e)), t)
                    }),
                    |t| t,
                    ident,
                ),
                Un::AndThen => conv(
                    p.and_then(|t| if first_char(&t) == Some('a') { Err(Inner(er(K::Rej(bx(t)), false))) } else { Ok(Tree::A(bx(t))) }),
                    |t| t,
                    |e: Inner| e.0,
                ),
                Un::AndThenFatal => conv(
                    p.and_then(|t| if first_char(&t) == Some('b') { Err(Inner(er(K::Rej(bx(t)), true))) } else { Ok(Tree::A(bx(t))) }),
                    |t| t,
                    |e: Inner| e.0,
                ),
                Un::Ref => conv(ViaRef(p), |t| t, ident),
                Un::Boxed => conv(Boxed::new(p), |t| t, ident),
                Un::Coll => conv(iterative::Collect::<S, _, Vec<Tree>>::new(p.repeat()), |(v, e)| Tree::Coll(v, e), ident),
                Un::CollTake => conv(p.repeat().take(2).collect::<Vec<Tree>>(), |(v, e)| Tree::Coll(v, e), ident),
                Un::CollOpt => conv(p.optional().collect::<Vec<Tree>>(), |(v, e)| Tree::Coll(v, e), ident),
                Un::Fold => conv(p.repeat().fold(Vec::new(), push), Tree::Fold, ident),
                Un::FoldTake => conv(p.repeat().take(2).fold(Vec::new(), push), Tree::Fold, ident),
                Un::FoldOpt => conv(p.optional().fold(Vec::new(), push), Tree::Fold, ident),
            }
        }
        Ast::B(b, x, y) => {
            let (p, q) = (build::<S>(x, log), build::<S>(y, log));
            match b {
                Bin::Join => conv(p.join(q), |(a, b)| Tree::Pair(bx(a), bx(b)), either),
                Bin::Or => conv(p.or(q), or_out, either_both),
                Bin::OrUnify => conv(wrap(p, Lt, ident).or(wrap(q, Rt, ident)).unify::<Lt, Rt, Ut>(), |t: Ut| t.0, either_both),
                Bin::JoinUnifyErr => conv(
                    wrap(p, |t: Tree| t, Le).join(wrap(q, |t: Tree| t, Re)).unify_err::<Le, Re, Ue>(),
                    |(a, b)| Tree::Pair(bx(a), bx(b)),
                    |e: Ue| e.0,
                ),
                Bin::Expr => conv(
                    bin_expr::BinExprParser::<S, _, _, Ex>::new(wrap(p, Tm, ident), wrap(q, Op, ident)),
                    |(e, why)| Tree::Expr(bx(e.0), either(why)),
                    either,
                ),
            }
        }
    }
}

// ------------------------------------------------------------------ reference semantics
pub enum Out {
    Ok(Tree, usize),
    Err(Er),
    /// a repetition that never ends on this input: outside the domain
    Loop,
}
macro_rules! ok {
    ($e:expr) => {
        match $e {
            Out::Ok(t, p) => (t, p),
            o => return o,
        }
    };
}
pub struct Spec<'a> {
    pub text: &'a str,
    pub metric: &'a dyn Fn(&str) -> (usize, usize, usize),
    pub log: Vec<Call>,
}
impl<'a> Spec<'a> {
    pub fn run(&mut self, a: &Ast, at: usize) -> Out {
        match a {
            Ast::L(l, id) => {
                let metric = (self.metric)(&self.text[..at]);
                self.log.push(Call { leaf: *id, left: self.text.len() - at, metric });
                let rest = &self.text[at..];
                let lit = |s: &str| if rest.starts_with(s) { Out::Ok(Tree::U(*l, Tok::default()), at + s.len()) } else { Out::Err(er(K::Leaf(*l), false)) };
                match l {
                    Leaf::A => lit("a"),
                    Leaf::B => lit("b"),
                    Leaf::Nl => lit("\n"),
                    Leaf::AB => lit("ab"),
                    Leaf::Eps => lit(""),
                    Leaf::Any => match rest.chars().next() {
                        Some(c) => Out::Ok(Tree::C(c, Tok::default()), at + c.len_utf8()),
                        None => Out::Err(er(K::Leaf(*l), false)),
                    },
                    Leaf::MissAfter => Out::Err(er(K::Leaf(*l), false)),
                    Leaf::FatalAfter => Out::Err(er(K::Leaf(*l), true)),
                }
            }
            Ast::U(u, x) => match u {
                Un::Opt => match self.run(x, at) {
                    Out::Ok(t, p) => Out::Ok(Tree::Opt(Ok(bx(t))), p),
                    Out::Err(e) if !e.term => Out::Ok(Tree::Opt(Err(e)), at),
                    o => o,
                },
                Un::Rep | Un::Coll | Un::Fold | Un::CollTake | Un::CollOpt | Un::FoldTake | Un::FoldOpt => {
                    let max = match u {
                        Un::CollTake | Un::FoldTake => 2,
                        Un::CollOpt | Un::FoldOpt => 1,
                        _ => usize::MAX,
                    };
                    let (mut v, mut p) = (vec![], at);
                    let mut last = None;
                    while v.len() < max {
                        match self.run(x, p) {
                            Out::Ok(_, q) if q == p && max == usize::MAX => return Out::Loop,
                            Out::Ok(t, q) => {
                                v.push(t);
                                p = q
                            }
                            Out::Err(e) => {
                                last = Some(e);
                                break;
                            }
                            Out::Loop => return Out::Loop,
                        }
                    }
                    match (u, last) {
                        (Un::Rep, Some(e)) if !e.term => Out::Ok(Tree::Rep(v, e), p),
                        (Un::Rep | Un::Fold | Un::FoldTake | Un::FoldOpt, Some(e)) if e.term => Out::Err(e),
                        (Un::Fold | Un::FoldTake | Un::FoldOpt, _) => Out::Ok(Tree::Fold(v), p),
                        (_, e) => Out::Ok(Tree::Coll(v, e.filter(|e| e.term)), p),
                    }
                }
                Un::Map => {
                    let (t, p) = ok!(self.run(x, at));
                    Out::Ok(Tree::M(bx(t)), p)
                }
                Un::MapErr => match self.run(x, at) {
                    Out::Err(e) => {
                        let t = e.term;
                        Out::Err(er(K::M(bx(e)), t))
                    }
                    o => o,
                },
                Un::AndThen | Un::AndThenFatal => match self.run(x, at) {
                    Out::Ok(t, p) => {
                        let (bad, term) = if *u == Un::AndThen { ('a', false) } else { ('b', true) };
                        if first_char(&t) == Some(bad) {
                            Out::Err(er(K::Rej(bx(t)), term))
                        } else {
                            Out::Ok(Tree::A(bx(t)), p)
                        }
                    }
                    Out::Err(e) => {
                        let t = e.term;
                        Out::Err(er(K::Inner(bx(e)), t))
                    }
                    o => o,
                },
                Un::Ref | Un::Boxed => self.run(x, at),
            },
            Ast::B(b, x, y) => match b {
                Bin::Join | Bin::JoinUnifyErr => {
                    let u = *b == Bin::JoinUnifyErr;
                    let (t, p) = match self.run(x, at) {
                        Out::Err(e) => {
                            let term = e.term;
                            return Out::Err(er(if u { K::U0(bx(e)) } else { K::First(bx(e)) }, term));
                        }
                        o => ok!(o),
                    };
                    let (s, p) = match self.run(y, p) {
                        Out::Err(e) => {
                            let term = e.term;
                            return Out::Err(er(if u { K::U1(bx(e)) } else { K::Last(bx(e)) }, term));
                        }
                        o => ok!(o),
                    };
                    Out::Ok(Tree::Pair(bx(t), bx(s)), p)
                }
                Bin::Or | Bin::OrUnify => {
                    let u = *b == Bin::OrUnify;
                    let e0 = match self.run(x, at) {
                        Out::Ok(t, p) => return Out::Ok(if u { Tree::U0(bx(t)) } else { Tree::First(bx(t)) }, p),
                        Out::Err(e) if e.term => return Out::Err(er(K::B0(bx(e)), true)),
                        Out::Err(e) => e,
                        Out::Loop => return Out::Loop,
                    };
                    match self.run(y, at) {
                        Out::Ok(t, p) => Out::Ok(if u { Tree::U1(bx(t)) } else { Tree::Last(bx(t)) }, p),
                        Out::Err(e) if e.term => Out::Err(er(K::B1(bx(e)), true)),
                        Out::Err(e) => Out::Err(er(K::Both(bx(e0), bx(e)), false)),
                        Out::Loop => Out::Loop,
                    }
                }
                Bin::Expr => {
                    let wrap_op = |e: Er| {
                        let t = e.term;
                        er(K::First(bx(e)), t)
                    };
                    let wrap_tm = |e: Er| {
                        let t = e.term;
                        er(K::Last(bx(e)), t)
                    };
                    let (t, mut p) = match self.run(x, at) {
                        Out::Err(e) => return Out::Err(wrap_tm(e)),
                        o => ok!(o),
                    };
                    let (mut terms, mut ops) = (vec![t], vec![]);
                    let why = loop {
                        let (o, q) = match self.run(y, p) {
                            Out::Ok(t, q) => (t, q),
                            Out::Err(e) if e.term => return Out::Err(wrap_op(e)),
                            Out::Err(e) => break wrap_op(e),
                            Out::Loop => return Out::Loop,
                        };
                        let (t, q) = match self.run(x, q) {
                            Out::Ok(t, q) => (t, q),
                            Out::Err(e) if e.term => return Out::Err(wrap_tm(e)),
                            Out::Err(e) => break wrap_tm(e),
                            Out::Loop => return Out::Loop,
                        };
                        if q == p {
                            return Out::Loop;
                        }
                        p = q;
                        ops.push(o);
                        terms.push(t);
                    };
                    Out::Ok(Tree::Expr(bx(climb(&terms, &ops)), why), p)
                }
            },
        }
    }
}
fn climb(terms: &[Tree], ops: &[Tree]) -> Tree {
    fn go(terms: &[Tree], ops: &[Tree], i: &mut usize, min: u128) -> Tree {
        let mut lhs = Tree::Term(bx(terms[*i].clone()));
        while *i < ops.len() {
            let o = &ops[*i];
            let (p, left) = op_kind(o);
            if (p as u128) < min {
                break;
            }
            *i += 1;
            let rhs = go(terms, ops, i, p as u128 + left as u128);
            lhs = Tree::Bin(bx(lhs), bx(o.clone()), bx(rhs));
        }
        lhs
    }
    go(terms, ops, &mut 0, 0)
}

/// Sharing statically allocated inputs between executions (component futures must not borrow from the harness).
pub fn words(k: &[char], max: usize) -> Vec<&'static str> {
    let mut all = vec![String::new()];
    let mut from = 0;
    for _ in 0..max {
        let to = all.len();
        for i in from..to {
            for c in k {
                let mut s = all[i].clone();
                s.push(*c);
                all.push(s);
            }
        }
        from = to;
    }
    all.into_iter().map(|s| &*Box::leak(s.into_boxed_str())).collect()
}

pub type Got = Result<(Tree, usize), Er>;
/// Turns a finished parse into output and bytes left.
pub fn got<S: In>(r: ParseResult<S, Tree, Er>) -> Got {
    match r {
        Ok((t, mut s)) => Ok((t, s.left())),
        Err((e, _)) => Err(e),
    }
}
pub fn judge(want: &Out, g: &Got, text: &str) -> crate::R {
    use crate::*;
    match (want, g) {
        (Out::Ok(w, n), Ok((t, left))) => {
            outcome(&("ok", w));
            check_eq!(t, w, "output", "output");
            check_eq!(text.len() - left, *n, "rest", "position after success");
        }
        (Out::Err(w), Err(g)) => {
            outcome(&("err", w));
            check_eq!(g, w, "error", "error");
        }
        (Out::Ok(w, _), Err(e)) => fail!("fails", "failed with {e:?}, expected {w:?}"),
        (Out::Err(w), Ok((g, _))) => fail!("succeeds", "succeeded with {g:?}, expected {w:?}"),
        (Out::Loop, _) => unreachable!(),
    }
    Ok(())
}
pub const ALL_UN: [Un; 14] = [Un::Opt, Un::Rep, Un::Map, Un::MapErr, Un::AndThen, Un::AndThenFatal, Un::Ref, Un::Boxed, Un::Coll, Un::Fold, Un::CollTake, Un::CollOpt, Un::FoldTake, Un::FoldOpt];
pub const ALL_BIN: [Bin; 5] = [Bin::Join, Bin::Or, Bin::OrUnify, Bin::JoinUnifyErr, Bin::Expr];
/// The text in one piece, in one piece per character, or that with an empty piece in front of every one.
pub fn pieces(text: &str, how: usize) -> Rc<crate::seq::Pieces<str>> {
    Rc::new(crate::seq::Pieces(match how {
        0 => vec![text.into()],
        1 => text.chars().map(|c| c.to_string().into()).collect(),
        _ => text.chars().flat_map(|c| ["".into(), c.to_string().into()]).collect(),
    }))
}

/// Sizes at which repetition, chaining and nesting are tried.
pub struct Ladder {
    reps: Vec<usize>,
    exprs: Vec<usize>,
    nests: Vec<usize>,
    long: &'static str,
}
impl Ladder {
    pub fn new(t: crate::Tier) -> Ladder {
        Self::up_to(t, t.pick(9, 65537, 262145))
    }
    pub fn up_to(t: crate::Tier, max: usize) -> Ladder {
        use crate::sizes;
        Ladder { reps: sizes(t.pick(2, 70, 600), max), exprs: sizes(t.pick(2, 40, 300), t.pick(5, 1025, 4097)), nests: sizes(t.pick(2, 24, 60), t.pick(3, 257, 513)), long: Box::leak("ab".repeat(max + 1).into_boxed_str()) }
    }
    /// An expression and input with one dimension at some size of the ladder.
    pub fn case(&self) -> (Ast, &'static str) {
        use crate::{flag, pick};
        let l = |l, i| Ast::L(l, i);
        let un = |u, a| Ast::U(u, bx(a));
        let bin = |b, x, y| Ast::B(b, bx(x), bx(y));
        match choose(4) {
            0 => {
                // a long repetition, ending by a mismatch, at the end of input or by a terminating error
                let n = pick(&self.reps);
                let u = pick(&[Un::Rep, Un::Coll, Un::Fold]);
                let end = choose(3);
                let pair = bin(Bin::Join, l(Leaf::A, 0), l(Leaf::B, 1));
                let body = match end {
                    0 => pair,
                    1 => bin(Bin::Join, l(Leaf::A, 0), bin(Bin::Or, l(Leaf::B, 1), l(Leaf::MissAfter, 2))),
                    _ => bin(Bin::Or, pair, l(Leaf::FatalAfter, 2)),
                };
                let half = end == 1;
                (un(u, body), &self.long[..2 * n + half as usize])
            }
            1 => {
                let n = pick(&self.exprs);
                let fatal = flag();
                let op = if fatal { bin(Bin::Or, l(Leaf::B, 1), l(Leaf::FatalAfter, 2)) } else { l(Leaf::B, 1) };
                (bin(Bin::Expr, l(Leaf::A, 0), op), &self.long[..n])
            }
            2 => {
                let n = pick(&self.nests);
                let mut a = l(pick(&[Leaf::A, Leaf::MissAfter, Leaf::FatalAfter]), 0);
                let u = pick(&ALL_UN);
                // nesting take(2) runs its body 2^n times
                let n = if matches!(u, Un::CollTake | Un::FoldTake) { n.min(7) } else { n };
                for _ in 0..n {
                    a = un(u, a);
                }
                (a, &self.long[..choose(3)])
            }
            _ => {
                let n = pick(&self.nests);
                let b = pick(&[Bin::Join, Bin::Or, Bin::OrUnify, Bin::JoinUnifyErr]);
                let left = flag();
                let mk = |i: usize| match b {
                    Bin::Or | Bin::OrUnify => l(Leaf::MissAfter, i),
                    _ => l(if i % 2 == 0 { Leaf::A } else { Leaf::B }, i),
                };
                let (first, last) = match b {
                    Bin::Or | Bin::OrUnify => (mk(0), pick(&[Leaf::MissAfter, Leaf::FatalAfter, Leaf::A])),
                    _ => (mk(0), pick(&[Leaf::MissAfter, Leaf::FatalAfter, Leaf::Eps])),
                };
                // operands 0..n in order, then the one that decides
                let mut ops: Vec<Ast> = (0..n).map(mk).collect();
                if n == 0 {
                    ops.push(first)
                }
                ops.push(l(last, n + 1));
                let a = if left { ops.into_iter().reduce(|x, y| bin(b, x, y)) } else { ops.into_iter().rev().reduce(|x, y| bin(b, y, x)) };
                (a.unwrap(), &self.long[..n + 1])
            }
        }
    }
}
