//! C26: whole grammars written with the library, recursive ones included, against hand-written recognisers.
use mc::drive::{self, calm, run};
use mc::seq::*;
use mc::*;
use parcom_core::measured::IntoMeasured;
use parcom_core::primitive::BytesDelta;
use parcom_core::*;
use parcom_metrics::{end_of_line, LineColumn};
use parcom_parsers::bin_expr::{Associativity, BinExprParser, Operator};
use parcom_parsers::primitive::{any_char, any_item, atom, the_char, the_item};
use parcom_parsers::{IterativeParserExtension, ParserExtension};
use std::rc::Rc;

/// A refusal; `true` if the grammar was committed when it refused.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Er(bool);
impl ParseError for Er {
    fn should_terminate(&self) -> bool {
        self.0
    }
}
fn flat<E: ParseError>(e: E) -> Er {
    Er(e.should_terminate())
}
type Res<S, O = String> = ParseResult<S, O, Er>;

/// Inputs made of characters: as text or as items.
#[allow(async_fn_in_trait)]
trait Chars: RewindSequence + Sized {
    async fn any(self) -> Res<Self, char>;
    async fn the(self, c: char) -> Res<Self, ()>;
    async fn lit(self, l: &'static str) -> Res<Self, ()>;
    async fn all(&mut self) -> String;
}
struct T<S>(std::marker::PhantomData<S>);
macro_rules! chars {
    ([$($g:tt)*] $s:ty, text) => {
        impl<$($g)*> Chars for $s {
            async fn any(self) -> Res<Self, char> {
                any_char().map_err(flat).parse(self).await
            }
            async fn the(self, c: char) -> Res<Self, ()> {
                the_char(c).map_err(flat).parse(self).await
            }
            async fn lit(self, l: &'static str) -> Res<Self, ()> {
                atom(l).map_err(flat).parse(self).await
            }
            async fn all(&mut self) -> String {
                let mut out = String::new();
                let mut g = self.segments();
                while let Some(x) = g.next(BytesDelta::from_bytes(0)).await {
                    out.push_str(x);
                }
                out
            }
        }
    };
    ([$($g:tt)*] $s:ty, items) => {
        impl<$($g)*> Chars for $s {
            async fn any(self) -> Res<Self, char> {
                any_item().map_err(flat).parse(self).await
            }
            async fn the(self, c: char) -> Res<Self, ()> {
                the_item(c).map_err(flat).parse(self).await
            }
            async fn lit(self, l: &'static str) -> Res<Self, ()> {
                atom(l.chars().collect::<Vec<_>>()).map_err(flat).parse(self).await
            }
            async fn all(&mut self) -> String {
                let mut out = String::new();
                let mut g = self.segments();
                while let Some(x) = g.next(0).await {
                    out.extend(x);
                }
                out
            }
        }
    };
}
type Lines = parcom_core::primitive::str::Measured<'static, LineColumn<end_of_line::CRLF>>;
chars!(['a] &'a str, text);
chars!([] Lines, text);
chars!([] TestSeq<str>, text);
chars!(['a] &'a [char], items);
chars!([] TestSeq<[char]>, items);

/// The grammars, as a user would write them.
impl<S: Chars> T<S> {
    fn the(c: char) -> impl Parser<S, Output = (), Error = Er> {
        move |s: S| s.the(c)
    }
    fn lit(l: &'static str) -> impl Parser<S, Output = (), Error = Er> {
        move |s: S| s.lit(l)
    }
    fn one(f: impl Fn(char) -> bool) -> impl Parser<S, Output = char, Error = Er> {
        S::any.and_then(move |c| if f(c) { Ok(c) } else { Err(Er(false)) })
    }

    // calc = term (sp op sp term)*, with + and * to the left, ^ to the right
    // term = [01]+ / '(' sp calc sp ')', where a missing parenthesis is fatal
    async fn space(s: S) -> Res<S, ()> {
        Self::the(' ').repeat().map(|_| ()).parse(s).await
    }
    async fn calc(s: S) -> Res<S> {
        BinExprParser::new(Self::term, (Self::space).join(Self::op).join(Self::space).map(|((_, o), _)| o))
            .map(|(e, _): (Ex, _)| e.0)
            .map_err(flat)
            .boxed()
            .parse(s)
            .await
    }
    async fn op(s: S) -> Res<S, Op> {
        S::any
            .and_then(|c| match c {
                '+' | '*' | '^' => Ok(Op(c)),
                _ => Err(Er(false)),
            })
            .parse(s)
            .await
    }
    async fn number(s: S) -> Res<S> {
        Self::one(|c| c == '1')
            .repeat()
            .and_then(|(v, _)| if v.is_empty() { Err(Er(false)) } else { Ok(v.into_iter().collect()) })
            .parse(s)
            .await
    }
    async fn term(s: S) -> Res<S> {
        let close = Self::the(')').map_err(|_| Er(true));
        let paren = Self::the('(').join(Self::space).join(Self::calc).join(Self::space).join(close).map(|((((_, _), e), _), _)| e);
        let p = (Self::number).or(paren).unify::<String, String, String>().map_err(flat);
        p.parse(s).await
    }

    // value = '[' (item (',' item)*)? ']' / 'a'
    // item = value '=' value / value
    async fn value(s: S) -> Res<S> {
        let more = Self::the(',').join(Self::item).map(|(_, v)| v).repeat().map(|(v, _)| v);
        let items = (Self::item).join(more).optional().map(|o| match o {
            Ok((a, v)) => std::iter::once(a).chain(v).collect::<Vec<_>>().join(";"),
            Err(_) => String::new(),
        });
        let list = Self::the('[').join(items).join(Self::the(']')).map(|((_, v), _)| format!("<{v}>"));
        list.or(Self::the('a').map(|_| "a".to_string())).unify::<String, String, String>().map_err(flat).boxed().parse(s).await
    }
    async fn item(s: S) -> Res<S> {
        let pair = (Self::value).join(Self::the('=')).join(Self::value).map(|((k, _), v)| format!("{k}={v}"));
        pair.or(Self::value).unify::<String, String, String>().map_err(flat).parse(s).await
    }

    // string = '"' (escape / other)* '"'; a wrong escape or a missing quote is fatal
    async fn string(s: S) -> Res<S> {
        let escape = Self::the('\\').join(S::any.map_err(|_| Er(true)).and_then(|c| match c {
            'n' => Ok('\n'),
            '"' | '\\' => Ok(c),
            _ => Err(Er(true)),
        }));
        let body = escape
            .map(|(_, c)| c)
            .or(Self::one(|c| c != '"' && c != '\\'))
            .unify::<char, char, char>()
            .map_err(flat)
            .repeat()
            .collect::<String>()
            .and_then(|(v, why)| match why {
                Some(e) if e.should_terminate() => Err(flat(e)),
                _ => Ok(v),
            });
        Self::the('"').join(body).join(Self::the('"').map_err(|_| Er(true))).map(|((_, v), _)| v).map_err(flat).parse(s).await
    }

    // lines = ((pair / comment) eol)* pair?
    async fn lines(s: S) -> Res<S> {
        let key = || Self::one(|c| c == 'k').repeat().and_then(|(v, _)| if v.is_empty() { Err(Er(false)) } else { Ok(v.len()) });
        let pair = || key().join(Self::the('=')).join(key().optional()).map(|((k, _), v)| format!("{k}:{}", v.unwrap_or(0)));
        let comment = Self::the('#').join(Self::one(|c| c != '\n' && c != '\r').repeat()).map(|(_, (v, _))| format!("#{}", v.len()));
        let eol = Self::lit("\r\n").or(Self::lit("\n")).map_err(flat);
        let line = pair().or(comment).unify::<String, String, String>().map_err(flat).join(eol).map(|(l, _)| l);
        let last = pair().optional().map(|o| o.unwrap_or_default());
        line.repeat().join(last).map(|((v, _), l)| v.join("|") + "!" + &l).map_err(flat).parse(s).await
    }

    // stamp = '-'? d d (':' d d)*, then the digits up to the first 0
    async fn two(s: S) -> Res<S, usize> {
        Self::digit()
            .repeat()
            .take(2)
            .map_each(|d| d)
            .fold((0, 0), |(n, a), d| (n + 1, a * 10 + d))
            .and_then(|(n, a)| if n == 2 { Ok(a) } else { Err(Er(false)) })
            .parse(s)
            .await
    }
    fn digit() -> impl Parser<S, Output = usize, Error = Er> {
        S::any.and_then(|c| c.to_digit(10).map(|d| d as usize).ok_or(Er(false)))
    }
    async fn stamp(s: S) -> Res<S> {
        let more = Self::the(':').join(Self::two).map(|(_, n)| n).repeat();
        let tail = Self::digit()
            .repeat()
            .map_while(|d| (d > 0).then_some(d))
            .scan(0, |sum, d| {
                *sum += d;
                *sum
            })
            .collect::<Vec<usize>>();
        Self::the('-')
            .optional()
            .join(Self::two)
            .join(more)
            .join(tail)
            .map(|(((sign, a), (v, _)), (t, _))| format!("{}{a}{v:?}{t:?}", if sign.is_ok() { "-" } else { "" }))
            .map_err(flat)
            .parse(s)
            .await
    }
    async fn run(g: usize, s: S) -> Res<S> {
        match g {
            0 => Self::calc(s).await,
            1 => Self::value(s).await,
            2 => Self::string(s).await,
            3 => Self::lines(s).await,
            _ => Self::stamp(s).await,
        }
    }
}
struct Ex(String);
struct Op(char);
impl Operator for Op {
    fn precedence(&self) -> usize {
        match self.0 {
            '+' => 0,
            '*' => 1,
            _ => 7,
        }
    }
    fn associativity(&self) -> Associativity {
        if self.0 == '^' {
            Associativity::Right
        } else {
            Associativity::Left
        }
    }
}
impl From<String> for Ex {
    fn from(t: String) -> Ex {
        Ex(t)
    }
}
impl From<(Ex, Op, Ex)> for Ex {
    fn from((l, o, r): (Ex, Op, Ex)) -> Ex {
        Ex(format!("({}{}{})", l.0, o.0, r.0))
    }
}

/// The same grammars by hand: the value and the characters consumed, or whether the refusal is fatal.
mod spec {
    pub type Got<O = String> = Result<(O, usize), bool>;
    /// Soft failures become `None`.
    fn soft<O>(r: Got<O>) -> Result<Option<(O, usize)>, bool> {
        match r {
            Ok(x) => Ok(Some(x)),
            Err(false) => Ok(None),
            Err(true) => Err(true),
        }
    }
    fn spaces(t: &[char], mut i: usize) -> usize {
        while t.get(i) == Some(&' ') {
            i += 1
        }
        i
    }
    fn term(t: &[char], i: usize) -> Got {
        match t.get(i) {
            Some('1') => {
                let mut j = i;
                while t.get(j) == Some(&'1') {
                    j += 1
                }
                Ok((t[i..j].iter().collect(), j))
            }
            Some('(') => {
                let (e, j) = calc(t, spaces(t, i + 1))?;
                let j = spaces(t, j);
                if t.get(j) == Some(&')') {
                    Ok((e, j + 1))
                } else {
                    Err(true)
                }
            }
            _ => Err(false),
        }
    }
    fn calc(t: &[char], i: usize) -> Got {
        let (first, mut i) = term(t, i)?;
        let mut terms = vec![first];
        let mut ops = vec![];
        loop {
            let j = spaces(t, i);
            let Some(o) = t.get(j).filter(|c| "+*^".contains(**c)) else { break };
            let Some((e, k)) = soft(term(t, spaces(t, j + 1)))? else { break };
            terms.push(e);
            ops.push(*o);
            i = k;
        }
        // the loosest operator is at the root: the last + or *, else the first ^
        fn tree(terms: &[String], ops: &[char]) -> String {
            if ops.is_empty() {
                return terms[0].clone();
            }
            let k = ops.iter().rposition(|o| *o == '+').or(ops.iter().rposition(|o| *o == '*')).unwrap_or(0);
            format!("({}{}{})", tree(&terms[..=k], &ops[..k]), ops[k], tree(&terms[k + 1..], &ops[k + 1..]))
        }
        Ok((tree(&terms, &ops), i))
    }
    fn value(t: &[char], i: usize) -> Option<(String, usize)> {
        match t.get(i)? {
            'a' => Some(("a".into(), i + 1)),
            '[' => {
                let mut items = vec![];
                let mut j = i + 1;
                if let Some((v, k)) = item(t, j) {
                    items.push(v);
                    j = k;
                    while t.get(j) == Some(&',') {
                        let Some((v, k)) = item(t, j + 1) else { break };
                        items.push(v);
                        j = k;
                    }
                }
                (t.get(j) == Some(&']')).then(|| (format!("<{}>", items.join(";")), j + 1))
            }
            _ => None,
        }
    }
    fn item(t: &[char], i: usize) -> Option<(String, usize)> {
        let (k, j) = value(t, i)?;
        if t.get(j) == Some(&'=') {
            if let Some((v, l)) = value(t, j + 1) {
                return Some((format!("{k}={v}"), l));
            }
        }
        Some((k, j))
    }
    fn string(t: &[char]) -> Got {
        if t.first() != Some(&'"') {
            return Err(false);
        }
        let mut out = String::new();
        let mut i = 1;
        loop {
            match t.get(i) {
                None => return Err(true),
                Some('"') => return Ok((out, i + 1)),
                Some('\\') => {
                    out.push(match t.get(i + 1) {
                        Some('n') => '\n',
                        Some(c @ ('"' | '\\')) => *c,
                        _ => return Err(true),
                    });
                    i += 2;
                }
                Some(c) => {
                    out.push(*c);
                    i += 1;
                }
            }
        }
    }
    fn pair(t: &[char], i: usize) -> Option<(String, usize)> {
        let ks = |i: usize| t[i..].iter().take_while(|c| **c == 'k').count();
        let k = ks(i);
        if k == 0 || t.get(i + k) != Some(&'=') {
            return None;
        }
        let v = ks(i + k + 1);
        Some((format!("{k}:{v}"), i + k + 1 + v))
    }
    fn lines(t: &[char]) -> Got {
        let mut out = vec![];
        let mut i = 0;
        loop {
            let Some((l, j)) = pair(t, i).or_else(|| {
                (t.get(i) == Some(&'#')).then(|| {
                    let n = t[i + 1..].iter().take_while(|c| **c != '\r' && **c != '\n').count();
                    (format!("#{n}"), i + 1 + n)
                })
            }) else {
                break;
            };
            let e = if t[j..].starts_with(&['\r', '\n']) {
                2
            } else if t.get(j) == Some(&'\n') {
                1
            } else {
                break;
            };
            out.push(l);
            i = j + e;
        }
        let (last, i) = pair(t, i).unwrap_or((String::new(), i));
        Ok((out.join("|") + "!" + &last, i))
    }
    fn two(t: &[char], i: usize) -> Option<usize> {
        let d = |i: usize| t.get(i)?.to_digit(10).map(|d| d as usize);
        Some(d(i)? * 10 + d(i + 1)?)
    }
    fn stamp(t: &[char]) -> Got {
        let sign = t.first() == Some(&'-');
        let mut i = sign as usize;
        let a = two(t, i).ok_or(false)?;
        i += 2;
        let mut v = vec![];
        while t.get(i) == Some(&':') {
            let Some(n) = two(t, i + 1) else { break };
            v.push(n);
            i += 3;
        }
        let mut sums: Vec<usize> = vec![];
        while let Some(d) = t.get(i).and_then(|c| c.to_digit(10)).filter(|d| *d > 0) {
            sums.push(sums.last().unwrap_or(&0) + d as usize);
            i += 1;
        }
        Ok((format!("{}{a}{v:?}{sums:?}", if sign { "-" } else { "" }), i))
    }
    pub fn run(g: usize, t: &[char]) -> Got {
        match g {
            0 => calc(t, 0),
            1 => value(t, 0).ok_or(false),
            2 => string(t),
            3 => lines(t),
            _ => stamp(t),
        }
    }
}
/// Line, column and total count of the last of the consumed characters.
fn place(t: &[char]) -> (usize, usize, usize) {
    let (mut line, mut col) = (!t.is_empty() as usize, 0);
    for (i, _) in t.iter().enumerate() {
        if i >= 2 && t[i - 2..i] == ['\r', '\n'] {
            line += 1;
            col = 0;
        }
        col += 1;
    }
    (t.len(), line, col)
}

const ALPHABETS: [&str; 5] = ["1+*^( )", "[a,=]", "\"\\nあ", "k=#\r\n", "-:012"];

fn judge<S: Chars>(g: usize, text: &[char], s: S, metric: impl Fn(&mut S) -> Option<(usize, usize, usize)>) -> R {
    let want = spec::run(g, text);
    outcome(&(g, want.is_ok(), want.as_ref().err()));
    let anchor = s.anchor();
    match (run(T::<S>::run(g, s)), want) {
        (Ok((v, mut s)), Ok((w, n))) => {
            check_eq!(v, w, "value", "value");
            let rest: String = text[n..].iter().collect();
            check_eq!(calm(|| run(s.all())), rest, "rest", "rest");
            if let Some(m) = metric(&mut s) {
                check_eq!(m, place(&text[..n]), "place", "count, line and column reached");
            }
        }
        (Err((e, s)), Err(fatal)) => {
            check_eq!(e.0, fatal, "severity", "the refusal is fatal");
            let mut s = calm(|| run(s.rewind(anchor)));
            check_eq!(calm(|| run(s.all())), text.iter().collect::<String>(), "rewind", "input after rewinding");
            if let Some(m) = metric(&mut s) {
                check_eq!(m, (0, 0, 0), "place", "count, line and column after rewinding");
            }
        }
        (Ok((v, _)), Err(_)) => fail!("accepts", "accepted as {v:?} what the grammar refuses"),
        (Err((e, _)), Ok((w, n))) => fail!("refuses", "refused ({e:?}) what the grammar takes as {w:?}, {n} characters"),
    }
    check_eq!(drive::outstanding(), 0, "leftover", "input events still awaited after completion");
    Ok(())
}
/// One run of a grammar on one kind of input: 0 text, 1 metered text, 2 items, 3 text in pieces, 4 items in pieces.
fn one(g: usize, text: &[char], kind: usize, pieces: impl Fn(usize) -> (Vec<usize>, Vec<bool>)) -> R {
    drive::reset();
    match kind {
        0 => judge(g, text, text.iter().collect::<String>().as_str(), |_| None),
        1 => {
            // the metered text must outlive everything: it is released when the run is over
            let p = Box::into_raw(text.iter().collect::<String>().into_boxed_str());
            let r = judge(g, text, unsafe { &*p }.into_measured::<LineColumn<end_of_line::CRLF>>(), |s| {
                let m = MeasuredSequence::metrics(s);
                Some((m.total_count, m.line, m.column))
            });
            drop(unsafe { Box::from_raw(p) });
            r
        }
        2 => judge(g, text, text, |_| None),
        3 => {
            let t: String = text.iter().collect();
            let at: Vec<usize> = t.char_indices().map(|(i, _)| i).chain([t.len()]).collect();
            let (cuts, empties) = pieces(text.len());
            let cuts: Vec<usize> = cuts.into_iter().map(|c| at[c]).collect();
            let p = cut_str(&t, &cuts, &empties);
            logln!("{:?}", p.0);
            judge(g, text, TestSeq::new(Rc::new(p), false), |_| None)
        }
        _ => {
            let (cuts, empties) = pieces(text.len());
            let p = cut_items(text, &cuts, &empties);
            logln!("{:?}", p.0);
            judge(g, text, TestSeq::new(Rc::new(p), true), |_| None)
        }
    }
}
fn main() {
    mc::main(|t| {
        let mut v = vec![];
        let words = |g: usize, len: usize| -> Vec<char> {
            let a: Vec<char> = ALPHABETS[g].chars().collect();
            pick_word(a.len(), len).into_iter().map(|i| a[i]).collect()
        };
        for g in 0..5 {
            let name = ["a calculator", "nested lists", "string literals", "lines", "time stamps"][g];
            let long = t.pick(3, if g == 0 { 7 } else { 8 }, if g == 0 { 8 } else { 10 });
            v.push(job(&format!("{name}: every text"), 0, move || {
                let text = words(g, long);
                let kind = choose(3);
                logln!("{:?} kind {kind}", text.iter().collect::<String>());
                state(&(g, &text, kind));
                one(g, &text, kind, |_| (vec![], vec![]))
            }));
            let len = t.pick(2, if g == 0 { 5 } else { 6 }, if g == 0 { 6 } else { 7 });
            v.push(job(&format!("{name}: every division"), 0, move || {
                let text = words(g, len);
                let kind = 3 + choose(2);
                logln!("{:?} kind {kind}", text.iter().collect::<String>());
                state(&(g, &text, kind));
                one(g, &text, kind, |n| ((1..n).filter(|_| flag()).collect(), if flag() { vec![true; n + 1] } else { vec![] }))
            }));
            let len = t.pick(1, if g == 0 { 3 } else { 4 }, if g == 0 { 4 } else { 5 });
            v.push(job(&format!("{name}: suspensions"), t.pick(1, 2, 3), move || {
                let text = words(g, len);
                let kind = 3 + choose(2);
                let single = flag();
                logln!("{:?} kind {kind}", text.iter().collect::<String>());
                one(g, &text, kind, |n| (if single { (1..n).collect() } else { vec![] }, vec![]))
            }));
        }
        // long and deep inputs
        let many = sizes(t.pick(3, 40, 100), t.pick(5, 1025, 65537));
        let deep: usize = t.pick(3, 60, 200);
        v.push(job("long and deep texts", 0, move || {
            let deeply = flag();
            let n = if deeply { choose(deep) } else { pick(&many) };
            let g = choose(5);
            let broken = choose(3);
            let kind = choose(5);
            logln!("grammar {g} size {n} deep {deeply} broken {broken} kind {kind}");
            let rep = |s: &str| s.repeat(n);
            let mut text = match (g, deeply) {
                (0, false) => rep("1+1*1^1 + ") + "11",
                (0, true) => rep("1^(") + "1" + &rep(" )"),
                (1, false) => "[".to_string() + &rep("a,a=[],") + "a]",
                (1, true) if n > 10 => rep("[") + "a" + &rep("]"),
                (1, true) => rep("[a,") + "a" + &rep("]"),
                (2, _) => "\"".to_string() + &rep("あ\\nn\\\"") + "\"",
                (3, _) => rep("k=kk\r\n#k=あ\n") + "kk=",
                (_, false) => "-12".to_string() + &rep(":20") + &rep("1") + "0",
                (_, true) => "21".to_string() + &rep("2"),
            };
            // nested lists are tried twice on each level
            if g == 1 && deeply && n > 10 {
                return Ok(());
            }
            if broken == 1 {
                text.pop();
            } else if broken == 2 {
                text.push('?');
            }
            let text: Vec<char> = text.chars().collect();
            state(&(g, n, deeply, broken, kind));
            one(g, &text, kind, |n| ((1..n).filter(|i| i % 3 == 0).collect(), vec![]))
        }));
        v
    })
}
