//! An input cut into arbitrary pieces, with suspensions decided by the explorer and contract monitors.
use crate::drive::Gated;
use parcom_core::{primitive::BytesDelta, RewindSequence, SegmentStream, Sequence, SequenceSegment};
use std::cell::Cell;
use std::rc::Rc;

/// Positions inside a segment type, independent of the code under test.
pub trait Seg: SequenceSegment + PartialEq + 'static {
    fn n(&self) -> usize;
    fn from(&self, at: usize) -> Option<&Self>;
    fn unit(n: usize) -> Self::Length;
    fn nat(l: &Self::Length) -> usize;
}
impl Seg for str {
    fn n(&self) -> usize {
        str::len(self)
    }
    fn from(&self, at: usize) -> Option<&Self> {
        self.get(at..)
    }
    fn unit(n: usize) -> BytesDelta {
        BytesDelta::from_bytes(n)
    }
    fn nat(l: &BytesDelta) -> usize {
        l.to_bytes()
    }
}
impl<T: PartialEq + 'static> Seg for [T] {
    fn n(&self) -> usize {
        <[T]>::len(self)
    }
    fn from(&self, at: usize) -> Option<&Self> {
        self.get(at..)
    }
    fn unit(n: usize) -> usize {
        n
    }
    fn nat(l: &usize) -> usize {
        *l
    }
}

pub struct Pieces<B: ?Sized>(pub Vec<Box<B>>);

pub struct TestSeq<B: ?Sized + Seg> {
    p: Rc<Pieces<B>>,
    piece: usize,
    off: usize,
    pos: usize,
    /// after an advance to the end of a piece, stay there (the next segment read is then empty)
    lazy: bool,
    id: u64,
}
thread_local! {
    static IDS: Cell<u64> = const { Cell::new(0) };
}
impl<B: ?Sized + Seg> TestSeq<B> {
    pub fn new(p: Rc<Pieces<B>>, lazy: bool) -> Self {
        let id = IDS.with(|i| {
            i.set(i.get() + 1);
            i.get()
        });
        Self { p, piece: 0, off: 0, pos: 0, lazy, id }
    }
    pub fn pos(&self) -> usize {
        self.pos
    }
}
impl TestSeq<str> {
    pub fn text(pieces: &[&str]) -> Self {
        Self::new(Rc::new(Pieces(pieces.iter().map(|s| (*s).into()).collect())), false)
    }
}
impl<T: PartialEq + 'static + Clone> TestSeq<[T]> {
    pub fn items(pieces: &[&[T]]) -> Self {
        Self::new(Rc::new(Pieces(pieces.iter().map(|s| (*s).into()).collect())), false)
    }
}

pub struct TestSegs<'a, B: ?Sized> {
    p: &'a Pieces<B>,
    piece: usize,
    off: usize,
}
impl<'s, B: ?Sized + Seg> SegmentStream for TestSegs<'s, B> {
    type Length = B::Length;
    type Segment = B;
    type Next<'a>
        = Gated<Option<&'a B>>
    where
        Self: 'a;
    fn next(&mut self, _hint: B::Length) -> Gated<Option<&B>> {
        let r = match self.p.0.get(self.piece) {
            None => None,
            Some(b) => {
                let s = b.from(self.off).unwrap();
                self.piece += 1;
                self.off = 0;
                Some(s)
            }
        };
        Gated::new(r)
    }
}
impl<B: ?Sized + Seg> Sequence for TestSeq<B> {
    type Length = B::Length;
    type Segment = B;
    type Segments<'a>
        = TestSegs<'a, B>
    where
        Self: 'a;
    type Advance = Gated<Self>;
    fn segments(&mut self) -> TestSegs<'_, B> {
        TestSegs { p: &self.p, piece: self.piece, off: self.off }
    }
    fn advance(mut self, delta: B::Length) -> Gated<Self> {
        let mut n = B::nat(&delta);
        let left: usize = self.p.0[self.piece..].iter().map(|b| b.n()).sum::<usize>() - self.off;
        if n > left {
            panic!("CONTRACT: advanced by {n} where only {left} are left");
        }
        self.pos += n;
        while self.piece < self.p.0.len() {
            let have = self.p.0[self.piece].n() - self.off;
            if n < have || (n == have && self.lazy) {
                self.off += n;
                if self.p.0[self.piece].from(self.off).is_none() {
                    panic!("CONTRACT: advanced into the middle of a character");
                }
                break;
            }
            n -= have;
            self.piece += 1;
            self.off = 0;
            if n == 0 {
                break;
            }
        }
        Gated::new(self)
    }
}
pub struct TestAnchor {
    piece: usize,
    off: usize,
    pos: usize,
    id: u64,
}
impl<B: ?Sized + Seg> RewindSequence for TestSeq<B> {
    type Anchor = TestAnchor;
    type Rewind = Gated<Self>;
    fn anchor(&self) -> TestAnchor {
        TestAnchor { piece: self.piece, off: self.off, pos: self.pos, id: self.id }
    }
    fn rewind(mut self, a: TestAnchor) -> Gated<Self> {
        if a.id != self.id {
            panic!("CONTRACT: rewound to an anchor of another input");
        }
        if a.pos > self.pos {
            panic!("CONTRACT: rewound forwards");
        }
        self.piece = a.piece;
        self.off = a.off;
        self.pos = a.pos;
        Gated::new(self)
    }
}

/// What the harness reads off a sequence without suspending: what is left, and its metrics if it has any.
pub trait Probe {
    fn left(&mut self) -> usize;
    fn metric(&mut self) -> (usize, usize, usize) {
        (0, 0, 0)
    }
}
impl<B: ?Sized + Seg> Probe for TestSeq<B> {
    fn left(&mut self) -> usize {
        self.p.0.iter().map(|b| b.n()).sum::<usize>() - self.pos
    }
}
impl Probe for &str {
    fn left(&mut self) -> usize {
        str::len(self)
    }
}
impl<EOL: parcom_metrics::EndOfLine + 'static> Probe for parcom_core::primitive::str::Measured<'static, parcom_metrics::LineColumn<EOL>> {
    fn left(&mut self) -> usize {
        now(self.segments().next(BytesDelta::ZERO)).map_or(0, |s: &str| s.len())
    }
    fn metric(&mut self) -> (usize, usize, usize) {
        let m = parcom_core::MeasuredSequence::metrics(self);
        (m.total_count, m.line, m.column)
    }
}
/// The value of a future that is ready at once.
pub fn now<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    match crate::drive::poll_once(f.as_mut()).0 {
        std::task::Poll::Ready(v) => v,
        _ => panic!("expected to be ready at once"),
    }
}

/// Splits a text at cut positions and inserts empty pieces where asked.
pub fn cut_str(text: &str, cuts: &[usize], empties: &[bool]) -> Pieces<str> {
    let mut out: Vec<Box<str>> = vec![];
    let mut last = 0;
    let e = |i: usize, out: &mut Vec<Box<str>>| {
        if empties.get(i).copied().unwrap_or(false) {
            out.push("".into())
        }
    };
    e(0, &mut out);
    for (i, &c) in cuts.iter().chain(std::iter::once(&text.len())).enumerate() {
        if c > last {
            out.push(text[last..c].into());
        }
        last = c;
        e(i + 1, &mut out);
    }
    Pieces(out)
}
pub fn cut_items<T: Clone>(items: &[T], cuts: &[usize], empties: &[bool]) -> Pieces<[T]> {
    let mut out: Vec<Box<[T]>> = vec![];
    let mut last = 0;
    let e = |i: usize, out: &mut Vec<Box<[T]>>| {
        if empties.get(i).copied().unwrap_or(false) {
            out.push(Box::new([]))
        }
    };
    e(0, &mut out);
    for (i, &c) in cuts.iter().chain(std::iter::once(&items.len())).enumerate() {
        if c > last {
            out.push(items[last..c].into());
        }
        last = c;
        e(i + 1, &mut out);
    }
    Pieces(out)
}
/// All ways to cut a text at character boundaries, with at most `max_empty` empty pieces (which gap: chosen).
pub fn choose_text_pieces(text: &str, max_empty: usize) -> Pieces<str> {
    let bounds: Vec<usize> = text.char_indices().map(|(i, _)| i).filter(|&i| i > 0).collect();
    let cuts: Vec<usize> = bounds.into_iter().filter(|_| crate::flag()).collect();
    let e = choose_empties(cuts.len() + 2, max_empty);
    cut_str(text, &cuts, &e)
}
pub fn choose_item_pieces<T: Clone>(items: &[T], max_empty: usize) -> Pieces<[T]> {
    let cuts: Vec<usize> = (1..items.len()).filter(|_| crate::flag()).collect();
    let e = choose_empties(cuts.len() + 2, max_empty);
    cut_items(items, &cuts, &e)
}
fn choose_empties(gaps: usize, max: usize) -> Vec<bool> {
    let mut left = max;
    (0..gaps)
        .map(|_| {
            let f = left > 0 && crate::flag();
            if f {
                left -= 1
            }
            f
        })
        .collect()
}

/// The remaining text / items of a sequence, read through its segments.
pub fn rest_str<S: Sequence<Segment = str, Length = BytesDelta>>(s: &mut S) -> String {
    crate::drive::run(async {
        let mut out = String::new();
        let mut g = s.segments();
        while let Some(x) = g.next(BytesDelta::from_bytes(0)).await {
            out.push_str(x);
        }
        out
    })
}
pub fn rest_items<T: Clone, S: Sequence<Segment = [T], Length = usize>>(s: &mut S) -> Vec<T> {
    crate::drive::run(async {
        let mut out = Vec::new();
        let mut g = s.segments();
        while let Some(x) = g.next(0).await {
            out.extend_from_slice(x);
        }
        out
    })
}
