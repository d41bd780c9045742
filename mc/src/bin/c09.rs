//! C09: histories of advances, anchors, rewinds and peeks on the built-in sequences.
use mc::seq::*;
use mc::*;
use parcom_core::measured::IntoMeasured;
use parcom_core::primitive::{slice, str as pstr, BytesDelta};
use parcom_core::*;
use parcom_metrics::{end_of_line as eol, LineColumn};
use std::fmt::Debug;

/// One sequence type under test, with a notion of where it should be.
trait Subject: RewindSequence + Clone + 'static {
    type Elem: Clone + PartialEq + Debug;
    /// Boundaries of the whole content, from 0 to its length.
    fn start(self) -> (Self, Vec<usize>);
    fn content(&mut self) -> Vec<Self::Elem>;
    fn len(n: usize) -> Self::Length;
    /// Metrics of the sequence, and those expected after `n` of `all`.
    fn metrics(&self) -> Vec<usize>;
    fn expect(all: &[Self::Elem], n: usize) -> Vec<usize>;
    /// Whether advancing past the end is allowed (and saturates).
    const OVER: bool;
    /// Whether the sequence refuses anchors that lie ahead of it.
    const REFUSES: bool;
    fn peeked(&mut self, _n: usize) -> Option<Vec<Self::Elem>> {
        None
    }
}
fn bounds(s: &str) -> Vec<usize> {
    s.char_indices().map(|x| x.0).chain([s.len()]).collect()
}
impl Subject for &'static str {
    type Elem = u8;
    fn start(self) -> (Self, Vec<usize>) {
        (self, bounds(self))
    }
    fn content(&mut self) -> Vec<u8> {
        rest_str(self).into_bytes()
    }
    fn len(n: usize) -> BytesDelta {
        BytesDelta::from_bytes(n)
    }
    fn metrics(&self) -> Vec<usize> {
        vec![]
    }
    fn expect(_: &[u8], _: usize) -> Vec<usize> {
        vec![]
    }
    const OVER: bool = true;
    const REFUSES: bool = true;
    fn peeked(&mut self, n: usize) -> Option<Vec<u8>> {
        let p = self.peek();
        let mut p = now(std::future::IntoFuture::into_future(Sequence::advance(p, BytesDelta::from_bytes(n))));
        Some(rest_str(&mut p).into_bytes())
    }
}
impl<T: Clone + PartialEq + Debug + 'static> Subject for &'static [T] {
    type Elem = T;
    fn start(self) -> (Self, Vec<usize>) {
        (self, (0..=<[T]>::len(self)).collect())
    }
    fn content(&mut self) -> Vec<T> {
        rest_items(self)
    }
    fn len(n: usize) -> usize {
        n
    }
    fn metrics(&self) -> Vec<usize> {
        vec![]
    }
    fn expect(_: &[T], _: usize) -> Vec<usize> {
        vec![]
    }
    const OVER: bool = false;
    const REFUSES: bool = true;
    fn peeked(&mut self, n: usize) -> Option<Vec<T>> {
        let p = self.peek();
        let mut p = now(std::future::IntoFuture::into_future(Sequence::advance(p, n)));
        Some(rest_items(&mut p))
    }
}
impl<T: Clone + PartialEq + Debug + 'static> Subject for slice::Measured<'static, T, usize> {
    type Elem = T;
    fn start(mut self) -> (Self, Vec<usize>) {
        let n = self.content().len();
        (self, (0..=n).collect())
    }
    fn content(&mut self) -> Vec<T> {
        rest_items(self)
    }
    fn len(n: usize) -> usize {
        n
    }
    fn metrics(&self) -> Vec<usize> {
        vec![MeasuredSequence::metrics(self)]
    }
    fn expect(_: &[T], n: usize) -> Vec<usize> {
        vec![n]
    }
    const OVER: bool = false;
    const REFUSES: bool = false;
}
impl Subject for pstr::Measured<'static, LineColumn<eol::LF>> {
    type Elem = u8;
    fn start(mut self) -> (Self, Vec<usize>) {
        let b = bounds(&rest_str(&mut self));
        (self, b)
    }
    fn content(&mut self) -> Vec<u8> {
        rest_str(self).into_bytes()
    }
    fn len(n: usize) -> BytesDelta {
        BytesDelta::from_bytes(n)
    }
    fn metrics(&self) -> Vec<usize> {
        let m = MeasuredSequence::metrics(self);
        vec![m.total_count, m.line, m.column]
    }
    fn expect(all: &[u8], n: usize) -> Vec<usize> {
        let (mut c, mut l, mut k, mut nl) = (0, 0, 0, true);
        for ch in std::str::from_utf8(&all[..n]).unwrap().chars() {
            if nl {
                l += 1;
                k = 0;
            }
            nl = ch == '\n';
            c += 1;
            k += 1;
        }
        vec![c, l, k]
    }
    const OVER: bool = true;
    const REFUSES: bool = false;
}

fn history<S: Subject>(s0: S, steps: usize) -> R
where
    S::Length: Clone,
{
    history_at(s0, steps, false)
}
/// With `thin`, only the first two, the last two and a middle position are visited.
fn history_at<S: Subject>(s0: S, steps: usize, thin: bool) -> R
where
    S::Length: Clone,
{
    let (s0, mut bs) = s0.start();
    if thin && bs.len() > 5 {
        let n = bs.len();
        bs = [0, 1, n / 2, n - 2, n - 1].map(|i| bs[i]).to_vec();
    }
    let total = *bs.last().unwrap();
    let mut s = s0;
    let all = s.content();
    check_eq!(all.len(), total, "content", "content length");
    let mut at = 0usize;
    let mut anchors: Vec<(S::Anchor, usize)> = vec![];
    let adv = |s: S, n: usize| now(std::future::IntoFuture::into_future(s.advance(S::len(n))));
    for _ in 0..choose(steps + 1) {
        match choose(4) {
            0 => {
                let next: Vec<usize> = bs.iter().copied().filter(|b| *b >= at).collect();
                let over = if S::OVER { 3 } else { 0 };
                let i = choose(next.len() + over);
                let n = match i.checked_sub(next.len()) {
                    None => next[i] - at,
                    Some(0) => total - at + 1,
                    Some(1) => total - at + 7,
                    Some(_) => usize::MAX,
                };
                logln!("at {at}: advance {n}");
                s = adv(s, n);
                at = at.saturating_add(n).min(total);
            }
            1 => {
                logln!("at {at}: anchor #{}", anchors.len());
                anchors.push((s.anchor(), at));
            }
            2 => {
                if anchors.is_empty() {
                    return Ok(());
                }
                let i = choose(anchors.len());
                let (a, p) = anchors.swap_remove(i);
                logln!("at {at}: rewind to anchor #{i} (taken at {p})");
                if p <= at {
                    s = now(s.rewind(a));
                    at = p;
                } else if S::REFUSES {
                    let c = s.clone();
                    check!(catch(|| now(c.rewind(a))).is_err(), "refuse", "an anchor taken at {p} was accepted at {at}");
                } else {
                    return Ok(());
                }
            }
            _ => {
                let next: Vec<usize> = bs.iter().copied().filter(|b| *b >= at).collect();
                let n = pick(&next) - at;
                logln!("at {at}: peek, advance the peeked by {n}");
                match s.peeked(n) {
                    None => return Ok(()),
                    Some(p) => check_eq!(p, all[at + n..], "peek", "peeked content"),
                }
            }
        }
        check_eq!(s.content(), all[at..], "content", "content at {at}");
        check_eq!(s.content(), all[at..], "content", "content at {at}, read again");
        check_eq!(s.metrics(), S::expect(&all, at), "metrics", "metrics at {at}");
        state(&(at, total, anchors.len(), std::any::type_name::<S>()));
    }
    outcome(&(at, total, anchors.len(), std::any::type_name::<S>()));
    Ok(())
}

/// Sequences of more items than 32 bits count: histories judged by where and how long the content is.
trait Enormous: RewindSequence + Clone {
    fn len(n: usize) -> Self::Length;
    /// the bytes between the start and the content, and its length
    fn place(&mut self, start: usize) -> (usize, usize);
    const UNIT: usize;
    fn metrics(&self) -> Option<usize> {
        None
    }
}
impl Enormous for &'static str {
    fn len(n: usize) -> BytesDelta {
        BytesDelta::from_bytes(n)
    }
    fn place(&mut self, start: usize) -> (usize, usize) {
        let mut g = self.segments();
        let s = now(g.next(BytesDelta::ZERO)).unwrap();
        (s.as_ptr() as usize - start, s.len())
    }
    const UNIT: usize = 1;
}
impl<T: 'static> Enormous for &'static [T] {
    fn len(n: usize) -> usize {
        n
    }
    fn place(&mut self, start: usize) -> (usize, usize) {
        let mut g = self.segments();
        let s = now(g.next(0)).unwrap();
        (s.as_ptr() as usize - start, <[T]>::len(s))
    }
    const UNIT: usize = std::mem::size_of::<T>();
}
impl<T: 'static> Enormous for slice::Measured<'static, T, usize> {
    fn len(n: usize) -> usize {
        n
    }
    fn place(&mut self, start: usize) -> (usize, usize) {
        let mut g = self.segments();
        let s = now(g.next(0)).unwrap();
        (s.as_ptr() as usize - start, <[T]>::len(s))
    }
    const UNIT: usize = std::mem::size_of::<T>();
    fn metrics(&self) -> Option<usize> {
        Some(MeasuredSequence::metrics(self))
    }
}
fn enormous<S: Enormous>(s0: S, steps: usize) -> R {
    let mut s = s0;
    let mut g = s.clone();
    let start = g.place(0).0;
    let total = g.place(0).1;
    let mut stops: Vec<usize> = [0, 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 200, 1 << 48, (1 << 63) - 1, 1 << 63].into_iter().filter(|x| *x < total).chain([total - 1, total]).collect();
    stops.sort();
    stops.dedup();
    let mut at = 0;
    let mut anchors = vec![];
    for _ in 0..choose(steps + 1) {
        match choose(3) {
            0 => {
                let to = pick(&stops);
                if to < at {
                    return Ok(());
                }
                logln!("at {at}: advance to {to} of {total}");
                s = now(std::future::IntoFuture::into_future(s.advance(S::len(to - at))));
                at = to;
            }
            1 => {
                logln!("at {at}: anchor");
                anchors.push((s.anchor(), at));
            }
            _ => {
                let Some((a, p)) = anchors.pop() else { return Ok(()) };
                logln!("at {at}: rewind to {p}");
                s = now(s.rewind(a));
                at = p;
            }
        }
        check_eq!(s.place(start), (at * S::UNIT, total - at), "content", "place and length of the content at {at}");
        check_eq!(s.metrics().unwrap_or(at), at, "metrics", "metrics at {at}");
        state(&(at, total, anchors.len(), S::UNIT));
    }
    outcome(&(at, total, anchors.len(), S::UNIT));
    Ok(())
}
/// Zeroed memory that nothing ever touches.
fn zeroed(n: usize) -> Option<&'static [u8]> {
    unsafe {
        let p = std::alloc::alloc_zeroed(std::alloc::Layout::from_size_align(n, 1).unwrap());
        (!p.is_null()).then(|| std::slice::from_raw_parts(p, n))
    }
}

#[derive(Clone, PartialEq, Debug)]
struct Zst;
#[derive(Clone, PartialEq, Debug)]
#[repr(align(32))]
struct Wide(u8);

fn leak<T>(v: Vec<T>) -> &'static [T] {
    Box::leak(v.into_boxed_slice())
}

fn main() {
    mc::main(|t| {
        let steps = t.pick(3, 6, 7);
        let texts = ["", "a", "あ", "a\nあ", "é\n\n", "😀aé"];
        let n = t.pick(2, 4, 4);
        let mut v = vec![];
        v.push(job("str", 0, move || history::<&'static str>(pick(&texts), steps)));
        v.push(job("measured str", 0, move || history(pick(&texts).into_measured::<LineColumn<eol::LF>>(), steps)));
        let a = leak(vec![3u8, 1, 2, 9]);
        v.push(job("[u8]", 0, move || history::<&'static [u8]>(&a[..choose(n + 1)], steps)));
        let a = leak(vec!["x".to_string(), "".into(), "yy".into(), "z".into()]);
        v.push(job("[String]", 0, move || history::<&'static [String]>(&a[..choose(n + 1)], steps)));
        let a = leak(vec![Zst, Zst, Zst, Zst]);
        v.push(job("[()]", 0, move || history::<&'static [Zst]>(&a[..choose(n + 1)], steps)));
        let a = leak(vec![Wide(1), Wide(2), Wide(3), Wide(4)]);
        v.push(job("[over-aligned]", 0, move || history::<&'static [Wide]>(&a[..choose(n + 1)], steps)));
        v.push(job("measured [over-aligned]", 0, move || history(a[..choose(n + 1)].into_measured::<usize>(), steps)));
        let a = leak(vec![Zst, Zst, Zst, Zst]);
        v.push(job("measured [()]", 0, move || history(a[..choose(n + 1)].into_measured::<usize>(), steps)));
        // long ones
        let ns = sizes(t.pick(2, 300, 1000), t.pick(3, 262145, 1 << 20));
        let ns2 = ns.clone();
        let max = *ns.last().unwrap();
        let long: [&'static str; 3] = ["ab", "é\n", "😀"].map(|u| &*Box::leak(u.repeat(max).into_boxed_str()));
        v.push(job("long texts", 0, move || {
            let n = pick(&ns);
            let k = choose(3);
            let text = &long[k][..n * [1, 3, 4][k]];
            logln!("{n} units of {:?}", text.get(..4));
            if flag() {
                history_at::<&'static str>(text, 3, true)
            } else {
                history_at(text.into_measured::<LineColumn<eol::LF>>(), t.pick(2, 3, 4), true)
            }
        }));
        let nums: &'static [u32] = leak((0..max as u32).collect());
        v.push(job("long slices", 0, move || {
            let n = pick(&ns2);
            logln!("{n} items");
            if flag() {
                history_at::<&'static [u32]>(&nums[..n], 3, true)
            } else {
                history_at(nums[..n].into_measured::<usize>(), 3, true)
            }
        }));
        let steps = t.pick(2, 6, 7);
        let nothing = |n: usize| -> &'static [()] { unsafe { std::slice::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), n) } };
        v.push(job("enormous [()]", 0, move || {
            let n = pick(&[usize::MAX, 1 << 63, (1 << 32) + 300]);
            if flag() {
                enormous(nothing(n).into_measured::<usize>(), steps)
            } else {
                enormous::<&'static [()]>(nothing(n), steps)
            }
        }));
        if let Some(z) = if t == Tier::Miri { None } else { zeroed((1 << 32) + 300) } {
            v.push(job("enormous str", 0, move || enormous::<&'static str>(unsafe { std::str::from_utf8_unchecked(z) }, steps)));
            v.push(job("enormous measured [u8]", 0, move || enormous(z.into_measured::<usize>(), steps)));
            v.push(job("enormous [u8]", 0, move || enormous::<&'static [u8]>(z, steps)));
        }
        v.push(job("splitting", 0, move || {
            // every text and every place to split it at, places inside a character and beyond the end included
            let s = pick(&["", "a", "é", "あa", "a😀", "😀é\n"]);
            for n in (0..s.len() + 3).chain([usize::MAX]) {
                let want = s.get(..n).map(|x| (x, &s[n..]));
                check_eq!(SequenceSegment::split_at_checked(s, BytesDelta::from_bytes(n)), want, "split", "{s:?} split at {n} if possible");
                match want {
                    Some(w) => check_eq!(SequenceSegment::split_at(s, BytesDelta::from_bytes(n)), w, "split", "{s:?} split at {n}"),
                    None => check!(catch(|| SequenceSegment::split_at(s, BytesDelta::from_bytes(n))).is_err(), "split", "{s:?} was split at {n}"),
                }
                let b = s.as_bytes();
                let want = b.get(..n).map(|x| (x, &b[n..]));
                check_eq!(SequenceSegment::split_at_checked(b, n), want, "split", "{b:?} split at {n} if possible");
                match want {
                    Some(w) => check_eq!(SequenceSegment::split_at(b, n), w, "split", "{b:?} split at {n}"),
                    None => check!(catch(|| SequenceSegment::split_at(b, n)).is_err(), "split", "{b:?} was split at {n}"),
                }
            }
            check_eq!(BytesDelta::from_str(s).to_bytes(), s.len(), "length", "length of {s:?}");
            check_eq!(s.chars().map(|c| BytesDelta::from_char(c).to_bytes()).sum::<usize>(), s.len(), "length", "lengths of the characters of {s:?}");
            outcome(&s);
            Ok(())
        }));
        // what a sequence yields after its content, and how lengths and splits are computed
        v.push(job("segments end", 0, move || {
            let mut s = pick(&texts);
            let mut g = s.segments();
            let first = now(g.next(BytesDelta::ZERO)).map(|x| x.to_string());
            check_eq!(first.as_deref(), Some(s), "content", "first segment");
            let mut g = s.segments();
            now(g.next(BytesDelta::from_bytes(9)));
            check!(now(g.next(BytesDelta::ZERO)).is_none(), "content", "a second segment of a one-piece text");
            drop(g);
            for b in bounds(s) {
                let (x, y) = SequenceSegment::split_at(s, BytesDelta::from_bytes(b));
                check_eq!((x, y), s.split_at(b), "split", "split at {b}");
                check_eq!(SequenceSegment::len(x).to_bytes(), b, "split", "length of the left part");
            }
            outcome(&s);
            Ok(())
        }));
        v
    })
}
