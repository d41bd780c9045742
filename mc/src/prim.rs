//! Primitive parsers against the string-prefix oracle.
use crate::drive::{calm, run};
use crate::seq::*;
use crate::*;
use parcom_core::*;
use parcom_parsers::primitive::{any_char, any_item, atom, the_char, the_item};
use std::fmt::Debug;
use std::rc::Rc;

pub const CH: [char; 5] = ['a', 'b', 'é', 'あ', '😀'];

pub fn word(k: usize, max: usize) -> String {
    pick_word(k, max).into_iter().map(|i| CH[i]).collect()
}

/// Runs by reference or by value, then compares with `want` = Some((output, bytes consumed)).
pub fn on_text<P, O: PartialEq + Debug>(p: P, text: &str, s: TestSeq<str>, once: bool, want: Option<(O, usize)>) -> R
where
    P: Parser<TestSeq<str>, Output = O>,
{
    let a = s.anchor();
    let r = if once { run(p.parse_once(s)) } else { run(p.parse(s)) };
    match (r, want) {
        (Ok((o, mut s)), Some((w, n))) => {
            check_eq!(o, w, "output", "output");
            check_eq!(s.pos(), n, "consumed", "consumed");
            check_eq!(calm(|| rest_str(&mut s)), text[n..], "rest", "rest");
        }
        (Err((e, s)), None) => {
            check!(!e.should_terminate(), "error", "a mismatch demands termination");
            let mut s = calm(|| run(s.rewind(a)));
            check_eq!(calm(|| rest_str(&mut s)), text, "rest", "input after rewinding");
        }
        (Ok((o, _)), None) => fail!("accepts", "accepted ({o:?}) what it must refuse"),
        (Err(_), Some((w, n))) => fail!("refuses", "refused what it must accept ({w:?}, {n} bytes)"),
    }
    Ok(())
}
/// Equal, or at least of the same form (an item need not equal itself).
fn same<T: ?Sized + PartialEq + Debug>(a: &T, b: &T) -> bool {
    a == b || format!("{a:?}") == format!("{b:?}")
}

/// An item whose equality is that of a float: 0 equals nothing, itself included; 1 and 2 differ and are equal.
#[derive(Debug, Clone, Copy, Hash)]
pub struct Fickle(pub u8);
impl PartialEq for Fickle {
    fn eq(&self, o: &Self) -> bool {
        matches!((self.0, o.0), (1 | 2, 1 | 2)) || (self.0 > 2 && self.0 == o.0)
    }
}

pub fn on_items<T: Clone + PartialEq + Debug + 'static, P, O: PartialEq + Debug>(p: P, text: &[T], s: TestSeq<[T]>, once: bool, want: Option<(O, usize)>) -> R
where
    P: Parser<TestSeq<[T]>, Output = O>,
{
    let a = s.anchor();
    let r = if once { run(p.parse_once(s)) } else { run(p.parse(s)) };
    match (r, want) {
        (Ok((o, mut s)), Some((w, n))) => {
            check!(same(&o, &w), "output", "output {o:?}, not {w:?}");
            check_eq!(s.pos(), n, "consumed", "consumed");
            let rest = calm(|| rest_items(&mut s));
            check!(same(&rest[..], &text[n..]), "rest", "rest {rest:?}, not {:?}", &text[n..]);
        }
        (Err((e, s)), None) => {
            check!(!e.should_terminate(), "error", "a mismatch demands termination");
            let mut s = calm(|| run(s.rewind(a)));
            let rest = calm(|| rest_items(&mut s));
            check!(same(&rest[..], text), "rest", "input after rewinding {rest:?}, not {text:?}");
        }
        (Ok((o, _)), None) => fail!("accepts", "accepted ({o:?}) what it must refuse"),
        (Err(_), Some((w, n))) => fail!("refuses", "refused what it must accept ({w:?}, {n} items)"),
    }
    Ok(())
}
pub fn seq_str(text: &str, empt: usize) -> TestSeq<str> {
    let p = choose_text_pieces(text, empt);
    logln!("text {text:?} cut into {:?}", p.0);
    state(&("t", &p.0));
    TestSeq::new(Rc::new(p), flag())
}
pub fn seq_items<T: Clone + PartialEq + Debug + std::hash::Hash + 'static>(items: &[T], empt: usize) -> TestSeq<[T]> {
    let p = choose_item_pieces(items, empt);
    logln!("items {items:?} cut into {:?}", p.0);
    state(&("i", &p.0));
    TestSeq::new(Rc::new(p), flag())
}

pub fn items_job<T: Clone + PartialEq + Debug + std::hash::Hash + 'static>(f: impl Fn(usize) -> T, k: usize, len: usize, pat: usize, empt: usize) -> R {
    let text: Vec<T> = pick_word(k, len).into_iter().map(&f).collect();
    let kind = choose(6);
    let once = flag();
    logln!("kind {kind} once {once}");
    match kind {
        0 => {
            let s = seq_items(&text, empt);
            on_items(any_item(), &text, s, once, text.first().map(|x| (x.clone(), 1)))
        }
        1 => {
            let x = f(choose(k));
            let s = seq_items(&text, empt);
            let w = (text.first() == Some(&x)).then_some(((), 1));
            on_items(the_item(x), &text, s, once, w)
        }
        _ => {
            let p: Vec<T> = pick_word(k, pat).into_iter().map(&f).collect();
            logln!("pattern {p:?}");
            let s = seq_items(&text, empt);
            let w = text.starts_with(&p).then_some(((), p.len()));
            outcome(&(kind, w));
            match kind {
                2 => on_items(atom(p), &text, s, once, w),
                3 => {
                    let p: &'static [T] = Box::leak(p.into_boxed_slice());
                    let r = on_items(atom(p), &text, s, once, w);
                    drop(unsafe { Box::from_raw(p as *const [T] as *mut [T]) });
                    r
                }
                4 if p.len() == 2 => {
                    let q: [T; 2] = [p[0].clone(), p[1].clone()];
                    on_items(atom(q), &text, s, once, w)
                }
                5 if p.is_empty() => on_items(atom::<[T; 0]>([]), &text, s, once, w),
                _ => Ok(()),
            }
        }
    }
}

/// A primitive on text: 0 any_char, 1 the_char, 2 atom of a &str, 3 atom of a String.
pub fn text_job(kind: usize, k: usize, len: usize, pat: usize, empt: usize) -> R {
    let text = word(k, len);
    let once = flag();
    logln!("kind {kind} once {once}");
    match kind {
        0 => {
            let s = seq_str(&text, empt);
            let w = text.chars().next().map(|c| (c, c.len_utf8()));
            outcome(&("any", w));
            on_text(any_char(), &text, s, once, w)
        }
        1 => {
            let c = CH[choose(k)];
            let s = seq_str(&text, empt);
            let w = text.starts_with(c).then_some(((), c.len_utf8()));
            outcome(&("the", w));
            on_text(the_char(c), &text, s, once, w)
        }
        _ => {
            let p = word(k, pat);
            logln!("pattern {p:?}");
            let s = seq_str(&text, empt);
            let w = text.starts_with(&p).then_some(((), p.len()));
            outcome(&("atom", w));
            if kind == 2 {
                on_text(atom(p.as_str()), &text, s, once, w)
            } else {
                on_text(atom(p), &text, s, once, w)
            }
        }
    }
}

/// How a long input is cut: one piece, one piece per unit, pieces of seven, or one piece after `n` empty ones.
pub fn long_cuts(n: usize, how: usize) -> (Vec<usize>, Vec<bool>) {
    match how {
        0 => (vec![], vec![]),
        1 => ((1..n).collect(), vec![]),
        2 => ((1..n).filter(|i| i % 7 == 0).collect(), vec![]),
        _ => (vec![], vec![true]),
    }
}
/// Literals and texts of length `n`, differing nowhere, at the front, in the middle, at the end, or in length.
pub fn long_literal(n: usize) -> R {
    let how = choose(5);
    let diff = choose(6);
    let items = flag();
    let once = flag();
    logln!("length {n} cut {how} difference {diff} items {items} by value {once}");
    let unit: Vec<u8> = (0..n).map(|i| b'a' + (i % 23) as u8).collect();
    let mut pat = unit.clone();
    match diff {
        0 => {}
        1 | 2 | 3 => {
            if n == 0 {
                return Ok(());
            }
            pat[[0, n / 2, n - 1][diff - 1]] = b'z';
        }
        4 => pat.push(b'a'),
        _ => {
            pat.pop();
        }
    }
    let want = unit.starts_with(&pat).then_some(((), pat.len()));
    outcome(&want.is_some());
    state(&(n, how, diff, items));
    let (cuts, _) = long_cuts(n, how.min(3));
    if items {
        let mut p = cut_items(&unit, &cuts, &[]);
        if how == 3 {
            p.0.splice(0..0, (0..n).map(|_| Box::from([])));
        } else if how == 4 {
            p.0.splice(p.0.len()..p.0.len(), (0..n).map(|_| Box::from([])));
        }
        on_items(atom(pat), &unit, TestSeq::new(Rc::new(p), flag()), once, want)
    } else {
        let (text, pat) = (String::from_utf8(unit).unwrap(), String::from_utf8(pat).unwrap());
        let mut p = cut_str(&text, &cuts, &[]);
        if how == 3 {
            p.0.splice(0..0, (0..n).map(|_| Box::from("")));
        } else if how == 4 {
            p.0.splice(p.0.len()..p.0.len(), (0..n).map(|_| Box::from("")));
        }
        on_text(atom(pat.as_str()), &text, TestSeq::new(Rc::new(p), flag()), once, want)
    }
}
/// any / the on one unit behind `n` empty pieces, with `n` more units after it.
pub fn long_empties(n: usize) -> R {
    let items = flag();
    let once = flag();
    let the = flag();
    let hit = flag();
    let have = flag();
    logln!("{n} empty pieces, items {items} by value {once} the {the} hit {hit} have {have}");
    state(&(n, items, the, hit, have));
    if items {
        let text: Vec<u8> = if have { vec![7; n + 1] } else { vec![] };
        let mut p: Vec<Box<[u8]>> = (0..n).map(|_| Box::from([])).collect();
        p.push(text.clone().into());
        let s = TestSeq::new(Rc::new(Pieces(p)), false);
        if the {
            on_items(the_item(if hit { 7 } else { 8 }), &text, s, once, (hit && have).then_some(((), 1)))
        } else {
            on_items(any_item(), &text, s, once, have.then_some((7, 1)))
        }
    } else {
        let text: String = if have { "é".repeat(n + 1) } else { String::new() };
        let mut p: Vec<Box<str>> = (0..n).map(|_| Box::from("")).collect();
        p.push(text.clone().into());
        let s = TestSeq::new(Rc::new(Pieces(p)), false);
        if the {
            on_text(the_char(if hit { 'é' } else { 'è' }), &text, s, once, (hit && have).then_some(((), 2)))
        } else {
            on_text(any_char(), &text, s, once, have.then_some(('é', 2)))
        }
    }
}

/// Characters that a narrowed, folded or byte-wise comparison would confuse with `c`.
pub fn near(c: char) -> Vec<char> {
    let n = c as u32;
    let mut v: Vec<u32> = (0..21).map(|k| n ^ (1 << k)).collect();
    v.extend([n.wrapping_sub(1), n + 1, n & 0xff, n & 0xffff, n & 0x7ff, n | 0x10000, n | 0x80, n.swap_bytes() >> 16, 0, 0xfeff, 0xfffd, b'a' as u32]);
    let mut v: Vec<char> = v.into_iter().filter_map(char::from_u32).collect();
    v.extend(c.to_lowercase().chain(c.to_uppercase()));
    // the same bytes but one
    let mut b = [0; 4];
    let l = c.encode_utf8(&mut b).len();
    for i in 0..l {
        for x in [0x80, 0xbf, b[i] ^ 1, b[i] ^ 0x20] {
            let mut d = b;
            d[i] = x;
            v.extend(std::str::from_utf8(&d[..l]).ok().and_then(|s| s.chars().next()));
        }
    }
    v.sort();
    v.dedup();
    v.retain(|d| *d != c);
    v
}
/// Every character of a block of `len` code points: it is matched and yielded, and none that resembles it is.
pub fn every_char(block: u32, len: u32) -> R {
    logln!("characters {:x}..{:x}", block * len, (block + 1) * len);
    let mut text = String::new();
    for c in (block * len..(block + 1) * len).filter_map(char::from_u32) {
        count("characters");
        text.clear();
        text.push(c);
        text.push('x');
        let l = c.len_utf8();
        check_eq!(run(any_char().parse(text.as_str())).ok(), Some((c, "x")), "any", "any_char on {c:?}");
        check_eq!(run(the_char(c).parse(text.as_str())).ok(), Some(((), "x")), "refuses", "the_char({c:?}) on itself");
        check_eq!(run(atom(&text[..l]).parse(text.as_str())).ok(), Some(((), "x")), "refuses", "atom({c:?}) on itself");
        for d in near(c) {
            check!(run(the_char(d).parse(text.as_str())).is_err(), "accepts", "the_char({d:?}) on {c:?}");
            let mut b = [0; 4];
            check!(run(atom(&*d.encode_utf8(&mut b)).parse(text.as_str())).is_err(), "accepts", "atom({d:?}) on {c:?}");
            count("pairs of characters");
        }
    }
    Ok(())
}
