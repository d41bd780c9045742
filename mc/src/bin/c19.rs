//! C19: every nesting of the error wrappers up to a depth, and every extraction from two-way values.
use mc::*;
use parcom_core::{Never, ParseError, RewindSequence, Sequence};
use parcom_util::error::{Fatal, Miss};
use parcom_util::{done, fail, Either, EitherBoth};
use std::cell::Cell;
use std::future::IntoFuture;
use std::rc::Rc;

#[derive(Clone)]
struct Leaf(bool);
impl ParseError for Leaf {
    fn should_terminate(&self) -> bool {
        self.0
    }
}
/// Any error, behind a pointer.
struct Dyn(Box<dyn ParseError>);
impl ParseError for Dyn {
    fn should_terminate(&self) -> bool {
        self.0.should_terminate()
    }
}
/// `&T` as an owned error.
struct ByRef<T>(T, usize);
impl<T: ParseError> ParseError for ByRef<T> {
    fn should_terminate(&self) -> bool {
        let r = &self.0;
        match self.1 {
            1 => <&T as ParseError>::should_terminate(&r),
            2 => <&&T as ParseError>::should_terminate(&&r),
            _ => <Option<&T> as ParseError>::should_terminate(&Some(r)),
        }
    }
}
fn erase(e: impl ParseError + 'static) -> Dyn {
    Dyn(Box::new(e))
}
/// A tree, what it must answer, and how it reads.
fn tree(depth: usize) -> (Dyn, bool, String) {
    let k = if depth == 0 { choose(2) } else { choose(13) };
    if k < 2 {
        return (erase(Leaf(k == 1)), k == 1, if k == 1 { "T" } else { "m" }.into());
    }
    if k == 9 {
        return (erase(None::<Dyn>), false, "None".into());
    }
    let (a, ta, sa) = tree(depth - 1);
    match k {
        2 => (erase(Fatal(a)), true, format!("Fatal({sa})")),
        3 => (erase(Miss(a)), false, format!("Miss({sa})")),
        4 => (erase(Either::<Dyn, Leaf>::First(a)), ta, format!("First({sa})")),
        5 => (erase(Either::<Leaf, Dyn>::Last(a)), ta, format!("Last({sa})")),
        6 => (erase(EitherBoth::<Dyn, Leaf>::First(a)), ta, format!("OnlyFirst({sa})")),
        7 => (erase(EitherBoth::<Leaf, Dyn>::Last(a)), ta, format!("OnlyLast({sa})")),
        8 => (erase(Some(a)), ta, format!("Some({sa})")),
        10 => {
            let n = 1 + choose(3);
            (erase(ByRef(a, n)), ta, format!("&{n}({sa})"))
        }
        _ => {
            let (b, tb, sb) = tree(depth - 1);
            if k == 11 {
                (erase(EitherBoth::Both(a, b)), ta || tb, format!("Both({sa},{sb})"))
            } else {
                // the wrappers made by conversion
                let (f, m): (Fatal<Dyn>, Miss<Dyn>) = (a.into(), b.into());
                (erase(EitherBoth::Both(m, f)), true, format!("Both(Miss {sb},Fatal {sa})"))
            }
        }
    }
}
/// A deep nesting of the wrappers of one word, repeated, around one error.
fn deep(ns: &[usize]) -> R {
    let word: Vec<usize> = (0..1 + choose(2)).map(|_| choose(7)).collect();
    let n = pick(ns);
    let mut want = flag();
    let mut e = erase(Leaf(want));
    for i in 0..n {
        let side = Leaf(false);
        e = match word[i % word.len()] {
            0 => erase(Either::<Dyn, Leaf>::First(e)),
            1 => erase(Either::<Leaf, Dyn>::Last(e)),
            2 => erase(EitherBoth::Both(e, side)),
            3 => erase(EitherBoth::Both(side, e)),
            4 => erase(Some(e)),
            5 => {
                want = true;
                erase(Fatal(e))
            }
            _ => {
                want = false;
                erase(Miss(e))
            }
        };
    }
    logln!("{n} wrappers of the kinds {word:?} -> {want}");
    state(&(n, want));
    check_eq!(e.should_terminate(), want, "classification", "deep nesting");
    Ok(())
}
fn classify(depth: usize) -> R {
    let (e, want, s) = tree(depth);
    logln!("{s} -> {want}");
    outcome(&(s.len(), want));
    for _ in 0..2 {
        check_eq!(e.should_terminate(), want, "classification", "{s}");
    }
    check_eq!((&e).should_terminate(), want, "classification", "reference to {s}");
    Ok(())
}

/// Errors of other layouts: without size, large, over-aligned, without a spare bit pattern.
macro_rules! errors {
    ($($name:ident ($e:ident) $t:ty, $v:expr, $judge:expr;)*) => {$(
        #[derive(Clone, Copy)]
        struct $name($t);
        impl ParseError for $name {
            fn should_terminate(&self) -> bool {
                let $e = &self.0;
                $judge
            }
        }
    )*};
}
#[derive(Clone, Copy)]
#[repr(align(128))]
struct Wide(u8);
errors! {
    ZstT(_e) (), (), true;
    ZstM(_e) (), (), false;
    Byte(e) u8, 0, *e >= 128;
    Big(e) [u64; 100], [0; 100], e[99] != 0;
    Aligned(e) Wide, Wide(0), e.0 == 1;
    Ptr(e) &'static bool, &false, **e;
}
fn wrapped<A: ParseError + Copy + 'static, B: ParseError + Copy + 'static>((a, ta): (A, bool), (b, tb): (B, bool)) -> R {
    macro_rules! is {
        ($e:expr, $want:expr) => {
            check_eq!(ParseError::should_terminate(&$e), $want, "classification", "{}", stringify!($e));
            check_eq!(ParseError::should_terminate(&&$e), $want, "classification", "&{}", stringify!($e));
        };
    }
    is!(a, ta);
    is!(Fatal(a), true);
    is!(Miss(a), false);
    is!(Fatal(Miss(a)), true);
    is!(Miss(Fatal(a)), false);
    is!(Either::<A, B>::First(a), ta);
    is!(Either::<A, B>::Last(b), tb);
    is!(Either::<Fatal<A>, Miss<B>>::First(Fatal(a)), true);
    is!(Either::<Fatal<A>, Miss<B>>::Last(Miss(b)), false);
    is!(EitherBoth::<A, B>::First(a), ta);
    is!(EitherBoth::<A, B>::Last(b), tb);
    is!(EitherBoth::Both(a, b), ta || tb);
    is!(EitherBoth::Both(Some(a), b), ta || tb);
    is!(EitherBoth::Both(None::<A>, b), tb);
    is!(EitherBoth::Both(a, None::<B>), ta);
    is!(EitherBoth::Both(Miss(a), Miss(b)), false);
    is!(EitherBoth::Both(Either::<A, B>::Last(b), EitherBoth::<A, B>::First(a)), ta || tb);
    is!(Some(a), ta);
    is!(None::<A>, false);
    is!(Some(Either::<A, B>::Last(b)), tb);
    is!(Some(EitherBoth::Both(a, b)), ta || tb);
    Ok(())
}
fn layouts() -> R {
    let (i, j) = (choose(9), choose(9));
    logln!("errors of layouts {i} and {j}");
    let mut big = [0; 100];
    big[99] = 1;
    macro_rules! with {
        ($k:expr, $x:ident, $body:expr) => {
            match $k {
                0 => { let $x = (ZstT(()), true); $body }
                1 => { let $x = (ZstM(()), false); $body }
                2 => { let $x = (Byte(255), true); $body }
                3 => { let $x = (Byte(127), false); $body }
                4 => { let $x = (Big(big), true); $body }
                5 => { let $x = (Big([0; 100]), false); $body }
                6 => { let $x = (Aligned(Wide(1)), true); $body }
                7 => { let $x = (Ptr(&true), true); $body }
                _ => { let $x = (Ptr(&false), false); $body }
            }
        };
    }
    state(&(i, j));
    with!(i, a, with!(j, b, wrapped(a, b)))
}

/// A value that is never equal by accident and is dropped exactly once.
#[derive(Debug)]
struct Val(u32, Rc<Cell<[u8; 4]>>);
impl Drop for Val {
    fn drop(&mut self) {
        let mut a = self.1.get();
        a[self.0 as usize] += 1;
        self.1.set(a);
    }
}
#[derive(Debug)]
struct A(Val);
#[derive(Debug)]
struct B(Val);
struct Uni(&'static str, Val);
impl From<A> for Uni {
    fn from(a: A) -> Self {
        Uni("a", a.0)
    }
}
impl From<B> for Uni {
    fn from(b: B) -> Self {
        Uni("b", b.0)
    }
}
fn extract() -> R {
    let drops = Rc::new(Cell::new([0u8; 4]));
    let val = |i| Val(i, drops.clone());
    let last = flag();
    let e = || if last { Either::Last(B(val(2))) } else { Either::First(A(val(1))) };
    let id = 1 + last as u32;
    let which = choose(9);
    logln!("{} of {}", ["unwrap_first", "unwrap_last", "unify", "always_first", "always_last", "both.always_first", "both.always_last", "clone", "convert"][which], if last { "Last" } else { "First" });
    let mut made = 1;
    match which {
        0 => match (catch(|| e().unwrap_first()), last) {
            (Ok(v), false) => check_eq!(v.0 .0, id, "extract", "value"),
            (Err(_), true) => {}
            (r, _) => fail!("extract", "unwrap_first of {}: {:?}", if last { "Last" } else { "First" }, r.map(|v| v.0 .0)),
        },
        1 => match (catch(|| e().unwrap_last()), last) {
            (Ok(v), true) => check_eq!(v.0 .0, id, "extract", "value"),
            (Err(_), false) => {}
            (r, _) => fail!("extract", "unwrap_last of {}: {:?}", if last { "Last" } else { "First" }, r.map(|v| v.0 .0)),
        },
        2 => {
            let u: Uni = e().unify();
            check_eq!((u.0, u.1 .0), (if last { "b" } else { "a" }, id), "extract", "unified");
        }
        3 => check_eq!(Either::<A, Never>::First(A(val(id))).always_first().0 .0, id, "extract", "always_first"),
        4 => check_eq!(Either::<Never, A>::Last(A(val(id))).always_last().0 .0, id, "extract", "always_last"),
        5 => check_eq!(EitherBoth::<A, Never>::First(A(val(id))).always_first().0 .0, id, "extract", "always_first"),
        6 => check_eq!(EitherBoth::<Never, A>::Last(A(val(id))).always_last().0 .0, id, "extract", "always_last"),
        7 => {
            let e: Either<u8, u16> = if last { Either::Last(300) } else { Either::First(7) };
            let c = e.clone();
            check_eq!(format!("{c:?}"), if last { "Last(300)" } else { "First(7)" }.to_string(), "extract", "clone");
            check_eq!(format!("{e:?}"), format!("{c:?}"), "extract", "cloned");
            let b: EitherBoth<u8, u16> = if last { EitherBoth::Both(1, 2) } else { EitherBoth::Last(3) };
            let c = b.clone();
            check_eq!(format!("{c:?}"), if last { "Both(1, 2)" } else { "Last(3)" }.to_string(), "extract", "clone");
            let u: u32 = e.unify();
            check_eq!(u, if last { 300 } else { 7 }, "extract", "unified");
            made = 0;
        }
        _ => {
            let f: Fatal<A> = A(val(id)).into();
            check_eq!(f.0 .0 .0, id, "extract", "wrapped");
            drop(f);
            let m: Miss<A> = A(val(id)).into();
            check_eq!(m.0 .0 .0, id, "extract", "wrapped");
            made = 2;
        }
    }
    let mut want = [0u8; 4];
    want[id as usize] = made;
    check_eq!(drops.get(), want, "drops", "drops of the held value");
    outcome(&(which, last));
    Ok(())
}
/// `done` and `fail` hand over exactly what they are given, at exactly the given place.
fn results(len: usize) -> R {
    let text: String = (0..choose(len + 1)).map(|i| ['a', 'b', 'é'][i % 3]).collect();
    let at = choose(text.chars().count() + 1);
    let s = text.as_str();
    let anchor = s.anchor();
    let rest = &s[s.char_indices().nth(at).map_or(s.len(), |x| x.0)..];
    match done::<_, _, Miss<u32>>(at, rest) {
        Ok((o, r)) => check_eq!((o, r), (at, rest), "results", "done"),
        Err(_) => fail!("results", "done is an error"),
    }
    let terminate = flag();
    let (e, r) = if terminate {
        match fail::<&str, (), Fatal<usize>>(at, rest) {
            Err((e, r)) => ((e.should_terminate(), e.0), r),
            Ok(_) => fail!("results", "fail is a success"),
        }
    } else {
        match fail::<&str, (), Miss<usize>>(at, rest) {
            Err((e, r)) => ((e.should_terminate(), e.0), r),
            Ok(_) => fail!("results", "fail is a success"),
        }
    };
    check_eq!(e, (terminate, at), "results", "error");
    check_eq!(unsafe { r.clone().unwrap() }, rest, "results", "where it failed");
    check_eq!(mc::seq::now(r.rewind(anchor).into_future()), s, "results", "rewound");
    let _ = mc::seq::now(s.advance(Default::default()).into_future());
    Ok(())
}
fn main() {
    mc::main(|t| {
        vec![
            job("classification", 0, move || classify(t.pick(1, 3, 3))),
            {
                let ns = explore::sizes(t.pick(2, 60, 120), t.pick(2, 1025, 1025));
                job("deep nesting", 0, move || deep(&ns))
            },
            job("layouts", 0, layouts),
            job("extraction", 0, extract),
            job("done and fail", 0, move || results(t.pick(2, 9, 11))),
        ]
    })
}
