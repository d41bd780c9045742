//! C01: primitive parsers against the string-prefix oracle, over every segmentation.
use mc::prim::*;
use mc::*;
use mc::drive::run;
use mc::seq::*;
use parcom_core::*;
use parcom_core::{measured::IntoMeasured, primitive::BytesDelta};
use parcom_parsers::primitive::{any_char, atom, the_char, the_item};

fn main() {
    mc::main(|t| {
        let len = t.pick(2, 4, 5);
        let pat = t.pick(2, 4, 4);
        let empt = t.pick(1, 1, 2);
        let k = t.pick(3, 5, 5);
        let ilen = t.pick(3, 6, 6);
        let ipat = t.pick(2, 4, 5);
        let mut v = vec![];
        v.push(job("text/any_char", 0, move || text_job(0, 5, len, pat, 2)));
        v.push(job("text/the_char", 0, move || text_job(1, 5, len, pat, 2)));
        v.push(job("text/atom &str", 0, move || text_job(2, k, len, pat, empt)));
        v.push(job("text/atom String", 0, move || text_job(3, k, len, 2, empt)));
        v.push(job("items/u8", 0, move || items_job(|i| i as u8, 2, ilen, ipat, empt)));
        v.push(job("items/String", 0, move || items_job(|i| ["", "x", "yy"][i].to_string(), 3, t.pick(2, 4, 5), t.pick(1, 2, 3), empt)));
        v.push(job("items/()", 0, move || items_job(|_| (), 1, ilen, ipat, empt)));
        v.push(job("items/odd equality", 0, move || items_job(|i| Fickle(i as u8), 4, t.pick(2, 3, 4), t.pick(2, 3, 3), empt)));
        // literals that are the very memory the input lies in: equality of items decides, not of addresses
        v.push(job("literal within the input", 0, move || {
            let text: Vec<Fickle> = pick_word(4, t.pick(3, 5, 6)).into_iter().map(|i| Fickle(i as u8)).collect();
            let (i, j) = (choose(text.len() + 1), choose(text.len() + 1));
            let n = choose(text.len() + 1 - j);
            let (input, p) = (&text[i..], &text[j..j + n]);
            logln!("{input:?} pattern {p:?} at {i}, {j} {n}");
            let want = input.starts_with(p);
            outcome(&(want, i == j));
            // (the literal must outlive the parse only: lend it out for longer)
            let p: &'static [Fickle] = unsafe { std::slice::from_raw_parts(p.as_ptr(), n) };
            let r = if flag() { run(atom(p).parse(input)) } else { run(atom(p).parse_once(input)) };
            match r {
                Ok(((), rest)) => {
                    check!(want, "accepts", "accepted {input:?}");
                    check!(std::ptr::eq(rest, &input[n..]), "rest", "rest {rest:?}");
                }
                Err((e, rest)) => {
                    check!(!want, "refuses", "refused {input:?}");
                    let rest = run(rest.rewind(input.anchor()));
                    check!(!e.should_terminate() && std::ptr::eq(rest, input), "rest", "rest {rest:?}");
                }
            }
            if let Some(x) = p.first() {
                let want = input.first().is_some_and(|y| y == x);
                let r = run(the_item(*x).parse(input));
                check_eq!(r.is_ok(), want, "the", "the_item({x:?}) on {input:?}");
            }
            Ok(())
        }));
        let big = sizes_u16(t.pick(3, 100, 300), t.pick(5, 16385, 65537));
        let big2 = big.clone();
        v.push(job("long literals", 0, move || long_literal(pick(&big))));
        v.push(job("many empty pieces", 0, move || long_empties(pick(&big2))));
        v.push(job("every character", 0, move || match t {
            Tier::Miri => every_char(pick(&[0, 0x3f, 0x7ff, 0xfff]), 8),
            _ => every_char(choose(0x1100) as u32, 256),
        }));
        // the built-in, always complete inputs
        v.push(job("text/built-in str", 0, move || {
            let text = word(5, len);
            let p = word(5, t.pick(1, 2, 3));
            let c = CH[choose(5)];
            logln!("text {text:?} pattern {p:?} char {c:?}");
            let t = text.as_str();
            let r = run(atom(p.as_str()).parse(t));
            match r {
                Ok(((), rest)) => {
                    check!(text.starts_with(&p), "accepts", "atom({p:?}) accepted {text:?}");
                    check_eq!(rest, &text[p.len()..], "rest", "rest");
                }
                Err(_) => check!(!text.starts_with(&p), "refuses", "atom({p:?}) refused {text:?}"),
            }
            let r = run(the_char(c).parse(t.into_measured::<usize_metrics::CharCount>()));
            match r {
                Ok(((), mut rest)) => {
                    check!(text.starts_with(c), "accepts", "the_char({c:?}) accepted {text:?}");
                    check_eq!(rest_str(&mut rest), text[c.len_utf8()..], "rest", "rest");
                    check_eq!(rest.metrics().0, 1, "metrics", "characters counted");
                }
                Err(_) => check!(!text.starts_with(c), "refuses", "the_char({c:?}) refused {text:?}"),
            }
            let r = run(any_char().parse(t));
            check_eq!(r.ok().map(|(c, r)| (c, r.len())), text.chars().next().map(|c| (c, text.len() - c.len_utf8())), "any", "any_char");
            let b = text.as_bytes();
            let q = p.as_bytes();
            let r = run(atom(q).parse(b));
            check_eq!(r.ok().map(|x| x.1), b.strip_prefix(q), "rest", "atom on bytes");
            let _ = BytesDelta::ZERO;
            Ok(())
        }));
        v
    })
}

mod usize_metrics {
    use parcom_core::measured::*;
    #[derive(Debug, Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord)]
    pub struct CharCount(pub usize);
    #[derive(Debug, Clone, Copy, Default)]
    pub struct CharMeter(usize);
    impl Meter<str> for CharMeter {
        type Metrics = CharCount;
        fn advance(self, s: &str) -> Self {
            CharMeter(self.0 + s.chars().count())
        }
        fn metrics(&self) -> CharCount {
            CharCount(self.0)
        }
    }
    impl Metrics<str> for CharCount {
        type Meter = CharMeter;
    }
}
