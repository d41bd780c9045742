//! C21 with real threads: a parse runs while another thread loads.
use loom::thread;
use loomx::*;
use parcom_core::{Parser, ParserOnce, Sequence, SegmentStream};
use parcom_parsers::primitive::{any_item, atom, the_item};

fn items(v: &[u32]) -> Vec<Item> {
    v.iter().map(|&i| Item::new(i)).collect()
}
/// How far the parse got (or that it failed), and the position of what is left.
async fn parse(kind: usize, s: Seq) -> (&'static str, Option<(u32, Seq)>) {
    match kind {
        // the first two items
        0 => match atom(items(&[0, 1])).parse_once(s).await {
            Ok((_, s)) => ("ok", Some((2, s))),
            // nothing was consumed
            Err((_, s)) => ("miss", Some((0, unsafe { s.unwrap() }))),
        },
        // something else at the second
        1 => match atom(items(&[0, 7])).parse_once(s).await {
            Ok((_, s)) => ("ok", Some((2, s))),
            Err((_, s)) => ("miss", Some((0, unsafe { s.unwrap() }))),
        },
        2 => match any_item().parse(s).await {
            Ok((i, s)) => match the_item(Item::new(1)).parse_once(s).await {
                Ok((_, s)) => ("ok", Some((i.get() + 2, s))),
                Err((_, s)) => ("second", Some((i.get() + 1, unsafe { s.unwrap() }))),
            },
            Err((_, s)) => ("miss", Some((0, unsafe { s.unwrap() }))),
        },
        _ => match the_item(Item::new(9)).parse_once(s).await {
            Ok(_) => ("ok", None),
            Err((_, s)) => ("miss", Some((0, unsafe { s.unwrap() }))),
        },
    }
}
fn main() {
    loomx::main(|t| {
        let mut v = vec![];
        let q: &[&[usize]] = &[&[], &[1], &[2], &[1, 1], &[3]];
        let th: &[&[usize]] = &[&[], &[1], &[2], &[1, 1], &[3], &[1, 2], &[1, 1, 1]];
        for sizes in t.pick(q, th) {
            let total = sizes.iter().sum::<usize>();
            for kind in 0..4 {
                for force in [false, true] {
                    let bound = if sizes.len() < 2 { t.pick(Some(3), Some(4)) } else { t.pick(Some(2), Some(3)) };
                    let name = format!("parse {kind} of {sizes:?}{}", if force { " committed at once" } else { "" });
                    v.push(model(name, bound, move || {
                        let (b, ld) = build(sizes, 1, None);
                        let (s, n, f) = sequence(b);
                        let h = thread::spawn(move || loading(ld, n, f, Side { force, ..ALL }));
                        let (r, rest) = block_on(parse(kind, s));
                        let want = match kind {
                            0 => [("miss", 0), ("miss", 0), ("ok", 2), ("ok", 2)][total],
                            2 => [("miss", 0), ("second", 1), ("ok", 2), ("ok", 2)][total],
                            _ => ("miss", 0),
                        };
                        let (at, mut s) = rest.unwrap();
                        must((r, at) == want, "result", || format!("{:?} in place of {want:?}", (r, at)));
                        // the rest is what is left
                        let mut k = at;
                        {
                            let mut st = s.segments();
                            while let Some(x) = block_on(st.next(1)) {
                                take(x, &mut k);
                            }
                        }
                        must(k == total as u32, "rest", || format!("the rest ends at {k} of {total}"));
                        drop(s);
                        h.join().unwrap();
                        r.into()
                    }));
                }
            }
        }
        v
    })
}
