//! C24 with real threads: reader and loader are released in any order while the other goes on.
//! (Lost memory shows as a leak in loom, a double release as an error, lost items in the count.)
use loom::thread;
use loomx::*;
use parcom_core::{Sequence, SegmentStream};
use parcom_sequence_core::{SequenceBuffer, SequenceLoader};

fn load_all(ld: &mut Loader, force: bool, loads: usize) {
    for _ in 0..loads {
        if now(ld.load()).map_or(false, |i| i.is_done()) {
            break;
        }
        if force {
            ld.force_commit();
        }
    }
}
fn main() {
    loomx::main(|t| {
        let mut v = vec![];
        let q: &[&[usize]] = &[&[1], &[2, 1]];
        let th: &[&[usize]] = &[&[1], &[2, 1], &[1, 1, 1], &[1, 1, 1, 1]];
        for sizes in t.pick(q, th) {
            let total = sizes.iter().sum::<usize>();
            for force in [false, true] {
                let bound = if sizes.len() < 3 { None } else { Some(4) };
                let name = format!("{sizes:?}{}", if force { " committed at once" } else { "" });
                for skip in [0, 1, total] {
                    // the loader goes on after the reader is gone, or stops before
                    for loads in [1, 9] {
                        v.push(model(format!("reader leaves after {skip}, loader after {loads} of {name}"), bound, move || {
                            let (mut b, mut ld) = build(sizes, 1, None);
                            let h = thread::spawn(move || {
                                load_all(&mut ld, force, loads);
                                drop(ld);
                            });
                            let left = b.advance(skip);
                            {
                                let mut it = b.segments();
                                let mut k = (skip - left) as u32;
                                if let Some(s) = it.next() {
                                    take(s, &mut k);
                                }
                            }
                            drop(b);
                            h.join().unwrap();
                            format!("{left}")
                        }));
                    }
                }
                // passed segments are gone while the loader is still there
                v.push(model(format!("passed items are released {name}"), bound, move || {
                    let (mut b, mut ld) = build(sizes, 1, None);
                    let h = thread::spawn(move || {
                        load_all(&mut ld, force, 9);
                        ld
                    });
                    let left = b.advance(total);
                    let ld = h.join().unwrap();
                    let left = b.advance(left);
                    must(left == 0, "advance", || format!("{left} missing"));
                    must(live() == 0, "held", || format!("{} items held that nobody can reach", live()));
                    drop(ld);
                    "released".into()
                }));
            }
            v.push(model(format!("streaming reader leaves {sizes:?}"), t.pick(Some(3), Some(4)), move || {
                let (b, ld) = build(sizes, 1, None);
                let (mut s, n, f) = sequence(b);
                let h = thread::spawn(move || loading(ld, n, f, ALL));
                let mut k = 0;
                {
                    let mut st = s.segments();
                    if let Some(x) = block_on(st.next(1)) {
                        take(x, &mut k);
                    }
                }
                drop(s);
                h.join().unwrap();
                format!("{k}")
            }));
        }
        v
    })
}
