//! C23 with real threads: waits and advances are abandoned while another thread loads and signals.
use loom::thread;
use loomx::*;
use parcom_core::{Sequence, SegmentStream};
use std::task::Poll;

fn main() {
    loomx::main(|t| {
        let mut v = vec![];
        let q: &[&[usize]] = &[&[1], &[2, 1]];
        let th: &[&[usize]] = &[&[1], &[2, 1], &[1, 1, 1]];
        for sizes in t.pick(q, th) {
            let total = sizes.iter().sum::<usize>();
            for side in [ALL, Side { force: true, ..ALL }, Side { loads: 1, ..ALL }] {
                let bound = t.pick(Some(3), Some(4));
                let name = format!(
                    "{sizes:?}{}{}",
                    if side.force { " committed at once" } else { "" },
                    if side.loads < 9 { " with a loader that gives up" } else { "" }
                );
                for polls in 1..=t.pick(2, 3) {
                    v.push(model(format!("segment wait dropped after {polls} polls {name}"), bound, move || {
                        let (b, ld) = build(sizes, 1, None);
                        let (mut s, n, f) = sequence(b);
                        let h = thread::spawn(move || loading(ld, n, f, side));
                        let mut k = 0;
                        {
                            let mut st = s.segments();
                            let mut w = Box::pin(st.next(1));
                            for _ in 0..polls {
                                if let Poll::Ready(r) = once(w.as_mut()) {
                                    if let Some(x) = r {
                                        take(x, &mut k);
                                    }
                                    break;
                                }
                            }
                        }
                        drop(s);
                        h.join().unwrap();
                        format!("{k}")
                    }));
                    for n in [1, total] {
                        v.push(model(format!("advance by {n} dropped after {polls} polls {name}"), bound, move || {
                            let (b, ld) = build(sizes, 1, None);
                            let (s, nf, f) = sequence(b);
                            let h = thread::spawn(move || loading(ld, nf, f, side));
                            let mut a = Box::pin(s.advance(n));
                            let mut o = "dropped";
                            for _ in 0..polls {
                                if let Poll::Ready(mut s) = once(a.as_mut()) {
                                    o = "done";
                                    // what is readable is readable
                                    let mut st = s.segments();
                                    let mut k = n.min(total) as u32;
                                    if let Poll::Ready(Some(x)) = once(Box::pin(st.next(1)).as_mut()) {
                                        take(x, &mut k);
                                    }
                                    break;
                                }
                            }
                            drop(a);
                            h.join().unwrap();
                            o.into()
                        }));
                    }
                }
            }
        }
        v
    })
}
