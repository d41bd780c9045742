//! C17 with real threads: a consumer awaits segments while another thread loads.
use loom::thread;
use loomx::*;
use parcom_core::{Sequence, SegmentStream};

fn main() {
    loomx::main(|t| {
        let mut v = vec![];
        let q: &[&[usize]] = &[&[], &[1], &[2, 1]];
        let th: &[&[usize]] = &[&[], &[1], &[2, 1], &[0, 1], &[1, 1, 1]];
        for sizes in t.pick(q, th) {
            let all = sizes.iter().sum::<usize>() as u32;
            for side in [ALL, Side { force: true, ..ALL }, Side { lazy: true, ..ALL }] {
                let bound = [t.pick(Some(4), None), t.pick(Some(4), Some(5)), t.pick(Some(3), Some(4)), Some(3)][sizes.len()];
                let name = format!("{sizes:?}{}{}", if side.force { " committed at once" } else { "" }, if side.lazy { " signalled when appended" } else { "" });
                v.push(model(format!("read {name}"), bound, move || {
                    let (b, ld) = build(sizes, 1, None);
                    let (mut s, n, f) = sequence(b);
                    let h = thread::spawn(move || loading(ld, n, f, side));
                    let mut k = 0;
                    let mut segs = 0;
                    let mut st = s.segments();
                    while let Some(x) = block_on(st.next(1)) {
                        segs += 1;
                        take(x, &mut k);
                    }
                    must(k == all, "end", || format!("told the end after {k} of {all} items"));
                    drop(st);
                    h.join().unwrap();
                    format!("{segs}")
                }));
                // the reader runs within the wake-ups that the loading thread sends
                v.push(model(format!("read at once {name}"), bound, move || {
                    let (b, ld) = build(sizes, 1, None);
                    let (mut s, n, f) = sequence(b);
                    let h = thread::spawn(move || loading(ld, n, f, side));
                    let got = std::sync::Arc::new(std::sync::Mutex::new(None));
                    let to = got.clone();
                    let read = async move {
                        let mut k = 0;
                        let mut segs = 0;
                        let mut st = s.segments();
                        while let Some(x) = st.next(1).await {
                            segs += 1;
                            take(x, &mut k);
                        }
                        *to.lock().unwrap() = Some((k, segs));
                    };
                    inline(read, || h.join().unwrap());
                    let (k, segs) = got.lock().unwrap().unwrap();
                    must(k == all, "end", || format!("told the end after {k} of {all} items"));
                    format!("{segs}")
                }));
                // every wait is begun anew
                v.push(model(format!("reread {name}"), bound, move || {
                    let (b, ld) = build(sizes, 1, None);
                    let (mut s, n, f) = sequence(b);
                    let h = thread::spawn(move || loading(ld, n, f, side));
                    let mut segs = 0;
                    loop {
                        let mut st = s.segments();
                        let mut k = 0;
                        let mut ended = false;
                        for _ in 0..=segs {
                            match block_on(st.next(1)) {
                                Some(x) => take(x, &mut k),
                                None => {
                                    ended = true;
                                    break;
                                }
                            }
                        }
                        if ended {
                            must(k == all, "end", || format!("told the end after {k} of {all} items"));
                            break;
                        }
                        segs += 1;
                    }
                    h.join().unwrap();
                    format!("{segs}")
                }));
                v.push(model(format!("abandon a wait {name}"), bound.map(|b: usize| if b > 2 { b - 1 } else { b }), move || {
                    let (b, ld) = build(sizes, 1, None);
                    let (mut s, n, f) = sequence(b);
                    let h = thread::spawn(move || loading(ld, n, f, side));
                    let mut k = 0;
                    let mut st = s.segments();
                    let mut o = 0;
                    {
                        let mut w = Box::pin(st.next(1));
                        if let std::task::Poll::Ready(r) = once(w.as_mut()) {
                            o = 1;
                            match r {
                                Some(x) => take(x, &mut k),
                                None => must(all == 0, "end", || "told the end before the items".into()),
                            }
                        }
                    }
                    while let Some(x) = block_on(st.next(1)) {
                        take(x, &mut k);
                    }
                    must(k == all, "end", || format!("told the end after {k} of {all} items"));
                    drop(st);
                    h.join().unwrap();
                    format!("{o}")
                }));
            }
        }
        v
    })
}
