//! C18 with real threads: a consumer advances while another thread loads.
use loom::thread;
use loomx::*;
use parcom_core::{Sequence, SegmentStream};

fn main() {
    loomx::main(|t| {
        let mut v = vec![];
        let q: &[&[usize]] = &[&[], &[1], &[2, 1]];
        let th: &[&[usize]] = &[&[], &[1], &[2, 1], &[1, 1], &[1, 2, 1]];
        for sizes in t.pick(q, th) {
            let total = sizes.iter().sum::<usize>();
            let all = total as u32;
            for side in [ALL, Side { lazy: true, force: true, ..ALL }] {
                let bound = [t.pick(Some(4), None), t.pick(Some(4), Some(5)), t.pick(Some(3), Some(4)), Some(3)][sizes.len()];
                let name = format!("{sizes:?}{}", if side.force { " committed at once" } else { "" });
                for n in 0..=total + 1 {
                    v.push(model(format!("advance {n} of {name}"), bound, move || {
                        let (b, ld) = build(sizes, 1, None);
                        let (s, nf, f) = sequence(b);
                        let h = thread::spawn(move || loading(ld, nf, f, side));
                        let mut s = block_on(s.advance(n));
                        let mut k = n.min(total) as u32;
                        let mut st = s.segments();
                        let mut segs = 0;
                        while let Some(x) = block_on(st.next(1)) {
                            take(x, &mut k);
                            segs += 1;
                        }
                        must(k == all, "end", || format!("told the end at {k} of {all} items"));
                        drop(st);
                        h.join().unwrap();
                        format!("{segs}")
                    }));
                }
                // the advance goes on within the wake-ups that the loading thread sends
                for n in [total, total + 1] {
                    v.push(model(format!("advance at once {n} of {name}"), bound, move || {
                        let (b, ld) = build(sizes, 1, None);
                        let (s, nf, f) = sequence(b);
                        let h = thread::spawn(move || loading(ld, nf, f, side));
                        let got = std::sync::Arc::new(std::sync::Mutex::new(None));
                        let to = got.clone();
                        let go = async move {
                            let mut s = s.advance(n).await;
                            let mut k = n.min(total) as u32;
                            let mut st = s.segments();
                            let mut segs = 0;
                            while let Some(x) = st.next(1).await {
                                take(x, &mut k);
                                segs += 1;
                            }
                            *to.lock().unwrap() = Some((k, segs));
                        };
                        inline(go, || h.join().unwrap());
                        let (k, segs) = got.lock().unwrap().unwrap();
                        must(k == all, "end", || format!("told the end at {k} of {all} items"));
                        format!("{segs}")
                    }));
                }
                v.push(model(format!("advance twice in {name}"), bound, move || {
                    let (b, ld) = build(sizes, 1, None);
                    let (s, nf, f) = sequence(b);
                    let h = thread::spawn(move || loading(ld, nf, f, side));
                    let s = block_on(s.advance(1));
                    let mut s = block_on(s.advance(1));
                    let mut k = 2.min(total) as u32;
                    let mut st = s.segments();
                    if let Some(x) = block_on(st.next(1)) {
                        take(x, &mut k);
                    } else {
                        must(k == all, "end", || format!("told the end at {k} of {all} items"));
                    }
                    drop(st);
                    drop(s);
                    h.join().unwrap();
                    format!("{k}")
                }));
            }
        }
        v
    })
}
