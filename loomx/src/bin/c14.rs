//! C14 with real threads: a reader of the buffer while another thread is committing.
use loom::thread;
use loomx::*;
use parcom_sequence_core::{SequenceBuffer, SequenceLoader};

/// Loads and commits everything on another thread.
fn spawn(mut ld: Loader, force: bool) -> thread::JoinHandle<Loader> {
    thread::spawn(move || {
        loop {
            let done = now(ld.load()).map_or(false, |i| i.is_done());
            if done {
                break;
            }
            if force {
                ld.force_commit();
            }
        }
        ld
    })
}
fn rest(b: &Buffer, at: u32, want: u32) {
    let mut k = at;
    for s in b.segments() {
        take(s, &mut k);
    }
    must(k == want, "items", || format!("{k} items readable of {want}"));
}
fn main() {
    loomx::main(|t| {
        let mut v = vec![];
        let q: &[&[usize]] = &[&[1], &[2, 1], &[0, 1, 1]];
        let th: &[&[usize]] = &[&[1], &[2, 1], &[0, 1, 1], &[1, 2, 3, 1]];
        for sizes in t.pick(q, th) {
            let total: usize = sizes.iter().sum();
            for force in [false, true] {
                let name = format!("{sizes:?}{}", if force { " committed at once" } else { "" });
                let all = total as u32;
                let bound = if !force || sizes.len() == 1 { None } else { t.pick(Some(3), Some(5)) };
                v.push(model(format!("read {name}"), bound, move || {
                    let (b, ld) = build(sizes, 1, None);
                    let h = spawn(ld, force);
                    let mut it = b.segments();
                    let mut k = 0;
                    let mut o = vec![];
                    // an iterator that ran out resumes
                    for _ in 0..t.pick(3, 5) {
                        if let Some(s) = it.next() {
                            take(s, &mut k);
                        }
                        o.push(k);
                    }
                    let ld = h.join().unwrap();
                    for s in it {
                        take(s, &mut k);
                    }
                    must(k == all, "items", || format!("{k} items seen of {all}"));
                    rest(&b, 0, all);
                    drop(ld);
                    format!("{o:?}")
                }));
                for n in 1..=(total + 1).min(3) {
                    v.push(model(format!("advance {n} of {name}"), bound, move || {
                        let (mut b, ld) = build(sizes, 1, None);
                        let h = spawn(ld, force);
                        let left = b.advance(n);
                        must(left <= n, "advance", || format!("{left} left of {n}"));
                        let mut k = (n - left) as u32;
                        let from = k;
                        let mut it = b.segments();
                        for _ in 0..2 {
                            if let Some(s) = it.next() {
                                if left > 0 {
                                    // committed since
                                    must(s.len() <= total, "items", || "too many items".into());
                                }
                                take(s, &mut k);
                            }
                        }
                        drop(it);
                        let left2 = b.advance(left);
                        let ld = h.join().unwrap();
                        let left3 = b.advance(left2);
                        must(left3 == n.saturating_sub(total), "advance", || format!("{left3} missing of {n} in {total}"));
                        rest(&b, (n.min(total)) as u32, all);
                        drop(ld);
                        format!("{from} {k} {left2}")
                    }));
                }
            }
        }
        v
    })
}
