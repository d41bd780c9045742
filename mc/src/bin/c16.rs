//! C16: the UTF-8 validator over every byte stream up to a length, in every division into chunks.
use mc::stream::*;
use mc::utf8::*;
use mc::*;

fn main() {
    mc::main(|t| {
        let mut v = vec![];
        let alphabet: &[u8] = &[0x61, 0xc3, 0xe3, 0x81, 0xf0, 0x9f, 0x98, 0xff, 0xed, 0xa0];
        let n = t.pick(3, 5, 6);
        let k = t.pick(5, 10, 10);
        v.push(job("byte streams", 0, move || {
            let b: Vec<u8> = pick_word(k, n).into_iter().map(|i| alphabet[i]).collect();
            stream(&b, pick_cuts(b.len()), vec![], if t == Tier::Thorough { pick(&[Strat::Exact, Strat::AtLeast(8)]) } else { Strat::Exact }, How::default())
        }));
        // every first and second byte there is, with whatever may follow, in every division
        let (b0, b1): (Vec<u8>, Vec<u8>) = match t {
            Tier::Miri => (vec![0x61, 0xe0, 0xff], vec![0x61, 0x9f]),
            _ => ((0..=255).collect(), (0..=255).collect()),
        };
        let more: Vec<&[u8]> = match t {
            Tier::Quick | Tier::Thorough => vec![b"", b"\x7f", b"\x80", b"\xbf", b"\xc0", b"\x80\x80", b"\xbf\xbf", b"\x80\x7f", b"\xbf\xc0", b"\xf0\x90", b"a\xc3"],
            _ => vec![b"", b"a", b"\x80", b"\xbf\xbf", b"\x80\xc0"],
        };
        v.push(job("every pair of bytes", 0, move || {
            let mut b = vec![pick(&b0), pick(&b1)];
            b.extend(pick(&more));
            stream(&b, pick_cuts(b.len()), vec![], Strat::Exact, How::default())
        }));
        if t != Tier::Miri {
            v.push(job("every character", 0, move || {
                let c = choose(0x110000 - 0x800) as u32;
                let c = char::from_u32(if c < 0xd800 { c } else { c + 0x800 }).unwrap();
                let b = c.to_string().into_bytes();
                stream(&b, pick_cuts(b.len()), vec![], Strat::Exact, How::default())
            }));
        }
        let n = t.pick(1, 3, 4);
        v.push(job("characters and broken characters", 0, move || {
            let b: Vec<u8> = pick_word(TOKENS.len(), n).into_iter().flat_map(|i| TOKENS[i].to_vec()).collect();
            if b.len() > 10 {
                count("skipped: more than 10 bytes");
                return Ok(());
            }
            let strat = pick(&[Strat::AtLeast(3), Strat::Double]);
            stream(&b, pick_cuts(b.len()), vec![], strat, How::default())
        }));
        let n = t.pick(1, 2, 3);
        for via in [Via::Iterator, Via::Validated] {
            v.push(job(format!("{via:?} streams"), t.pick(1, 1, 2), move || {
                let b: Vec<u8> = pick_word(TOKENS.len(), n).into_iter().flat_map(|i| TOKENS[i].to_vec()).collect();
                let strat = pick(&[Strat::Exact, Strat::AtLeast(3), Strat::Double]);
                let cuts = pick_cuts(b.len());
                let e: Vec<usize> = if flag() { vec![0, 1, cuts.len() + 1] } else { vec![] };
                stream(&b, cuts, e, strat, How { faults: true, via, ..How::default() })
            }));
        }
        v.push(job("suspensions, forced commits and source errors", t.pick(1, 2, 2), move || {
            let b: Vec<u8> = pick_word(9, n).into_iter().flat_map(|i| TOKENS[i].to_vec()).collect();
            let strat = pick(&STRATS);
            let cuts = pick_cuts(b.len());
            stream(&b, cuts, vec![], strat, How { faults: true, extra: choose(2), ..How::default() })
        }));
        v.push(job("empty chunks", 1, move || {
            let b: Vec<u8> = pick_word(9, n).into_iter().flat_map(|i| TOKENS[i].to_vec()).collect();
            let strat = pick(&STRATS);
            let cuts = pick_cuts(b.len());
            let e: Vec<usize> = (0..=cuts.len() + 1).filter(|_| flag()).collect();
            stream(&b, cuts, e, strat, How::default())
        }));
        // a long chunk that ends inside a character, and whatever may follow it
        let ns = sizes(t.pick(2, 70, 300), t.pick(3, 65537, 1 << 20));
        v.push(job("a long chunk broken off inside a character", 0, move || {
            let n = pick(&ns);
            let last = TOKENS[pick(&[1, 2, 3, 12, 13])];
            let k = 1 + choose(last.len() - 1);
            let unit = TOKENS[pick(&[0, 3])];
            // the chunk is of `n` bytes up to the character, or with its part of it
            let n = if flag() { n } else { n.saturating_sub(k) };
            let mut b: Vec<u8> = unit.iter().copied().cycle().take(n / unit.len() * unit.len()).collect();
            b.splice(0..0, std::iter::repeat_n(b'a', n % unit.len()));
            b.extend(&last[..k]);
            let mut cuts = vec![b.len()];
            match choose(5) {
                0 => {}
                1 => b.extend(&last[k..]),
                2 => {
                    for &c in &last[k..] {
                        cuts.push(b.len());
                        b.push(c);
                    }
                    b.extend("aé".as_bytes());
                }
                3 => b.push(b'a'),
                _ => b.extend([&last[k..], b"\xff"].concat()),
            }
            cuts.sort();
            cuts.dedup();
            cuts.retain(|&c| c < b.len());
            stream(&b, cuts, vec![], pick(&[Strat::Exact, Strat::Double]), How::default())
        }));
        // long streams of one or two kinds of characters, whole or broken off
        let ns = sizes(t.pick(2, 70, 300), t.pick(3, 65537, 131073));
        v.push(job("long streams", 0, move || {
            let n = pick(&ns);
            let unit: &[usize] = pick(&[&[0][..], &[1], &[2], &[3], &[0, 3], &[0, 2], &[0, 0, 1]]);
            let mut b: Vec<u8> = unit.iter().cycle().flat_map(|&i| TOKENS[i]).copied().take(n).collect();
            let tail = choose(3);
            if tail > 0 {
                // complete the last character, so that what follows is all that is wrong
                while let Err(e) = std::str::from_utf8(&b) {
                    let k = e.valid_up_to();
                    b.truncate(k);
                }
                b.extend([&b"\xff"[..], b"\xf0\x9f\x98"][tail - 1]);
            }
            let chunk = pick(&[1, 2, 3, 5, usize::MAX, 0]);
            let chunk = match chunk {
                0 => b.len() / 2 + 1,
                c if b.len() / c > 1100 => b.len() / 1000 + c,
                c => c,
            };
            let cuts = (1..b.len()).filter(|i| i % chunk == 0).collect();
            stream(&b, cuts, vec![], pick(&[Strat::Exact, Strat::AtLeast(8), Strat::Double, Strat::AtLeast(300)]), How { extra: choose(2), ..How::default() })
        }));
        v
    })
}
