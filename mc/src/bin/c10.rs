//! C10: line/column metrics of every text over a small alphabet, in every division into pieces.
use mc::seq::now;
use mc::*;
use parcom_core::measured::{IntoMeasured, Meter};
use parcom_core::primitive::BytesDelta;
use parcom_core::*;
use parcom_metrics::{end_of_line as eol, EndOfLine, LineColumn, LineColumnMeter};
use std::future::IntoFuture;

/// (total, line, column) of the last character, from the definition: a line ends after each terminator.
fn expect(text: &[char], term: &[char]) -> (usize, usize, usize) {
    let (mut line, mut col, mut fresh) = (0, 0, true);
    let mut i = 0;
    for (j, _) in text.iter().enumerate() {
        if fresh {
            line += 1;
            col = 0;
            fresh = false;
        }
        col += 1;
        if j + 1 >= i + term.len() && text[j + 1 - term.len()..=j] == *term {
            fresh = true;
            i = j + 1;
        }
    }
    (text.len(), line, col)
}
fn triple<E: EndOfLine>(m: &LineColumn<E>) -> (usize, usize, usize) {
    (m.total_count, m.line, m.column)
}
fn one<E: EndOfLine + Clone + 'static>(text: &[char], cuts: &[usize], term: &[char]) -> R {
    let mut meter = LineColumnMeter::<E>::default();
    let whole: String = text.iter().collect();
    let mut seq = whole.as_str().into_measured::<LineColumn<E>>();
    check_eq!(triple(&meter.metrics()), (0, 0, 0), "start", "metrics of nothing");
    let mut padded = meter.clone();
    let mut held = whole.as_str().into_measured::<LineColumn<E>>();
    let mut prev = (meter.metrics(), 0);
    let mut last = 0;
    for &c in cuts.iter().chain(std::iter::once(&text.len())) {
        let piece: String = text[last..c].iter().collect();
        last = c;
        meter = meter.advance(&piece);
        let m = meter.metrics();
        let want = expect(&text[..c], term);
        check_eq!(triple(&m), want, "metrics", "metrics after {:?}", &text[..c]);
        let advanced = seq.advance(BytesDelta::from_str(&piece));
        seq = now(advanced.into_future());
        check_eq!(triple(&seq.metrics()), want, "measured", "metrics of a measured string after {:?}", &text[..c]);
        check_eq!(m.cmp(&prev.0), c.cmp(&prev.1), "order", "order of the positions after {c} and {} characters", prev.1);
        check_eq!(prev.0.partial_cmp(&m), Some(prev.1.cmp(&c)), "order", "order of the positions after {} and {c} characters", prev.1);
        check_eq!(m == prev.0, c == prev.1, "order", "equality of the positions after {c} and {} characters", prev.1);
        check_eq!(triple(&m.clone()), triple(&m), "clone", "cloned metrics");
        if text.len() <= 8 {
            // a text taken up in the middle, with the meter of what came before
            let rest: String = text[c..].iter().collect();
            let taken = rest.as_str().into_measured_with::<LineColumn<E>>(meter.clone());
            check_eq!(triple(&taken.metrics()), want, "taken-up", "metrics of a text taken up after {:?}", &text[..c]);
            let taken = now(taken.advance(BytesDelta::from_str(&rest)).into_future());
            check_eq!(triple(&taken.metrics()), expect(text, term), "taken-up", "metrics at the end of a text taken up after {:?}", &text[..c]);
        }
        // nothing at all between two pieces changes nothing, wherever the pieces meet
        padded = padded.advance("").advance(&piece).advance("");
        check_eq!(triple(&padded.metrics()), want, "nothing", "metrics after {:?} with empty pieces in between", &text[..c]);
        for d in [0, piece.len(), 0] {
            held = now(held.advance(BytesDelta::from_str(if d == 0 { "" } else { &piece })).into_future());
        }
        check_eq!(triple(&held.metrics()), want, "nothing", "metrics of a measured string after {:?} with empty steps in between", &text[..c]);
        outcome(&want);
        prev = (m, c);
    }
    let fresh = LineColumnMeter::<E>::new(LineColumn::default()).advance(&whole);
    check_eq!(triple(&fresh.metrics()), expect(text, term), "start", "metrics from an explicit start");
    Ok(())
}
fn main() {
    mc::main(|t| {
        let mut v = vec![];
        let n = t.pick(3, 8, 9);
        for kind in 0..3 {
            v.push(job(["LF", "CR", "CRLF"][kind], 0, move || {
                let text: Vec<char> = pick_word(4, n).into_iter().map(|i| ['a', '\r', '\n', 'あ'][i]).collect();
                let cuts = pick_cuts(text.len());
                logln!("{text:?} cut at {cuts:?}");
                state(&(&text, &cuts));
                match kind {
                    0 => one::<eol::LF>(&text, &cuts, &['\n']),
                    1 => one::<eol::CR>(&text, &cuts, &['\r']),
                    _ => one::<eol::CRLF>(&text, &cuts, &['\r', '\n']),
                }
            }));
        }
        // no other character ends a line or counts twice
        v.push(job("every character", 0, move || {
            let (block, len) = match t {
                Tier::Miri => (pick(&[0, 0x405, 0x1ff]), 4),
                _ => (choose(0x1100) as u32, 256),
            };
            logln!("characters {:x}..{:x}", block * len, (block + 1) * len);
            for c in (block * len..(block + 1) * len).filter_map(char::from_u32) {
                count("characters");
                one::<eol::LF>(&['x', c, 'y'], &[1, 2], &['\n'])?;
                one::<eol::CR>(&[c, 'y'], &[1], &['\r'])?;
                one::<eol::CRLF>(&['\r', c, 'y'], &[1, 2], &['\r', '\n'])?;
                one::<eol::CRLF>(&[c, '\n', 'y'], &[1, 2], &['\r', '\n'])?;
            }
            Ok(())
        }));
        // counts beyond what 8, 16, 32 and 63 bits hold, reached by starting short of them
        let n = t.pick(2, 6, 7);
        v.push(job("large counts", 0, move || {
            let big = pick(&[u8::MAX as usize, u16::MAX as usize, i32::MAX as usize, u32::MAX as usize, i64::MAX as usize]) - choose(3);
            let text: Vec<char> = pick_word(4, n).into_iter().map(|i| ['a', '\r', '\n', 'あ'][i]).collect();
            let at = choose(text.len() + 1);
            logln!("{text:?} cut at {at} after {big} lines");
            fn go<E: EndOfLine + Clone + 'static>(text: &[char], at: usize, big: usize, term: &[char]) -> R {
                let mut start = LineColumn::<E>::default();
                (start.total_count, start.line) = (big, big);
                let mut m = LineColumnMeter::new(start);
                let mut prev = m.metrics();
                for (from, to) in [(0, at), (at, text.len())] {
                    m = m.advance(&text[from..to].iter().collect::<String>());
                    let w = expect(&text[..to], term);
                    check_eq!(triple(&m.metrics()), (big + w.0, big + w.1, w.2), "metrics", "metrics after {:?}", &text[..to]);
                    check_eq!(m.metrics().cmp(&prev), to.cmp(&from), "order", "order of the positions after {to} and {from} more characters");
                    check_eq!(m.metrics() == prev, to == from, "order", "equality of the positions after {to} and {from} more characters");
                    prev = m.metrics();
                }
                Ok(())
            }
            state(&(&text, at, big));
            match choose(3) {
                0 => go::<eol::LF>(&text, at, big, &['\n']),
                1 => go::<eol::CR>(&text, at, big, &['\r']),
                _ => go::<eol::CRLF>(&text, at, big, &['\r', '\n']),
            }
        }));
        // many lines, many columns
        let ns = sizes(t.pick(2, 300, 1000), t.pick(3, 262145, 1 << 20));
        v.push(job("long texts", 0, move || {
            let n = pick(&ns);
            let unit = pick(&["a", "\n", "\r", "\r\n", "あ\n", "aa\r\n", "a\n\r", "\r\r\n"]);
            let mut text: Vec<char> = unit.chars().cycle().take(n).collect();
            if flag() {
                text.extend(['\n', 'b']);
            }
            let how = choose(3);
            let cuts: Vec<usize> = match how {
                0 => vec![],
                1 => vec![text.len() / 2],
                // every cut is compared with a recount from the start
                _ if text.len() <= 1030 => (1..text.len()).collect(),
                _ => (1..text.len()).filter(|i| (i + 2).is_power_of_two() || (i + 1).is_power_of_two() || i.is_power_of_two() || (i - 1).is_power_of_two()).collect(),
            };
            logln!("{} characters of {unit:?} in {} pieces", text.len(), cuts.len() + 1);
            let cuts: Vec<usize> = cuts.into_iter().filter(|c| (1..text.len()).contains(c)).collect();
            state(&(n, unit, how));
            match choose(3) {
                0 => one::<eol::LF>(&text, &cuts, &['\n']),
                1 => one::<eol::CR>(&text, &cuts, &['\r']),
                _ => one::<eol::CRLF>(&text, &cuts, &['\r', '\n']),
            }
        }));
        let n = t.pick(6, 14, 17);
        v.push(job("CRLF, long runs", 0, move || {
            let text: Vec<char> = pick_word(3, n).into_iter().map(|i| ['\r', '\n', 'a'][i]).collect();
            let whole = flag();
            let cuts: Vec<usize> = if whole { vec![] } else { (1..text.len()).collect() };
            logln!("{text:?} cut at {cuts:?}");
            one::<eol::CRLF>(&text, &cuts, &['\r', '\n'])
        }));
        v
    })
}
