//! Byte streams through the UTF-8 validator.
use crate::stream::*;
use crate::*;
use parcom_sequence_core::{BufferWriter, SequenceBuffer, SequenceControl, SequenceLoader, SequenceSource};
use parcom_sequence_sources::utf8_validator::{Utf8ValidationError, Utf8Validator};
use parcom_sequence_sources::iterator_source::IteratorSource;
use std::cell::Cell;
use std::rc::Rc;

/// How a stream is delivered and disturbed.
#[derive(Clone, Copy, Default)]
pub struct How {
    /// The source may fail.
    pub faults: bool,
    /// Space asked for beyond what is written.
    pub extra: usize,
    /// Loads may be dropped while suspended.
    pub abandon: bool,
    pub via: Via,
}
/// What is validated.
#[derive(Clone, Copy, Default, Debug)]
pub enum Via {
    #[default]
    Scripted,
    /// the repository's own source, over an iterator of chunks
    Iterator,
    /// a stream that is validated already
    Validated,
}
/// What an error that reaches the consumer says.
enum Says {
    Invalid,
    Source,
}
/// Delivers the given chunks, may suspend and may fail between them.
struct Bytes {
    chunks: std::collections::VecDeque<Vec<u8>>,
    faults: bool,
    extra: usize,
    given: Rc<Cell<usize>>,
    failed: Rc<Cell<bool>>,
}
impl SequenceSource for Bytes {
    type Item = u8;
    type Error = SErr;
    type Next<'a, C>
        = BoxFut<'a, C::Result>
    where
        C: 'a + SequenceControl<Item = u8, Error = SErr>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> BoxFut<'a, C::Result>
    where
        C: 'a + SequenceControl<Item = u8, Error = SErr>,
    {
        Box::pin(async move {
            pause().await;
            if self.faults {
                match dev(4) {
                    1 => {
                        logln!("source fails");
                        self.failed.set(true);
                        return control.cancel(SErr(1));
                    }
                    k @ (2 | 3) => {
                        // fails with a writer in hand, after writing something
                        logln!("source fails while writing");
                        let mut w = control.request_writer(2);
                        for _ in 0..(k - 2) * 2 {
                            let _ = w.push_item(b'!');
                        }
                        self.failed.set(true);
                        return w.cancel(SErr(2));
                    }
                    _ => {}
                }
            }
            // the chunk is handed over only with the writer, so that an abandoned load loses nothing
            let Some(c) = self.chunks.front().cloned() else { return control.finish() };
            let mut w = control.request_writer(c.len() + self.extra);
            for &b in &c {
                if w.push_item(b).is_err() {
                    logln!("refused a byte");
                    self.given.set(usize::MAX / 2);
                }
            }
            pause().await;
            self.chunks.pop_front();
            self.given.set(self.given.get() + c.len());
            logln!("source writes {c:x?}");
            w.advance()
        })
    }
}
pub fn stream(bytes: &[u8], cuts: Vec<usize>, empties: Vec<usize>, strat: Strat, how: How) -> R {
    let How { faults, extra, .. } = how;
    drive::reset();
    let mut chunks = std::collections::VecDeque::new();
    let mut last = 0;
    for c in cuts.into_iter().chain(std::iter::once(bytes.len())) {
        chunks.push_back(bytes[last..c].to_vec());
        last = c;
    }
    for e in empties.into_iter().rev() {
        chunks.insert(e.min(chunks.len()), vec![]);
    }
    if bytes.is_empty() && flag() {
        chunks.clear();
    }
    let valid = std::str::from_utf8(bytes);
    logln!("{} bytes {:x?} in {} chunks {:x?}, {strat:?}, valid {}", bytes.len(), &bytes[..bytes.len().min(16)], chunks.len(), chunks.iter().take(16).collect::<Vec<_>>(), valid.is_ok());
    let (given, failed) = (Rc::new(Cell::new(0)), Rc::new(Cell::new(false)));
    let total = chunks.len();
    let src = Bytes { chunks, faults, extra, given: given.clone(), failed: failed.clone() };
    use Utf8ValidationError::*;
    match how.via {
        Via::Scripted => consume(bytes, build(strat, Utf8Validator::new(src)), how, total, strat, &given, &failed, |e| match e {
            InvalidSequence => Says::Invalid,
            Inner(SErr(_)) => Says::Source,
        }),
        Via::Iterator => {
            let src = IteratorSource::new(src.chunks);
            consume(bytes, build(strat, Utf8Validator::new(src)), how, total, strat, &given, &failed, |e| match e {
                InvalidSequence => Says::Invalid,
                Inner(_) => Says::Source,
            })
        }
        Via::Validated => consume(bytes, build(strat, Utf8Validator::new(Utf8Validator::new(src))), how, total, strat, &given, &failed, |e| match e {
            InvalidSequence | Inner(InvalidSequence) => Says::Invalid,
            Inner(Inner(SErr(_))) => Says::Source,
        }),
    }
}
#[allow(clippy::too_many_arguments)]
fn consume<L: SequenceLoader>(
    bytes: &[u8],
    (buffer, mut loader): (parcom_sequences::generic::GenericSequenceBuffer<u8>, L),
    how: How,
    total: usize,
    strat: Strat,
    given: &Cell<usize>,
    failed: &Cell<bool>,
    says: impl Fn(L::Error) -> Says,
) -> R {
    let valid = std::str::from_utf8(bytes);
    let valid_len = valid.map_or_else(|e| e.valid_up_to(), |s| s.len());
    let (mut committed, mut held) = (0, 0);
    let (mut loads, mut seen) = (0, 0);
    let end = loop {
        loads += 1;
        check!(loads <= total + 4, "end", "no end after {loads} loads");
        if dev(2) == 1 {
            logln!("force_commit");
            loader.force_commit();
            committed += held;
            held = 0;
        }
        let r = if how.abandon {
            let Some(r) = drive::run_or_drop(loader.load()) else {
                logln!("load abandoned");
                loads -= 1;
                // what was held back may or may not have been committed by the abandoned load
                let n: usize = buffer.segments().map(|s| s.len()).sum();
                check!((committed..=committed + held).contains(&n), "delivery", "{n} bytes visible after an abandoned load, {committed} before and {held} held back");
                held -= n - committed;
                committed = n;
                look(&buffer, bytes, committed, &mut seen)?;
                continue;
            };
            r
        } else {
            drive::run(loader.load())
        };
        check!(given.get() <= bytes.len(), "refused", "a byte within the granted capacity was refused");
        match r.map_err(&says) {
            Ok(i) => {
                check!(!failed.replace(false), "error", "an error of the source was not passed on");
                committed += i.commited();
                held = i.uncommited();
                logln!("load: committed {committed} in all, held {held}, done {}", i.is_done());
                check!(committed + held <= valid_len, "invalid", "{} bytes let through of a stream valid up to {valid_len}", committed + held);
                if i.is_done() {
                    break true;
                }
            }
            Err(Says::Source) => {
                check!(failed.replace(false), "error", "an error of the source that it did not report");
                logln!("load: source error");
            }
            Err(Says::Invalid) => {
                logln!("load: invalid sequence");
                break false;
            }
        }
        look(&buffer, bytes, committed, &mut seen)?;
        state(&(committed, held, given.get(), strat));
    };
    if end {
        check!(valid.is_ok(), "missed", "the end of an invalid stream was reported as its end, without an error");
        check_eq!(committed, bytes.len(), "delivery", "committed at the end");
    } else {
        check!(valid.is_err(), "false-error", "a valid stream was reported as invalid");
        loader.force_commit();
        let n: usize = buffer.segments().map(|s| s.len()).sum();
        check!(n <= valid_len, "invalid", "{n} bytes let through of a stream valid up to {valid_len}");
        committed = n;
    }
    outcome(&(end, committed));
    look(&buffer, bytes, committed, &mut seen)
}
/// Every delivery is text, and together they are a prefix of the stream. Very long ones are read now and then.
fn look(b: &parcom_sequences::generic::GenericSequenceBuffer<u8>, bytes: &[u8], committed: usize, seen: &mut usize) -> R {
    *seen += 1;
    if bytes.len() > 300 && committed < bytes.len() && *seen % 128 > 1 {
        return Ok(());
    }
    let mut at = 0;
    for s in b.segments() {
        check!(std::str::from_utf8(s).is_ok(), "boundary", "a delivery that is not text: {s:x?}");
        check!(bytes[at..].starts_with(s), "delivery", "delivered {s:x?} at {at}");
        at += s.len();
    }
    check_eq!(at, committed.min(bytes.len()), "delivery", "bytes delivered");
    Ok(())
}
/// Streams put together from characters, broken characters and bad bytes.
pub const TOKENS: [&[u8]; 14] = [
    b"a",
    "é".as_bytes(),
    "あ".as_bytes(),
    "😀".as_bytes(),
    b"\xc3",
    b"\xe3\x81",
    b"\xf0\x9f\x98",
    b"\x80",
    b"\xff",
    b"\xc0\x80",
    b"\xed\xa0\x80",
    b"\xf4\x90\x80\x80",
    "\u{10ffff}".as_bytes(),
    "\u{800}".as_bytes(),
];
