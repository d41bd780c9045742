#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)
PP = "crates/parcom-parsers/src/"
p("C01", "Primitive parsers match exactly a prefix, however the input is segmented",
  "Each primitive parser (one character/item, a given character/item, a literal string/slice) succeeds exactly when the remaining input, read as the concatenation of its segments, starts with what it looks for, and then consumes exactly that and yields it. How the input is cut into segments (including empty segments, no segments at all, or a cut inside the literal) never changes the outcome. No input and no literal, multi-byte text included, makes them panic or lose data.",
  ["inputs", "configurations"], "All texts/item lists, all ways of cutting them into segments, all literals, all primitive parsers.",
  "No unit test runs a primitive on a segmented input at all; the examples use ASCII &str only, which is always one segment.",
  [PP+"primitive/any.rs", PP+"primitive/the.rs", PP+"primitive/atom.rs", "crates/parcom-core/src/sequence/segment.rs"],
  [("Atom::parse segment loop", PP+"primitive/atom.rs"), ("skip empty segments", PP+"primitive/any.rs, the.rs"), ("SequenceSegment::split_at", "crates/parcom-core/src/primitive/str.rs")],
  ["result and remaining input of Parser::parse"])
p("C02", "Suspending input never changes the result of a parse",
  "If an input delivers its segments, advances or rewinds only after suspending any number of times, every parser and combinator still produces the same output, error and remaining input as on an input that is always ready. A suspended parse makes progress each time it is polled after its input became ready, and polls its input no more once it has completed.",
  ["schedules", "inputs"], "All placements of suspensions at every await of the input, for all primitives and combinators, on all inputs.",
  "The tests only use &str, whose futures are always ready: no test ever reaches a Pending.",
  [PP+"combinator/", PP+"primitive/", PP+"iterative/", PP+"util.rs"],
  [("await of Sequence::advance / segments / rewind futures", PP), ("Boxed", PP+"util.rs")], ["polls of the parse future"])
p("C03", "Combinators compute ordered-choice (PEG) semantics, leftmost and once",
  "For every expression built from sequence, ordered choice, optional, repetition, mapping, checked mapping, unification, reference and boxing over arbitrary component parsers, the output, the structure of the error and the remaining input are those of ordered-choice grammar semantics. Component parsers are run left to right, each at exactly the position the grammar prescribes, and an alternative is tried only if everything before it failed recoverably.",
  ["programs", "inputs"], "All parser expressions over the combinators and all inputs.",
  "Existing tests run two fixed grammars on two fixed strings and check only how much input is left.",
  [PP+"combinator/"], [("Or", PP+"combinator/or.rs"), ("Join", PP+"combinator/join.rs"), ("Optional", PP+"combinator/optional.rs"), ("Repeat", PP+"combinator/repeat.rs"), ("AndThen/Map/MapErr/Unify", PP+"combinator/")],
  ["result of Parser::parse", "positions at which component parsers are invoked"])
p("C04", "Backtracking resumes at exactly the position and metrics of the anchor",
  "Whenever a parser recovers from a non-terminating failure (optional, choice, repetition, collection, expression tail), parsing continues at exactly the location where the failed attempt began, with the same remaining input and the same line/column or count metrics, no matter how much the failed attempt consumed. A failed attempt therefore leaves no trace for whatever follows.",
  ["inputs", "programs"], "All component parsers that consume any amount before failing, all recovering combinators, all inputs, plain and measured.",
  "Tests never let a component consume input and then fail inside a recovering combinator on a measured input.",
  [PP+"combinator/optional.rs", PP+"combinator/or.rs", PP+"combinator/repeat.rs", PP+"combinator/bin_expr.rs", PP+"iterative/collect.rs", "crates/parcom-core/src/primitive/", "crates/parcom-core/src/unknown.rs"],
  [("anchor before attempt, rewind after failure", PP+"combinator/"), ("RewindSequence::anchor/rewind", "crates/parcom-core/src/primitive/str.rs, slice.rs")])
p("C05", "A terminating error stops the parse at once and is reported unchanged",
  "When a component parser fails with an error that demands termination, no combinator tries an alternative, repeats, rewinds or turns it into success: the surrounding parse fails at once with that very error, tagged with the branch it came from. The one exception is collecting an iteration, which ends the iteration and hands the error to the caller inside its output.",
  ["inputs", "programs", "fault_sequences"], "All grammars, all positions at which a terminating error can be raised.",
  "No test contains a parser that raises a terminating error.",
  [PP+"combinator/", PP+"iterative/", "crates/parcom-util/src/error.rs", "crates/parcom-core/src/parse_error.rs"],
  [("should_terminate checks", PP+"combinator/*.rs")])
p("C06", "Consuming and by-reference parsing agree, and parsers are reusable",
  "For every parser, running it by value and running it by reference give the same output, error, remaining input and component invocations. Running the same parser value repeatedly, or interleaving two runs of it on different inputs, gives each run the result a fresh parser would give.",
  ["programs", "histories", "inputs"], "All parser expressions and iterative pipelines, all inputs, all orders of (re)use.",
  "Each combinator implements the two forms separately; tests drive only one of them, and each parser value only once.",
  [PP+"combinator/", PP+"iterative/"], [("parse vs parse_once", PP+"combinator/*.rs"), ("parse_iterative vs parse_iterative_once", PP+"iterative/*.rs, combinator/repeat.rs, optional.rs")])
p("C07", "Iterative parsing adapters behave like the list operations they name",
  "Driving an iterative parser through any stack of map-each, try-map-each, map-while, scan, take, and ending in collect, fold or step-by-step use, yields the items that the same list operations yield on the items the underlying parser produces, in order, and consumes only the input of the items it was asked for. An exhausted take asks for nothing more, a non-terminating mapping error or a rejected item ends the iteration, a terminating one fails it, and collect leaves the input right after the last collected item.",
  ["programs", "inputs", "histories"], "All pipelines over all item/end/error histories of the underlying parser.",
  "There is no test of any iterative adapter.",
  [PP+"iterative/", PP+"combinator/repeat.rs", PP+"combinator/optional.rs", PP+"extension/iterative.rs"],
  [("IterationState::parse_next of each adapter", PP+"iterative/*.rs")])
p("C08", "Binary expressions group by precedence and associativity",
  "For every alternation of terms and operators, the expression parser builds exactly the tree that precedence climbing prescribes for the operators' precedences and associativities, whatever their values, how deep the nesting or how long the chain. It consumes the longest well-formed prefix, leaves a dangling operator and everything after it unread, reports why it stopped, and propagates terminating errors of terms and operators.",
  ["inputs"], "All operator/term sequences over all precedence and associativity assignments, all stopping reasons.",
  "The two existing tests parse 8192 copies of one operator and look only at the remaining length, never at the tree.",
  [PP+"combinator/bin_expr.rs", "crates/parcom-internals/src/shortvec.rs"], [("parse_impl operator stack", PP+"combinator/bin_expr.rs"), ("next_precedence", PP+"combinator/bin_expr.rs")])
p("C09", "Built-in sequences: advancing, segments and anchors are exact",
  "On string and slice sequences, plain or measured, advancing by the lengths of successive prefixes leaves exactly the corresponding suffix, the segments of a sequence spell out exactly its remaining content, and peeking changes nothing. Rewinding to an anchor taken from the same sequence at or before the current position restores the exact content and metrics of that moment, for every element type and even after advancing past the end of a string, while a plain sequence refuses an anchor that lies ahead of it.",
  ["histories", "inputs"], "All interleavings of advance, anchor, rewind, segments and peek on all contents.",
  "No test exercises the sequence traits directly.",
  ["crates/parcom-core/src/primitive/str.rs", "crates/parcom-core/src/primitive/slice.rs", "crates/parcom-core/src/primitive.rs"],
  [("advance/anchor/rewind", "crates/parcom-core/src/primitive/*.rs")])
p("C10", "Line/column metrics depend only on the text consumed",
  "After consuming any text, the reported line, column and total count are those of the last consumed character, counting each configured line terminator (LF, CR or CRLF) wherever it occurs in the text, no matter into how many pieces the text was cut, including a cut inside a terminator. Metrics order two positions in a text by how much text precedes them.",
  ["inputs", "histories"], "All texts, all ways of cutting them into pieces, all line-terminator kinds.",
  "Three tests measure nine texts in one piece with LF only; CR and CRLF are never used.",
  ["crates/parcom-metrics/src/line_colmn.rs", "crates/parcom-metrics/src/end_of_line.rs"],
  [("LineColumnMeter::advance", "crates/parcom-metrics/src/line_colmn.rs"), ("CRLF state machine", "crates/parcom-metrics/src/end_of_line.rs")])
p("C11", "The small vector behaves like a vector and owns every element exactly once",
  "Under every sequence of construction, push, pop, reservation, reading and dropping, for every inline capacity and every element type (zero-sized, over-aligned and owning types included), the small vector holds exactly what a plain vector would. Every element is dropped exactly once, heap memory is used only once more elements than the inline capacity are held or reserved, and is allocated and released with matching layouts and without undefined behaviour.",
  ["histories", "inputs"], "All operation sequences, inline capacities and element types.",
  "Four tests push then pop one fixed number of boxed integers and count allocations; contents, reserve and zero-sized types are never checked.",
  ["crates/parcom-internals/src/shortvec.rs"], [("inline/heap switch", "reserve_exact, is_heap"), ("Drop", "crates/parcom-internals/src/shortvec.rs")],
  state=[("cap, len, data", "cap > N means the heap variant is live", "ShortVec")])
p("C12", "A notification is never lost and never premature",
  "A wait obtained before a notification is sent completes after it, in every interleaving of waiters and senders and whichever waker it was last polled with; a waiter that is suspended is woken by the next notification. A wait never completes unless a notification was sent after the wait was obtained, and once it completes, everything the sender wrote before sending is visible to the waiter.",
  ["schedules"], "All interleavings (and permitted memory orderings) of any waiters and senders, any re-polling.",
  "Tests rely on one lucky thread schedule (sleep/barrier); they cannot reach the window between the version check and waker registration.",
  ["crates/parcom-internals/src/future/notify.rs"], [("version counter re-checked under the waker lock", "Wait::poll"), ("increment before draining wakers", "Notify::send")],
  state=[("version", "number of sends", "Notify"), ("wakers", "registered wakers", "Notify")])
p("C13", "Loading delivers every source item exactly once, in order, and accounts for it",
  "Whatever a source writes in whatever chunk sizes, capacities, suspensions, cancellations with an error and forced commits, the committed segments read back concatenated are exactly the items written by advanced writes, in order, none lost, duplicated or invented; what was loaded before a source error is still delivered after it. Each load reports exactly how many items it committed, how many are still held back and in what capacity, and whether the source is done, after which everything has been committed.",
  ["histories", "inputs", "fault_sequences"], "All histories of loads, forced commits, source behaviours and errors, for all buffer strategies.",
  "parcom-sequences has no tests at all.",
  ["crates/parcom-sequences/src/generic/loader.rs", "crates/parcom-sequences/src/generic/control.rs", "crates/parcom-sequence-core/src/load_info.rs", "crates/parcom-sequence-sources/src/iterator_source.rs"],
  [("commit_to", "crates/parcom-sequences/src/generic/loader.rs"), ("request_writer / Request::advance / cancel", "crates/parcom-sequences/src/generic/control.rs")],
  hook="constructor for the generic sequence builder")
p("C14", "The shared buffer shows a consistent suffix of the committed stream",
  "For a reader, the segments of the buffer spell out exactly the committed items after the position reached by its advances, an advance by n skips exactly the next n items or reports exactly how many are still missing, and an iteration that ran out resumes with the items committed later. This holds while another thread is committing: a reader sees every committed item completely written, in commit order.",
  ["histories", "schedules"], "All histories of commits, advances and (resumed) iterations, and all interleavings of one loader with readers.",
  "parcom-sequences has no tests at all.",
  ["crates/parcom-sequences/src/generic/buffer.rs", "crates/parcom-sequences/src/generic.rs", "crates/parcom-sequences/src/generic/loader.rs"],
  [("GenericSequenceBuffer::advance", "crates/parcom-sequences/src/generic/buffer.rs"), ("OnceLock linked list", "crates/parcom-sequences/src/generic.rs")],
  hook="constructor for the generic sequence builder")
p("C15", "A buffer writer accepts exactly what fits and keeps what was written",
  "A writer granted for n items accepts at least n items before it refuses one, never writes outside its buffer, and hands a refused item back. At every moment its length, contents, spare space and capacity agree with the items written and not shrunk away, dropped items are dropped exactly once, and a cancelled writer leaves nothing behind.",
  ["histories", "inputs"], "All sequences of writer operations on all granted and pre-filled buffers, plain and behind the UTF-8 validator.",
  "No test ever obtains a buffer writer.",
  ["crates/parcom-sequence-core/src/buffer_writer.rs", "crates/parcom-sequences/src/generic/control.rs", "crates/parcom-sequence-sources/src/utf8_validator.rs"],
  [("BufferWriter default methods", "crates/parcom-sequence-core/src/buffer_writer.rs"), ("Request", "crates/parcom-sequences/src/generic/control.rs"), ("Writer", "crates/parcom-sequence-sources/src/utf8_validator.rs")])
p("C16", "UTF-8 validation passes valid streams through and reports every invalid one",
  "However a byte stream is cut into chunks, if it is valid UTF-8 the validator delivers exactly its bytes, each delivery ending on a character boundary, and no error. If it is not valid UTF-8, truncated final characters included, the consumer receives only valid text that is a prefix of the stream and then an invalid-sequence error no later than the end of the stream; an error of the underlying source is passed on and costs no data.",
  ["inputs", "histories", "fault_sequences"], "All byte streams, all chunkings, all placements of source errors and suspensions.",
  "The only test of the validator is commented out.",
  ["crates/parcom-sequence-sources/src/utf8_validator.rs"], [("carry-over of an incomplete tail", "Writer::advance, Control::request_writer"), ("end of stream", "Control::finish")],
  state=[("buffered, rest", "incomplete trailing bytes carried to the next chunk", "Utf8Validator")])
p("C17", "A streaming reader gets every segment and learns of the end only at the end",
  "A consumer awaiting segments of a sequence that is still being loaded by another thread receives every committed item in order, is told the end only after all items have been delivered and loading has finished, and never sleeps through an append or the end. This holds in every interleaving of the loading thread with the consumer.",
  ["schedules"], "All interleavings of commits, the completion mark, notifications and segment polls.",
  "parcom-runners has no tests; the lost-segment and lost-wakeup windows are a few instructions wide.",
  ["crates/parcom-runners/src/default_runner/sequence/segments.rs", "crates/parcom-runners/src/default_runner/sequence.rs", "crates/parcom-internals/src/future/notify.rs"],
  [("wait registered before re-checking segments and completion", "DefaultSegmentsNext::poll")], hook="handles to the append signal and completion flag of a streaming sequence; builder constructor")
p("C18", "Advancing a streaming sequence skips exactly the requested amount",
  "Advancing a sequence that is still being loaded by n completes once n items have been loaded or loading has finished, and leaves it exactly n items further (or at the end if there are fewer), in every interleaving with the loading thread, and however many separate appends it takes. It neither completes early with items still to skip nor sleeps after the items have arrived.",
  ["schedules", "inputs"], "All amounts, all splits into appends, all interleavings with the loading thread.",
  "parcom-runners has no tests.",
  ["crates/parcom-runners/src/default_runner/sequence/advance.rs"], [("remaining count carried across polls; completion re-check", "DefaultSequenceAdvance::poll")],
  hook="handles to the append signal and completion flag of a streaming sequence; builder constructor")
p("C19", "Error wrappers classify termination exactly as their parts do",
  "A combined error demands termination exactly when one of the errors it actually holds does: fatal wrappers always, miss wrappers never, either-or errors as the held alternative, both-errors if either part does, optional errors only when present, references as their referent. Extracting or unifying a two-way value returns exactly the value held and refuses (by panicking) only when asked for the side that is absent.",
  ["inputs", "programs"], "All nestings of the error and either types and all values of their parts.",
  "No test touches the error or either types directly.",
  ["crates/parcom-util/src/either.rs", "crates/parcom-util/src/either_both.rs", "crates/parcom-util/src/error.rs", "crates/parcom-core/src/parse_error.rs"],
  [("ParseError::should_terminate implementations", "crates/parcom-util/src/*.rs")])
p("C20", "A filtered observable forwards exactly the matching items to every observer",
  "Subscribing through any stack of filters delivers to each subscriber exactly the items emitted after its subscription that satisfy all predicates, once each and in emission order. Each predicate is consulted only for items its upstream let through, and several subscribers do not influence one another.",
  ["histories", "inputs"], "All histories of subscriptions and emissions, all predicates and filter stacks.",
  "There is no test of the reactive module.",
  ["crates/parcom-internals/src/reactive/extension/filter.rs", "crates/parcom-internals/src/reactive/extension.rs"], [("Observer::next", "crates/parcom-internals/src/reactive/extension/filter.rs")])
p("C21", "Parsing a stream while it loads equals parsing the complete input",
  "For every chunking of an input, every order of loading steps and consumer steps, and every buffering strategy, a parser run on a streaming sequence produces the same output or error and the same remaining items as the same parser run on the complete input held in memory. It finishes whenever loading does, without waiting for data it does not need.",
  ["schedules", "inputs", "programs"], "All inputs, chunkings, buffer strategies, parsers and schedules of loader and consumer.",
  "No test connects a source, a loader, a streaming sequence and a parser.",
  ["crates/parcom-runners/src/default_runner/sequence/", "crates/parcom-sequences/src/generic/", "crates/parcom-sequence-sources/src/", PP+"primitive/"],
  [("DefaultSequence over GenericSequenceBuffer fed by GenericSequenceLoader", "crates/parcom-runners/src/default_runner/sequence.rs")], hook="as C17")
p("C22", "An optional future is ready at once or exactly when its inner future is",
  "An absent optional future completes immediately with nothing; a present one completes with the inner future's value at exactly the poll at which the inner future completes, polling it once per poll with the caller's waker and dropping it exactly once. It never completes early and never polls a future that has completed.",
  ["schedules"], "All pending/ready histories of the inner future, all drop points.",
  "There is no test of optional futures.",
  ["crates/parcom-internals/src/future/option_future.rs", "crates/parcom-internals/src/future/pin_option.rs"], [("OptionFuture::poll", "crates/parcom-internals/src/future/option_future.rs")])
p("C23", "A parse abandoned or refused part-way releases everything exactly once",
  "Dropping a parse, a streaming advance, a segment wait or a load at any suspension point, or letting a component fail or end the parse at any point, drops every value produced so far and every captured resource exactly once and leaks nothing. What was committed before remains readable, what the source had handed over is still delivered, and what it had only half written is not.",
  ["crash_points", "programs", "inputs"], "All suspension points of all parses over the combinators and streaming futures.",
  "Tests always run parses to completion and never count drops.",
  [PP, "crates/parcom-internals/src/shortvec.rs", "crates/parcom-runners/src/default_runner/sequence/advance.rs", "crates/parcom-sequences/src/generic/"],
  [("ownership of partial results in parse futures", PP+"combinator/*.rs"), ("field order of the advance future", "crates/parcom-runners/src/default_runner/sequence/advance.rs")])
p("C24", "Streams of any length can be read and released",
  "A stream made of any number of segments can be loaded, read, skipped over and dropped, by its reader, its loader or both in either order, without exhausting the stack or leaking. Work and memory held for segments that the reader has passed are released as soon as nobody can reach them.",
  ["histories", "inputs"], "All numbers of segments and all orders in which loader, buffer and iterators are released.",
  "parcom-sequences has no tests; deep chains are never built.",
  ["crates/parcom-sequences/src/generic.rs", "crates/parcom-sequences/src/generic/buffer.rs"], [("linked list of segments owned by reference counts", "crates/parcom-sequences/src/generic.rs")], hook="builder constructor")
p("C25", "Running a parser through the default runner equals parsing the whole source",
  "Running a parser over a source through the default runner yields the parser's output on the complete source content, or the parser's or the source's error.",
  ["inputs", "schedules"], "All sources, parsers and schedules.",
  "The runner's entry points are unimplemented.",
  ["crates/parcom-runners/src/default_runner.rs", "crates/parcom-runners/src/default_runner/parse.rs", "crates/parcom-runners/src/default_runner/parse_iterative.rs"], [("DefaultRunner::parse (todo!())", "crates/parcom-runners/src/default_runner.rs")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
