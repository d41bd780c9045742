import json
E1='stateless model checking: exhaustive choice-tree exploration of the real code'
P={}
def add(i,explain,note,assume,parts=None,tech=E1):
    b=i.lower()
    P[i]=dict(technique=tech,note=note,parts=parts or [{"engine":"mc","bin":b}],explain=explain,assumptions=assume)
SMALL="behaviour beyond the size bounds is like that within (small-scope hypothesis); bounds are in the job names and parts of the evidence"
add("C01","Every text over {a,b,é,あ,😀} up to the length bound, every way to cut it into pieces at character boundaries with up to the bound of empty pieces, eager and lazy piece boundaries, every literal over the same alphabet up to its bound (as &str, String, slice, Vec, array), by reference and by value, against str::starts_with on the uncut text; likewise items of a Copy, an owning and a zero-sized type. Every Unicode character is tried against each neighbour that differs from it in one bit or one encoded byte, and literals and pieces of up to 2^16 bytes. An execution is one parse; the monitor also rejects advancing past or into the middle of what was read.",
 "Exhaustive over texts, literals and segmentations within bounds; oracle: string/slice prefix.",[SMALL])
add("C02","Every parser expression up to a size bound over every input and segmentation within bounds, with the input suspending at every subset (within a budget) of its suspension points; each suspended run is compared in result, rest, metrics and call sequence with the run that never suspends, and each suspension must be ended by its own event through the waker of the last poll.",
 "Exhaustive over expressions, inputs and suspension patterns within a suspension budget; oracle: the same parse without suspension.",[SMALL,"an input's future is ready when polled after its event was fired"])
add("C03","Every combinator expression up to a size bound (all combinators, all leaf behaviours: succeed, fail at depth k, terminate, zero-width) over every input and segmentation within bounds, against a reference interpreter of ordered choice that also predicts the exact sequence of component calls and positions.",
 "Exhaustive over expressions x inputs within bounds; oracle: a PEG interpreter.",[SMALL,"repetition of a body that succeeds without consuming does not terminate and is not enumerated"])
add("C04","For every expression with recovery and every input type (text, slices, line/column-metered text, scripted sequence), the position and metrics observed by every component call after a recovery are compared with those of the anchor computed from the uncut input.",
 "Exhaustive over expressions x inputs within bounds; oracle: position/metrics by definition.",[SMALL])
add("C05","Every expression up to the bound with a terminating error injected at every call of every leaf; the monitor requires that no component runs and nothing is read afterwards and that the error is reported unchanged.",
 "Exhaustive over expressions x injection points within bounds.",[SMALL])
add("C06","Every expression within bounds is run by value, by reference, twice through the same reference in sequence, and twice at once with interleaved suspensions; all runs must agree.",
 "Exhaustive over expressions, inputs, interleavings of two runs within bounds.",[SMALL])
add("C07","Every stack of iterative adapters up to a depth over every scripted iterative parser (items, end, error at any point, suspensions), against the list operations of the same names, including the calls made to the inner parser and the input consumed; each stack is driven by value, by reference, and by value through a reference, over repetitions and optional parsers as well, with counts at and around integer widths.",
 "Exhaustive over adapter stacks x scripts within bounds; oracle: list operations.",[SMALL,"polling again after the end is not specified for map_while/try_map_each"])
add("C08","Every token string up to a length and every operator table over small precedences incl. the extreme ones (0, 2^k, the largest), against precedence climbing; chains of up to 2^16 operators and deep nestings of pending operators.",
 "Exhaustive over operator tables x token strings within bounds; oracle: precedence climbing.",[SMALL])
add("C09","Every history of advance/anchor/rewind/peek up to a depth on &str, &[T] (incl. zero-sized T) and metered sequences, against positions in the uncut input, also for over-aligned items and for lengths beyond 2^32.",
 "Exhaustive over histories within bounds; oracle: index arithmetic.",[SMALL,"advancing into the middle of a character or beyond a slice is a caller error"])
add("C10","Every text over {a, CR, LF, é, 😀 ...} up to a length in every division into pieces, against a definition of lines and columns on the uncut text, for each terminator, from starting counts near 2^8 to 2^63 and with runs of up to 2^16 characters.",
 "Exhaustive over texts x divisions within bounds; oracle: line/column by definition.",[SMALL])
add("C11","Every history of operations on the small vector up to a depth, for every inline capacity up to a bound and for Copy, owning, zero-sized and over-aligned elements, against Vec; element identity and drops are counted, an allocator checks layouts and bounds, reservations at the ends of the range of sizes and elements whose drop panics are included, and the same tree (smaller bound) is executed under Miri as the aliasing/validity monitor.",
 "Exhaustive over operation histories within bounds, checked allocator; the same executions under Miri.",[SMALL],
 [{"engine":"mc","bin":"c11"},{"engine":"miri","bin":"c11"}],"stateless model checking: exhaustive exploration of operation histories on the real code, with Miri as monitor")
add("C12","Every history of waits, polls with old and new wakers, sends and drops on a notifier up to a depth, against the number of sends; a wait that sleeps must be woken by the next send; also many waits, many polls and numbers of sends at and around integer widths.",
 "Exhaustive over histories within bounds.",[SMALL,"a waker does not call back into the notifier while it is being woken"])
add("C13","The loader under every script of its source (writes of every size, shrinking, cancelling, errors, end), every strategy, every point of forcing a commit; every report and everything committed is compared with what the source wrote. The iterator source is run likewise, with chunks at and around powers of two and with strategies shared by reference, Rc and Arc.",
 "Exhaustive over source scripts within bounds; oracle: list of accepted items.",[SMALL])
add("C14","Every history of commits, advances, iterations started, resumed and abandoned on the shared buffer up to a depth, and of segments at and around integer widths, against a list and a position.",
 "Exhaustive over histories within bounds.",[SMALL])
add("C15","Every history of operations on a buffer writer from every state of the buffer it was granted from, for every strategy and several element kinds (also ones whose drop panics), against a bounded list; drops counted and layouts checked.",
 "Exhaustive over histories within bounds; oracle: bounded Vec.",[SMALL,"a writer dropped without advance or cancel is judged by C23"])
add("C16","Every byte stream over a byte alphabet that covers every class of the UTF-8 automaton up to a length, and every pair of bytes, in every division into chunks, every grant size, with suspensions and errors, the validator by itself and behind references and further validators, against std::str::from_utf8.",
 "Exhaustive over byte streams x divisions within bounds; oracle: from_utf8.",[SMALL])
add("C17","Every script of the source up to a length, every interleaving of the loading side's observable actions (commit, completion flag, signal) with the polls of the reader, with the operations on the buffer inside one poll, with spurious polls, abandoned waits and restarted streams of segments; the reader must get the committed items in order, the end only at the end, and may sleep only when there is nothing to deliver.",
 "Exhaustive over scripts x interleavings within bounds.",[SMALL,"the loading side commits, then sets the completion flag if done, then signals"])
add("C18","Every script of the source up to a length, every sequence of advances and readings, every interleaving of the loading side's actions with the polls of the advance and the operations inside one poll; the advance may complete only when enough was committed or loading has finished, may sleep only when not, and what is readable afterwards starts exactly at the requested position.",
 "Exhaustive over scripts x amounts x interleavings within bounds.",[SMALL,"the loading side commits, then sets the completion flag if done, then signals"])
add("C19","Every nesting of the error wrappers up to a depth with every leaf verdict, and every extraction from two-way values.",
 "Exhaustive over nestings within bounds.",[SMALL])
add("C20","Every history of subscriptions, emissions and unsubscriptions on stacks of filters up to a depth, long histories and many subscribers, against a list of observers and of predicate calls.",
 "Exhaustive over histories within bounds.",[SMALL])
add("C22","Every behaviour of the inner future (ready, pending with or without wake, panicking) under every history of set/poll/drop up to a depth.",
 "Exhaustive over histories within bounds.",[SMALL])
add("C21","Every built-in parser and combinator expression up to a bound is run on a streaming sequence fed by a loader from a scripted source, under every chunking of the input, every buffering strategy, every interleaving of the loader's observable actions with the polls of the parse, from sources that are scripted, iterators or validated byte streams; result and rest are compared with the same parse on the complete input, and a parse that sleeps must be one that cannot be decided by what was committed.",
 "Exhaustive over inputs x chunkings x strategies x interleavings within bounds; oracle: the same parser on the complete input.",[SMALL,"the loading side commits, then sets the completion flag if done, then signals"])
add("C23","Every parse, advance, wait for a segment and load within bounds is dropped at each of its suspension points, or one of the calls into its components panics (each call in turn); every value owns a heap block and is counted, so a lost or doubled release shows in the checking allocator; what was committed or handed over before must still be delivered and nothing half-written may appear.",
 "Exhaustive over programs x abandonment points x panicking calls within bounds; oracle: allocation balance, drop counts.",[SMALL,"a waker registered by an abandoned wait is released with the sequence or at the next signal"])
add("C24","Every history of loads, commits, reads, skips and releases of reader, loader and iterators up to a depth, with each step repeated from a ladder of counts up to very long streams on a small stack; live items and blocks are compared with what can still be reached.",
 "Exhaustive over release orders x a ladder of lengths within bounds.",[SMALL,"lengths between the rungs of the ladder behave like their neighbours"])
for i in ("C13","C15"):
    P[i]["parts"]=P[i]["parts"]+[{"engine":"miri","bin":i.lower(),"tiers":["thorough"],"cap":7200}]
    P[i]["explain"]+=" The thorough tier also executes the smallest trees under Miri as the validity monitor."
add("C26","Five grammars written the way a user would (an operator calculator with recursion and commitment, nested lists with re-parsed alternatives, string literals with escapes, CR LF / LF terminated lines, digit groups through the adapters) on every text over their alphabets up to a length, on plain and metered strings and on slices; shorter ones in every division into pieces and with every pattern of suspensions; long and deeply nested ones; against recognisers written by hand without the library.",
 "Exhaustive over texts, divisions and suspensions within bounds, for five fixed grammars; oracle: hand-written recognisers.",[SMALL,"grammars not among the five behave like them; C03 enumerates the expressions themselves"])
LOOM=" The same code is also run under loom with real threads: every interleaving of its atomic operations, locks and reference counts (within the preemption bound given per model) and every outcome the memory orderings allow."
for i in ("C12","C14","C17","C18","C21","C23","C24"):
    P[i]["parts"]=P[i]["parts"]+[{"engine":"loom","bin":i.lower()}]
    P[i]["explain"]+=LOOM
    P[i]["technique"]="stateless model checking: exhaustive choice-tree exploration and loom thread interleavings of the real code"
    P[i]["assumptions"]=P[i]["assumptions"]+["loom treats sequentially consistent accesses as acquire/release ones; OnceLock is replaced by an equivalent made of loom atomics"]
import subprocess
na={"C25":"The runner's entry points are unimplemented (todo!()) and the runner cannot be constructed; there is no behaviour to explore."}
hooks=[l.split()[0] for l in subprocess.check_output(["git","-C","/repo","log","--format=%H %s"],text=True).splitlines() if l.split()[1]=="hook:"]
exec(open('/verif/tools/extra_parts.py').read()) if __import__('os').path.exists('/verif/tools/extra_parts.py') else None
json.dump({k:{x:v[x] for x in("parts","explain","assumptions")} for k,v in sorted(P.items())},open('/verif/tools/parts.json','w'),indent=1,ensure_ascii=False)
json.dump({"hooks":{"guard":"cfg(parcom_verif)","enable":"RUSTFLAGS=--cfg parcom_verif","source_commits":hooks},"checks":{k:{"technique":v["technique"],"note":v["note"]} for k,v in sorted(P.items())},"not_applicable":na},open('/verif/tools/checks.json','w'),indent=1,ensure_ascii=False)
