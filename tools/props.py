#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run it after editing)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, level_note, observe="", technique=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, level_note=level_note, observe=observe,
                  technique=technique or "property-based testing: generated cases against a reference model (ASan/UBSan build)"))

I="include/gul14/"; S="src/"
prop("C01", "SmallVector behaves like a vector for every history of operations",
 "After any sequence of constructions, assignments, insertions, erasures, resizes, swaps and moves (including arguments that refer to the vector's own elements, empty ranges and single-pass ranges), a SmallVector holds exactly the elements a std::vector would hold, and every accessor, iterator, returned position and comparison agrees with it. Its capacity never falls below its size or inner capacity, elements stay inside the object while the capacity is the inner one, operations that fit the capacity (and erase, clear, pop_back, shrinking) do not reallocate, and shrink_to_fit leaves exactly max(size, inner capacity). Indexed access past the end via at() always throws std::out_of_range.",
 ["histories","inputs","configurations"], "every finite sequence of public operations on up to three interacting vectors, element types (trivial, non-trivial, move-only) and inner capacities",
 "unit tests run a few fixed call sequences per function; interactions (shift after growth, own-element arguments at full capacity, swap between heap and inner storage) are a combinatorial history space",
 [I+"SmallVector.h"], [("SmallVector modifiers and storage switching", I+"SmallVector.h: insert/emplace/erase/resize/reserve/shrink_to_fit/swap/move")],
 "random operation histories vs a std::vector model; bounded sizes (< a few hundred elements)", "public API: element access, iterators, capacity()")
prop("C02", "SmallVector never leaks, double-destroys or corrupts, even when elements throw",
 "Every element constructed in a SmallVector is destroyed exactly once and every heap block is released, for every history and also when an element constructor or assignment throws at any point. A throwing operation leaves a vector whose elements are all alive and readable; a throwing push_back, emplace_back, emplace at the end, reserve, shrink_to_fit or enlarging resize leaves size and contents unchanged. A throwing move construction or move assignment leaves the source unchanged if its elements are copyable or nothrow-movable, and a successful one leaves it empty.",
 ["histories","fault_sequences"], "every operation history combined with an exception injected at any of the element operations it performs",
 "tests inject an exception at two or three hand-picked points; the fault point x history space is not enumerable by hand",
 [I+"SmallVector.h"], [("exception paths and roll-back", I+"SmallVector.h: copy_*_into_uninitialized_cells, uninitialized_move*, grow, insert paths")],
 "random histories with an injected throw at a random element operation; instance registry and allocation counter as oracle", "instance registry of the element type, allocation balance")
prop("C03", "SlidingBuffer is a bounded double-ended queue for every history",
 "After any sequence of pushes at either end, pops, clears and capacity changes, a SlidingBuffer contains exactly the last surviving elements in order: a push into a full buffer drops the element at the opposite end, popping removes exactly the end element, and a capacity change keeps the front or the back elements as requested. Indexing, checked access (out of range throws), front/back, forward and reverse iteration, iterator arithmetic, size, emptiness and fill state all agree with that sequence, for compile-time and run-time capacities.",
 ["histories","configurations"], "every finite history of operations, capacities 1..n fixed or dynamic, any wrap-around position",
 "the ring position, fill level and capacity change interact; tests sample single wrap-arounds",
 [I+"SlidingBuffer.h"], [("ring index arithmetic", I+"SlidingBuffer.h: push_*/pop_*/resize/operator[]"),("iterator", I+"SlidingBuffer.h: SlidingBufferIterator")],
 "random histories vs std::deque model", "public API")
prop("C04", "SlidingBufferExposed iterates over exactly the stored elements",
 "For every history of operations on a SlidingBufferExposed, the logical sequence (indexing, front, back, size, fill state) equals that of a bounded double-ended queue, and the range from begin() to end() visits exactly the stored elements as a multiset once the buffer is full, and never misses a stored element before.",
 ["histories","configurations"], "every finite history of operations, fixed and dynamic capacities",
 "tests iterate only buffers filled from one side",
 [I+"SlidingBuffer.h"], [("exposed container iteration", I+"SlidingBuffer.h: SlidingBufferExposed begin/end")],
 "random histories vs std::deque model", "public API")
prop("C05", "Thread pool runs each accepted task exactly once, in order, and never gets stuck",
 "Every task accepted by a thread pool that is not cancelled runs exactly once, never before its requested start time, and its handle delivers exactly the returned value or thrown exception. With one worker, tasks that are immediately startable start in the order of submission. As long as a worker is free, a task whose start time has come is started promptly, whatever other tasks with later start times or blocking bodies are queued.",
 ["schedules","histories"], "every interleaving of submitting threads and workers, every mix of immediate, delayed, blocking and throwing tasks, 1..n workers",
 "tests run a handful of tasks with generous sleeps on one schedule",
 [I+"ThreadPool.h", S+"ThreadPool.cc"], [("task queue and wake-ups", S+"ThreadPool.cc: perform_work/add_task")],
 "randomised concurrent histories with start/finish event logs, ASan and TSan builds, randomised delays", "event log written by the tasks, handles",
 "property-based testing of concurrent histories (event-log oracle) under ASan and TSan")
prop("C06", "Thread pool handles and counters tell the truth, cancellation is exact",
 "A task that was cancelled before it started never runs, and a task that has started is unaffected by a cancel attempt, which reports failure and leaves the result retrievable. The reported state of a task (pending, running, complete, cancelled) always matches what actually happened to it, and cancelled tasks are never reported complete. Submitting beyond the pool's capacity is refused without side effect, counts of pending tasks and threads are exact at rest, and names given to tasks are reported back.",
 ["schedules","histories"], "every interleaving of submitters, workers and cancellers; every capacity and thread count",
 "tests check one cancel at one moment",
 [I+"ThreadPool.h", S+"ThreadPool.cc"], [("cancellation and state query", I+"ThreadPool.h: TaskHandle; "+S+"ThreadPool.cc: cancel_pending_task, get_task_state")],
 "randomised concurrent histories vs a sequential model at quiescent points", "handles, counters, event log",
 "stateful property-based testing with concurrent actors (model oracle) under ASan and TSan")
prop("C07", "Thread pool shuts down cleanly and is data-race free",
 "Destroying a thread pool at any moment lets running tasks finish (also ones that add further tasks meanwhile), discards pending ones without starting any of them, joins all of its threads and returns promptly, whether tasks are running, delayed, or were cancelled; shutdown requests become visible to running tasks, and its threads block the usual asynchronous signals from their start. All documented concurrent use of the pool and its handles is free of data races and memory errors, and handles may outlive the pool.",
 ["schedules","histories"], "every interleaving of destruction with submission completion, running and delayed tasks",
 "a race needs a specific interleaving that a fixed test does not force",
 [I+"ThreadPool.h", S+"ThreadPool.cc"], [("shutdown and join", S+"ThreadPool.cc: ~ThreadPool, perform_work, is_shutdown_requested")],
 "randomised concurrent histories under ThreadSanitizer and AddressSanitizer", "sanitizer reports, join time, event log",
 "property-based testing of concurrent histories under TSan and ASan")
prop("C08", "Trigger and interruptible sleep never lose a wake-up and never wake early",
 "A thread waiting on a trigger returns as soon as the trigger fires and never before, unless its timeout expires, in which case it reports a timeout no earlier than requested; a trigger that is already fired never blocks, and a reset trigger blocks again. Destroying a trigger releases the threads blocked on it. An interruptible sleep lasts at least its duration unless its trigger fires, and its return value says which of the two happened; plain sleeps and elapsed-time measurements are never shorter than the requested or true duration.",
 ["schedules","histories"], "every interleaving of waiters, setters and timeouts",
 "lost wake-ups need the notification to fall between check and wait",
 [I+"Trigger.h", S+"Trigger.cc", I+"time_util.h"], [("condition variable protocol", S+"Trigger.cc"),("sleep/tic/toc", I+"time_util.h")],
 "randomised concurrent histories with steady-clock oracle, one-sided timing checks", "return values and time stamps",
 "property-based testing of concurrent histories (timing and state oracle) under ASan and TSan")
prop("C09", "Splitting and joining strings are inverse to each other",
 "Splitting any string at a non-empty delimiter yields exactly the substrings between the leftmost non-overlapping delimiter occurrences, including empty ones, so that joining the pieces with the same delimiter reproduces the input and the number of pieces is the number of occurrences plus one. Joining any sequence concatenates its elements in order with the delimiter between them and nothing else; all container, view, iterator-range, custom-inserter and regular-expression variants agree.",
 ["inputs"], "all byte strings, delimiters (character, string, regex), containers",
 "tests check a few strings; overlap and embedded NUL cases are unbounded",
 [I+"join_split.h"], [("split/join", I+"join_split.h")], "generated strings biased to delimiter overlaps; naive reference splitter and round trip")
prop("C10", "Tokenizing yields exactly the maximal runs of non-delimiter characters",
 "For any string and any set of delimiter characters, tokenizing yields exactly the maximal non-empty runs of characters not in the set, in order, never an empty token; the owning and the view variants agree, views lie inside the input, and the result container type does not change the tokens.",
 ["inputs"], "all byte strings and delimiter sets", "tests check a few strings",
 [I+"tokenize.h"], [("tokenize", I+"tokenize.h")], "generated strings vs naive reference")
prop("C11", "Trimming removes exactly the leading and trailing whitespace",
 "For any string and any set of characters to strip, left, right and full trimming return the longest infix whose respective ends are not in the set, never touching inner characters; trimming is idempotent, full trimming equals both one-sided trims in any order, and view and string variants agree with views into the input.",
 ["inputs"], "all byte strings and strip sets", "tests check a few strings",
 [I+"trim.h", S+"trim.cc"], [("trim", I+"trim.h; "+S+"trim.cc")], "generated strings vs naive reference")
prop("C12", "Replacing substitutes exactly the leftmost non-overlapping occurrences",
 "For any text, search string and replacement, replacing produces the text with every leftmost non-overlapping occurrence of a non-empty search string substituted and nothing else changed; an empty search string changes nothing. Text produced by a replacement is never searched again, the copying variant leaves its input unchanged, and the in-place variant yields the same result.",
 ["inputs"], "all byte strings", "tests check a few strings; self-similar patterns and replacements containing the pattern are unbounded",
 [I+"replace.h", S+"replace.cc"], [("replace", S+"replace.cc")], "generated self-similar strings vs naive reference")
prop("C13", "Escaping produces printable ASCII and unescaping restores every string",
 "For every byte string, escaping yields only printable ASCII characters, changes nothing in strings made of printable ASCII without quotes and backslashes, and unescaping the result yields the original string. Unescaping any text whatsoever terminates, never reads outside it and follows the documented decoding of simple, hexadecimal and malformed sequences.",
 ["inputs"], "all byte strings, including malformed escape sequences", "tests enumerate a few strings",
 [I+"escape.h", S+"escape.cc"], [("escape/unescape", S+"escape.cc")], "round trip plus independent reference decoder; exhaustive over all 1- and 2-byte inputs")
prop("C14", "ASCII case conversion changes exactly the 26 ASCII letters",
 "For every byte string, conversion to lower or upper case maps exactly the ASCII letters of the other case, leaves every other byte (including bytes above 127 and NUL) unchanged and preserves the length, independent of the locale; in-place and copying variants agree. Case-insensitive comparison holds exactly if the lower-case forms are equal.",
 ["inputs"], "all byte strings and all single characters", "tests sample characters",
 [I+"case_ascii.h", S+"case_ascii.cc", I+"substring_checks.h"], [("case conversion", S+"case_ascii.cc"),("case-insensitive comparison", I+"substring_checks.h")], "exhaustive over characters, generated strings vs reference")
prop("C15", "Substring predicates agree with the definition of prefix, suffix and infix",
 "For all strings, the contains, starts-with and ends-with predicates are true exactly if the needle occurs anywhere, at the beginning or at the end of the haystack (every string contains the empty string), for character and string needles alike. The case-insensitive variants equal the case-sensitive ones applied to lower-cased arguments.",
 ["inputs"], "all pairs of byte strings", "tests check a few pairs",
 [I+"substring_checks.h"], [("predicates", I+"substring_checks.h")], "generated string pairs biased to near matches vs naive reference")
prop("C16", "string_view operations equal those of the string they view",
 "For every string and every position, count, character and pattern argument, each search, comparison, substring, copy, prefix/suffix removal, iteration, conversion and stream output of a view gives the same result (or the same exception) as the standard string operation on the same characters, without reading outside the viewed range, for embedded NUL bytes and for extreme arguments as well.",
 ["inputs"], "all strings, positions and counts including npos and values near it",
 "tests use a few strings and in-range positions",
 [I+"string_view.h"], [("basic_string_view", I+"string_view.h")], "differential against std::string; views placed in exactly sized heap buffers so ASan sees out-of-range reads")
prop("C17", "Integer and boolean parsing accepts exactly the representable numbers",
 "For every string and every integer type, parsing yields the mathematical value exactly if the string consists of decimal digits, preceded by an optional minus sign for signed types only, and the value is representable in the type, and yields nothing otherwise; consequently parsing the decimal text of any integer returns that integer. Booleans are accepted exactly in their documented spellings.",
 ["inputs"], "all strings and all integer types", "tests check a few boundaries per type",
 [I+"to_number.h", S+"to_number.cc"], [("integer parsing and overflow checks", I+"to_number.h")], "generated numeric strings around every type limit vs 128-bit reference")
prop("C18", "Floating-point parsing accepts exactly the grammar and is accurate",
 "For every string, parsing a floating-point number yields a value exactly if the whole string matches the documented grammar (optional minus sign, digits with optional point and optional exponent, or the documented spellings of infinity and NaN); numbers beyond the largest finite value never yield a finite result, and exponents that do not fit an int may be refused. The result agrees with the correctly rounded value within a few units in the last place and has the right sign, for any number of digits and any exponent, without undefined behaviour.",
 ["inputs"], "all strings, all three floating-point types", "tests compare a few literals",
 [I+"to_number.h", S+"to_number.cc"], [("decimal to binary conversion", I+"to_number.h")], "grammar-based generation plus mutation vs strtod/strtold reference with a ULP tolerance")
prop("C19", "Hex dumps show every byte of the data and nothing else",
 "For any data in any contiguous or iterable container and any element width, the hex dump lists the hexadecimal value of every element in order at its correct offset, with the printable characters beside it, after the given prompt, so that the data can be reconstructed from the dump; data beyond the documented limit is cut off with an explicit notice. The function, stream and parameter-object variants produce identical text, copied, moved and assigned parameter objects show the data of their source, and nothing outside the range is read.",
 ["inputs","configurations"], "all byte and wide-integer sequences, containers and prompts", "tests compare a few complete dumps",
 [I+"hexdump.h"], [("hexdump", I+"hexdump.h")], "dump is parsed back and compared with the data")
prop("C20", "Hex strings, safe strings and repetition are exact for every input",
 "The hex string of any byte sequence is the two-digit hexadecimal values of its elements in order joined by the separator. A safe string made from any pointer and length never reads beyond the first NUL or the length, and is empty for a null pointer. Repeating a string n times yields exactly n concatenated copies.",
 ["inputs"], "all byte sequences, lengths, separators and counts", "tests use a few literals",
 [I+"string_util.h", I+"hexdump.h", S+"string_util.cc"], [("hex_string", I+"hexdump.h / string_util.h"),("safe_string/repeat", I+"string_util.h")], "generated inputs in exactly sized heap buffers vs reference")
prop("C21", "cat concatenates the textual forms of its arguments in order",
 "For any sequence of arguments, concatenation yields the textual forms of all arguments in order and nothing else: strings and string views verbatim including embedded NUL bytes (C strings up to their terminator), characters as themselves, integers in decimal (booleans as 0 or 1) and floating-point values like std::to_string. A copy of the converting argument view keeps showing the same text, independent of the view it was copied from.",
 ["inputs"], "all argument values and mixes of argument types", "tests check a few calls",
 [I+"cat.h", S+"cat.cc"], [("cat", I+"cat.h")], "generated argument lists vs reference text")
prop("C22", "Mean, RMS, median and standard deviation equal their definitions",
 "For every non-empty sequence of numbers, in any container or iterator range and with any accessor, the mean, RMS, median and standard deviation of a floating-point result type agree with their mathematical definitions within rounding (accurate also for values clustered far from zero), the mean of an integer result type is the truncated quotient, and generic accumulation visits every element once and in order; they do not depend on the element order beyond rounding and never modify the data. For sequences too short for a statistic the result is not a number.",
 ["inputs","configurations"], "all number sequences, element and result types, containers", "tests check a few sequences",
 [I+"statistics.h"], [("statistics", I+"statistics.h")], "generated integer-valued and floating data vs long double reference with error bounds")
prop("C23", "Minimum, maximum and outlier removal are exact for every sequence",
 "For every sequence the reported minimum and maximum are elements of it that bound all other non-NaN elements, the combined query agrees with both, and NaN elements are ignored; for an empty sequence they are NaN or, for integers, the largest and lowest number. Outlier removal removes exactly the requested number of elements, each time the one furthest from the mean of the remaining (finite) elements, keeps the order of the others and leaves the original untouched when asked for a copy.",
 ["inputs","configurations"], "all sequences including NaN and infinities, all accessors", "tests check a few sequences",
 [I+"statistics.h"], [("min_max, remove_outliers", I+"statistics.h")], "generated sequences vs naive reference")
prop("C24", "Numeric tolerance comparisons and clamping follow their definitions",
 "For all numbers, comparison within an absolute tolerance holds exactly if the distance does not exceed it (within rounding for floating-point numbers), comparison within n orders of magnitude holds if the numbers are equal or their distance is less than the larger magnitude divided by 10 to the power of n, and comparison within n representable steps holds up to n steps and fails beyond 2n steps; all of these are symmetric and never hold for NaN. Clamping returns the bound or the value itself that the ordering demands (the value itself if it is equivalent to a bound or unordered), by reference. They work for signed, unsigned and floating-point types, also where differences would wrap around or involve infinities.",
 ["inputs"], "all number pairs of all types", "tests check a few pairs",
 [I+"num_util.h"], [("within_*, clamp", I+"num_util.h")], "generated number pairs (edge biased) vs wide-precision reference")
prop("C25", "GCD and LCM are correct for all integers",
 "For all integers of any mix of types whose result is representable, the greatest common divisor is the largest non-negative integer dividing both arguments, the least common multiple is the smallest non-negative common multiple, and both are independent of argument order and sign, with zero handled as documented.",
 ["inputs"], "all pairs of integers of all signed and unsigned types", "tests check a few pairs",
 [I+"gcd_lcm.h"], [("gcd/lcm", I+"gcd_lcm.h")], "exhaustive over 8-bit pairs, generated pairs vs 128-bit reference")
prop("C26", "Bit manipulation touches exactly the addressed bit",
 "For every integer type, value and valid bit number, setting, clearing and flipping a bit changes exactly that bit, testing reports exactly its value, and a bit mask constructor yields the value with exactly that bit set, for the most significant bit of signed types as well; changing it back restores the value.",
 ["inputs"], "all integer types, values and bit positions", "tests check a few values",
 [I+"bit_manip.h"], [("bit_set/reset/flip/test", I+"bit_manip.h")], "exhaustive over 8/16-bit values and bits, generated for wider types")
prop("C27", "optional behaves like a value that may be absent, for every history",
 "After any sequence of constructions, assignments, emplacements, swaps, resets, copies and moves, including ones that throw, an optional is engaged exactly when the history says so and then holds exactly the value last stored, for values and for references. Contained objects are constructed and destroyed exactly once, checked access to an absent value throws, and comparisons and hashes follow the contained values with absent ordered before present.",
 ["histories","fault_sequences"], "every operation history with exceptions injected at any element operation",
 "the backport's tests check single operations", [I+"optional.h"], [("optional", I+"optional.h")],
 "stateful model with instance registry and injected exceptions")
prop("C28", "variant holds exactly one alternative and visits exactly that one",
 "After any sequence of constructions, assignments, emplacements, swaps, copies and moves, including ones that throw, a variant holds exactly the alternative last stored (or reports to hold none if a change failed half-way), index, type queries, access and visitation agree on it, and access to any other alternative fails. Contained objects are constructed and destroyed exactly once, comparisons order by index and then value, and visiting several variants calls the visitor with exactly their current values. A failed copy of a nothrow-movable value into a variant, and a failed swap of different alternatives of which one is nothrow-movable, leave the variants as they were.",
 ["histories","fault_sequences"], "every operation history with exceptions injected at any element operation",
 "tests check single operations", [I+"variant.h", I+"utility.h"], [("variant", I+"variant.h")],
 "stateful model with instance registry and injected exceptions")
prop("C29", "expected holds exactly a value or an error and monadic chains preserve it",
 "After any sequence of constructions, assignments, emplacements, swaps, copies and moves, an expected holds exactly the value or the error last stored, comparisons (equality and inequality being opposites) and accessors agree on it, and checked access to an absent value throws the stored error. Transformation chains apply their function exactly in the matching state and pass the other state through unchanged, and contained objects are constructed and destroyed exactly once, also if a value constructor throws, in which case the previous content is retained.",
 ["histories","fault_sequences"], "every operation history, value/error types (including void values), exceptions injected into value construction",
 "tests check single operations", [I+"expected.h"], [("expected", I+"expected.h")],
 "stateful model with instance registry and injected exceptions")
prop("C30", "span views exactly the requested part of the underlying sequence",
 "For every sequence and every valid offset and count, a span and each of its sub-spans (first, last, middle; static or dynamic extent) refer to exactly the requested elements of the underlying storage in order without copying; sizes, byte sizes, element access, iteration in both directions, byte views and comparisons agree with it, and writes through the span reach the storage.",
 ["inputs"], "all sequences, offsets and counts, static and dynamic extents", "tests check a few sub-spans",
 [I+"span.h"], [("span", I+"span.h")], "generated sub-span chains vs vector slices and addresses")
prop("C31", "A finalizer runs its action exactly once at the end of its scope",
 "For every nesting of finalizers, moves and exits (normal, early return or exception), each action that was registered runs exactly once, when the object finally owning it is destroyed, in reverse order of registration. Moving a finalizer transfers its action, assigning to a finalizer discards the action it owned before, and a callable passed as an lvalue stays usable.",
 ["histories"], "every nesting, move chain and exit path", "tests check a single scope",
 [I+"finalizer.h"], [("FinalAction", I+"finalizer.h")], "generated scope trees vs event log")
prop("C32", "Calendar arithmetic is exact for every date",
 "For every representable date, conversion between day numbers and year/month/day is a bijection consistent with the proleptic Gregorian calendar, weekdays follow each other without gaps, leap years and month lengths are right, and adding days, months or years and differences of dates behave as calendar arithmetic demands, with invalid dates reported as such.",
 ["inputs"], "all dates over tens of thousands of years", "tests check a few dates",
 [I+"date.h"], [("calendar algorithms", I+"date.h")], "exhaustive walk over centuries plus generated dates vs an independent day-by-day calendar")
prop("C33", "Formatting and parsing of dates and times round-trips",
 "For every representable time point and every supported combination of format fields, formatting yields the text the calendar demands and parsing that text with the same format returns the same time point; malformed input is rejected via the stream state, leaving the target unchanged, and never accepted with a wrong value.",
 ["inputs"], "all time points, precisions and format strings", "tests check a few literals",
 [I+"date.h"], [("format/parse", I+"date.h")], "round trip and comparison with an independent formatter")

prop("C34", "invoke() reaches exactly the given callable and type queries tell the truth",
 "For every kind of callable (function, function object of any constness and value category, member function, data member) and every way to name the object (itself, a derived object, a pointer, a smart pointer, a reference wrapper), invoke() performs exactly one call on exactly that object, passes every argument on as the same object with its value category and constness, returns exactly its result including references, and lets exceptions through. The invocability and result-type traits say exactly what such a call would do, the container and qualifier-removing traits follow their documentation, and the reported names of different types are different, complete and well-formed.",
 ["inputs","configurations"], "every combination of callable kind, object expression, argument values and categories; families of composed types", "tests check a few combinations; forwarding mistakes show only for particular combinations of value category and object expression",
 [I+"traits.h", I+"type_name.h", I+"utility.h"], [("invoke and its traits", I+"traits.h: detail_invoke, invoke_result, is_invocable"), ("type_name", I+"type_name.h")],
 "generated calls against a log of the call received; 1800 composed types", "recorded calls, type names",
 "property-based testing: generated calls against a recorded call log (ASan/UBSan build)")

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"],
                                  mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
            if p["observe"]: d["anchors"]["observe_at"] = [p["observe"]]
            f.write(json.dumps(d) + "\n")
    have = [p for p in P if os.path.exists(os.path.join(V, "harness", p["id"] + ".cc"))]
    m = dict(version=1, setup_cmd="python3 check.py --setup",
             checks=[dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"],
                          thorough_cmd="python3 check.py %s thorough" % p["id"],
                          evidence_file="evidence/%s.json" % p["id"], technique=p["technique"],
                          level="exploration", level_note=p["level_note"]) for p in have],
             not_applicable=[dict(property=p["id"], reason="not built yet") for p in P if p not in have],
             notes="One harness per property in harness/, driven by harness/pbt.h; see DESIGN.md.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
main()
