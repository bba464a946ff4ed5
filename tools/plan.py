"""Per property: how its check is built and run, what counts as non-trivial and what it assumes."""
LEVEL = "exploration"

COMMON_ASSUMPTIONS = [
    "single threaded use, native (mock) platform, x86-64, g++",
    "the choice sequences drawn from VERIF_SEED are the cases; behaviour outside the generated domain is not covered",
]


def P(configs, rule, technique, note, assumptions=(), **kw):
    d = dict(configs=configs, rule=rule, technique=technique, note=note,
             assumptions=COMMON_ASSUMPTIONS + list(assumptions))
    d.update(kw)
    return d


PLAN = {
    "C01": P(["rel", "dbg"],
             "A case is a history of operations on one or two vectors of generated capacity (own, initialised, list or "
             "external storage) and element type. Non-trivial: at least 4 operations and the head was moved by a "
             "pop_front of a longer vector, or an insert, remove, swap or move took place.",
             "stateful property-based testing against a deque model, with shrinking",
             "Every observable of the vector is compared with the model after each operation, under ASan/UBSan and with "
             "canaries around external storage; explores histories of up to a few hundred operations.",
             ["elements are ints, bytes, plain structs, shared_ptr and strings",
              "no operation takes a reference into the vector itself; copies are views of a living original; pops of an "
              "empty vector are misuse in a release build"],
             parts=5, require=["shifted head", "add to full", "20+ steps"]),
    "C02": P(["rel", "dbg"],
             "A case is a history on one kind of container (vectors, arrays, arrays over external storage, ring buffer, "
             "stack, pool, pipeline, event system) that holds counted payloads. Non-trivial: at least 3-4 operations took "
             "place (a payload written, for external storage).",
             "stateful property-based testing with counted payloads, allocation balance and ASan/UBSan",
             "After each operation the payloads that are alive are exactly those the model holds; after destruction no "
             "byte is left allocated; all accesses run under ASan.",
             ["containers of shared_ptr stand for every element type that holds a resource (strings: C01, C03, C04, C07)",
              "a moved-from container is not used again; copies of containers are views of a living original"],
             parts=3),
    "C03": P(["rel", "dbg"],
             "A case is a history on two arrays (own, initialised, list, external or raw-buffer storage): writes through "
             "every accessor, fills, list assignments, swaps, moves, copies and iterator walks with generated prefix and "
             "postfix steps. Non-trivial: something was written and then transferred or walked, on two or more elements.",
             "stateful property-based testing against a vector model with generated iterator walks",
             "All accessors and all iterator kinds are compared with the model after each operation, under ASan/UBSan and "
             "with canaries around external storage.",
             ["a moved-from array is not used again; copies are views of a living original"],
             parts=4, require=["stroll", "transfer", "external storage at the end"]),
    "C04": P(["rel", "dbg"],
             "A case is a history of single and bulk pushes (with and without rollover), pops, peeks, drops and writes "
             "through peeked pointers on a ring buffer of capacity 1-41. Non-trivial: more was pushed than fits at once.",
             "stateful property-based testing against a deque model",
             "All accounting and every index are compared with the queue after each operation, under ASan/UBSan.",
             ["after a drop the overrun count is only required not to grow (the statement leaves it open)"],
             parts=2, require=["rolled over", "refused", "dropped", "capacity 1"]),
    "C05": P(["rel", "dbg"],
             "A case is a history of chunk pushes, views, copies, measurements and drops on a line buffer of capacity "
             "1-81 with a generated delimiter set, or a text that is written and read back through a small buffer. "
             "Non-trivial: at least one line was read and more was written than fits at once (3 lines, for a text).",
             "stateful property-based testing against a byte-queue model, and a round trip",
             "Every byte, the next line's length and every returned line are compared with the model after each operation; "
             "output buffers have exactly the size passed, under ASan.",
             ["the delimiter set outlives the buffer; a discovered length that is passed in is the current one"],
             require=["3+ lines", "line too long", "rolled over"]),
    "C06": P(["rel", "dbg"],
             "A case is a history of acquiring, sharing and releasing on a pool of 0-41 objects (populated in any way, "
             "possibly moved), or one on a pool of up to 70000. Non-trivial: 3 acquisitions and a release (or a large pool).",
             "stateful property-based testing against the set of held objects",
             "Each acquisition is judged against the objects held; at the end everything not held must be obtainable.",
             require=["exhausted", "shared holds", "large pool"]),
    "C07": P(["rel", "dbg"],
             "A case is a history of pushes, emplacements, pops and modifications of the top on a stack of capacity 0-60, "
             "and the way down at its end. Non-trivial: at least two elements are left and one was popped.",
             "stateful property-based testing against a vector model",
             "Top, size and emptiness are compared after each operation, the whole contents at the end.",
             require=["full", "top modified"]),
    "C08": P(["rel", "dbg"],
             "A case is a string with delimiters and a needle derived from it, a decimal text with or without garbage, a "
             "history on a static string, or contents to concatenate. Non-trivial: string of 2+ with delimiters and "
             "needle; number text of 3+; 3+ operations on a static string; every concatenation.",
             "property-based testing against naive definitions, in exactly sized buffers under ASan",
             "Strip, match and find are compared with loops over the definition, to_float with the correctly rounded "
             "std::from_chars; views lie in exactly sized heap memory so that any overread is reported.",
             ["number texts with a plus sign, white space in front, hexadecimal or infinity are outside the claim"],
             parts=2, require=["strips everything", "needle longer than the string", "suffix matches",
                               "number with garbage", "empty number"]),
    "C09": P(["rel", "dbg"],
             "A case is a history on two results of one of eight type combinations: every way of construction, copies, "
             "moves, assignments and every combinator with functions that return generated outcomes. Non-trivial: at "
             "least two combinators were applied.",
             "stateful property-based testing against a tagged-value model with call counting",
             "State, held value and calls of the passed functions are compared with the model after each operation.",
             ["match on a result without a value and unwrap of an intermediary have no defined outcome and are left out"],
             parts=4, require=["3+ states"]),
    "C10": P(["rel", "dbg"],
             "A case is a history of pulls, pushes, buffered writes and line reads on a buffered stream over a device that "
             "offers its bytes and its room in generated portions and fails at generated transfers, or a text of lines sent "
             "through it. Non-trivial: more went through than fits at once and a transfer failed or a line was read (for a "
             "text: 3 lines).",
             "stateful property-based testing with fault injection against a byte-queue model",
             "After each operation both buffers, the returned counts and what the device saw are compared with the model.",
             ["a device that fails a transfer does not consume or accept the byte; delimiters outlive the stream"],
             require=["failed reads", "refused writes", "input discarded", "lines read"]),
    "C11": P(["rel", "dbg"],
             "A case is a history of requests, transactions that are replied to, committed, aborted, moved or dropped, "
             "flushes and pulls while they are open, and writes in between. Non-trivial: two or more transactions and a reply.",
             "stateful property-based testing against a queue model",
             "After each operation the request, both buffers, the space and what was flushed are compared with the model.",
             ["one transaction at a time per stream; nothing else is written to the stream while it is open; a finalized "
              "transaction is not replied to"],
             require=["committed", "aborted", "out of scope", "2+ with a reply"]),
    "C12": P(["rel", "dbg"],
             "A case is a history of injections, extractions, reads and writes on a mock stream, directly or through a UART, "
             "or of calls that a UART forwards. Non-trivial: bytes went in both directions, more than the smaller capacity "
             "(forwarding: 4 calls).",
             "stateful property-based testing against a model of two queues",
             "Bytes, counts and availability are compared with the model after each operation, through both interfaces.",
             require=["input wrapped around", "output wrapped around"]),
    "C13": P(["rel", "dbg"],
             "A case is a history of attaching, scheduling (by id, in bursts, of events obtained before, from within "
             "handlers, with ties), triggering, letting time pass and loop runs, from a generated uptime on. Non-trivial: "
             "three deliveries and at least two events pending at once.",
             "stateful property-based testing against a sorted-queue model with a virtual clock",
             "Every call of a handler is judged as it happens: which handler, which event, what data, in which order, not "
             "before it is due; after each loop run nothing may be left that was due.",
             ["the same event object is not scheduled twice at once", "at most the configured number of events is in use (C14 is about more)"],
             require=["due at the same time", "scheduled by handlers", "20+ pending", "several due in one loop run", "several handlers"]),
    "C14": P(["rel", "dbg"],
             "A case is a history of scheduling, obtaining, dropping and triggering beyond the capacity, also from within "
             "handlers, or hundreds of rounds that use all places. Non-trivial: something was refused and something "
             "delivered (or the rounds).",
             "stateful property-based testing against a counting model",
             "Each request must succeed exactly while fewer than the configured number are pending, held or being delivered; "
             "refusals must leave everything else as it was.",
             require=["places reused", "refused while events are pending", "refused within a handler", "surplus handlers"]),
    "C15": P(["rel", "dbg"],
             "A case is a history of scheduling, passing time and loop runs with generated delays, or a set of events that "
             "are only driven by the loop. Non-trivial: two loop runs judged and an event delivered (driven by the loop: two "
             "delivered).",
             "stateful property-based testing against the specified length of sleep, on a virtual clock",
             "The simulated time that each loop run sleeps is compared to the microsecond.",
             ["configured delays are whole milliseconds, at least one"],
             require=["idle", "until the next is due", "no longer than the maximum", "delays disabled"]),
    "C16": P(["rel", "dbg"],
             "A case is a history of pushing (new, waiting or expired futures), rescheduling, letting time pass, expiring and "
             "printing on a pipeline of capacity 1-151, from a generated uptime on. Non-trivial: two futures at once and one "
             "expired.",
             "stateful property-based testing against a sorted-queue model with a virtual clock",
             "Whether something is contained or expired and the time until the next future are compared after each operation, "
             "every expired future and the text with the model.",
             ["a future is not rescheduled or pushed again while it is in the pipeline; nothing is expired that is not due; the "
              "text is asked for while no future is overdue"],
             require=["due at the same time", "pushed some time after creation", "text of several", "20+ futures", "overdue"]),
    "C17": P(["rel", "dbg"],
             "A case is a history of letting time pass (in milliseconds and microseconds, preferably to the edge), reading and "
             "resetting on one timer, from an uptime of 0 ms to a millennium on. Non-trivial: two readings (interval: one that "
             "fired and one that did not).",
             "stateful property-based testing against integer arithmetic, on a virtual clock",
             "Each reading is compared with 64 bit arithmetic on the moments.",
             ["an absolute alarm is set to a moment in the future", "intervals are not negative"],
             require=["looked at before and after", "at the boundary", "fired repeatedly", "caught up"]),
    "C18": P(["rel", "dbg", "dbl"],
             "A case is a pair of values of any two units of kernel time, a value and a scalar, or a real time and a kernel "
             "time. Values prefer edges: halves of the coarser unit, powers of two and ten, the limits. Non-trivial: both are "
             "not zero (a real time: it has a fraction).",
             "property-based testing against exact 128 bit integer arithmetic",
             "All conversions, operators and comparisons of all 36 pairs of units are compared with exact arithmetic.",
             ["values and results stay below 2^62 in the units involved"],
             parts=4, require=["rounded", "exactly half", "divides by what rounds to zero", "beyond 2^53"]),
    "C19": P(["rel", "dbl"],
             "A case is a pair of values of two magnitudes of one quantity (half of them nearly or exactly the same "
             "quantity), a value and a scalar, or a temperature. Non-trivial: both values are not zero.",
             "property-based testing against long double arithmetic with a tolerance of a few units of the last place",
             "All pairs of magnitudes of every quantity that the library defines, single and double precision, all operators.",
             ["values, conversions and products stay within the normal range of the type",
              "equality is only judged when the values are identical or clearly differ"],
             parts=6, require=["differ", "hardly differ"]),
    "C20": P(["rel", "dbl"],
             "A case is a pair of quotients of one dimension in any two magnitudes (half of them nearly or exactly the same "
             "quantity), one quotient that is scaled and simplified, or quotients of integers. Non-trivial: no numerator is "
             "zero.",
             "property-based testing against long double arithmetic with a tolerance of a few units of the last place",
             "Five dimensions with up to five magnitudes each, single and double precision, all operators.",
             ["numerators and denominators are within 1e-5 and 1e5 (as given), so that products stay in range",
              "equality is only judged when the quantities are identical or clearly differ"],
             parts=3, require=["differ", "hardly differ", "zero denominator"]),
    "C21": P(["rel", "dbg"],
             "A case is a duration in any of the six units (random, powers, or about a cutoff, on and about a half), or a text "
             "(a number, a unit, both possibly wrong or spoiled; or bytes). Non-trivial: printed in another unit than its own; "
             "a text that means something.",
             "property-based testing: round-trip, and against 128 bit arithmetic and an independent reader",
             "The printed text is compared with one derived by exact arithmetic and parsed back; any text is parsed next to an "
             "independent reader, from memory that ends with it.",
             ["durations below 2^62 us"],
             require=["rounded", "days", "just below the cutoff", "at the cutoff", "long number", "means something", "means nothing"]),
    "C22": P(["rel", "dbg"],
             "A case is a schedule of 1 to 24 blocks, cut from a day that starts at any second, in any order, looked at around "
             "all edges, at random seconds, and one in 300 at all 86400 seconds. Or blocks that may not fit. Non-trivial: at "
             "least two blocks; blocks that do not fit.",
             "property-based testing against a table of all seconds of the day",
             "Values and next starts are compared with a table of the day, reports with the sum of the blocks.",
             ["blocks do not overlap, starts and the times asked for are within the day"],
             require=["over midnight", "until midnight", "many blocks", "every second looked at", "covers the day", "just fits or just does not"]),
    "C23": P(["rel", "dbg"],
             "A case is a date from 1970 up to the year 200000 (text: 9999), preferring ends of months, leap days and "
             "centuries, constructed in one of the ways there are, or 20 steps from one. Non-trivial: after 1970.",
             "property-based testing against independent calendar arithmetic, round-trip",
             "All fields, both timestamps and the formatted text are compared with the proleptic Gregorian calendar.",
             ["the local time zone is UTC", "fields are a valid date (as opposed to 30 February)"],
             require=["29 february", "century", "2038 and on", "before 2000", "formatted", "formatted: does not fit",
                      "text with a space", "with weekday and day of the year"]),
    "C24": P(["rel", "dbg"],
             "A case is a history of readings, setpoints, tunings and restarts of one controller, a forward and a reverse "
             "controller in mirrored worlds, or a configuration that may be wrong. Non-trivial: two updates (mirror: three "
             "readings); a wrong configuration.",
             "stateful property-based testing against the control law in double precision with a running error bound; "
             "metamorphic mirror relation",
             "Each response is compared with the law to within what single precision can lose, limits and cadence exactly.",
             ["the first reading comes at least a sample interval after construction", "readings are finite",
              "limits are the right way around"],
             require=["reading within the interval", "at a limit", "between the limits", "reverse", "on measurement",
                      "tuned anew", "initialised again"]),
    "C25": P(["rel", "dbg"],
             "A case is a complete tuning of a generated process (first order with dead time, noisy integrator, any reading "
             "about the target, straight). Non-trivial: more than two cycles, so that gains are averaged.",
             "model-based property-based testing: an observing relay model on a virtual clock",
             "Each output, the time between readings and the gains are compared with a relay model that sees only the readings.",
             ["targets, hysteresis and readings are multiples of 1/64, so that edges are exact",
              "the gains are those for one sample interval, and of the last cycle when there are no more than two"],
             require=["preheated", "slow loop", "own clock", "one or two cycles"]),
    "C26": P(["rel", "dbg"],
             "A case is a history of readings over time, both preferably on an edge, for one configuration. Non-trivial: two "
             "switches.",
             "stateful property-based testing against a state model on a virtual clock",
             "The response is compared with the model after each reading and after time alone.",
             ["low does not exceed high", "a new latch counts as off for its minimal off time"],
             require=["held by the minimal time", "switched by the maximal time", "switched against the reading", "kept", "10+ switches"]),
    "C27": P(["rel", "dbg"],
             "A case is a history of samples (inside, on the edge, just and far outside of the band) and resets of one filter "
             "of floats or doubles. Non-trivial: at least one rejection and two samples in the band.",
             "stateful property-based testing against an exact model",
             "The value is compared after each sample, reports one by one.",
             ["the rejection limit is at least one", "no sample is the value that stands for none (-789.123...)",
              "consecutive rejections are consecutive samples outside of the band, accepted beyond the limit or not"],
             require=["on the edge", "rejected", "reported", "accepted beyond the limit", "reset"]),
    "C28": P(["rel", "dbg"],
             "A case is a history of samples and resets of one filter (float or double), or of attaching, detaching, sampling "
             "and resetting a stack of exact test filters that do not commute, or of a stack of the library's filters next to "
             "the same filters one by one. Non-trivial: beyond the frame (average), within the limits (inverter, range), two "
             "filters (stacks).",
             "model-based property-based testing, differential (stack against its parts)",
             "Outputs are compared with the definitions in long double within a rounding bound; stacks are compared exactly, "
             "each filter's samples, resets and lifetime included.",
             ["the frame is at least one long", "the inverter is given what is in its range (otherwise debug builds report)"],
             require=["beyond its frame", "reset", "reported", "clamped", "attached to a full stack", "detached nothing", "detached",
                      "reset all", "full", "more than eight"]),
    "C31": P(["rel", "dbg"],
             "A case is a history of sleeping in different units, of setting and fading an output, or of driving a digital "
             "one. Non-trivial: slept in microseconds and something longer; a fade of at least two steps; a flip.",
             "stateful property-based testing: invariants over the recorded history of an output, integer arithmetic for the clock",
             "Both clocks are compared after each sleep, every value an output was given is recorded with its moment and judged.",
             ["sleeping for a number of units that delay() offers", "increments are positive, setpoints within [0, 1]"],
             require=["part of a millisecond", "down", "up", "there already", "in one step", "50+ steps"]),
    "C32": P(["rel", "dbg"],
             "A case is a pair of points (of int, int64, float, double) and a scalar. Non-trivial: they differ in all "
             "components.",
             "property-based testing against component-wise arithmetic",
             "All operators on all generated pairs, compared exactly, lengths within a rounding bound.",
             ["components do not overflow", "no division by zero"],
             require=["equal", "differ in one component", "normalised"]),
    "C29": P(["rel", "dbg", "tiny"],
             "A case is a history of setting the level, letting time pass and logging by macros on every level, a direct call "
             "with any location, or printing. Messages prefer lengths about the size of the buffer. Non-trivial: a message "
             "that is printed and one that is not; a message that is cut off.",
             "stateful property-based testing against independently formatted text, under AddressSanitizer",
             "What arrives at standard output is compared byte for byte, with a message buffer of 256 and of 28 bytes.",
             [], require=["cut off", "just fits"], shares=[3, 3, 2]),
    "C30": P(["rel", "dbg"],
             "A case is a history of installing handlers and raising errors (from handlers too), a handful of assertions, or "
             "one use or misuse of a container, event, pipeline, result or timer in a generated state. Non-trivial: two "
             "errors and two replacements; a condition that does not hold; misuse.",
             "stateful property-based testing against a model of the handler; predicted misuse",
             "Calls of handlers, their order, lifetime and arguments are compared with the model.",
             ["misuse is as the assertions in the code document it"],
             require=["no handler", "raised while handling", "handler replaced while handling", "misuse", "proper use"]),
    "C33": P(["ard", "ardd", "ardo"],
             "A case is a history on outputs, inputs, interrupts, a serial port, the clock or the console of the Arduino "
             "platform. Non-trivial: at least three operations; an interrupt of one of several pins fired; bytes in both directions.",
             "stateful property-based testing of the platform against a simulated Arduino core",
             "The platform is compiled against a stand-in for Arduino.h whose pins, interrupt table, serial ports and clock "
             "are inspected after each operation.",
             ["the stand-in (harness/fakes/arduino) behaves as the Arduino reference says; pin to interrupt mapping of a Mega",
              "analogue inputs deliver 10 bits; all analogue outputs share one resolution"],
             require=["flipped", "faded", "fired", "detached", "nothing to read", "halted", "memory"], shares=[3, 3, 2]),
    "C34": P(["zep", "zepd"],
             "A case is a history of readings of the clock and delays, of messages and levels, a halt, or time measured with "
             "timers on the Zephyr platform. Non-trivial: three readings; a message printed and one suppressed; any halt; any time.",
             "stateful property-based testing of the platform against a simulated kernel",
             "The platform is compiled against a stand-in for Zephyr's kernel and logging headers whose clock and log are "
             "inspected after each operation.",
             ["the stand-in (harness/fakes/zephyr) behaves as Zephyr's documentation says; delays stay below 2^31 ms"],
             require=["ticks past 32 bits", "long delay in us", "off"]),
    "C35": P(["rel", "dbg"],
             "A case is a device built from event system, buffered stream, transactions, array and vector, on a mock stream, a "
             "UART or a stream that fails, and a host that sends requests in parts and takes answers when it likes. "
             "Non-trivial: at least two answers.",
             "model-based property-based testing of a composition, with bounded liveness",
             "Every byte the host receives is compared with what its own reading of the rules expects; in the end both sides are idle.",
             ["requests fit into the input buffer, answers into the output buffer", "the host honours available room"],
             require=["failures", "2+ notices", "requests in parts", "2+ answers", "no room for a notice"]),
    "C36": P(["rel", "dbl"],
             "A case is a pair of units, of a unit and a type of number, or of ratios, each with all operations. Non-trivial: all.",
             "property-based testing over generated pairs of types: what compiles, against a table of kinds",
             "For each pair the compiler says which operations there are and of what type their results are; a table of what each "
             "unit measures, independent of the code, says what should be there.",
             ["operators of ratios that are unconstrained templates, and fail in their body, are not looked at"],
             require=["same kind, other magnitude", "other kind", "number", "same ratio", "other ratio", "everything", "temperatures"]),
    "C37": P(["zep", "zepd"],
             "A case is a history of a pipeline, an event system, a timer or a latch while the clock moves whenever it is "
             "looked at. Non-trivial: the clock moved while a future was pushed between others, or three events were delivered, "
             "or a timer fired.",
             "stateful property-based testing against a simulated kernel whose clock moves within operations",
             "What an operation gives has to lie between what it is for the time at its beginning and at its end; order and sums are exact.",
             ["the clock never goes back", "a stand-in for Zephyr's kernel (harness/fakes/zephyr)"],
             require=["clock moved while pushing", "due within milliseconds of another", "laps", "scheduled by handlers"]),
    "C38": P(["rel", "dbg"],
             "A case is a history of one of the library's objects (containers of four kinds of plain elements with own or "
             "external storage, buffers, pools, an event system with handlers that schedule, streams with transactions, "
             "controllers, filters, timers, strings, logs, results). Non-trivial: a line was there to be read, three events "
             "were handled, a ring was full, a transaction was had, etc.; any history of a vector.",
             "stateful property-based testing with a counting allocator",
             "Hooks of the allocator count the blocks each single operation allocates and releases.",
             ["elements and handlers allocate nothing themselves", "misuse that debug builds report is left out",
              "streams are the mock stream or one with a fixed store"],
             require=["external store", "full", "scheduled without room", "logged", "30+ pending"]),
    "C40": P(["rel", "dbg"],
             "A case is a history of making, copying, changing and dropping tuples of generated values (numbers, strings, "
             "structs, pointers, tuples), one of 64 lists of types that the compiler makes up from a hash (1-7 out of up to "
             "ten, with repetitions), or an enumerator. Non-trivial: a tuple was changed and one copied; a list has a "
             "repetition and two or more types; a number beyond a byte's sign.",
             "property-based testing against pairs and sets",
             "Both values of every tuple are compared with their models after each step; containment, number of types and "
             "every value's way through the variant for every list and type.",
             ["the lists of types are the same in every run, the values are not"],
             require=["changed", "copied", "repeated", "no repetition"]),
    "C39": P(["rel"],
             "A case is a script of up to some hundreds of numbers that one program (harness/C39_program.cpp), built once per "
             "platform, compiler and mode, reads as a history of containers, rings, streams, events, controllers, filters, "
             "units, strings, results, or logs and delays; each build writes down everything it sees. Non-trivial: five or "
             "more lines were written.",
             "differential property-based testing between builds of the same program",
             "The program is loaded as a library from each build; what they write down has to be the same byte for byte.",
             ["one machine: x86-64, little endian", "the program keeps to proper use; it runs for less than 49 days of the clock",
              "stand-ins for the platforms' cores (harness/fakes)"],
             fuzz=False, libs=["-ldl"],
             programs={"rel": ("g++", "rel", ["-fno-gnu-unique"]),
                       "dbg": ("g++", "dbg", ["-fno-gnu-unique", "-fno-sanitize=all"]),
                       "opt": ("g++", "opt", ["-fno-gnu-unique", "-O3"]),
                       "clang": ("clang++", "opt", ["-funsigned-char"]),
                       "arduino": ("g++", "ardo", ["-fno-gnu-unique"]),
                       "arduinodbg": ("clang++", "ardd", ["-fno-sanitize=all"]),
                       "zephyr": ("g++", "zepo", ["-fno-gnu-unique", "-Os"]),
                       "zephyrdbg": ("g++", "zepd", ["-fno-gnu-unique", "-fno-sanitize=all", "-funsigned-char"])},
             require=["an error was raised", "vectors", "rings", "streams", "events", "controllers", "filters", "units", "strings", "results", "platform"]),
}
