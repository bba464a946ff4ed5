#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
S = 'src/spine/'
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {'files': [S + f for f in files], 'mechanism': [{'name': n, 'where': S + w} for n, w in mech]}
    if observe: a['observe_at'] = observe
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})

prop('C01', 'Vector is a bounded double-ended sequence',
 'After any sequence of pushes, pops, inserts, removes, fills, swaps, assignments and clears at either end, a vector holds exactly the elements, in exactly the order, that a mathematical sequence bounded by its capacity would hold. Every way of looking at it - index, at, front and back, peeks, forward, reverse and const iteration, size, empty, full - shows that same sequence, and pops and removes return the element they take out. Adding to a full vector leaves it unchanged and writes nowhere outside its storage.',
 ['histories', 'inputs'], 'all operation histories of all lengths, for all capacities, with internal or caller-provided storage, for trivially copyable and reference-counted element types',
 'The unit tests walk a dozen fixed histories; the layout (where the first element sits in the storage, whether it wraps back, when memory is shifted) depends on the whole history, so only few head positions are ever visited.',
 ['structure/vector.hpp', 'structure/array.hpp'],
 [('head and tail bookkeeping of the live range', 'structure/vector.hpp'), ('shifting memory when one end runs out of room', 'structure/vector.hpp'), ('iterators over the live range', 'structure/vector.hpp')])

prop('C02', 'Containers neither leak, duplicate nor overrun what they hold',
 'An element stored in a vector, array, ring buffer, stack, pool or event pipeline is held exactly as long as it is in there: an element that was taken out, overwritten, assigned away or whose container was destroyed or emptied by moving elements out is not kept alive by the container, and one that is still in there is. Whatever the history, no container reads or writes outside its own storage, releases something twice, or leaves memory allocated after its destruction.',
 ['histories', 'inputs'], 'all operation histories on every container, with reference-counted elements, including destruction and assignment at an arbitrary moment',
 'The tests run with leak detection off and hold plain integers almost everywhere; double releases and leaks show up only for reference-counted elements at particular layouts.',
 ['structure/vector.hpp', 'structure/array.hpp', 'structure/ringbuffer.hpp', 'structure/stack.hpp', 'structure/pool.hpp', 'eventsystem/eventsystem.cpp', 'eventsystem/pipeline.cpp'],
 [('relocation of elements with memmove plus wiping', 'structure/vector.hpp'), ('ownership flag and release of the store', 'structure/array.hpp'), ('destruction of pool and event store', 'structure/pool.hpp')])

prop('C03', 'Array is a fixed sequence that iterates correctly in every direction',
 'An array of any size, in its own or in caller-provided storage, keeps the last value assigned to each index and nothing else, and filling it sets all of them; fresh storage reads as zero or the requested initial value. Forward and reverse iteration, mutable and const, with prefix and postfix steps, visit every element exactly once in order, and an empty array visits none. Swapping, moving and assigning a list transfer contents and size completely, and an array over caller-provided storage reads and writes that very storage.',
 ['histories', 'inputs'], 'all sizes including zero, all write histories, all iterator kinds and step styles, all pairings of storage kinds for swap and move',
 'Tests iterate a handful of small arrays forward; const reverse iteration, postfix steps, swap of differently sized arrays and size zero are not covered.',
 ['structure/array.hpp'], [('iterators', 'structure/array.hpp'), ('storage ownership', 'structure/array.hpp')])

prop('C04', 'Ring buffer is a bounded FIFO with exact accounting',
 'A ring buffer returns elements in the order they were pushed: without rollover a push into a full buffer is refused and changes nothing, with rollover it replaces exactly the oldest element. Used space, free space, empty, full, peeks at any index, bulk pushes and pops, and dropping the first or last n (or everything when n is left at zero) always agree with that queue, and a bulk pop of more than is available takes nothing. The overrun count is the number of elements lost to rollover since the last pop.',
 ['histories', 'inputs'], 'all operation histories for all capacities from one up',
 'The wrapped, full and overrun states are combinations of head, tail and flag that only particular histories reach; tests check a few.',
 ['structure/ringbuffer.hpp'], [('head/tail/full-flag arithmetic', 'structure/ringbuffer.hpp'), ('overrun counter', 'structure/ringbuffer.hpp')])

prop('C05', 'Line buffer frames its bytes into exactly the lines that were written',
 'Whatever bytes are pushed in whatever chunks, reading a line buffer yields exactly the byte runs between delimiters, in order, unaltered, one per delimiter, and never a part of an unfinished line. Viewing, copying, measuring and dropping the next line agree with each other, copying null-terminates and stays within the given length, and a line too long for the given space is left in the buffer. This holds wherever in the circular storage a line lies and for any delimiter set.',
 ['histories', 'inputs'], 'all interleavings of pushes (with and without rollover), views, reads, drops and delimiter changes; all byte contents; all capacities',
 'Lines that wrap the end of the storage need a particular history of earlier reads; tests use a fresh buffer.',
 ['structure/linebuffer.cpp', 'structure/linebuffer.hpp', 'structure/ringbuffer.hpp'], [('delimiter scan over the ring', 'structure/linebuffer.cpp'), ('contiguous view of a line', 'structure/linebuffer.cpp')])

prop('C06', 'A pool never hands out an object that is in use, nor refuses a free one',
 'Acquiring from a pool yields an object that nobody else holds, for as long as the caller keeps it, and every object that was released is acquired again sooner or later. Acquire returns nothing exactly when all objects are held. This holds for any order of acquiring and releasing, for any pool size, and every object that is in the pool is the one that was put in.',
 ['histories'], 'all acquire/release/share histories for all pool sizes, including far beyond 65535 objects',
 'Tests acquire and release in order for a small pool; the search position carried between calls makes the outcome depend on the history.',
 ['structure/pool.hpp'], [('use-count scan with remembered position', 'structure/pool.hpp')])

prop('C07', 'Stack is last-in first-out',
 'After any sequence of pushes, emplacements and pops, the top of a stack is the most recent element that was not yet popped and its size is the number of those. Modifying the top modifies that element only. Pushing onto a full stack changes nothing.',
 ['histories'], 'all push/emplace/pop/modify histories for all capacities', 'There is no test of the stack at all.',
 ['structure/stack.hpp'], [('delegation to the back of a vector', 'structure/stack.hpp')])

prop('C08', 'String helpers agree with their definition on every string',
 'For every string and every set of delimiters, stripping front or back removes exactly the longest prefix or suffix made of delimiters (possibly everything), and starts-with, ends-with and find-first-of answer as defined for any needle, including empty ones and ones longer than the string. Text that is a complete decimal number parses to its nearest float and anything with trailing garbage or nothing at all to zero, reading only the characters of the view. The static string behaves the same and never exceeds or reallocates its capacity, and compile-time concatenation yields the characters of its parts in order.',
 ['inputs'], 'all byte strings, delimiter sets and needles, views into larger memory without terminators', 'There are no tests for these helpers.',
 ['core/utils/string.cpp', 'structure/static_string.cpp', 'structure/static_string.hpp', 'core/utils/concatenate.hpp'], [('strip and match functions', 'core/utils/string.cpp'), ('in-place strip', 'structure/static_string.cpp'), ('compile-time concat', 'core/utils/concatenate.hpp')])

prop('C09', 'Result carries exactly one outcome through every combinator',
 'A result is in exactly one of the states no value, success, intermediary or failed, and holds the value it was made with, also after copying, moving or assigning, and also when success, error and intermediary share a type or convert into each other. Each of chain, map, map_error, map_intermediary, and_then, or_else and match calls precisely the function that belongs to the current state, with the held value, and passes every other state on unchanged. The value_or, error_or and unwrap family return the held value in their state and the fallback in any other.',
 ['programs', 'inputs'], 'all compositions of combinators over all four states, for several combinations of value, error and intermediary types',
 'Tests check single combinators on single values; overload resolution between success, error and copy depends on the type combination.',
 ['structure/result.hpp', 'core/meta/unique_type_variant.hpp'], [('state tag plus variant', 'structure/result.hpp'), ('constructors and overload resolution', 'structure/result.hpp'), ('deduplicated variant', 'core/meta/unique_type_variant.hpp')])

prop('C10', 'Buffered stream delivers every byte once, in order, despite failures',
 'Bytes that the underlying stream produces appear as lines in their order, and bytes written into the output buffer reach the underlying stream exactly once and in order, for every pattern of partial availability, refused writes and failed reads. A byte the underlying stream refused stays queued, and the returned counts equal the bytes actually transferred. Input is only ever discarded, oldest first, while the full input buffer holds no complete line; a complete line is never damaged.',
 ['histories', 'fault_sequences', 'inputs'], 'all interleavings of producer, pull, read, write and push operations with all buffer sizes, combined with any sequence of read and write faults of the underlying stream',
 'The tests use a well-behaved mock stream that never fails and never offers less than asked.',
 ['io/stream/buffered_stream.cpp', 'io/stream/buffered_stream.hpp', 'structure/linebuffer.cpp', 'structure/ringbuffer.hpp'], [('pull loop with rollover', 'io/stream/buffered_stream.cpp'), ('push loop', 'io/stream/buffered_stream.cpp')])

prop('C11', 'A transaction replies completely or not at all and consumes one request',
 'A transaction exposes exactly the next complete incoming line, and finalizing it in any way - commit, abort or letting it go out of scope - removes that one line and nothing else. After commit, or when it goes out of scope, exactly the bytes it accepted follow the bytes queued before; after abort the output queue is what it was before the transaction, less what was flushed meanwhile. No transaction is offered without a complete line, and a reply never exceeds the space that was left.',
 ['histories', 'fault_sequences'], 'all interleavings of transactions (moved or not) with pulling, flushing and plain writes before them, for all buffer sizes, with faults in the underlying stream',
 'Tests run one transaction to completion on large buffers; abort with nothing queued, exactly full buffers, flushes while open, and lines that wrap are not reached.',
 ['io/stream/transaction.cpp', 'io/stream/transaction.hpp', 'io/stream/buffered_stream.cpp'], [('count of queued bytes and undo', 'io/stream/transaction.cpp'), ('finalize on destruction', 'io/stream/transaction.hpp')])

prop('C12', 'Mock stream and UART are faithful loopbacks',
 'Bytes injected into the mock stream are read back in order exactly once, and bytes written to it are extracted in order exactly once, with the two directions independent. Availability in both directions always equals the bytes and space actually there, a write beyond the space stores what fits and reports that amount, and a read of more than is there takes nothing. A UART over a stream behaves as that stream.',
 ['histories', 'inputs'], 'all interleavings of inject, read, write, extract through stream, UART and every overload, for all buffer sizes',
 'One scenario per overload is tested.',
 ['io/stream/implementations/mock.cpp', 'io/stream/implementations/mock.hpp', 'io/stream/stream.hpp', 'platform/implementations/mock.hpp'], [('swapped ring buffers', 'io/stream/implementations/mock.cpp'), ('forwarding UART', 'platform/implementations/mock.hpp')])

prop('C13', 'Every scheduled event fires exactly once, on time, in order, to all handlers',
 'A scheduled event is delivered exactly once, in the first loop run at or after its due time and never before it, to every handler attached to its identifier in order of attachment and to no other, with the data it was scheduled with. Events are delivered in order of due time and, when due at the same time, in order of scheduling. This holds for any number of pending events, for events scheduled from within handlers, and however the clock advances, between loop runs and while handlers run: what becomes due while a handler takes its time is delivered by the run that is going on.',
 ['schedules', 'histories'], 'all sets of delays, identifiers and payloads, all clock advances and loop moments, all handler graphs that schedule or trigger further events from within delivery',
 'Tests schedule a few events at distinct times; ordering and loss bugs need ties, insertions at particular queue positions, large uptimes or re-entrant scheduling.',
 ['eventsystem/eventsystem.cpp', 'eventsystem/eventsystem.hpp', 'eventsystem/pipeline.cpp', 'structure/time/timers.cpp', 'structure/vector.hpp', 'structure/pool.hpp'], [('ordered insertion into the pipeline', 'eventsystem/pipeline.cpp'), ('expiry loop', 'eventsystem/eventsystem.cpp'), ('event reuse through the pool', 'structure/pool.hpp')])

prop('C14', 'Event capacity is honoured forever, and exhaustion disturbs nothing',
 'At any moment exactly as many events can be pending or being delivered as the configured capacity: up to it every request for an event succeeds, beyond it a request is refused and neither disturbs pending events nor crashes. Once an event was delivered its place can be used again, indefinitely, and an event obtained but dropped without scheduling frees its place. Attaching more handlers than configured leaves the ones already attached working.',
 ['histories'], 'all histories of obtaining, scheduling, triggering, dropping and delivering events for all capacities, with arbitrarily many rounds of reuse',
 'Tests never exhaust the event store or reuse it over many rounds.',
 ['eventsystem/eventsystem.cpp', 'eventsystem/eventsystem.hpp', 'eventsystem/pipeline.cpp', 'structure/pool.hpp'], [('pool of events', 'structure/pool.hpp'), ('refusal of missing events', 'eventsystem/eventsystem.hpp')])

prop('C15', 'Between ticks the event loop sleeps exactly as long as configured',
 'With delays enabled, a loop run that leaves pending events sleeps until the next one is due but no longer than the configured maximum, and a loop run that leaves none sleeps the configured minimum; with delays disabled it does not sleep (delays count in whole milliseconds). Hence driving nothing but the loop delivers every event at its due time when no handler takes time.',
 ['schedules', 'configurations'], 'all delay configurations and all sets of pending events at all uptimes',
 'Tests run with delays off or with a single event.',
 ['eventsystem/eventsystem.cpp', 'eventsystem/pipeline.cpp'], [('tick delay computation', 'eventsystem/eventsystem.cpp'), ('time until next future', 'eventsystem/pipeline.cpp')])

prop('C16', 'The pipeline keeps futures in chronological order and reports them truthfully',
 'Whatever futures are pushed and expired, a pipeline yields them in order of due time with ties in order of pushing, says that it contains futures or expired futures exactly when it does, and reports the time until the next future exactly, or zero when there is none or it is overdue. Pushing fixes the due time to the moment of pushing plus the delay of the future. Its textual form lists the remaining time of each future in that order, separated by commas.',
 ['histories', 'schedules'], 'all push/expire/clock histories for all pipeline capacities', 'Tests push three futures.',
 ['eventsystem/pipeline.cpp', 'eventsystem/pipeline.hpp'], [('ordered insertion', 'eventsystem/pipeline.cpp'), ('textual form', 'eventsystem/pipeline.cpp')])

prop('C17', 'Timers are exact to the millisecond at any uptime',
 'A stopwatch timer reports exactly the milliseconds since its last reset; an alarm is expired exactly from its set moment on, stays expired from when that was first observed, and reports that moment and the time left exactly. An interval timer fires exactly when more than one interval has passed since its last firing or reset, counting from the moment of firing, or, when allowed to catch up, from one interval after the previous firing so that no interval is lost. This holds for uptimes of years as for milliseconds.',
 ['schedules', 'inputs'], 'all poll schedules, intervals and uptimes up to decades', 'Timers have no test of their own and the mock clock always starts at zero.',
 ['structure/time/timers.cpp', 'structure/time/timers.hpp', 'platform/implementations/mock.hpp', 'structure/units/primitives/unit.hpp'], [('comparison against the clock', 'structure/time/timers.cpp')])

prop('C18', 'Kernel time converts and computes exactly',
 'Converting kernel time between any two units gives the exact value, rounded to the nearest whole unit with halves away from zero when the target is coarser, and converting to a finer unit and back is lossless. Sums, differences, scalar products and quotients, negation and all comparisons between mixed units give what integer arithmetic in the left unit gives, for every value that fits. Conversion between kernel and real time rounds with the requested function (upwards by default) and dividing by zero is reported.',
 ['inputs'], 'all pairs of the six units and all values for which the result fits in 64 bits', 'Tests check small values; rounding and range errors only show for large or boundary values.',
 ['structure/units/primitives/unit.hpp', 'structure/units/primitives/magnitudes.hpp', 'structure/units/time.hpp'], [('conversion ratio', 'structure/units/primitives/unit.hpp'), ('magnitudes', 'structure/units/primitives/magnitudes.hpp')])

prop('C19', 'Real units convert and compare to within the precision of their type',
 'Converting a physical quantity between any two magnitudes of its unit multiplies by exactly the power of ten (or number of seconds) that separates them, to within a few units of the last place of the value type, single or double precision as configured, and converting back returns the original. Arithmetic and comparisons of mixed magnitudes agree with real arithmetic on the converted values, and trichotomy holds between values that clearly differ. Celsius and Kelvin convert by 273.15.',
 ['inputs', 'configurations'], 'all unit families and magnitude pairs, all finite values of ordinary size, both precisions', 'Tests check a few hand-picked pairs in single precision only.',
 ['structure/units/primitives/unit.hpp', 'structure/units/primitives/magnitudes.hpp', 'structure/units/length.hpp', 'structure/units/mass.hpp', 'structure/units/energy.hpp', 'structure/units/volume.hpp', 'structure/units/temperature.hpp', 'structure/units/time.hpp'], [('conversion ratio', 'structure/units/primitives/unit.hpp'), ('magnitudes', 'structure/units/primitives/magnitudes.hpp'), ('unit declarations', 'structure/units')])

prop('C20', 'Compound units behave as the quotient they denote',
 'A compound unit has the value of its numerator divided by its denominator; converting it to other magnitudes, adding, subtracting, negating, scaling and simplifying give the value real arithmetic gives, to within the precision of the type. Comparing compounds of different magnitudes compares the quantities they denote. A zero denominator is reported when the value is asked for.',
 ['inputs'], 'all compounds over length, volume, mass and time magnitudes with ordinary values of either sign', 'Tests compare equal magnitudes with small integers.',
 ['structure/units/primitives/compound_unit.hpp', 'structure/units/primitives/unit.hpp'], [('cross multiplication', 'structure/units/primitives/compound_unit.hpp'), ('gcd simplification', 'structure/units/primitives/compound_unit.hpp')])

prop('C21', 'Durations print and parse consistently',
 'Every non-negative duration prints as a whole number and a unit, chosen as the smallest of us, ms, s, min, h, d for which the rounded number stays below its cutoff (1000, 1000, 900, 1440, 24), and the text parses back to that unit and number, within half a unit of the original. Text consisting of digits and a known unit parses to exactly that amount in that unit; every other text, including missing or oversized numbers, yields nothing and never fails in any other way.',
 ['inputs'], 'all durations and all byte strings', 'There are no tests of printing and parsing time.',
 ['core/utils/time_repr.hpp', 'core/utils/time_repr.cpp'], [('unit selection', 'core/utils/time_repr.hpp'), ('parser', 'core/utils/time_repr.cpp')])

prop('C22', 'A schedule gives the right value at every second of the day',
 'For any set of blocks that do not overlap and fit in a day, in any order and possibly running over midnight, the value at a time is that of the block covering it, start included and end excluded, and zero when no block covers it. The start of the next block is the earliest start strictly after the given time, or 24 hours when there is none.',
 ['inputs', 'configurations'], 'all non-overlapping block lists and all seconds of the day', 'Tests check one schedule at a few moments.',
 ['structure/time/schedule.cpp', 'structure/time/schedule.hpp'], [('block lookup with wrap over midnight', 'structure/time/schedule.cpp')])

prop('C23', 'Calendar dates and timestamps map one to one',
 'A date constructed from a timestamp, from calendar fields or from compiler date and time text shows the same year, month, day, hour, minute, second, weekday and day of the year as the proleptic Gregorian calendar in UTC, for all years from 1970 far into the future including leap years and century rules, and its unix timestamp round-trips. The year-2000 timestamp is that minus the seconds between both epochs. Formatting yields the same fields, and reports zero when the text does not fit.',
 ['inputs'], 'all timestamps of centuries, all valid calendar dates and times of day', 'There are no tests of dates.',
 ['structure/time/datetime.cpp', 'structure/time/datetime.hpp'], [('calendar conversion', 'structure/time/datetime.cpp'), ('text parsing', 'structure/time/datetime.cpp')])

prop('C24', 'PID output obeys its limits, cadence and control law',
 'The response always lies within the output limits, changes only when at least a sample interval has passed since the last update, and at each update follows the discrete PID law with clamped integral for the configured gains, sample interval, proportionality (on error or on measurement) and direction; a reversed controller mirrors a forward one. That stays so when limits, interval, direction, tunings or proportionality change while it runs, new limits taking effect on the output at once, and limits or intervals that make no sense being ignored. Tunings read back as they were set, setpoint and error as defined.',
 ['histories', 'inputs', 'configurations'], 'all reading sequences, setpoint and tuning changes, gains, limits, intervals, directions and proportionalities', 'There are no tests of the controller.',
 ['controller/pid.cpp', 'controller/pid.hpp', 'controller/implementations/pid/pid_controller.cpp', 'controller/implementations/pid/pid_controller.hpp'], [('discrete control law', 'controller/implementations/pid/pid_controller.cpp'), ('gain scaling by sample time', 'controller/implementations/pid/pid_controller.cpp')])

prop('C25', 'Autotuning measures the oscillation it causes and returns its relay gains',
 'While tuning, the process is driven only with the lower or upper output limit - upper until the reading exceeds the target by the hysteresis, then lower until it falls below the target by the hysteresis, and so on - once per sample interval, for the configured number of cycles, and is left at zero. The gains returned are the Ziegler-Nichols relay gains for the chosen aggressiveness computed from the amplitude and period of each cycle, averaged over the cycles after the first two (of the last cycle when there are no more than two), with integral and derivative gains for one sample interval. The given loop function is called during every wait, and a starting point is warmed up to first, with the upper limit, but for no longer than half an hour of the given clock.',
 ['histories', 'configurations'], 'all process responses, output ranges, hystereses, intervals, cycle counts and aggressiveness modes', 'There are no tests of the tuner.',
 ['controller/implementations/pid/pid_tuner.cpp', 'controller/pid.cpp'], [('relay switching and gain computation', 'controller/implementations/pid/pid_tuner.cpp'), ('tuning loop', 'controller/pid.cpp')])

prop('C26', 'The latch switches on its thresholds within its minimal and maximal times',
 'The latch turns on for a reading above the high limit and off for one below the low limit and otherwise keeps its state, except that it never switches before the minimal time of its present state has passed and, at the first reading after the maximal time of its present state has passed, switches whatever the reading. Times count from the moment it last switched; a new latch counts as having been off for its minimal off time.',
 ['histories', 'schedules', 'configurations'], 'all reading and clock sequences and all limit and time configurations', 'There are no tests of the latch.',
 ['controller/sr_latch.cpp', 'controller/sr_latch.hpp', 'structure/time/timers.cpp'], [('time guards', 'controller/sr_latch.cpp'), ('moment of last switch', 'controller/sr_latch.hpp')])

prop('C27', 'The band-pass filter rejects outliers, and only outliers',
 'The first sample is taken as the initial value; thereafter a sample within the band of mantissa times ten to the power of decades plus one around the offset (absolute) or around the offset plus the last accepted value (relative) is accepted, and one outside it leaves the value unchanged. Only after more consecutive samples outside of the band than the limit is such an outlier accepted, or reported when so configured, and a sample inside the band restarts the count. Resetting sets the value that the next sample is judged against.',
 ['histories', 'configurations'], 'all sample and reset sequences and all configurations of mode, mantissa, decades, offset and limit', 'There are no tests of filters.',
 ['filter/implementations/bandpass.hpp'], [('band limits', 'filter/implementations/bandpass.hpp'), ('rejection counter', 'filter/implementations/bandpass.hpp')])

prop('C28', 'Filters compute their definition and stacks compose them in order',
 'The moving average returns the mean of its samples until its frame is full and the exponentially weighted mean thereafter, restarting after a reset; the inverter mirrors its range; range mapping is linear onto the output range and clamps (or reports) what lies outside; pass-through changes nothing. A stack passes each sample through its filters in order of attachment and returns the last output, holds as many filters as it has slots, returns a detached filter and continues without it, and resets all of them. Reading a value without a new sample returns the last output.',
 ['histories', 'inputs', 'configurations'], 'all sample sequences, configurations, stack compositions and attach/detach histories, in single and double precision', 'There are no tests of filters.',
 ['filter/filterstack.hpp', 'filter/implementations/ewma.hpp', 'filter/implementations/invert.hpp', 'filter/implementations/mapped_range.hpp', 'filter/implementations/passthrough.hpp'], [('composition', 'filter/filterstack.hpp'), ('filter arithmetic', 'filter/implementations')])

prop('C29', 'Logging prints exactly the enabled levels and never overruns its buffer',
 'A message is printed exactly when its level is at or below the current log level, as one line that carries the time, the level and the formatted message (and source location for debug messages). Messages longer than the message buffer are cut off, losing only their end, and never write outside it, for any length and any level. Setting the level takes effect at once and reads back; printing through the platform prints exactly the text, or what fits of a formatted one.',
 ['inputs', 'histories'], 'all message lengths and contents, all levels and level changes', 'There are no tests of logging.',
 ['core/logging.cpp', 'core/logging.hpp'], [('bounded formatting', 'core/logging.cpp'), ('level filter', 'core/logging.cpp')])

prop('C30', 'Every reported error reaches the handler once, and assertions guard misuse',
 'Raising an exception calls the currently installed machine-wide handler exactly once, with that error type and message, and without a handler calls none; replacing the handler hands back the previous one. In debug builds an assertion that fails raises exactly one assertion error with the failed condition and one that holds raises nothing, and misuse of containers, events, transactions and durations is reported that way; expectations only log. In release builds assertions have no effect.',
 ['histories', 'configurations'], 'all sequences of installing handlers and raising errors, all misuses of the listed kinds, debug and release builds', 'There are no tests of error handling, and the mock platform keeps going after an error.',
 ['core/exception.cpp', 'core/exception.hpp', 'core/debugging.hpp', 'structure/vector.hpp', 'structure/pool.hpp', 'eventsystem/eventsystem.cpp', 'io/stream/transaction.cpp'], [('dispatch to handler', 'core/exception.cpp'), ('assertion macros', 'core/debugging.hpp')])

prop('C31', 'The simulated clock adds up and outputs fade smoothly to their setpoint',
 'Simulated milliseconds and microseconds both equal the sum of all time slept, in whatever units it was slept. Fading an output moves it monotonically from its present value towards the setpoint in steps no larger than the increment, within the range of both, sleeping the interval between steps, and ends exactly at the setpoint. A digital output reports the state last set, and flipping it inverts it.',
 ['histories', 'inputs'], 'all sequences of sleeps, all start values, setpoints, increments and intervals, all set/flip histories', 'There are no tests of outputs and the clock is only ever advanced in whole milliseconds.',
 ['platform/implementations/mock.hpp', 'platform/gpio.cpp', 'platform/gpio.hpp', 'platform/platform.hpp'], [('mock time state', 'platform/implementations/mock.hpp'), ('fade loop', 'platform/gpio.cpp'), ('output state', 'platform/gpio.hpp')])

prop('C32', 'Points compute component-wise, exactly',
 'Addition, subtraction, multiplication, division, remainder, scaling and in-place variants of two- and three-dimensional points give in every component what that operation gives on the components, equality holds exactly when all components are equal, and inequality is its negation. The magnitude is the Euclidean length and normalizing a non-zero point yields length one in the same direction.',
 ['inputs'], 'all integer and floating-point components whose squares a double can hold', 'Tests check one example per operation with small values.',
 ['structure/point.hpp'], [('component operators', 'structure/point.hpp')])

prop('C33', 'On Arduino the HAL does to pins, ports and clock exactly what was asked',
 'Built for Arduino, a digital output drives its own pin, and no other, to the state last set (inverted when active on low) and configures it as an output when initialized; an analogue output gives its pin a duty proportional to its value, within one step of the configured resolution, with 0 meaning fully off and 1 fully on and never a duty that does not fit; inputs report what is on their pin and pull it up when configured so. An interrupt calls the handler that was attached last (or configured) on exactly the edges asked for, from attaching until detaching. A UART passes on all bytes in order in both directions and reports whether there was one to read; the clock is that of the core, delays take exactly the time asked, printing and logging put exactly the text on the console, and halting states the reason, disables interrupts and does not return.',
 ['histories', 'inputs', 'configurations'], 'all histories of operations on any number of pins, resolutions, polarities, interrupt modes, ports and console texts', 'The tests run on the mock platform only: the Arduino implementation is not even compiled.',
 ['platform/implementations/arduino.hpp', 'platform/implementations/arduino.cpp', 'platform/gpio.hpp', 'platform/platform.hpp'], [('duty from value and resolution', 'platform/implementations/arduino.hpp'), ('choice of handler and edges', 'platform/implementations/arduino.hpp'), ('forwarding to the serial port', 'platform/implementations/arduino.hpp')])

prop('C34', 'On Zephyr time and logging follow the kernel',
 'Built for Zephyr, milliseconds and microseconds are those of the kernel at any uptime (microseconds within a tick, possibly rolling around at 32 bits), a delay in any unit takes exactly the time asked, and timers measure exactly what passes on that clock. A message reaches the kernel log exactly once, with its own level and text, when its level is enabled, and not otherwise; setting the log level sets the level of the backend, OFF included. Halting logs the reason and does not return.',
 ['histories', 'inputs'], 'all uptimes up to 2^41 ms, all delays below 2^31 ms, all sequences of messages, lengths and levels', 'The tests run on the mock platform only: the Zephyr implementation is not even compiled.',
 ['platform/implementations/zephyr.hpp', 'platform/implementations/zephyr.cpp', 'core/logging.cpp', 'structure/time/timers.hpp'], [('conversion of ticks and delays', 'platform/implementations/zephyr.hpp'), ('mapping of levels', 'platform/implementations/zephyr.cpp')])

prop('C35', 'A device built from the parts answers each request exactly once',
 'A device that is put together from the event system, a buffered stream on a stream or UART, transactions and containers - on each tick it pulls in data, opens a transaction per complete line, replies when there is room, commits or aborts, and pushes out data - gives the other side exactly one complete answer per request, in the order of the requests, and no other byte, however requests arrive in parts, whichever single transfers fail and however slowly answers are taken; once the wire is free, every request that arrived is answered within a bounded number of ticks. Replies that are taken back never show and state set by a request is seen by all later ones. Every notice scheduled as an event arrives exactly once, not early, in the order of being due.',
 ['histories', 'inputs', 'schedules', 'fault_sequences'], 'all sequences of requests, fragmentations, transfer failures, back pressure and passages of time, for all buffer sizes that hold a request and its answer', 'Tests exercise the parts one at a time; the promise a user relies on spans all of them and every interleaving of arrival, failure and time.',
 ['io/stream/buffered_stream.cpp', 'io/stream/transaction.cpp', 'structure/linebuffer.cpp', 'eventsystem/eventsystem.cpp', 'io/stream/implementations/mock.cpp'], [('transaction per line', 'io/stream/transaction.cpp'), ('buffers towards the stream', 'io/stream/buffered_stream.cpp'), ('events in due order', 'eventsystem/pipeline.cpp')])

prop('C36', 'Quantities of different kinds do not mix',
 'For every two units: a quantity converts to, constructs, is assigned to, is added to, subtracted from, multiplied with, divided by or compared with another exactly when both measure the same kind of quantity in the same type of number, whatever their magnitudes, and results in the unit of the left operand; otherwise the program does not compile. A bare number never silently becomes a quantity nor a quantity a number; numbers only scale (*, /, *=, /=); kelvin and celsius mix by to_kelvin and to_celsius only, which differ by 273.15. Ratios convert, construct, are assigned and accumulate exactly when numerators and denominators each are of the same kind, and never mix with plain units.',
 ['programs', 'inputs'], 'all pairs of the 86 units (and some of other value types), all types of numbers, pairs of representative ratios', 'A test cannot contain what must not compile; it takes going through the pairs and asking the compiler about each.',
 ['structure/units/primitives/unit.hpp', 'structure/units/primitives/compound_unit.hpp', 'structure/units/temperature.hpp', 'structure/units/time.hpp'], [('operators by unit tag', 'structure/units/primitives/unit.hpp'), ('interchangeable ratios', 'structure/units/primitives/compound_unit.hpp')])

prop('C37', 'Nothing depends on the clock standing still',
 'Time passes on its own, also while a single operation runs and between any two looks at the clock. Whenever it does so, a pipeline stays ordered by due time with ties in order of pushing, futures compare by the moment they are due, every scheduled event fires exactly once and in that order and no later than the run under way at its due time, what a pipeline, a timer or a latch reports is true for a moment within the call, and its textual form lists all futures as of one moment. Successive laps of a stopwatch add up to all of the time that passed, an interval that catches up loses none, and a sleeping loop wakes up neither late nor long before the next event is due.',
 ['schedules', 'histories'], 'every placement of clock ticks among the looks at the clock within any operation, by parts of a millisecond to tens of them, for all sequences of operations', 'On the mock platform that tests run on, the clock moves only when told to, never within an operation; on a device it does nothing else.',
 ['eventsystem/pipeline.cpp', 'eventsystem/pipeline.hpp', 'eventsystem/eventsystem.cpp', 'structure/time/timers.cpp', 'controller/sr_latch.cpp'], [('order of futures', 'eventsystem/pipeline.cpp'), ('laps and intervals', 'structure/time/timers.cpp')])

prop('C38', 'Memory is reserved once, when things are set up',
 'A vector, array, ring buffer, line buffer, stack, pool, static string or stack of filters reserves at most one block of memory, when it is constructed (a list assigned to a vector counts as a new vector), and one over an external store reserves none; an event system and a buffered stream reserve what they need when they are constructed. From then on no operation on them allocates or releases memory, whatever the history: inserting, removing, rearranging, overwriting, moving, swapping, viewing, iterating, attaching handlers and filters, scheduling and delivering events (from handlers too), pulling, pushing and transacting lines, acquiring and releasing pooled objects. Neither do controllers, filters, timers, schedules, units, results, string views and log messages.',
 ['histories'], 'all histories of operations on all of these, for elements, handlers and streams that allocate nothing themselves', 'Fragmentation shows after weeks, on a device with little memory; no test counts allocations, and one that did would see only the path it takes.',
 ['structure/array.hpp', 'structure/vector.hpp', 'structure/ringbuffer.hpp', 'structure/linebuffer.cpp', 'eventsystem/eventsystem.cpp', 'eventsystem/pipeline.cpp', 'io/stream/buffered_stream.cpp'], [('the one block', 'structure/array.hpp'), ('events in stock', 'eventsystem/eventsystem.cpp'), ('rearranging in place', 'structure/ringbuffer.hpp')])
prop('C39', 'The same program does the same in every build',
 'A program that uses the library properly behaves the same on every platform (mock, Arduino, Zephyr), in release and debug builds (DEBUG_SPINE), with each compiler and optimisation level, and whether char is signed or not. Everything it can see is the same: what operations return and hold, the order and time of events, the decisions and responses of controllers and filters (bit for bit), the texts of times, strings and pipelines, whether a message is logged, how long delays take, and which errors are raised with which type and text. A debug build only adds errors for misuse, and a release build leaves nothing out that proper use relies on.',
 ['programs', 'configurations'], 'all programs that keep to proper use, in all supported builds', 'Logic is developed and tested on the mock platform by a debug build of one compiler and shipped as a release build of another; the tests run one build only.',
 ['platform/platform.hpp', 'platform/implementations/mock.hpp', 'platform/implementations/arduino.hpp', 'platform/implementations/zephyr.hpp', 'core/debugging.hpp', 'core/exception.cpp', 'core/logging.hpp', 'structure/array.hpp', 'structure/ringbuffer.hpp', 'core/utils/string.cpp', 'eventsystem/eventsystem.cpp', 'io/stream/buffered_stream.cpp'], [('assertions', 'core/debugging.hpp'), ('platforms', 'platform/platform.hpp')])

prop('C40', 'Tuples and type lists hold each thing once',
 'A tuple holds exactly the two values it was made from, also after these are gone; first and second refer to those values, in a const tuple too, changing one leaves the other and every copy as it was. The unique list of any types contains each of them exactly once and nothing else, containment is true exactly for those, the variant made of it can hold each of them, and a wrapped value is given back as it was. The number of an enumerator is its value.',
 ['inputs', 'histories'], 'all types, all lists of types, all values and histories of copies and changes', 'No test covers the tuple or the lists of types other than by one use of them.',
 ['structure/tuple.hpp', 'core/meta/unique_type_variant.hpp', 'core/meta/enum.hpp', 'core/types.hpp'], [('the two values', 'structure/tuple.hpp'), ('unique lists', 'core/meta/unique_type_variant.hpp')])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
    print(len(P))
