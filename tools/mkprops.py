#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as one readable source)."""
import json, os
H = "cxxmetrics/"
def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    return dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None))
L = []
a = L.append
a(P("P01", "Counters lose nothing: concurrent updates behave as if one at a time",
 "Any number of threads incrementing and decrementing one counter behave as if the calls ran one at a time: every call returns the total just after its own update, and once all calls returned the value is the initial value plus the sum of all amounts, wrapping only at the counter's own width. A copy starts at the same value and is independent afterwards, a move hands the value over and leaves the source at zero, and an assignment replaces the value. The operators and the snapshot always agree with the current value.",
 ["schedules", "histories"], "all interleavings of increments/decrements/reads by concurrent threads and all sequences of updates, copies, moves and assignments, for every counter width",
 "The tests run a handful of increments on one thread; no interleaving, no wrap-around, no copy/move is exercised.",
 [H+"counter.hpp"], [("single atomic read-modify-write per update", H+"counter.hpp:incr")],
 [("value", "running total", H+"counter.hpp:value_")], ["incr() return value", "value()", "snapshot()"]))
a(P("P02", "One metric instance per path and tag set, for every caller",
 "Asking the registry for a metric of the same type at the same path with an equal set of tags always yields the very same instance, whatever the order the tags are listed in, however many times and from however many threads it is asked, and whatever initial value later callers pass. Tag values are equal when they are the same text, the same number (of whatever integer or floating type) or the same duration (of whatever unit); sets mixing texts, numbers and durations under one key are left open. Different paths or different tag sets yield different, independent instances, so what is recorded through one handle is seen through every handle to the same metric and through no other.",
 ["histories", "inputs", "schedules"], "all sequences and interleavings of lookups over paths, tag sets (in any listing order) and metric kinds",
 "The tests look up two or three literal paths from one thread, always listing tags in the same order.",
 [H+"metrics_registry.hpp", H+"tag_collection.hpp", H+"metric_path.hpp"],
 [("find-or-create under the path lock", H+"metrics_registry.hpp:get_or_add"), ("find-or-create per tag set under the metric lock", H+"metrics_registry.hpp:child"), ("hash/equality of paths and tag sets", H+"tag_collection.hpp")],
 [("metrics by path", "path -> typed family", H+"metrics_registry.hpp:basic_default_repository::metrics_"), ("metrics by tags", "tag set -> instance", H+"metrics_registry.hpp:registered_metric::metrics_")],
 ["shared_ptr identity returned by the registry"]))
a(P("P03", "A path never changes type: a mismatched request throws, changing nothing",
 "Once a path is registered with one metric type, every request or registration at that path with a different type fails with a type-mismatch error that names the existing and the requested type, whatever tags it uses. The type includes the metric kind, value type, gauge aggregation and source form, reservoir, interval and time windows (for a meter as a set: listing order and repetition do not matter). A failed request leaves the registry exactly as it was.",
 ["histories", "inputs"], "all sequences of registrations over all pairs of metric types, with any tags, including after earlier failures",
 "The tests check two mismatching pairs once each and never look at the registry afterwards.",
 [H+"metrics_registry.hpp", H+"metric.hpp", H+"gauge.hpp"],
 [("type name comparison before the cast", H+"metrics_registry.hpp:get / register_existing"), ("per-type name", H+"metric.hpp:metric_type")],
 [("family type", "type name stored with the path", H+"metrics_registry.hpp:basic_registered_metric::type_")],
 ["exception thrown by the registry", "visit of the registry afterwards"]))
a(P("P04", "Registering an existing metric adopts it once and shares it",
 "Registering an already built metric succeeds exactly when nothing is registered yet at that path and tag set; afterwards lookups there return that same instance, updates made through any handle or any other registry holding it are visible everywhere. A refused registration (slot taken, or a null metric) reports false and leaves the registry and the offered metric untouched.",
 ["histories"], "all interleavings of lookups and registrations of shared metrics across two registries, paths and tags",
 "The tests register an existing metric once at one fresh path and once with the wrong type.",
 [H+"metrics_registry.hpp"], [("insert-if-absent with the offered pointer", H+"metrics_registry.hpp:add_existing")],
 [], ["register_existing() result", "instance identity on lookup"]))
a(P("P05", "Visiting the registry reports every registered metric exactly once",
 "A visit of the registry calls the handler exactly once for every registered path, and a visit of one path calls its handler exactly once for every tag set registered there, with those tags and the metric's current snapshot of the right kind; nothing unregistered, stale or duplicated is reported. A handler that throws stops that visit and leaves registry and locks usable, and visiting an absent path calls nothing. Registrations racing with a visit are either reported whole or not at all.",
 ["histories", "schedules"], "all registries reachable by any sequence (or interleaving) of registrations and updates, followed by any visit",
 "The tests visit registries of three or four fixed metrics.",
 [H+"metrics_registry.hpp", H+"publisher_impl.hpp", H+"snapshots.hpp"],
 [("iteration under the lock", H+"metrics_registry.hpp:visit / visit_each"), ("snapshot dispatch", H+"snapshots.hpp:invokable_snapshot_visitor")],
 [], ["handler invocations"]))
a(P("P06", "Aggregating over tags gives the sum, or the true average",
 "Aggregating a path calls the handler once with one snapshot combining all its tag sets: counters and sum-gauges yield the exact sum, averaging gauges and moving averages the arithmetic mean over all tag sets with equal weight, and meters the mean of the means and, window by window, the mean of the rates. The result does not depend on the order in which tag sets were registered or are merged, and aggregating changes no metric; an empty family calls nothing.",
 ["histories", "inputs"], "all sets of tagged metrics, values and registration/merge orders",
 "The tests aggregate two or three fixed values, for which wrong weights can coincide with the right ones.",
 [H+"snapshots.hpp", H+"metrics_registry.hpp"],
 [("weighted merge", H+"snapshots.hpp:average_value_snapshot::merge / meter_snapshot::merge"), ("fold over the family", H+"metrics_registry.hpp:aggregate_all")],
 [("samples", "weight of a merged average", H+"snapshots.hpp:average_value_snapshot::samples_")], ["aggregate() handler argument"]))
a(P("P07", "Merging histograms keeps every sample and invents none",
 "Merging or aggregating histogram and timer snapshots yields a snapshot whose samples are exactly all samples of all inputs, duplicates included, so minimum, maximum, size, mean and every quantile are those of the combined data, and whose count is the sum of the counts. Empty inputs contribute nothing, and the outcome is the same for every merge order.",
 ["inputs", "histories"], "all pairs and sequences of sample sets, including empty, equal, overlapping and disjoint ones",
 "The one test merges three fixed distributions and only checks that percentiles differ and the count.",
 [H+"snapshots.hpp"], [("sorted merge", H+"snapshots.hpp:histogram_snapshot::merge")],
 [], ["merged snapshot: size, min, max, quantiles, count"]))
a(P("P08", "The last-N reservoir holds exactly the last N values",
 "After any sequence of updates a last-N reservoir holds exactly the most recent min(n, N) recorded values, duplicates included: nothing older, nothing lost, nothing invented, from the first value through any number of wrap-arounds. The ring buffer beneath yields them oldest first and its size agrees, copies and assignments reproduce the contents and are independent afterwards, and reading changes nothing.",
 ["histories", "inputs"], "all update sequences of any length, all capacities, interleaved with snapshots, copies and assignments",
 "The tests push 8-10 fixed values once and never look at a copy.",
 [H+"ringbuf.hpp", H+"simple_reservoir.hpp"],
 [("claim slot, store, publish size", H+"ringbuf.hpp:push"), ("iteration from the oldest slot", H+"ringbuf.hpp:iterator")],
 [("tail", "number of pushes", H+"ringbuf.hpp:tail_"), ("size", "number of readable slots", H+"ringbuf.hpp:size_")], ["snapshot()", "iteration", "size()"]))
a(P("P09", "Reservoirs stay exact when many threads update at once",
 "Whatever the interleaving of concurrent updates, once they have all returned a last-N reservoir holds exactly N values (or all of them, if fewer were recorded), no recorded value more often than it was recorded, and when at most N were recorded every one of them. A snapshot taken while updates run never exceeds the capacity and, once every update that found the reservoir not yet full has returned, contains only values that were really recorded. Later updates replace older ones: in a last-N or sliding-window reservoir a value is gone once N further updates, all begun after it was recorded, have completed, and a value recorded while no other update ran stays until N later updates.",
 ["schedules"], "all interleavings of concurrent updates and snapshots on one reservoir",
 "One test runs a single writer against a reader and only checks that the size stays above 40 of 50.",
 [H+"ringbuf.hpp", H+"simple_reservoir.hpp"],
 [("fetch-and-add slot claim and monotone size publication", H+"ringbuf.hpp:push")],
 [("tail/size", "claimed and readable slots", H+"ringbuf.hpp")], ["snapshot() during and after the updates"]))
a(P("P10", "The uniform reservoir is a bounded sample of what was recorded",
 "A uniform reservoir holds every recorded value until it is full, and from then on exactly its capacity of values, each of them one that was recorded and never more often than it was recorded: it never grows beyond capacity, never shrinks or forgets its fill level, and every update past capacity replaces exactly one held value, chosen at random, by the new one. Copies and assignments reproduce the contents and are independent afterwards.",
 ["histories", "inputs"], "all update sequences, capacities and random draws",
 "The tests use one capacity below and one above overflow with tolerances of 20%, which phantom values or a wrong slot pass.",
 [H+"uniform_reservoir.hpp"], [("fill, then random replacement", H+"uniform_reservoir.hpp:update")],
 [("count", "fill level", H+"uniform_reservoir.hpp:count_")], ["snapshot()"]))
a(P("P11", "The sliding window holds exactly the recent values",
 "A snapshot of a sliding-window reservoir holds exactly those of the most recent N recorded values whose age at the time of the snapshot does not exceed the window, wherever the expired ones sit, also after clock jumps and wrap-around; a value stops being reported as soon as it is older than the window and taking snapshots changes nothing. Copies and assignments reproduce values, times and window and are independent afterwards.",
 ["histories", "inputs"], "all sequences of updates, clock advances (also repeated or backward readings), snapshots and copies",
 "The one test has one fixed time line and never wraps, copies or lets everything expire.",
 [H+"sliding_window.hpp", H+"ringbuf.hpp"],
 [("timestamped ring with a filtering iterator", H+"sliding_window.hpp:transform_and_filter_iterator")],
 [("timed data", "value and time of recording", H+"sliding_window.hpp:timed_data")], ["snapshot()"]))
a(P("P12", "Snapshot statistics are the true order statistics of the samples",
 "For every multiset of samples of any numeric type (or nanosecond durations) and any magnitude, minimum and maximum are the smallest and largest sample, the mean is their arithmetic mean, and the value at quantile q is the linear interpolation at position q*(n+1) of the sorted samples, clamped to minimum and maximum; hence quantiles never decrease with q, never leave [min, max] and do not depend on the order of recording. Sampling calls its handler at most the requested number of times with increasing quantiles and non-decreasing values within [min, max], each being the value at its quantile. An empty snapshot answers 0 for mean and every quantile.",
 ["inputs"], "all multisets of samples, including wide spreads, negative numbers, duplicates, one and zero samples, and all quantiles",
 "The tests use small positive values with tolerances of 1, and spreads that fit an int.",
 [H+"snapshots.hpp", H+"metric_value.hpp"],
 [("sort at construction", H+"snapshots.hpp:reservoir_snapshot"), ("interpolation", H+"snapshots.hpp:value")],
 [], ["min(), max(), mean(), value<q>(), sample(), size()"]))
a(P("P13", "A histogram's count is every update, its samples the reservoir's",
 "A histogram's count equals the number of updates ever made, from any number of threads, however small the reservoir; its snapshot carries that count together with exactly the samples its reservoir holds, and a snapshot never reports a smaller count than an earlier one.",
 ["histories", "schedules"], "all sequences and interleavings of updates and snapshots over all reservoir kinds and capacities",
 "The test makes 8 updates on one thread.",
 [H+"histogram.hpp"], [("count and reservoir updated per call", H+"histogram.hpp:update")],
 [("count", "total updates", H+"histogram.hpp:count_")], ["count()", "snapshot()"]))
a(P("P14", "The moving average follows the exponential law exactly and reads are pure",
 "An interval is completed by the first mark or ordinary read at least one interval length after the previous completion. The first completed interval sets the rate of a (double-valued) average to the total marked so far; every later completed interval moves the rate towards its total by the fixed fraction 1-exp(-interval/(2*window)), and every interval without marks moves it towards zero by that fraction however long the idle time, so a constant load keeps a constant rate, the rate never leaves the range of the interval totals and never rises while idle. Marks within one interval add up, marks or reads at a clock reading earlier than the last update change nothing, and reading through a const average (or copying one) never changes what is later reported.",
 ["histories", "inputs"], "all sequences of marks, reads, copies and clock movements (short, exact-interval, multi-window, backward), windows and intervals",
 "The tests follow five fixed time lines with tolerances, never read a const average and never idle with a rate below 1.",
 [H+"ewma.hpp"], [("tick on mark and read", H+"ewma.hpp:tick")],
 [("rate/pending/last", "current rate, marks of the open interval, time of last tick", H+"ewma.hpp:internal::ewma")], ["rate()", "snapshot()"]))
a(P("P15", "Concurrent marks in one interval are all counted",
 "When any number of threads mark the same moving average, meter or timer within one open interval, no mark is lost or counted twice: when the interval closes the contribution is exactly the sum of all marks made in it, and a meter's lifetime total is the sum of all marks ever made.",
 ["schedules"], "all interleavings of concurrent marks (and const reads) within an interval",
 "One test runs threads against a real-valued average with a loose tolerance.",
 [H+"ewma.hpp", H+"meter.hpp"], [("atomic add / compare-exchange loop on the pending total", H+"ewma.hpp:atomic_add")],
 [("pending", "marks of the open interval", H+"ewma.hpp:pending_"), ("total", "lifetime total", H+"meter.hpp:total_")], ["rate() after the interval closes", "mean()"]))
a(P("P16", "A meter's windows are independent averages; its mean is total over time",
 "For every history of marks, each tracked window of a meter reports what a moving average of that window and interval fed the same marks reports, every mark reaches every window, and the mean is the sum of all marks divided by the number of intervals elapsed since the first mark (the bare total while no time has elapsed, 0 before any mark). A snapshot contains exactly one rate per distinct window, however the windows were listed, and copies and assignments carry the whole state and are independent afterwards.",
 ["histories", "inputs", "configurations"], "all sequences of marks, reads, copies and clock advances over window lists in any order and with repetitions",
 "The tests check fixed time lines for one window list and rates only > 0.",
 [H+"meter.hpp", H+"meta.hpp"], [("mark fan-out", H+"meter.hpp:rates_holder::marker"), ("window sorting", H+"meta.hpp:sort_unique"), ("lifetime mean", H+"meter.hpp:mean")],
 [("start/total", "first mark and lifetime total", H+"meter.hpp:_meter_impl")], ["rate<>(), mean(), snapshot()"]))
a(P("P17", "A timed scope is logged exactly once with its true duration",
 "A scoped timer logs exactly one entry when its scope ends (normally or by exception), with the time since its start or last reset; clearing it logs nothing unless it is reset again, and moving it hands the single logging duty to the new owner. Timing a callable returns its result and logs once, and logs nothing if it throws unless exceptions are included. Every non-zero logged duration adds one to count, samples and rate; zero durations add nothing.",
 ["histories", "inputs"], "all sequences of scope start/move/clear/reset/end/exception and direct updates with any durations and clock readings",
 "The tests sleep in real time, check one move and bounds of 50%.",
 [H+"timer.hpp"], [("optional start point", H+"timer.hpp:scoped_timer_t"), ("update", H+"timer.hpp:update")],
 [("start", "set while the scope still has to log", H+"timer.hpp:start_point")], ["count(), snapshot()"]))
a(P("P18", "Metric values are ordered like the numbers they hold",
 "Comparing two numeric metric values of any integer or floating-point types gives the mathematical answer for every magnitude and sign, as does comparing two durations of any units (durations compare among themselves, numbers among themselves): exactly one of <, ==, > holds, != is the negation of ==, <= and >= agree, swapping the operands mirrors the answer, and the order is transitive. Value snapshots compare for equality and inequality like their values.",
 ["inputs"], "all pairs and triples of values over all supported integer, floating and duration types",
 "The tests compare small values of one type incidentally.",
 [H+"metric_value.hpp", H+"snapshots.hpp"], [("compare", H+"metric_value.hpp:compare")], [], ["comparison operators"]))
a(P("P19", "Metric value arithmetic and conversion give the exact result",
 "Adding, subtracting and multiplying metric values (integers, double and long double among themselves, durations of one unit) gives the mathematically exact result whenever it is representable in the wider operand type, in either operand order; dividing gives the dividend over the divisor (truncated for integers, real when either side is a double or wider) when both operands are representable in the wider type, and 0 when the divisor is zero, and no operation fails; a duration times or divided by an integer stays a duration. Copies, moves, in-place operators, negation and conversions to and from integers, strings and durations preserve the value.",
 ["inputs"], "all pairs of values over the supported integer, double, long double and duration types",
 "No test does arithmetic on metric values directly.",
 [H+"metric_value.hpp"], [("type-score dispatch", H+"metric_value.hpp:variant_data_holder::add/multiply/divide")], [], ["operators and casts"]))
a(P("P20", "Publish options take effect as set: metric over registry over default",
 "A publisher sees for each metric the options set on that metric if any were set, else the options set on the registry, else the defaults, whatever the order of setting, registering and publishing; setting again replaces everything, setting options on an unregistered path has no effect, and options of other metrics are unaffected. Every field given when building options (scale, counts, means, rates, distribution flag, quantiles) is what the publisher reads back after any move, assignment or storage.",
 ["histories", "configurations"], "all sequences of setting/registering/publishing over metrics, and all option values",
 "The tests set one option object per kind once and read one or two fields.",
 [H+"publisher.hpp", H+"publisher_impl.hpp", H+"metrics_registry.hpp"],
 [("option lookup", H+"publisher_impl.hpp:effective_options"), ("option storage", H+"metrics_registry.hpp:publish_options")],
 [("publish data", "per registry and per metric", H+"metrics_registry.hpp:data_ / pubdata_")], ["effective_options()"]))
a(P("P21", "Publisher data is created once per owner and type, and kept",
 "Custom data of one type attached to a registry, or to one metric, is created on first request with that request's arguments and is the same object for every later request by any publisher or thread; data of other types, other metrics and the registry never alias it. Presence queries are true exactly after creation and create nothing, and absent paths yield null, false or an empty type.",
 ["histories", "schedules"], "all sequences and interleavings of data requests and queries over owners and data types",
 "The tests create one datum and read it back.",
 [H+"metrics_registry.hpp", H+"publisher_impl.hpp"], [("find-or-create under the data lock", H+"metrics_registry.hpp:get_publish_data / get_or_create_publish_data")],
 [], ["addresses and contents of returned data"]))
a(P("P22", "Prometheus output is always well formed and loses no label text",
 "For every registry content, whatever characters its paths and tags contain, the output parses under the Prometheus text format: valid metric and label names, label values escaped so that unescaping gives back the original text, complete lines, no stray lines. Each metric has its comment header exactly once, before its first sample and with its samples contiguous.",
 ["inputs", "histories"], "all path and tag strings (quotes, backslashes, newlines, digits, punctuation, UTF-8) whose names stay distinct once unsuitable characters are replaced, and all metric kinds",
 "The tests compare a few fixed plain-text paths and tags.",
 ["cxxmetrics_prometheus/snapshot_writer.hpp", "cxxmetrics_prometheus/prometheus_publisher.hpp", "cxxmetrics_prometheus/prometheus_timer.hpp"],
 [("name/tag formatting", "cxxmetrics_prometheus/snapshot_writer.hpp"), ("header once", "cxxmetrics_prometheus/prometheus_publisher.hpp:write")], [], ["bytes written by the publisher"]))
a(P("P23", "Prometheus output reports every metric with its current, scaled values",
 "One publication writes, for every registered path and every tag set, exactly the samples its kind and effective options call for: the value of a counter, gauge or moving average, a meter's mean and every window, a histogram's count, mean and each configured quantile, a timer's the same in microseconds plus its rates, each labelled with all the tags and carrying the value current at that moment, multiplied by the configured scale (histogram and timer counts too) and written with six decimals where it is not an integer. Parts switched off by options are absent, nothing else is written, and publishing changes no metric beyond what reading it does.",
 ["histories", "configurations"], "all registries, values and option combinations",
 "The tests publish one metric at a time with default or one custom option set.",
 ["cxxmetrics_prometheus/prometheus_publisher.hpp", "cxxmetrics_prometheus/prometheus_counter.hpp", "cxxmetrics_prometheus/prometheus_gauge.hpp", "cxxmetrics_prometheus/prometheus_meter.hpp", "cxxmetrics_prometheus/prometheus_histogram.hpp", "cxxmetrics_prometheus/prometheus_timer.hpp"],
 [("per-kind writers", "cxxmetrics_prometheus/")], [], ["bytes written by the publisher"]))
a(P("P24", "The lock-free stack is a linearizable LIFO that loses nothing",
 "Concurrent pushes and pops on the lock-free stack behave as if executed one at a time on a last-in-first-out stack: every pushed element is popped at most once and is never lost or duplicated, pop reports empty only if the stack was empty at some moment during the call, and recycling popped nodes does not change that. Construction from a list or range, move construction and destruction transfer or destroy each remaining element exactly once, and storage goes back to the allocator it came from.",
 ["schedules", "histories"], "all interleavings of push, pop and node recycling by concurrent threads",
 "The tests run threads once on whatever schedule the OS picks and check only the total.",
 [H+"internal/atomic_lifo.hpp"], [("head with a modification tag, replaced by double-width CAS", H+"internal/atomic_lifo.hpp:push/pop")],
 [("head", "tag and top node", H+"internal/atomic_lifo.hpp:head_")], ["call/return history of push and pop"]))
a(P("P25", "A pooled object has one life at a time and dies with its last owner",
 "Every object handed out by the pool is exclusively owned: while any handle to it exists it is not destroyed, not reused and not handed out again, and when the last handle goes it is destroyed exactly once and its storage becomes reusable. Copying, moving, assigning (including to itself), exchanging and compare-exchanging handles keep the number of owners exact, and every object handed out starts with the requested value.",
 ["histories"], "all sequences of allocate, copy, move, assign, release, exchange and compare-exchange over several handles, and all interleavings of threads that use handles of their own on one pool",
 "No test compiles this code.",
 [H+"pool.hpp"], [("reference count in the link word", H+"pool.hpp:add_reference/remove_reference"), ("free list", H+"pool.hpp:allocate/finish")],
 [("reference count", "number of handles", H+"pool.hpp:pool_data::next")], ["handle identity, value and destruction events"]))
a(P("P26", "The skip list is a sorted set",
 "After any sequence of insertions and removals the skip list contains exactly the elements inserted and not removed since, iterates them once each in ascending order, finds exactly those, reports an insertion as successful exactly when the element was absent and a removal exactly when it was present, whatever tower heights the random generator picks (one thread at a time).",
 ["histories"], "all sequences of insert, erase, find and iteration over a key set and all tower heights",
 "No test compiles this code.",
 [H+"skiplist.hpp"], [("level-wise search, insertion and unlinking", H+"skiplist.hpp")],
 [("towers", "per-level successor links", H+"skiplist.hpp:skiplist_node::next_")], ["insert/erase/find results", "iteration"]))
a(P("P27", "Metric paths compose like lists of non-empty names",
 "A metric path is the list of the non-empty components it was built from: joining paths concatenates their components, in every way of writing the join, is associative and ignores empty components, and the joined text is the components separated by the delimiter. Two paths are equal and name the same metric exactly when their component lists are equal, and equal paths hash alike.",
 ["inputs"], "all combinations of components (empty, with delimiters inside, any text) and ways of composing them",
 "The tests only use a few literal paths as registry keys.",
 [H+"metric_path.hpp"], [("component vector", H+"metric_path.hpp")], [], ["operator/, operator==, join, hash, iteration"]))
a(P("P28", "A gauge reports the current value of its source",
 "A gauge of a plain value reports the value last set, a gauge over a variable, pointer or function reports the source's value at the moment of reading, copies of a plain gauge are independent while copies of a source-backed gauge share the source, and assigning one gauge to another makes it report the other's value or source. A gauge's snapshot holds the same value as reading it and aggregates by the gauge's declared mode, sum or average, for every source form.",
 ["histories", "configurations"], "all sequences of set, source change, copy, move, assignment and read over all gauge forms and aggregation modes",
 "The tests read each gauge form two or three times, never copy one, and never use the sum mode.",
 [H+"gauge.hpp"], [("source forms", H+"gauge.hpp")], [("source", "value, reference or function", H+"gauge.hpp")], ["get(), snapshot()"]))
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in L: f.write(json.dumps(p) + "\n")
