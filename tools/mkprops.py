import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)
X="cxxmetrics/"; Q="cxxmetrics_prometheus/"
p("C01","Counter arithmetic is exact",
 "A counter always holds its initial or last explicitly set value plus every increment and minus every decrement applied since, for every integer width and signedness and through every increment and decrement form. Each operation yields what it documents (the new value; the old value for post-increment), copying carries the value, moving transfers it and leaves the source at zero, and a snapshot reports exactly the current value.",
 ["histories","inputs"],"every sequence of set/increment/decrement/copy/move/assign/read operations on counters of every integer type, with any amounts (wrapping modulo the type's width), including extreme values",
 "The tests apply a handful of fixed increments to one int counter; the claim is about all operation sequences, amounts and types.",
 [X+"counter.hpp",X+"snapshots.hpp"],[("atomic read-modify-write on the value","cxxmetrics/counter.hpp incr/operator="),("value snapshot","cxxmetrics/counter.hpp snapshot")],
 ["counter value, conversions, operator results, snapshot value"])
p("C02","Concurrent recording loses nothing",
 "When several threads record into the same metric at once, no recording is lost or counted twice: a counter ends at the exact sum, the count of a histogram or timer equals the number of recordings, a meter's lifetime total equals the sum of its marks, and marks made to a moving average between two updates of it all count towards that interval, while marks made just as an interval is being ended count exactly once, towards it or the next. The values returned by concurrent counter operations are consistent with some order in which the operations took effect one at a time.",
 ["schedules","histories"],"every interleaving of 2-4 threads at the granularity of individual memory accesses, for every small program of recordings and reads per thread",
 "The threaded tests run whatever few interleavings the machine happens to produce and check only a final sum of one shape; a lost update needs a switch between two particular instructions.",
 [X+"counter.hpp",X+"histogram.hpp",X+"meter.hpp",X+"ewma.hpp",X+"timer.hpp"],[("atomic fetch-add","cxxmetrics/counter.hpp"),("atomic accumulate loop","cxxmetrics/ewma.hpp atomic_add"),("atomic total","cxxmetrics/meter.hpp _meter_impl::mark")],
 ["final counts, totals and rates after all threads are done","values returned by each counter operation"])
p("C03","Same path, tags and type always yield the same metric",
 "Asking a registry for a metric by path, tag set and type creates it on the first request and returns that very same instance on every later one, whatever order the tags are given in, and any other path or tag set yields a different instance. An initial value or reservoir given in a later request is ignored; registering an existing metric object stores that object and reports true exactly when that path-and-tags slot was free, and otherwise changes nothing and reports false.",
 ["histories","inputs"],"every sequence of lookups and registrations over all metric kinds, arbitrary path components and arbitrary tag sets built in any order",
 "Tests look up a few literal paths with at most two tags in one order; identity must hold for every tag set, insertion order, path shape and request history.",
 [X+"metrics_registry.hpp",X+"tag_collection.hpp",X+"metric_path.hpp"],[("find-or-create per path and per tag set","cxxmetrics/metrics_registry.hpp get_or_add/child"),("hash and equality of paths and tag sets","cxxmetrics/tag_collection.hpp, cxxmetrics/metric_path.hpp")],
 ["identity of the returned shared pointers, metric values, register_existing result"])
p("C04","A path never changes its metric type",
 "Once a path holds one kind of metric, any request for it as another kind (a different metric class, value type, window set, reservoir or gauge aggregation) fails with the type-mismatch error naming the existing and the desired type, and changes nothing: no metric is created, altered or replaced. Requests for the same kind never fail, and the windows of a meter or timer are compared as a set, so listing them in another order or repeatedly names the same kind.",
 ["histories","inputs","configurations"],"every sequence of typed requests and registrations over a family of pairwise different metric kinds on colliding paths and tags",
 "Tests check one or two mismatching pairs; the guarantee is about every pair of kinds in every order and about the absence of side effects.",
 [X+"metrics_registry.hpp",X+"metric.hpp",X+"gauge.hpp",X+"meter.hpp",X+"timer.hpp"],[("type name comparison before the downcast","cxxmetrics/metrics_registry.hpp get/register_existing"),("per-type name","cxxmetrics/metric.hpp metric_type")],
 ["exceptions thrown, their reported types, and the registry contents afterwards"])
p("C05","Enumeration visits every registered metric exactly once",
 "Visiting a registry calls the handler exactly once per registered path, and visiting a registered metric calls the handler exactly once per tag set, with exactly those tags and a snapshot of that metric's kind and current state, however many there are. A handler, in whatever form of callable and whatever it returns, that accepts only some snapshot kinds is called for exactly those (a timer counting as a histogram if the handler has no timer form, and as its rates if it takes neither); a handler that throws leaves the registry fully usable.",
 ["histories","inputs"],"every registry content reachable by registrations and updates (including very many tag sets on one path) and every shape of handler",
 "Tests visit registries with a few metrics and fixed handlers; completeness is about all contents, sizes and handler shapes.",
 [X+"metrics_registry.hpp",X+"snapshots.hpp",X+"publisher_impl.hpp"],[("iteration over paths and tag sets under the lock","cxxmetrics/metrics_registry.hpp visit/visit_each"),("overload dispatch","cxxmetrics/snapshots.hpp invokable_snapshot_visitor")],
 ["arguments and number of handler calls"])
p("C06","Aggregation combines all tag permutations faithfully",
 "Aggregating a registered metric calls the handler once with one snapshot combining all its tag permutations, independently of their order: counters and summing gauges give the sum (in their own value type), averaging gauges and moving averages the arithmetic mean, meters the mean of the lifetime means and of each window's rates. Histograms and timers give the summed count and a sample that is the union of the individual samples with nothing dropped or invented, so its minimum, maximum, mean and quantiles are those of the combined data; aggregation does nothing to the metrics that reading each of them once does not.",
 ["histories","inputs"],"every set of permutations (1 to dozens, including empty and unequal ones) and every recorded data, for every metric kind, and every merge order of snapshots",
 "Tests merge two or three fixed permutations; dropping, duplicating or mis-weighting a permutation needs particular sizes, overlaps or empty members.",
 [X+"snapshots.hpp",X+"metrics_registry.hpp"],[("snapshot merge","cxxmetrics/snapshots.hpp merge"),("fold over permutations","cxxmetrics/metrics_registry.hpp aggregate_all")],
 ["the aggregated snapshot"])
p("C07","The registry is linearizable under concurrent use",
 "Concurrent lookups, registrations, visits and aggregations on one registry behave as if executed one at a time (a request first settling the type of its path, then finding or creating its metric): all threads asking for one path, tag set and type get the same instance, a concurrent registration of an existing object into a slot succeeds exactly when the slot was free, mismatching requests fail, data that publishers attach is created once, and no metric is lost or duplicated. A visit reports every metric whose registration completed before it began, none twice and none that did not exist, and never deadlocks with other operations, not even after a handler threw.",
 ["schedules","histories"],"every interleaving of 2-4 threads at the granularity of individual memory accesses over small programs of registry operations",
 "No existing test uses one registry from several threads.",
 [X+"metrics_registry.hpp",X+"publisher_impl.hpp"],[("mutex per repository and per registered metric","cxxmetrics/metrics_registry.hpp"),("publish data locks","cxxmetrics/metrics_registry.hpp pubdatalock_/datalock_")],
 ["instances returned, results, visited contents, termination"])
p("C08","The simple reservoir holds exactly the most recent values",
 "After any number of recordings, a simple reservoir's snapshot contains exactly the most recent values, as many as were recorded up to its capacity, as a multiset and in sorted order. This holds for every capacity, element type and number of wrap-arounds, and snapshots taken earlier never change afterwards.",
 ["histories","inputs"],"every sequence of recordings and snapshots over many capacities (2 and up, powers of two or not) and element types",
 "Tests fill a couple of fixed capacities once; off-by-one errors at a wrap or partial fill need particular lengths.",
 [X+"ringbuf.hpp",X+"simple_reservoir.hpp",X+"snapshots.hpp"],[("ring buffer tail/size bookkeeping","cxxmetrics/ringbuf.hpp push/begin/iterator")],
 ["snapshot contents"])
p("C09","The uniform reservoir only ever holds recorded values",
 "A uniform reservoir's snapshot contains as many values as were recorded, up to its capacity, and all of them are values that really were recorded: until it is full it holds every one of them, and once full each further recording either leaves the sample unchanged or replaces exactly one held value by the new one. No held value is exempt from eventually being replaced, new values do get in, and nothing outside the reservoir's storage is touched.",
 ["histories","inputs"],"every recording sequence, capacity, element type and random seed",
 "Tests record a fixed range and check loose statistical facts; a sample that goes wrong for one random index in thousands is invisible to them.",
 [X+"uniform_reservoir.hpp"],[("fill then random replacement","cxxmetrics/uniform_reservoir.hpp update"),("bounded count","cxxmetrics/uniform_reservoir.hpp snapshot")],
 ["snapshot contents after every recording; memory safety"])
p("C10","The sliding window reports exactly the values inside the window",
 "A sliding-window reservoir's snapshot contains exactly those of its most recent recordings, up to the capacity, whose recording time is no older than the snapshot time minus the window. This holds for every window length, pattern of clock steps and number of wrap-arounds, with the boundary instant included.",
 ["histories","inputs"],"every sequence of recordings, clock movements and snapshots, over many window lengths, capacities and clock types, including equal timestamps and clocks that step backwards",
 "Tests use one fixed clock pattern per case; boundary instants, expiry combined with wrap-around and irregular clocks are never covered.",
 [X+"sliding_window.hpp",X+"ringbuf.hpp"],[("time filter over the ring buffer","cxxmetrics/sliding_window.hpp transform_and_filter_iterator/snapshot")],
 ["snapshot contents"])
p("C11","Snapshot statistics match the recorded data",
 "A sample's minimum and maximum are the smallest and largest values in it, its mean is their arithmetic mean, and the value at quantile q interpolates linearly between the two ranks around position q*(n+1), clamped to the extremes; quantiles never decrease as q grows and never leave the range of the data. Sampling a snapshot visits at most the requested number of points, in increasing quantile order, each being the interpolated value at the quantile reported with it.",
 ["inputs"],"every multiset of values (all numeric types, negative, duplicate, huge, few or many) in every arrival order, and quantiles over the whole range",
 "Tests compare a few quantiles of one ordered range; interpolation, rounding and ordering errors depend on size, order and value magnitude.",
 [X+"snapshots.hpp",X+"metric_value.hpp"],[("sort on construction","cxxmetrics/snapshots.hpp reservoir_snapshot"),("interpolation","cxxmetrics/snapshots.hpp value/sample/mean")],
 ["min, max, mean, value, sample, size of a snapshot"])
p("C12","Copies and assignments are equivalent and independent",
 "A copy made by construction or assignment of a metric, reservoir or value observes exactly what the original would report at that moment, and from then on neither affects the other: applying the same operations to both gives the same results, and operations on one leave the other unchanged. Self-assignment changes nothing, values can be swapped, also with themselves, and assigning over an object that already has a history leaves no trace of that history.",
 ["histories","inputs"],"every history of operations, copies, assignments (including self- and chained assignment) over all copyable metric, reservoir and value types",
 "Tests copy almost nothing; the claim spans all types and all states at the moment of the copy.",
 [X+"ringbuf.hpp",X+"simple_reservoir.hpp",X+"sliding_window.hpp",X+"uniform_reservoir.hpp",X+"ewma.hpp",X+"meter.hpp",X+"gauge.hpp",X+"counter.hpp"],[("copy constructors and assignment operators","cxxmetrics/*.hpp")],
 ["all readings of the original and the copy"])
p("C13","The moving average follows its exponential model",
 "Until its first interval has elapsed a moving average reports the total marked so far, which becomes its first rate; after that, whenever at least one interval has passed, it moves from the previous rate towards the amount marked since by the factor 1-exp(-interval/(2*window)) and decays by the same factor towards zero for every further interval that passed without marks. A reading inside an interval reports what closing the interval now would give; marks stamped before the last update are ignored, an idle average never grows, and with non-negative marks it is never negative nor above the largest amount marked between two updates.",
 ["histories","inputs","configurations"],"every sequence of marks, readings and clock movements (sub-interval to many windows, backwards, irregular), for many window/interval configurations and value types",
 "Tests follow a few hand-computed sequences with regular steps; long idle gaps, irregular steps and other window ratios behave differently in the code.",
 [X+"ewma.hpp",X+"time.hpp"],[("tick and decay arithmetic","cxxmetrics/ewma.hpp tick"),("smoothing factor","cxxmetrics/ewma.hpp get_alpha")],
 ["rate readings and snapshots under a controlled clock"])
p("C14","Reading a metric never disturbs it",
 "Reading a metric through read-only access (rate, mean, value, count, snapshot, copying, comparing) any number of times at any moments leaves all of its later behaviour identical to a twin that was never read, and a read-only reading equals what an ordinary reading at that instant would return. Two read-only readings at the same instant give the same answer.",
 ["histories"],"every history of updates and clock movements with reads inserted at arbitrary points, for every metric and reservoir type",
 "Tests read only where they assert; a read that perturbs state shows only in a differential run against an unread twin.",
 [X+"ewma.hpp",X+"meter.hpp",X+"timer.hpp",X+"histogram.hpp",X+"counter.hpp",X+"gauge.hpp"],[("non-writing tick","cxxmetrics/ewma.hpp tick<false>"),("const snapshot paths","cxxmetrics/meter.hpp, timer.hpp, histogram.hpp")],
 ["readings of the read metric and of its unread twin"])
p("C15","Meters report the lifetime mean and one rate per window",
 "A meter's mean is the sum of all its marks divided by the number of rate intervals, fractions included, elapsed since the first mark (the plain sum while no time has elapsed), and its rate for each window equals that of a stand-alone moving average with that window and interval fed the same marks at the same times. Its snapshot contains the mean and exactly one entry per distinct window, keyed by that window's length, whatever order or repetition the windows were declared in.",
 ["histories","inputs","configurations"],"every sequence of marks, readings and clock movements, over many window lists and intervals",
 "Tests drive two or three fixed sequences; mixing up windows, totals or start time needs irregular histories and several configurations.",
 [X+"meter.hpp",X+"ewma.hpp",X+"meta.hpp"],[("per-window averages","cxxmetrics/meter.hpp rates_holder"),("start and total","cxxmetrics/meter.hpp _meter_impl")],
 ["mean, rate, snapshot"])
p("C16","Timers log each timed operation exactly once",
 "A timer logs every non-zero duration given to it exactly once, in its count, in its duration sample and in its rates, and ignores zero durations. A scoped timer logs the time from its construction or last reset to its destruction once, even after being moved and unless it was cleared; timing a callable logs the time it took once, returns exactly what the callable returned, and on an exception lets it through unchanged and logs nothing unless asked to include failures.",
 ["histories","inputs"],"every sequence of updates, scoped timers (nested, moved, cleared, reset), timed calls that return or throw, and clock movements, over clock and reservoir types",
 "Tests sleep for real and check loose bounds on one or two timings; the exact accounting over moves, resets, clears and exceptions is not covered.",
 [X+"timer.hpp",X+"histogram.hpp",X+"meter.hpp"],[("update fan-out","cxxmetrics/timer.hpp update"),("scope guard","cxxmetrics/timer.hpp scoped_timer_t"),("callable timing","cxxmetrics/timer.hpp time")],
 ["count, snapshot, rates, results and exceptions"])
p("C17","Value arithmetic is numerically correct",
 "Adding, subtracting, multiplying, dividing and negating metric values gives the mathematically expected number in the wider of the two operand types, whichever operand is on the left and whether written as a binary operator or a compound assignment; dividing by zero gives zero; complementing an integer turns over every bit of its type. Durations of one unit add, subtract, scale by integers and negate as durations, adding two text values concatenates them, and no operation changes its operands other than the assigned one.",
 ["inputs"],"every pair of values of every integer, floating-point and duration type for which the exact result is representable in the wider type, and text values",
 "Tests do not exercise value arithmetic directly beyond small same-type sums; width, signedness and operand-order mistakes depend on the exact pair of types and magnitudes.",
 [X+"metric_value.hpp"],[("type promotion by score","cxxmetrics/metric_value.hpp variant_data_holder add/multiply/divide"),("per-type operations","cxxmetrics/metric_value.hpp *_variant_data")],
 ["results of operators on metric values"])
p("C18","Values order, compare and convert consistently",
 "Comparing numeric values agrees with comparing the numbers they hold, whatever their types and magnitudes, so that exactly one of less, equal and greater holds, all six operators agree, swapping operands mirrors the result and sorting yields numeric order; text values compare with each other as text, with numbers as the number they spell or else after all of them, and durations (of whole nanoseconds) as lengths of time. Converting a value back to the type it came from returns it unchanged, numeric text converts to the number it spells, and equal numbers, equal durations, equal texts, and a number and a text that spells it, hash alike.",
 ["inputs"],"every pair and triple of values over all integer, floating-point, duration and text types including extremes, and every conversion target that can represent the value",
 "Tests compare a few small equal-typed values; truncation in a comparison needs operands whose difference is huge or whose types differ.",
 [X+"metric_value.hpp"],[("three-way comparison","cxxmetrics/metric_value.hpp compare"),("conversions","cxxmetrics/metric_value.hpp to_integral/to_float/to_nanos/to_string")],
 ["comparison operators, conversions, hashes"])
p("C19","Paths and tag sets are sound keys",
 "Metric paths form a monoid under concatenation (associative, with the empty path as identity on either side, however the operands are written), are equal exactly when their component sequences are, and join to those components separated by the delimiter. Tag sets are equal exactly when they hold the same names with equal values, whatever order they were built in, and equal paths or equal tag sets always hash alike and hence find each other in hashed containers.",
 ["inputs"],"every list of path components (including empty ones, separators and arbitrary bytes), every way of building a path, every set of tags in every insertion order, copy and container history",
 "Tests build a few literal paths and two-tag collections; order dependence of hashes and identity cases appear only for particular sizes and orders.",
 [X+"metric_path.hpp",X+"tag_collection.hpp"],[("concatenation and join","cxxmetrics/metric_path.hpp"),("equality and hash","cxxmetrics/tag_collection.hpp, cxxmetrics/metric_path.hpp")],
 ["equality, hash, join, iteration"])
p("C20","Gauges report the current value of their source",
 "A gauge always reports the latest state of its source: the last value set on it, the current result of its function, or the present content of the variable it refers to, and its snapshot carries that value at that moment and does not follow later changes. A gauge declared to sum combines across tag sets as a sum and one declared to average as a mean, for every kind of source.",
 ["histories","inputs","configurations"],"every sequence of source changes, sets, copies, assignments, reads and aggregations over value types, the four source kinds and both aggregation modes",
 "Tests read each gauge kind once or twice with the default aggregation; stale reads and lost aggregation modes depend on kind, mode and history.",
 [X+"gauge.hpp",X+"snapshots.hpp",X+"metrics_registry.hpp"],[("source kinds","cxxmetrics/gauge.hpp primitive/functional/referential_gauge"),("aggregation choice","cxxmetrics/gauge.hpp snapshot_type")],
 ["get, snapshot, aggregate"])
p("C21","Publish options and attached data are retained and resolved correctly",
 "Every publish option set for a registry or a metric is reported back exactly as given through any construction, move or reassignment of the option objects, and the options effective for a metric are its own if it was given any, otherwise the registry-wide ones if set, otherwise the defaults; setting options for an unregistered path does nothing. Publisher data attached to a registry or metric is created once from the first arguments, is the same object on every later access, is kept apart by type, metric and level, and asking for data of an unregistered path yields nothing.",
 ["histories","inputs","configurations"],"every combination of option values through every constructor, and every sequence of option settings, data accesses and registrations over several metrics and data types",
 "Tests set one or two options and read them once; overrides, replacement order and each constructor's forwarding are not covered.",
 [X+"publisher.hpp",X+"publisher_impl.hpp",X+"metrics_registry.hpp"],[("option classes","cxxmetrics/publisher.hpp"),("resolution","cxxmetrics/publisher_impl.hpp effective_options"),("get-or-create data","cxxmetrics/metrics_registry.hpp get_publish_data/get_or_create_publish_data")],
 ["option getters, data identity and content"])
p("C22","Prometheus output is well formed and labels round-trip",
 "Whatever the metric paths, tag names and tag values, the published text follows the Prometheus text format: every metric and label name is legal, every line is a comment or a complete sample, type and help comments precede their samples and appear once per metric, and each label value decodes to exactly the tag's text. A metric with an empty path is left out without affecting the others.",
 ["inputs","histories"],"every registry content with arbitrary bytes in path components, tag names and tag values, over all metric kinds holding numbers",
 "Tests publish alphanumeric names with at most a quote in a value; quoting, escaping and name rules fail only for particular characters and positions.",
 [Q+"snapshot_writer.hpp",Q+"prometheus_publisher.hpp",Q+"prometheus_timer.hpp",Q+"prometheus_histogram.hpp",Q+"prometheus_meter.hpp",Q+"prometheus_counter.hpp",Q+"prometheus_gauge.hpp"],[("name and label formatting","cxxmetrics_prometheus/snapshot_writer.hpp format_name/format_tags/format_tag_value"),("headers","cxxmetrics_prometheus/*.hpp write_header")],
 ["the text written by the publisher, parsed by an independent strict parser"])
p("C23","Prometheus output carries exactly the published values",
 "The publisher writes, for every metric and tag set, exactly the series its kind and effective options call for and no others: the value of counters and gauges; the lifetime mean and one series per window of meters; the mean, each selected quantile and, unless disabled, the count of histograms and timers, and a timer's rates when enabled. Each number is the metric's own value times the effective scale factor if one is set (times in microseconds), to the printed precision, and no two series of one metric are the same. None of it depends on the formatting flags, precision or locale the stream was left with, and publishing leaves those as they were.",
 ["histories","inputs","configurations"],"every registry content, recorded data and clock history, with every combination of registry-wide and per-metric options, over all metric kinds holding numbers and all window lists",
 "Tests compare a few complete outputs for fixed data and mostly default options; the mapping must hold for every option combination, window and value.",
 [Q+"snapshot_writer.hpp",Q+"prometheus_publisher.hpp",Q+"prometheus_timer.hpp",Q+"prometheus_histogram.hpp",Q+"prometheus_meter.hpp",Q+"prometheus_counter.hpp",Q+"prometheus_gauge.hpp"],[("scaling","cxxmetrics_prometheus/snapshot_writer.hpp scale_value"),("series per kind","cxxmetrics_prometheus/prometheus_*.hpp write"),("window names","cxxmetrics_prometheus/snapshot_writer.hpp format_window")],
 ["the text written by the publisher, compared with a reference renderer fed from the metrics' own snapshots"])
p("C24","The lock-free stack is a stack, also under concurrency",
 "Used by one thread, the internal stack returns elements in exactly last-in-first-out order, reports emptiness correctly and destroys and deallocates every element exactly once, through the allocator it was given. Used by several threads, operations behave as if they took place one at a time: every element pushed is popped at most once, none is lost or invented, and what remains plus what was popped is exactly what was pushed.",
 ["schedules","histories"],"every sequence of push/emplace/pop/move/destroy operations sequentially, and every interleaving of 2-4 threads at single-access granularity (with popped nodes kept allocated until all threads are done)",
 "Tests push and pop a few elements in one thread or race real threads a few times; a lost or duplicated node needs a particular interleaving.",
 [X+"internal/atomic_lifo.hpp"],[("compare-and-swap on the head","cxxmetrics/internal/atomic_lifo.hpp push/pop"),("node ownership","cxxmetrics/internal/atomic_lifo.hpp pointer_type/deallocator")],
 ["popped values, emptiness, construction/destruction and allocation counts"])
p("C25","Reservoirs stay sound under concurrent recording",
 "While threads record into a reservoir or histogram and others take snapshots or copies, also while it first fills up, no snapshot exceeds the capacity or contains a value that was never recorded (or one more often than it was recorded), and values are never torn. Once all threads are done, a simple or sliding-window reservoir that received no more than its capacity holds exactly the recorded values, one that received more is full of recorded values, and every reservoir accepts further recordings as usual.",
 ["schedules","histories"],"every interleaving of 2-4 threads at the granularity of individual memory accesses over small programs of recordings, snapshots and copies, starting from empty, partly filled and full reservoirs",
 "The threaded reservoir tests sample a few real schedules and check sizes only.",
 [X+"ringbuf.hpp",X+"simple_reservoir.hpp",X+"sliding_window.hpp",X+"uniform_reservoir.hpp",X+"histogram.hpp"],[("ticketed slots and monotone size","cxxmetrics/ringbuf.hpp push"),("atomic slots","cxxmetrics/ringbuf.hpp data_")],
 ["snapshots during and after the concurrent phase"])
p("C26","Window lists, time units and quantile literals mean what they say",
 "Lists of windows or quantiles are reduced at compile time to their distinct members in ascending order, whatever their order, repetition or length, and every window that was listed (and no other) can be read back. Time unit literals and helpers denote exact lengths of time, so period arithmetic and comparison with durations are exact, and a quantile written as a literal or constant denotes that percentile to within the precision of its encoding.",
 ["programs","inputs"],"generated programs with lists of 0 to dozens of windows or quantiles in arbitrary order with repetitions, and all unit/quantile values",
 "Tests instantiate a few lists; the claim is about every program that lists windows or quantiles.",
 [X+"meta.hpp",X+"time.hpp",X+"snapshots.hpp",X+"publisher.hpp"],[("compile-time sort and unique","cxxmetrics/meta.hpp"),("unit helpers","cxxmetrics/time.hpp"),("quantile encoding","cxxmetrics/snapshots.hpp quantile")],
 ["compile-time types, literals and snapshot keys of generated programs"])
p("C27","A histogram counts everything and samples through its reservoir",
 "A histogram's count equals the number of values ever recorded in it, however few its reservoir retains, and its sample is exactly what its reservoir would hold after the same recordings, including one that started pre-loaded or with custom settings. Snapshots carry both, are unaffected by later recordings, and pass unchanged through moves.",
 ["histories","inputs"],"every recording sequence and every reservoir kind, capacity, element type and initial reservoir content",
 "Tests record a fixed range into the default reservoir; the coupling of count and sample must hold beyond capacity, after expiry and for every reservoir.",
 [X+"histogram.hpp",X+"counter.hpp",X+"simple_reservoir.hpp",X+"sliding_window.hpp",X+"uniform_reservoir.hpp"],[("count and reservoir updated together","cxxmetrics/histogram.hpp update"),("snapshot pairing","cxxmetrics/histogram.hpp snapshot")],
 ["count and snapshot"])
p("C28","Operations always finish, wherever other threads are suspended",
 "Recording into, reading and copying the lock-free metrics, reservoirs and the internal stack never waits for another thread: at whatever points other threads are suspended, for however long, each operation of the threads that do run ends within a bounded number of their own steps, and the suspended ones can finish when they are resumed.",
 ["schedules","fault_sequences"],"every schedule of 2-4 threads at single-access granularity, unfair ones included, with any threads but one suspended at any of their accesses",
 "Tests run on a fair scheduler and never suspend a thread in the middle of an operation, so a wait for another thread goes unnoticed.",
 [X+"counter.hpp",X+"ringbuf.hpp",X+"ewma.hpp",X+"uniform_reservoir.hpp",X+"histogram.hpp",X+"meter.hpp",X+"timer.hpp",X+"gauge.hpp",X+"internal/atomic_lifo.hpp"],[("lock-free retry loops","cxxmetrics/ringbuf.hpp push, cxxmetrics/ewma.hpp atomic_add"),("one thread ends an interval","cxxmetrics/ewma.hpp tick")],
 ["termination of the operations"])
p("C29","The uniform reservoir favours none of its values",
 "Once full, a uniform reservoir lets a further recording displace any of the values it holds with the same probability, whatever place a value has in its storage and however long ago it was recorded, over the recordings into one reservoir as well as over reservoirs created at different times.",
 ["inputs","histories"],"every capacity, number of recordings and random seed, as far as relative frequencies tell",
 "Tests look at single runs; a bias of the replacement shows only in frequencies over many recordings and seeds.",
 [X+"uniform_reservoir.hpp"],[("random replacement","cxxmetrics/uniform_reservoir.hpp update"),("seeding","cxxmetrics/uniform_reservoir.hpp generate_seed")],
 ["relative frequencies of displaced values over many recordings and seeds"])
p("C30","Registries are independent and work over any repository",
 "A registry behaves the same over every repository that offers what the default one does: it settles types, instances and options through it, asks and registers under the tags the repository makes of the caller's, and hands it the arguments it was constructed with. Registries share nothing but the metrics registered in several of them, which live as long as anyone holds them, and give back all they took when they end. Publishers see through any of them the same metrics by path and by visit, and learn a metric's class name whatever way the type's full name is spelt.",
 ["histories","inputs"],"every history of several registries, repository and allocator, and every spelling of type names",
 "Tests use one registry at a time over the default repository and one allocator; sharing, ending and foreign repositories never occur.",
 [X+"metrics_registry.hpp",X+"publisher.hpp",X+"publisher_impl.hpp"],[("the repository behind the registry","cxxmetrics/metrics_registry.hpp metrics_registry"),("default repository and its allocator","cxxmetrics/metrics_registry.hpp basic_default_repository"),("class names","cxxmetrics/publisher.hpp metric_type")],
 ["metrics returned, visited and published","lifetime of metrics","allocations given back"])
p("C31","Failures leave no trace",
 "When a call of a registry or a publisher fails because memory runs out, or because a reservoir, attached data or a stream of the caller fails, everything registered, attached and configured is as it was, nothing is locked or leaked, an object that was to be registered stays its caller's, and the same call succeeds later with its own arguments; a failed request may at most have settled the type of its path. Recording into counters, averages, meters, histograms, timers and numeric gauges, and timing calls, goes on without any memory to be had.",
 ["fault_sequences","histories"],"every history, every allocation or step of a call at which it fails, once or from there on",
 "No test makes anything fail; what an exception leaves behind depends on the exact step at which it is thrown.",
 [X+"metrics_registry.hpp",X+"publisher_impl.hpp",X+"histogram.hpp",X+"timer.hpp",X+"meter.hpp","cxxmetrics_prometheus/prometheus_publisher.hpp"],[("insertion after construction","cxxmetrics/metrics_registry.hpp registered_metric::child, basic_default_repository::get_or_add"),("attached data","cxxmetrics/metrics_registry.hpp get_or_create_publish_data"),("recordings don't throw","cxxmetrics/timer.hpp update, cxxmetrics/histogram.hpp update")],
 ["registry contents, data and options after a failed call","use counts and live objects","allocations while recording"])
p("C32","Headers work alone, in any order and from any number of translation units",
 "Every public header can be included alone, in any order with others, from any number of translation units of one program, from the source tree as well as from where the library's build installs it, under every supported language level and compiler. The program links, uses during static initialisation and from main see the same registry and metrics, and registries and publishers can be handed around, held and compared like any other object.",
 ["inputs","configurations"],"every program of several translation units: headers, their order, language level, compiler, uses and when they run",
 "Each test program includes headers in one fixed order after the test framework's, in one translation unit per metric; missing includes and definitions that collide never show.",
 [X+"metrics_registry.hpp",X+"snapshots.hpp",X+"metric_value.hpp",X+"gauge.hpp",X+"ringbuf.hpp",X+"pool.hpp",X+"time.hpp","cxxmetrics_prometheus/snapshot_writer.hpp"],[("includes","cxxmetrics/*.hpp"),("inline definitions","cxxmetrics/snapshots.hpp, cxxmetrics/metric_path.hpp"),("installation","cxxmetrics/CMakeLists.txt")],
 ["programs compile, link and yield what their uses yield alone"])
p("C33","Pooled objects live exactly as long as their handles",
 "An object allocated from a pool is one copy of what it was allocated from, in storage no other living object has, unmoved and unchanged until its last handle lets go of it, and destroyed exactly then; copying, moving, assigning, exchanging and conditionally exchanging handles, also ones several threads share, each happen in one step. Storage of released objects serves again, is never lost whatever threads allocate and release at once, and goes back to the allocator with the pool, each block once.",
 ["histories","schedules"],"every history of allocations and handle operations, every schedule of threads that share pools and handles",
 "Tests race a few threads without control; reuse while another thread is inside an allocation needs one particular interleaving.",
 [X+"pool.hpp"],[("reuse","cxxmetrics/pool.hpp allocate, finish"),("reference counts","cxxmetrics/pool.hpp add_reference, remove_reference"),("handles","cxxmetrics/pool.hpp pool_ptr")],
 ["objects alive and where","what handles hold after each operation (linearizability)","blocks taken and given back"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
import re
for d in P:
    n=len(re.findall(r'[.](\s|$)',d["statement"]))
    if n>3: print(d["id"],"sentences",n)
    jsonschema=None
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for d in P: jsonschema.validate(d,s)
    print("valid",len(P))
except ImportError: print("nojs")
