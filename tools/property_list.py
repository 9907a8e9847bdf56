H, I, CF = "histories", "inputs", "configurations"
OBS = "notifications recorded by observers, callbacks and teardowns attached through the public API"

prop("O01", "Transforming operators apply their function to every signal, in order",
 "For every sequence of source notifications and every pipeline, the transforming operators (map, map_into, map_error, filter, filter_map, enumerate, lift_option, lift_result, identity, optional operators) deliver exactly the image of the values that were fed in, in the same order, at the moment they were fed in. Errors and completion pass through once and end the subscription; indices count per subscription.",
 [I, H, "programs"], "every notification sequence, every composition of these operators with others (piped, composed, nested, type erased), several subscriptions at once",
 "the unit tests feed two or three values through one operator; they never compose it with others, subscribe several times, or vary the interleaving of feeding, unsubscribing and ending",
 op("map", "map_into", "map_error", "filter", "filter_map", "enumerate", "lift_option", "lift_result", "identity", "composite"),
 [("per-operator subscribers", C + "rx_core_operator_*/src/*_subscriber.rs")], [OBS])

prop("O02", "Selecting operators deliver exactly the selected signals and end when they should",
 "For every sequence of source notifications, take, skip, first, find, find_index, element_at and is_empty deliver exactly the prefix, suffix or element they name, complete at exactly that notification, and end with their documented error (or default) when the source completes before it. After that they deliver nothing more, and the source subscription is released.",
 [I, H, "programs"], "every notification sequence and every parameter (0 and beyond the length included), every surrounding pipeline",
 "tests use one index and one short sequence per operator; boundary counts, re-subscription and the interplay with operators that swallow errors are not reached",
 op("take", "skip", "first", "find", "find_index", "element_at", "is_empty"),
 [("counters and closed flags", C + "rx_core_operator_take/src/take_subscriber.rs")], [OBS])

prop("O03", "Accumulating operators reflect every signal since the subscription, once",
 "For every sequence of source notifications, scan and reduce fold every value exactly once in order starting from the seed, count counts them, pairwise delivers every consecutive pair, buffer_count delivers consecutive full buffers and the rest on completion, start_with and end_with add exactly their values at the ends. The state belongs to one subscription: other subscriptions of the same pipeline do not influence it.",
 [I, H, "programs"], "every notification sequence, buffer size and seed, several concurrent subscriptions of the same pipeline",
 "tests accumulate three or four numbers in a single subscription; leakage between subscriptions, leftovers on error and position dependent mistakes need other histories",
 op("scan", "reduce", "count", "pairwise", "buffer_count", "start_with", "end_with"),
 [("accumulator state in the subscriber", C + "rx_core_operator_scan/src/scan_subscriber.rs")], [OBS])

prop("O04", "Errors are carried, converted and materialized without loss or duplication",
 "For every sequence of source notifications, converting errors to values, materializing and dematerializing notifications, guarding against errors and lifting results keep every notification exactly once, in order; materialize followed by dematerialize is the identity. Nothing is delivered after an error or a completion, whichever operator turned it into what.",
 [I, H, "programs"], "every notification sequence through every composition of error handling operators, including ones that keep downstream open after an error",
 "tests check a single error through a single operator; what happens to notifications after an error was swallowed downstream is not observed",
 op("into_result", "lift_result", "materialize", "dematerialize", "error_boundary", "map_error", "map_never"),
 [("conversion subscribers", C + "rx_core_operator_into_result/src/into_result_subscriber.rs")], [OBS])

prop("O05", "catch and retry continue with exactly one replacement source after an error",
 "For every sequence of source notifications, catch delivers the source's values until its first error, then only and exactly the notifications of the recovery observable chosen by that error; without an error it changes nothing. retry(n) subscribes to the source again after each of the first n errors, never after a completion, delivers every attempt's values in order and the last attempt's error only when it gives up. The attempt that is current stays subscribed until it ends; failed and abandoned sources deliver nothing more and are released: with the retry, or with the end of the whole for catch.",
 [I, H, "programs"], "every sequence of attempts that fail during or after their subscription, complete, close or stay silent, every retry limit, every pipeline below, unsubscribing at any point",
 "tests script two or three attempts that all fail the same way; which attempt is alive, released or still able to emit depends on the history of failures",
 op("catch", "retry"),
 [("replacing the source", C + "rx_core_operator_catch/src/catch_subscriber.rs"), ("attempts", C + "rx_core_operator_retry/src/retry_subscriber.rs")], [OBS])

prop("O06", "Side effect operators observe exactly what passes and change nothing",
 "For every sequence of source notifications, tap, tap_next and on_subscribe callbacks run exactly once per notification that passes their position, before it is delivered further, and do not alter the stream; on_next alters it only as its callback decides. A finalizer runs exactly once per subscription, when it ends for whatever reason.",
 [I, H, "programs"], "every notification sequence, position of the operator, way of ending the subscription (completion, error, unsubscribe, drop, early end downstream)",
 "tests run one callback in one pipeline; exactly-once finalization over all ways to end a subscription at all points is a statement over histories",
 op("tap", "tap_next", "on_next", "on_subscribe", "finalize"),
 [("teardown registration", C + "rx_core_operator_finalize/src"), ("callbacks", C + "rx_core_operator_tap/src/tap_subscriber.rs")], [OBS])

prop("U01", "A publish subject multicasts every signal to exactly the observers subscribed at that time",
 "Every value, error or completion fed into a PublishSubject reaches each observer that is subscribed at that time exactly once, in the order it was fed, and no others: nothing fed earlier, nothing after its own unsubscribe. After the subject completed or errored nothing else is delivered, and a late subscriber gets the terminal notification. Closing releases every subscription. Values fed from several threads reach every observer exactly once, in one common order.",
 [H, "schedules"], "every interleaving of subscribe, next, error, complete, unsubscribe and drop over any number of observers and subject clones, and values fed by several threads at once",
 "tests follow one fixed script with one or two observers; membership at every point of a history of subscribes and unsubscribes is not enumerable by examples",
 [C + "rx_core_subject_publish/src", C + "rx_core_common/src"],
 [("multicast state and deferred notifications", C + "rx_core_subject_publish/src"), ("shared subscriber", C + "rx_core_common/src")], [OBS])

prop("U02", "Subjects that store values give a late subscriber exactly what they promise",
 "At any point of any history a new subscriber of a BehaviorSubject first gets the current value, of a ReplaySubject the last N values in order, of an AsyncSubject nothing until completion and then exactly the reduced last value; all followed by what any subscriber gets from then on. Values fed after the subject finished or was unsubscribed change nothing. A ProvenanceSubject tags every value with its origin, and filtered views get exactly the values of that origin.",
 [H], "every history of subscribes, values, terminals, unsubscribes and accessor calls, every capacity (0 included)",
 "tests subscribe at one or two points of one script; eviction, feeding after the end and subscribing after each possible end need all histories",
 [C + "rx_core_subject_behavior/src", C + "rx_core_subject_replay/src", C + "rx_core_subject_async/src", C + "rx_core_subject_provenance/src"],
 [("stored value and replay on subscribe", C + "rx_core_subject_*/src")], [OBS])

prop("U03", "Subjects can be used from inside their own notifications",
 "An observer, callback or teardown that feeds, subscribes to, completes, errors or unsubscribes the subject it is being notified by neither deadlocks nor panics nor loses anything: the signals it sends are delivered to everyone after the current one, in the order they were sent; whoever it unsubscribes gets nothing more.",
 [H, "programs"], "every kind of reaction at every kind of notification, on every subject kind, directly or through shared and type erased subscriptions, combined with every history of ordinary calls",
 "tests react once in one place; a deadlock or a lost notification depends on which call is made inside which callback while which others are pending",
 [C + "rx_core_subject_publish/src", C + "rx_core_common/src/subscribers", C + "rx_core_common/src/subscriptions"],
 [("deferred notification queue", C + "rx_core_subject_publish/src"), ("SharedSubscription", C + "rx_core_common/src/subscriptions")], [OBS],
 level_note="Randomised, model-based exploration; reactions are bounded to five firings per case, below the recursion limit at which the subject panics by design.")

prop("H01", "merge and concat deliver every inner value and honour the concurrency limit",
 "Merging operators subscribe to inner observables in arrival order with never more than the configured number at a time (concat: one), start the next queued one when a slot becomes free, deliver every value of every active inner observable in the order it was emitted, complete exactly when the outer and all inner observables completed, and end with the first error. Unsubscribing releases all inner subscriptions and starts nothing.",
 [H, CF], "every interleaving of outer and inner notifications, synchronous, asynchronous, never ending and failing inner observables, every concurrency limit, merging of fixed inputs included",
 "tests use two or three inner observables in one interleaving; the queue, the limit and completion depend on the order of all events",
 op("merge_all", "merge_map", "concat_all", "concat_map") + ob("merge", "concat") + [C + "rx_core_subscriber_higher_order/src", C + "rx_core_subscriber_higher_order_concurrent/src"],
 [("concurrent subscriber", C + "rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs")], [OBS])

prop("H02", "switch keeps exactly the latest inner observable subscribed",
 "switch_all and switch_map subscribe to each inner observable when it arrives after unsubscribing the previous one, deliver only values of the latest one, complete when both the outer and the latest inner observable completed, and end with the first error. Ending in any way releases both.",
 [H], "every interleaving of outer and inner notifications and every way to end",
 "tests switch once or twice; stale inner values, the order of release and subscription and completion depend on the interleaving",
 op("switch_all", "switch_map") + [C + "rx_core_subscriber_higher_order_switch/src"], [("switch subscriber", C + "rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs")], [OBS])

prop("H03", "exhaust ignores new inner observables while one is active",
 "exhaust_all and exhaust_map subscribe to an inner observable only when none is active and never to the ones that arrived in between, deliver all of its values, complete when the outer and the active inner observable completed, and end with the first error. Ending in any way releases both.",
 [H], "every interleaving of outer and inner notifications and every way to end",
 "tests ignore one inner observable in one script; which arrivals are ignored depends on the interleaving",
 op("exhaust_all", "exhaust_map") + [C + "rx_core_subscriber_higher_order_exhaust/src"], [("exhaust subscriber", C + "rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs")], [OBS])

COMB = [C + "rx_core_observable_combine_latest/src", C + "rx_core_observable_combine_changes/src", C + "rx_core_observable_zip/src", C + "rx_core_observable_join/src", C + "rx_core_operator_with_latest_from/src", C + "rx_core_notification_variadics/src", C + "rx_core_notification_store/src"]
prop("C01", "combine_latest and combine_changes emit the right pair on every change",
 "After both sources emitted once, combine_latest emits the pair of latest values at every further value of either source; combine_changes emits at every value, marking which side changed. They complete when both sources completed (or as soon as nothing can be emitted any more), end with the first error and release both sources at the end.",
 [H], "every interleaving of the two sources' notifications and every way to end, several subscriptions",
 "tests interleave three or four notifications one way", COMB[0:2] + [COMB[5]],
 [("either notification combination", COMB[5])], [OBS])
prop("C02", "zip pairs the n-th values and loses none",
 "zip emits exactly the pairs of n-th values of its sources in order, each as soon as both exist. With a bounded queue the configured overflow behaviour decides which values are dropped. It completes as soon as no further pair is possible, ends with the first error and releases both sources at the end.",
 [H, CF], "every interleaving of the two sources' notifications, every queue limit and overflow behaviour, every way to end",
 "tests interleave a few notifications one way; completion with leftovers and overflow depend on the counts on both sides",
 [COMB[2], COMB[5], COMB[6]], [("notification queues", COMB[6])], [OBS])
prop("C03", "join emits the last values once when all sources completed",
 "join emits exactly one pair, the last value of each source, when both have completed, and then completes; nothing is emitted if one of them completed without a value. It ends with the first error and releases both sources at the end.",
 [H], "every interleaving of the two sources' notifications and every way to end",
 "tests complete the sources in one order", [COMB[3], COMB[5]], [("join subscriber", COMB[3])], [OBS])
prop("C04", "with_latest_from pairs every source value with the latest other value",
 "Every value of the source is emitted with the most recent value of the other observable, if it has one, and is dropped otherwise; values of the other observable alone emit nothing. The source's completion and either one's error end it; the other one's completion does not. Both are released at the end.",
 [H], "every interleaving of the two sources' notifications and every way to end",
 "tests interleave a few notifications one way", [COMB[4]], [("with_latest_from subscriber", COMB[4])], [OBS])

TIMED = "ticks of any length (0 included), notifications, unsubscribing and re-entrant reactions of the observer in any order"
prop("T01", "The ticking executor runs every scheduled work when it is due, and only then",
 "Whatever is scheduled, cancelled, invoked and ticked in whatever order, also by the works themselves: immediate work runs once at the next tick (in the same tick if scheduled by a work), delayed work once at the first tick at which its delay since scheduling has elapsed, repeated work once per elapsed interval but at most its limit per tick, continuous work once per tick, invoked work only when invoked. Works run in the order they were scheduled. Cancelled work never runs again, and cancelling one work does not affect others; finished work is released.",
 [H], "every sequence of scheduling, cancelling, invoking and ticking, with works that do the same while they run",
 "tests schedule one or two works with round numbers; overshooting ticks, ids shared by several works and works that cancel or schedule others are not exercised together",
 [C + "rx_core_scheduler_ticking/src", C + "rx_core_common/src/scheduling"],
 [("executor", C + "rx_core_scheduler_ticking/src")], ["executions of works recorded by the works themselves, MockExecutor::is_empty"])

prop("T02", "interval, timer and iterator_on_tick emit exactly when they are due",
 "For every sequence of ticks, interval emits 0, 1, 2... once for every elapsed period (at most max_emissions_per_tick per tick, the rest is dropped), timer emits once when its duration has elapsed and completes, and an iterator on tick emits one item at every nth tick and completes together with its last item. Starting on subscribe adds exactly the first emission. Each subscription counts for itself. Once ended or unsubscribed, from anywhere including its own notifications, nothing more is emitted and no work stays in the executor.",
 [H, CF], TIMED, "tests tick in round steps without ever unsubscribing in between or from within a notification; empty iterators, zero limits and overshooting ticks are left out",
 ob("interval", "timer", "iterator_on_tick"), [("interval work", C + "rx_core_observable_interval/src/interval_subscription.rs")], [OBS, "MockExecutor::is_empty"])

prop("T03", "delay, observe_on and subscribe_on shift signals in time without losing any",
 "For every sequence of source notifications and ticks, delay delivers every value at the first tick at which its delay has elapsed, observe_on at the next tick, in their order and exactly once; completion and the end of the source follow after the last pending value, an error is immediate and drops what is pending. subscribe_on subscribes to the source exactly once, at the first tick after its delay, unless it was unsubscribed before. Ending downstream drops what is pending; no work stays in the executor.",
 [H, CF], TIMED, "tests delay one or two values and complete politely; ends that arrive while values are pending, or from within a delivery, need histories",
 op("delay", "observe_on", "subscribe_on"), [("pending counter", C + "rx_core_operator_delay/src/delay_subscriber.rs")], [OBS, "MockExecutor::is_empty"])

prop("T04", "debounce_time and throttle_time let exactly the right values through",
 "For every sequence of source notifications and ticks, debounce_time delivers a value at the first tick at which the source has been silent for its duration, and only the latest value. throttle_time delivers the first value of a window immediately (if leading) and the last value observed during it when the window is over, even if a tick overshoots it (if trailing), which starts another window. Completion and the end of the source wait for a pending value, an error is immediate and drops it. Once ended nothing is delivered and no work stays in the executor.",
 [H, CF], TIMED, "tests feed a handful of values at round times; overshooting ticks, values observed during a delivery and ends with a pending value are not combined",
 op("debounce_time", "throttle_time"), [("pending value", C + "rx_core_operator_debounce_time/src/debounce_time_subscriber.rs"), ("window", C + "rx_core_operator_throttle_time/src/throttle_time_subscriber.rs")], [OBS, "MockExecutor::is_empty"])

prop("T05", "fallback_when_silent and adsr emit exactly the due value at every tick",
 "For every sequence of source notifications and ticks, fallback_when_silent emits exactly once per tick: the latest value observed since the previous tick, or the fallback. adsr emits at every tick the phase, elapsed time, value and phase transitions that its envelope defines for the time since the activation (attack, decay, sustain) or since the deactivation (release, starting at the value it had), and stays silent when inactive unless asked not to; changes of an inactive envelope apply from then on. Errors and completion are immediate. Once ended nothing is emitted and no work stays in the executor.",
 [H, CF], TIMED + "; every envelope, easing and option", "tests follow one activation with fixed steps; restarts, zero lengths, skipped phases and ends in the middle of a phase are not reached",
 op("fallback_when_silent", "adsr"), [("envelope state", C + "rx_core_operator_adsr/src/adsr/adsr_envelope_state.rs")], [OBS, "MockExecutor::is_empty"])

prop("K01", "A connectable or shared observable has one connection that all its subscribers and clones see",
 "Whatever is subscribed, unsubscribed, connected, disconnected, fed and cloned in whatever order, there is at most one subscription to the source at a time, and every clone sees the same one. connect() subscribes to the source if it is not connected, and returns the active connection otherwise; share connects with its first open subscriber and (if so configured) disconnects with the last. Everything the source emits while connected reaches exactly the subscribers of the connector in use, which is kept or replaced after a disconnect, a completion or an error exactly as configured. Disconnecting releases the source.",
 [H, CF], "every sequence of subscribe, connect, disconnect, feed, end and clone, every reset and refcount option, every kind of connector subject and of source (hot, retried, emitting or ending while it is being subscribed to)",
 "tests go through one connection with one option at a time; what is left of an earlier connection, and clones, only matter in longer histories",
 ob("connectable") + op("share"), [("connection state", C + "rx_core_observable_connectable/src/internal")], [OBS, "is_connected()"])

ANY = [C + "rx_core_common/src"]
prop("S01", "No observer is ever notified after its end, whatever the pipeline",
 "For every pipeline that can be assembled from the library's sources, operators, combinations and higher order operators, with whatever variant of subject, built in whatever style, and whatever happens to its sources (re-entrantly from within notifications included): each observer gets any number of values followed by at most one error or completion, never anything after that, and nothing after it was unsubscribed; its subscription reports being closed once it ended; nothing panics or blocks.",
 [H, "programs"], "every tree of operators and sources, every sequence of notifications, ticks, subscriptions, unsubscriptions and re-entrant reactions",
 "every operator is tested on its own, or with one neighbour; guards that only hold as long as the neighbour is polite fail in combinations",
 ANY + [C + "rx_core_subject_publish/src"], [("closed flags and deferred notifications", C + "rx_core_common/src/subscribers")], [OBS])
prop("S03", "When a subscription ends, everything upstream is released, once",
 "For every pipeline: when the subscription ended by completion, error or an unsubscribe, at whatever point of the history, every source that was subscribed to on its behalf, inner and replacement sources included, is released exactly once (its finalizers run), and no scheduled work remains in the executor.",
 [H, "programs"], "every tree of operators and sources, every history of notifications and ticks, every point and way to end",
 "tests check the release of one operator's source at one point; what an operator still holds when its neighbour ends first needs combinations",
 ANY + op("switch_map", "catch", "retry") + [C + "rx_core_subject_publish/src", C + "rx_core_subscriber_higher_order/src"], [("teardowns", C + "rx_core_common/src/subscriptions")], [OBS, "MockExecutor::is_empty"])
prop("S04", "A pipeline behaves the same however it is written and however often it is subscribed to",
 "For every pipeline, piping operators, composing them into one operator, nesting such compositions and erasing the type of any stage give the same notifications at the same time as the plain chain, and a subscription behaves exactly like the only subscription of a freshly built pipeline: no state is shared between subscriptions of one observable.",
 [H, "programs"], "every tree of operators and sources, every history, up to three subscriptions at different times",
 "tests build each operator in one style and subscribe once; differential comparison needs generated pipelines",
 ANY + op("composite", "identity"), [("operator composition", C + "rx_core_operator_composite/src")], [OBS])

CC = C + "rx_core_common/src/"
prop("S02", "Every teardown runs exactly once, when its subscription closes",
 "Whatever handles a subscription is reached by (shared clones, type erased, optional, owned data, the subscriptions of pipelines and subjects), in whatever order they are added to each other, cloned, wrapped, unsubscribed and dropped, from within teardowns and from several threads too: every teardown executes exactly once, at the moment the subscription it was added to closes, in the order of addition within one subscription, and immediately if it was added afterwards. Being closed is final, every handle sees it, and nothing of this deadlocks or panics.",
 [H, "programs", "schedules"], "every tree of subscriptions and handles, every history of adding, cloning, unsubscribing and dropping, teardowns that do any of these themselves, and several threads unsubscribing and adding at once",
 "tests add one or two teardowns to one subscription and unsubscribe once; a teardown that is lost, run twice or run while a lock is held depends on the history and on what the other teardowns do",
 [CC + "subscriptions", C + "rx_core_subscription_inert/src"],
 [("shared subscription", CC + "subscriptions/subscription_shared.rs"), ("teardown collection", CC + "subscriptions/subscription_data.rs")], [OBS],
 level_note="Randomised, model-based exploration; the threads are real ones (no controlled scheduler), nesting of teardowns is bounded by the recursion limit at which the library panics by design.")

prop("P01", "A plain source produces exactly its notifications, for every subscription, and nothing it was not asked for",
 "just, iterator, empty, never, throw, closed, create and deferred observables, reached directly or through type erased, optional, shared or weak wrappers, deliver to each subscriber exactly their notifications, in order, and end as they say. Producers and creators run exactly once per subscription. A source stops as soon as its destination is closed: an endless iterator under a destination that closes returns, having been asked for at most one item more than was delivered. Teardowns of the subscription run once and its handle reports what happened.",
 [I, H, "programs"], "every source, script and iterator (endless ones included), every nesting of wrappers, every kind of destination (closing itself after any number of values, closed from the beginning, plain closures), several subscriptions of one source and its clones",
 "tests subscribe once to each source with a destination that takes everything; early closing, wrappers and repeated subscriptions in combination are not reached",
 [C + f"rx_core_observable_{c}/src" for c in ("just", "iterator", "empty", "never", "throw", "closed", "create", "deferred")] + [CC + "observables", CC + "subscribers", C + "rx_core_observer_fn/src"],
 [("iteration that stops with its destination", C + "rx_core_observable_iterator/src"), ("creator", C + "rx_core_observable_deferred/src"), ("erased observable", CC + "observables")], [OBS])

prop("D01", "A destination behaves the same through every wrapper and handle",
 "Whatever tower of shared, locked, read-write locked, weak, boxed, type erased and optional wrappers stands around a destination, and through whichever handle or clone it is used: every notification reaches it exactly once, in the order sent (also those sent from within its own callbacks, or by others while it is locked), nothing reaches it after it closed, teardowns run exactly once when it closes or immediately afterwards, and every handle reports whether it is closed. A destination that panics inside a lock is unsubscribed and gets nothing more; a destination that is gone is closed.",
 [H, "programs", "faults"], "every tower of wrappers, every history of signals, locking, accessing, adding teardowns, dropping handles and strong references, reactions inside notifications and panics",
 "tests exercise each wrapper alone around a mock; forwarding mistakes that only show in a combination, while locked, re-entrantly or after a panic need generated towers and histories",
 [CC + "subscribers", CC + "upgradeable_observer.rs", CC + "observer.rs"],
 [("shared subscriber with deferred signals", CC + "subscribers/subscriber_shared.rs"), ("lock wrappers", CC + "subscribers/subscriber_arc_mutex.rs")], [OBS],
 level_note="Randomised, model-based exploration on one thread; what a SharedSubscriber or subject does after one of its destinations panicked is not claimed (it may defer for ever).")

B = "crates/rx_bevy_"
BN = "Randomised, model-based exploration of a real bevy App (updates, commands, observers and hooks included) on one thread; trusts the reference model in the harness and bevy itself."
prop("B01", "Event, message, resource and keyboard observables follow the world exactly",
 "Whatever happens to the world in whatever order, updates included: an event subscription delivers every event of its type triggered on its entity, immediately and exactly once, and completes when that entity despawns; a message subscription delivers every message written while it is open exactly once, in order; a resource subscription delivers at its tick the resource's value if it was added or mutably accessed since the last one, as its options ask for, and nothing otherwise; a keyboard subscription delivers each frame exactly the keys that were just pressed, are pressed or were just released, as its options select. Once ended, from anywhere including its own callbacks, nothing more is delivered, it is released once, and everything it added to the world and the executor is gone.",
 [H, CF], "every sequence of world changes, updates, subscriptions, unsubscriptions and despawns, every option, any pipeline of operators behind it, reactions inside callbacks",
 "tests run one subscription over two or three updates; changes in the frame of the subscription, of the end, or made from within callbacks, need histories",
 [B + "observable_event/src", B + "observable_message/src", B + "observable_resource/src", B + "observable_keyboard/src", B + "common/src/scheduler"],
 [("event forwarding", B + "observable_event/src/event_subscription.rs"), ("resource polling", B + "observable_resource/src/resource_subscription.rs"), ("executor", B + "common/src/scheduler/rx_bevy_executor.rs")],
 [OBS, "entity counts and executors of the world"], crate="bevy", level_note=BN)
prop("B02", "Entities with observables and subjects deliver to their subscriptions, and subscriptions end with their entities",
 "Whatever is inserted, replaced, removed, despawned, fed, subscribed and unsubscribed in whatever order: subscribing to an entity (by commands, a query or an observable made of it, or through a proxy) subscribes exactly once to the observable or subject it holds at that time, retrying a missed attempt within the same frame as documented, and delivers exactly its signals; signals sent to an entity reach its subject exactly once. A subscription ends with its source, when it is unsubscribed, when its own entity despawns or loses its component, and when the app exits; removing a subject from an entity, or despawning the entity, ends the subject and with it its subscriptions. A subscription that ended delivers nothing more, its destination is released exactly once, its entity despawns, and nothing else in the world is left behind or touched.",
 [H, CF], "every sequence of these operations over several entities, every kind of observable component, subscriptions of every style, ends from inside callbacks",
 "tests subscribe once to an entity that stays; replacing, missing and despawning at every point relative to updates is a statement over histories",
 [B + "common/src/observable", B + "common/src/subject", B + "common/src/subscription", B + "observable_proxy/src", B + "common/src/subscription_component.rs"],
 [("satellites", B + "common/src/observable/subscribe_observer_satellite.rs"), ("retries", B + "common/src/scheduler/subscribe_retry_plugin.rs"), ("subscription component", B + "common/src/subscription_component.rs")],
 [OBS, "existence and number of entities of the world"], crate="bevy", level_note=BN)
prop("B03", "Schedulers of the app keep time like any other; destinations and subscription components end with the world",
 "A pipeline over a scheduler of an app behaves, in the schedule and on the clock it was made for, exactly like the same pipeline over a mock executor that is advanced by the same deltas. Signals sent to an entity or resource destination arrive exactly once, in order, as long as it exists. Everything attached to a subscription component or satellite is torn down exactly once: when the component is removed, replaced or dropped, its entity or its host despawns, or it is unsubscribed, in any order and combination.",
 [H, CF], "every pipeline of timed operators and sources, every schedule and clock, every sequence of frame lengths, and every sequence of signals, removals and despawns",
 "tests use one scheduler with fixed steps and end things one way",
 [B + "common/src/scheduler", B + "common/src/observer", B + "common/src/subscription_component.rs", B + "common/src/subscription"],
 [("scheduler plugin", B + "common/src/scheduler/rx_scheduler_plugin.rs"), ("destinations", B + "common/src/observer"), ("teardown on removal", B + "common/src/subscription_component.rs")],
 [OBS, "MockExecutor and RxBevyExecutor", "existence of entities"], crate="bevy", level_note=BN)
