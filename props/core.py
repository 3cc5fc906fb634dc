SEQ = "stateless model checking of the real code: every operation sequence up to a depth"
CONC = "stateless model checking of the real code: every interleaving up to a preemption bound"
prop("C10", "core", "A watched configuration file is what its latest snapshot says",
     "Once the watcher's events have been handled, the snapshot of a watched configuration is what the file then says, and nothing (or the defaults) if it is missing or malformed, whatever swaps, unrelated events and watcher errors came before or in the middle of a load. A snapshot is never anything that was not on disk, a write that no rename completed is not taken up, loads are counted by their outcome, and shutdown ends the watch and returns however often it is called.",
     ["histories", "fault_sequences", "schedules"],
     "every sequence of swaps between valid, broken, missing and unreadable contents, unrelated events, watcher errors and pauses up to the depth, with swaps around the start of the watch and during loads; every interleaving of a burst of events with the loader",
     "The tests swap a file once and wait on a real file system; swaps during the start or a load, errors of the watcher and bursts are not reached.",
     ["bd-runtime-config/src/loader.rs"],
     [("the watch begins before the first load; one task loads per rename", "bd-runtime-config/src/loader.rs")],
     SEQ + ", with watcher events, errors and mid-load swaps enumerated", "model_checking",
     "The events come from a stand-in for the notify crate's backend; it is assumed that every rename is reported after it happened.",
     observe=["Loader::snapshot_watch", "StatsCallbacks"])
prop("C11", "core", "Feature flags roll out to exactly their share, and default otherwise",
     "A flag with an integer n turns its feature on for exactly n of 10,000 equally likely draws, never for 0 and always from 10,000 on. A value is only returned as the type it has in the file; anything else, and everything while the file is missing or malformed, gives the caller's default, also as the file changes.",
     ["inputs", "histories"],
     "flag values over the whole range, all outcomes of the draw, all kinds of values and files, and sequences of reloads",
     "One test tries 5 draws of one value; nothing counts the share over all draws or reads every type as every other.",
     ["bd-runtime-config/src/feature_flags.rs"], [("feature_enabled, typed getters, empty flags on failure", "bd-runtime-config/src/feature_flags.rs")],
     "explicit enumeration of all draws and inputs on the real code", "model_checking",
     "The draws are 10,000 numbers spread over the generator's range so that every residue and every equal part is hit once.",
     observe=["FeatureFlags::feature_enabled", "FeatureFlags::get_bool", "FeatureFlags::get_integer", "FeatureFlags::get_string"])
prop("C12", "core", "Shutdown reaches every component and waits for all of them",
     "Once a shutdown has begun, every component that waits for it, looks for it or comes to do so later finds out, and none before. The shutdown returns when all components that were there have gone, not before, and never hangs when they go, whether it is awaited or blocks and however components clone, wait repeatedly or give up waiting.",
     ["schedules"],
     "every interleaving of the shutdown with 2 to 3 components of 7 kinds, in threads and in tasks",
     "The crate has one or two examples; no interleaving of trigger, late components and repeated waits is explored.",
     ["bd-shutdown/src/lib.rs"], [("watch channel: value is the status, receivers are the components", "bd-shutdown/src/lib.rs")],
     CONC + " and every order of polling", "model_checking",
     "Tokio's watch channel is atomic between await points; deadlock is a state in which nothing can run.",
     observe=["ComponentShutdown::cancelled", "ComponentShutdownTrigger::shutdown", "ComponentShutdownTrigger::shutdown_blocking"])
prop("C13", "core", "A completion signal arrives, or its loss is noticed",
     "What is sent through a completion signal is received unchanged by whoever waits, blocking or not, before or after; if the sender goes without sending, the receiver gets an error instead of waiting forever, and a receiver that has gone does no harm to the sender.",
     ["schedules"], "every interleaving of a sender that sends, drops or hands over with a receiver that blocks, awaits or gives up",
     "There are no tests of the crate.", ["bd-completion/src/lib.rs"], [("oneshot channel", "bd-completion/src/lib.rs")],
     CONC, "model_checking", "Tokio's oneshot channel is atomic between its waits.", observe=["Receiver::recv", "Receiver::blocking_recv"])
prop("C14", "core", "Server metrics count everything once, under bounded labels",
     "A metric is named by its scopes and labeled by its scopes' labels under its own, and all who ask for the same one share it, also at the same time; every increment shows up in what is gathered, once. Label values beyond the limit all go to one overflow series and are counted, those within it keep their own, and callbacks and chained collectors are asked at every gathering, before it counts.",
     ["histories", "schedules", "inputs"],
     "every sequence of scopes, metrics and labeled uses up to the depth, label limits around their number, every interleaving of 3 threads",
     "One example test of labels; concurrent creation, limits and combinations of scopes are not reached.",
     ["bd-server-stats/src/stats.rs", "bd-stats-common/src/lib.rs"],
     [("maps from id to metric", "bd-server-stats/src/stats.rs"), ("LabelTracker", "bd-server-stats/src/stats.rs")],
     SEQ + "; " + CONC.split(": ")[1], "model_checking",
     "The label limit may be overshot by as many as there are other threads at the same point, as documented.",
     observe=["Collector::gather", "Collector::prometheus_output"])
prop("C15", "core", "Rate-limited warnings come at most once an interval, and not less",
     "Of warnings at one place, the first comes through, and a later one exactly if more than the interval has passed since the last that did. Threads that warn at once get one through.",
     ["histories", "schedules"], "every sequence of pauses around the interval up to the depth; every interleaving of 3 threads",
     "One example with two pauses; boundaries, chains of suppressed warnings and threads are not reached.",
     ["bd-log/src/rate_limit_log.rs"], [("WarnTracker", "bd-log/src/rate_limit_log.rs")],
     SEQ + "; " + CONC.split(": ")[1], "model_checking", "Time is tokio's paused clock.", observe=["WarnTracker::should_warn"])
prop("C16", "core", "The number of processors is what the environment grants, at least one",
     "The number of processors is the share that the environment variable grants, rounded but at least one, whenever that is a usable number. Otherwise the variable is ignored and it is the number of the host, at least one.",
     ["inputs"], "all classes of values of the variable: whole, fractional, negative, zero, huge, not normal, malformed, absent",
     "There are no tests of it.", ["bd-rt/src/lib.rs"], [("num_cpus", "bd-rt/src/lib.rs")],
     "explicit enumeration of inputs on the real code", "model_checking", "46 values, chosen by class.", observe=["num_cpus", "new_runtime"])
prop("C17", "core", "A panic ends the process where that is asked for, and only there",
     "With forced aborts, a panic on any thread, in any task, caught or not, with any payload, ends the process with exit code 1; without, the process goes on. Setting up twice or without a panic changes nothing.",
     ["configurations", "inputs"], "every combination of set-up, place of the panic, payload and log mode",
     "The one test sets up the handlers and never panics.", ["bd-panic/src/lib.rs"], [("panic hooks", "bd-panic/src/lib.rs")],
     "explicit enumeration of configurations, one process each, on the real code", "model_checking", "108 processes.", observe=["exit code"])
prop("C18", "core", "A client is identified by its own platform and version; fields match by name",
     "What identifies a client always has the configuration version, operating system, kind and SDK version of that client, over any own entries of those names, and all other own entries unchanged. A matching field is found by its exact name, the first of that name, and only as text; captured fields are never matched in its place.",
     ["inputs"], "every platform and subset of own entries; every list of up to 3 matching fields",
     "No test covers collisions of names, order or binary values.", ["bd-metadata/src/lib.rs", "bd-log-primitives/src/lib.rs"],
     [("Metadata::collect", "bd-metadata/src/lib.rs"), ("FieldsRef", "bd-log-primitives/src/lib.rs")],
     "explicit enumeration of inputs on the real code", "model_checking", "Lists and subsets within the stated bounds.",
     observe=["Metadata::collect", "FieldsRef::matching_field_value"])
