SEQ = "stateless model checking of the real code: every operation sequence up to a depth"
CONC = "stateless model checking of the real code: every interleaving up to a preemption bound"

prop("C01", "store", "The key-value store returns exactly what was last stored",
     "A value that was stored under a key is returned by every later read of that key, across restarts, until it is replaced; a key that was never stored reads as absent, and no operation touches another key. A stored form that is damaged in any way reads as absent (and is then removed), without a crash and without making up a value, and values stored by earlier versions stay readable. A storage that fails its reads, writes or deletes never makes a read return a value that was not stored.",
     ["histories", "inputs", "fault_sequences"],
     "every sequence of operations, restarts and damage on several keys up to the depth; every truncation, single byte change and length field of the stored forms; every placement of storage faults",
     "bd-key-value has a handful of examples of one set and one get; they never damage what is stored, restart, or fail the storage.",
     ["bd-key-value/src/lib.rs"], [("Store::get and Store::set", "bd-key-value/src/lib.rs"), ("Storage", "bd-key-value/src/lib.rs")],
     SEQ + ", with storage faults and damage enumerated", "model_checking",
     "Every history within the stated depth and fault bound on the real store over a recording storage; a failed write or delete is taken to have happened in full or not at all.",
     observe=["Store::get", "Storage::get_string"])
prop("C02", "store", "A device keeps one id for life",
     "Whatever the number of callers, restarts and storage damage, a device reports one id to all callers of a process, and the same one in later processes as long as the stored one is readable. The id is never empty and a new one is only made when there is no readable stored one.",
     ["schedules", "histories", "inputs"],
     "every interleaving of concurrent first calls, and every sequence of calls, restarts and damage up to the depth",
     "The tests read the id from one thread, once or twice; no interleaving of first readers and no damaged store is reached.",
     ["bd-device/src/lib.rs", "bd-key-value/src/lib.rs"], [("Device::id", "bd-device/src/lib.rs")],
     CONC, "model_checking", "Every interleaving of lock and storage operations within the preemption bound, on the real code.",
     observe=["Device::id"])
prop("C03", "store", "Sessions of a process are linear: one current session, one previous",
     "With the fixed strategy, concurrent reads and starts behave as if executed one at a time: all readers see one current session until a new one is started, and none sees a session that was abandoned before. The previous process's session is the last one that process had, and it stays the same for the whole life of the process.",
     ["schedules", "histories"],
     "every interleaving of 2 to 3 threads that read, start and ask for the previous session, and every sequence of these up to the depth",
     "The existing tests are sequential except for one; the interleavings of first use, start and stored state are not reached.",
     ["bd-session/src/fixed.rs", "bd-session/src/lib.rs"], [("one lock around state and storage", "bd-session/src/fixed.rs")],
     CONC + ", against a linearizability oracle", "model_checking",
     "Every interleaving of lock, callback and storage operations within the preemption bound; session ids of callbacks are taken to be distinct.",
     observe=["Strategy::session_id", "Strategy::start_new_session", "Strategy::previous_process_session_id"])
prop("C04", "store", "The stored session survives crashes: the next process learns the last one",
     "At whatever point a process is killed, the next process reports as previous session one that the killed process really had: the last one that it had told anyone about, or the one that it was just starting. Damage or failure of the storage loses the previous session at most, never the current one.",
     ["crash_points", "fault_sequences", "histories"],
     "every history of processes up to the depth, killed after every storage operation, with storage faults and damage placed everywhere",
     "The tests restart a process cleanly only; no crash point and no failing storage is reached.",
     ["bd-session/src/fixed.rs", "bd-key-value/src/lib.rs"], [("state is stored under the lock, before it is returned", "bd-session/src/fixed.rs")],
     "stateless model checking of the real code: every history, crash point and storage fault", "model_checking",
     "Every crash point between storage operations; a storage operation is atomic.",
     observe=["Strategy::previous_process_session_id", "Strategy::session_id"])
prop("C05", "store", "Session callbacks may call back, fail and block, without deadlock",
     "A session callback that reads the session, starts a session or fails never deadlocks or panics the process, gets an id at once, and leaves a usable current session: the id the callback returned, or after a failed callback a random one, used consistently. Other threads meanwhile get the session that results, not one made up inside the callback.",
     ["schedules", "inputs"],
     "every behaviour of the callback of each session, under every interleaving with other threads",
     "One test re-enters once from one thread; failing, starting and re-entering callbacks under concurrent use are not reached.",
     ["bd-session/src/fixed.rs", "bd-session/src/lib.rs"], [("per-thread flag of a running callback", "bd-session/src/fixed.rs")],
     CONC + ", every callback behaviour", "model_checking", "Every interleaving within the preemption bound; deadlocks are found as states with no thread to run.",
     observe=["Strategy::session_id"])
prop("C06", "store", "Activity sessions end after the inactivity threshold, and only then",
     "With the activity-based strategy a session stays current as long as no two consecutive uses, also across restarts, are further apart than the inactivity threshold, and a use after a longer pause starts a new session and reports the change once. Activity that was flushed, or that was due to be written, counts after a restart; clocks that jump do not break any of it, and the previous process's session is the last one it had.",
     ["histories", "crash_points", "inputs"],
     "every sequence of uses, pauses (at, below and above the thresholds, and backwards), starts, flushes, restarts and crashes up to the depth",
     "The tests walk single example histories; the boundaries, combinations of flush, restart and pause, and kills are not enumerated.",
     ["bd-session/src/activity_based.rs", "bd-session/src/lib.rs"], [("last activity and last write times", "bd-session/src/activity_based.rs")],
     SEQ + " and crash point, against a reference model", "model_checking",
     "Every history within the depth; storage operations are atomic.", observe=["Strategy::session_id", "Callbacks::session_id_changed"])
prop("C07", "store", "Concurrent use of activity sessions agrees on one session",
     "Threads that use, start and flush activity-based sessions concurrently agree on the current session as if executed one at a time; each change of session is reported once, with the session that became current, and the stored state is that of the last one.",
     ["schedules"],
     "every interleaving of 2 to 3 threads of uses, starts and flushes, around an expiry or not",
     "All existing tests are single-threaded.",
     ["bd-session/src/activity_based.rs"], [("state lock", "bd-session/src/activity_based.rs")],
     CONC + ", against a linearizability oracle", "model_checking", "Every interleaving of lock, callback and storage operations within the preemption bound.",
     observe=["Strategy::session_id", "Callbacks::session_id_changed"])
