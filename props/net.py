SEQ = "stateless model checking of the real code: every operation sequence up to a depth, against a reference model"
CRASH = SEQ + ", with errors and crashes at each operation on files"
FS = "Files are real ones, reached through a stand-in for std::fs and tokio::fs that can fail or end the process at any operation."
prop("C36", "net", "gRPC frames decode the same however they are cut; damage stays where it is",
     "Messages that one side encodes, in whatever compression it was made for, are decoded by the other as they were and in that order, however the bytes are cut into pieces on the way. Each call yields all messages that are complete by then, and only those. When a stream is damaged, that stream may fail or yield other messages, but no call panics, and other streams, those of the same thread included, decode what they would have decoded without it.",
     ["inputs", "histories"], "up to 3 messages of 6 sizes in 3 modes of compression, fed byte by byte, with one cut anywhere, with two cuts anywhere; every interleaving of 3 or 4 steps of two streams of one thread, one or two of which are damaged at any position (a bit flipped, cut short, bytes repeated)",
     "The tests feed whole frames, and have one stream in a thread.",
     ["bd-grpc-codec/src/lib.rs"],
     [("Encoder, Decoder, decompress with the compressor of the thread", "bd-grpc-codec/src/lib.rs")],
     SEQ, "model_checking", "zlib is the Rust one of flate2.", observe=["Decoder::decode_data"])
prop("C37", "net", "API stream: handshake first, each upload answered once, backoff, pings, acks",
     "There is one connection at a time. Over each of them the handshake, with the versions that were applied last and why the one before ended, comes first, and nothing else until the server has answered. Then each upload and intent is sent exactly once over exactly one stream, and gets exactly the answer the server gave under its id; if the stream ends before that, it fails at once and is not kept. Configurations are applied and acknowledged in order, requests to flush buffers passed on, pings sent at the interval the server gave, counted from the last answer. When a connection ends, the next one follows after a pause within the current backoff interval, which starts and grows as the runtime says, and starts over after a minute of being connected; a change of its settings applies from the next pause. Network quality is what these events make it. After shutdown nothing happens.",
     ["histories", "configurations"], "every sequence of up to the stated number of events: uploads of six kinds, the server's handshake with and without pings, answers, runtime and config updates, flush requests, errors, frames in pieces, closed connections, time passing, shutdown",
     "The tests go through twenty scenarios; none has uploads in flight as a stream is replaced while pings are due.",
     ["bd-api/src/api.rs", "bd-api/src/upload.rs", "bd-api/src/lib.rs"],
     [("Api::maintain_active_stream, StreamState", "bd-api/src/api.rs"), ("StateTracker", "bd-api/src/upload.rs")],
     SEQ, "model_checking", "Paused clock; the network is a stand-in. Answers to ids that were never sent end the API by design, and are left out.",
     observe=["PlatformNetworkStream::send_data", "UploadResponse, IntentResponse", "NetworkQualityProvider"])
prop("C38", "net", "A client told to stop stays silent for the time, with that key only",
     "When the server says that the client is unauthenticated, it makes no further connection in that process, nor in any later one with the same API key until the time the runtime gave has passed since; a start at which the runtime says to kill it, and no such file is there yet, does likewise for the time it gives. With another key, or after that time, it connects again, and what remembered it is gone. What cannot be written, or is damaged, never makes a client silent for longer, nor does it make it fail to start.",
     ["histories", "fault_sequences", "crash_points"], "every sequence of processes up to the depth with one of two keys, with and without a runtime that kills, five ways in which the server behaves, four pauses between them; at every operation on files: an error, the end of the process before it, in the middle of it (at each quarter) and after it",
     "The tests have one restart and no fault.",
     ["bd-api/src/api.rs"], [("Api::maybe_kill_client, read_kill_file, write_kill_file", "bd-api/src/api.rs")],
     CRASH, "model_checking", FS + " A kill file that cannot be read counts as none, as the code says.", observe=["PlatformNetworkManager::start_stream"])
prop("C39", "net", "Runtime values: last ones apply, whole, over restarts, in no crash loop",
     "What is read, through a snapshot or a watch, is the value the last update gives, or the default if it gives none, in one piece: never values of two updates. A watch says that its value changed when it did and only then, no matter when it was registered, as an update comes in on another thread included. At a start the last update that was delivered is applied if it was written completely, and otherwise none, never part of one. What is cached is loaded at most six times in a row without the server being heard of. No content of the files and no failure to use them makes a start fail, nor keeps what the server says next from being cached.",
     ["histories", "fault_sequences", "crash_points", "schedules"], "every sequence of up to the stated number of processes with four updates, the server heard of, watches made before or after loading and marked as seen; one or two operations on files that fail, or end the process before, amid (each quarter) or after them; the cached file cut at every length, in old and new form, with 13 contents of the retry count; all schedules of 2 or 3 preemptions of an update and a new watch",
     "The tests restart once, and read a count that is in range.",
     ["bd-runtime/src/runtime.rs", "bd-client-common/src/file.rs"], [("ConfigLoader::try_load_cached_config, persist_cache_load_retry_count, update_snapshot", "bd-runtime/src/runtime.rs"), ("read_compressed_protobuf", "bd-client-common/src/file.rs")],
     CRASH + "; and every thread schedule up to a preemption bound", "model_checking", FS + " Files in the older, uncompressed form that are cut short are not told from whole ones.", observe=["Watch::read, has_changed", "ConfigLoader::snapshot"])
