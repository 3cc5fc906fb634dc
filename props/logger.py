SEQ = "stateless model checking of the real code: every operation sequence up to a depth, against a reference model"
CRASH = SEQ + ", with errors and crashes at each operation on files"
CONC = "and every thread schedule up to a preemption bound"
FS = "Files are real ones, reached through a stand-in for std::fs and tokio::fs that can fail or end the process at any operation."
prop("C40", "logger", "Client config: applied whole, acknowledged truly, kept only if it applied",
     "Each configuration that the server sends is given to the logger once, as it is, and is acknowledged under its own version: with an error exactly if the logger refused it. The version that the client names at the next handshake is that of the last one that was applied. A start applies the last configuration that applied before, if it was written completely, and otherwise none; one that the logger refused, that ended the process as it was applied, or that was cut short or damaged on disk, is not applied at a later start, and no content of the file and no failure to use it makes a start fail, or keeps what the server sends next from being applied and kept.",
     ["histories", "fault_sequences", "crash_points"], "every sequence of up to the stated number of processes and configurations, each of which applies, is refused or ends the process; one or two operations on files that fail, or end the process before, amid (each quarter) or after them; files of five configurations cut short anywhere or with any bit flipped",
     "The tests restart once, with no fault, and do not ask what is named after a refusal.",
     ["bd-logger/src/client_config.rs", "bd-client-common/src/file.rs"],
     [("Config::process_configuration_update, try_load_persisted_config_helper, ApplyConfig", "bd-logger/src/client_config.rs")],
     CRASH, "model_checking", FS, observe=["Config (ConfigurationUpdate)", "ApplyConfig"], hook="internals of bd-logger are public under cfg(bd_verif)")
prop("C41", "logger", "What waits to be processed is bounded, in order, and lost only if it cannot fit",
     "The queue between the threads that log and the one that processes takes an item exactly if there is room for it in both count and size, says which of them was missing otherwise, and gives the item back. What it took comes out once, per sender in order. Its room comes back as items come out, all of it. Once closed it takes nothing. When no other thread sends or receives meanwhile, the answer is exact; with others, it is one that some order of them gives. What is kept until there is a configuration is what fits, in order.",
     ["histories", "schedules"], "every sequence of up to the stated number of operations of two senders with six sizes and three capacities; all schedules of 2 or 3 preemptions of 8 sets of two or three sending threads and one that receives, with and without a close",
     "The tests have one thread and one sender.",
     ["bd-logger/src/memory_bound.rs", "bd-logger/src/pre_config_buffer.rs"],
     [("Sender::try_send, Receiver::recv", "bd-logger/src/memory_bound.rs"), ("PreConfigBuffer::push", "bd-logger/src/pre_config_buffer.rs")],
     SEQ + "; " + CONC, "model_checking", "The scheduler orders atomics as if they were all sequentially consistent.", observe=["Sender::try_send", "Receiver::recv", "PreConfigBuffer::push, pop_all"], hook="internals of bd-logger are public under cfg(bd_verif)")
prop("C42", "logger", "An upload: answered once, retried as set, within the quota of bytes",
     "Each upload gets one result. It is sent again after the server refused it or its stream ended, until it succeeds or has been tried as often as the runtime says by then, with a pause before each retry that is within what the runtime gave when it started; its result is that of its last attempt, and the server's count of dropped logs is passed on. First attempts start in order, and one of them waits exactly while the bytes of the running period are used up; the period is over when its time is, and a change of the limits applies to the next. At shutdown all uploads that run or wait end as canceled, with no further attempt. The counters of successes, retries and given up uploads are what happened.",
     ["histories", "schedules"], "every sequence of up to the stated number of events: uploads of three sizes, answers, streams that end, a busy Api, changes of four settings, time passing, shutdown; one or two of the random pauses at either end of their range",
     "The tests have one upload in flight, with fixed settings.",
     ["bd-logger/src/service.rs", "bd-logger/src/ratelimit.rs"],
     [("service::new, Uploader::call, UploadRequest", "bd-logger/src/service.rs"), ("RateLimitLayer", "bd-logger/src/ratelimit.rs")],
     SEQ, "model_checking", "Paused clock. Retries do not count against the quota, and one upload may exceed it, by design.", observe=["UploadResult", "DataUpload sent", "counters"], hook="internals of bd-logger are public under cfg(bd_verif)")
prop("C43", "logger", "Buffers to the server: each log once, in order, in batches; kept until then",
     "What is written to a continuous buffer is uploaded in order, each log once, in batches that end at the limits or at the deadline after their first log, one batch at a time; the logs of a batch leave the buffer once the upload has its result, and not if it was canceled: the next process, after a shutdown or a crash, goes on with the first log that has none. A trigger that names a trigger buffer uploads what the buffer holds, in order, in batches within the limits, but for logs older than the lookback window, while writes to it are refused; then it is writable again, and who asked is told, not before. A trigger of an unknown buffer, or of one that is uploading, starts nothing, and is answered. A streamed log is uploaded by itself, in order. A change of the configuration, and a shutdown, completes without an answer of the server to the uploads that run, and ends those of the buffers that are removed.",
     ["histories", "configurations", "crash_points"], "every sequence of up to the stated number of events: logs of four kinds to three buffers, triggers of known and unknown buffers, answers, time to just before and just after the deadline, settings, five configurations, restarts, crashes after any event",
     "The tests go through a dozen scenarios; none has an upload in flight when its trigger buffer is removed or the process ends.",
     ["bd-logger/src/consumer.rs", "bd-buffer/src/ring_buffer.rs"],
     [("BufferUploadManager, ContinuousBufferUploader, CompleteBufferUpload, StreamedBufferUpload", "bd-logger/src/consumer.rs"), ("Manager::update_from_config, RingBuffer::new_consumer", "bd-buffer/src/ring_buffer.rs")],
     SEQ, "model_checking", "Buffers are real files, and large enough. One schedule of the threads that flush (C19 to C23 explore these). Logs of a trigger buffer that were read for an upload that a shutdown ends are lost, by design.", observe=["LogBatch sent", "TriggerUpload.response_tx", "update_from_config"], hook="internals of bd-logger are public under cfg(bd_verif)")

WIN = "exhaustive exploration of the whole logger, from the calls of the application to the messages to the server, with its threads, under a controlled scheduler"

prop("C44", "logger", "From a call to a log to the buffers, the stream, and the next process",
     "A log that is accepted is taken by the filters, streamed if a stream configuration says so, and written once to each of the buffers whose filters match it, with the fields that the application set before it, those of the provider, and its own, and the session at that time; workflows may add buffers, flush buffers, count, and start to stream. A log before the first configuration is held and goes where that configuration says, in order. One buffer that refuses a log keeps it from no other. A log whose workflow flushes buffers is, unless it goes to one of them, added to one. A flush of trigger buffers is asked of the server, and uploads what they hold once it agrees; the server's command uploads without asking. A log that names the previous process's session is taken with that session and time, and one that names another is dropped with an internal log. What is persisted, that is the buffers, the workflows' state when it was due or a blocking log or a flush forced it, and the session, is what the next process goes on from, after a restart and after a crash.",
     ["histories", "configurations", "crash_points"], "every sequence of up to the stated number of events from four alphabets: logs with destinations and workflow effects, blocking, with a previous session, too large for a buffer; flush requests, answers, commands; three configurations and five sets of flags; fields, sessions, providers; disconnects, restarts and crashes",
     "The tests of the pieces stand others in; those of the whole go through single scenarios, with no flush, update, or crash in between.",
     ["bd-logger/src/logger.rs", "bd-logger/src/async_log_buffer.rs", "bd-logger/src/log_replay.rs", "bd-logger/src/logging_state.rs", "bd-buffer/src/ring_buffer.rs", "bd-workflows/src/engine.rs"],
     [("AsyncLogBuffer, LoggerReplay, ProcessingPipeline", "bd-logger/src/log_replay.rs"), ("LoggerBuilder::build", "bd-logger/src/builder.rs"), ("WorkflowsEngine", "bd-workflows/src/engine.rs")],
     SEQ, "model_checking", "The schedule of the threads is fixed here; C45 and C46 vary it. The server and the platform are stand-ins; all between them is the code's own.", observe=["uploads, streamed logs, intents, stats at the server", "the next process"], hook="internals of bd-logger are public under cfg(bd_verif)")

prop("C45", "logger", "What a blocking log or a flush promised is there after a crash",
     "Once a call to log with blocking, or to flush_state with blocking, has returned, the process may end at any time, without a shutdown: the next one finds that log, and every one before it in the same buffers, (for flush_state: in all buffers), the workflows' state and what they counted, as they were after it; what it finds in other buffers is a beginning of what was logged, including all that was there before; and workflows go on from there.",
     ["crash_points", "schedules"], "the stated lists of logs before, and of the last calls, each with every schedule that deviates from the first one up to the bound, or that starves a thread, and two orders of the hash maps",
     "The tests call the pieces with stand-ins and look at what they were sent; what is on disk when the caller goes on depends on four threads and a task.",
     ["bd-logger/src/async_log_buffer.rs", "bd-logger/src/log_replay.rs", "bd-buffer/src/ring_buffer.rs", "bd-buffer/src/buffer/aggregate_ring_buffer.rs", "bd-client-stats/src/stats.rs", "bd-workflows/src/engine.rs"],
     [("finish_blocking_log_processing", "bd-logger/src/log_replay.rs"), ("AsyncLogBufferMessage::FlushState", "bd-logger/src/async_log_buffer.rs"), ("process_flushes", "bd-buffer/src/ring_buffer.rs"), ("maybe_persist", "bd-workflows/src/engine.rs")],
     WIN, "model_checking", "The directory is copied, as the next process would find it, when the call returns. The process ends, not the machine: what was written to a mapped file is there.", observe=["what the next process uploads", "hits"], hook="internals of bd-logger are public under cfg(bd_verif)")

prop("C46", "logger", "Calls from several threads return, and their logs are delivered in order",
     "When two threads of the application log, log blocking, flush, add fields and start sessions, while the server sends configurations, flags or a command, the connection is lost, or there is none, or another thread shuts the logger down, every call returns; the logs of each thread reach, once and in order, each buffer that they belong to, and from there the server; and the logger goes on as before, or, when it was shut down, ends without an error.",
     ["schedules", "faults"], "the stated pairs of call sequences with the stated events, each with every schedule that deviates from the first one up to the bound, or that starves a thread, and two orders of the hash maps",
     "The tests log from one thread, and wait for each effect before they go on.",
     ["bd-logger/src/logger.rs", "bd-logger/src/async_log_buffer.rs", "bd-logger/src/memory_bound.rs", "bd-logger/src/consumer.rs", "bd-buffer/src/ring_buffer.rs", "bd-client-stats/src/stats.rs"],
     [("LoggerHandle::log, flush_state", "bd-logger/src/logger.rs"), ("AsyncLogBuffer::run_with_shutdown", "bd-logger/src/async_log_buffer.rs"), ("Flusher::periodic_flush", "bd-client-stats/src/stats.rs")],
     WIN, "model_checking", "Without a connection, a flush of a continuous buffer that is full waits for the server, by design. Trigger buffers take nothing while they are uploaded.", observe=["calls that return", "uploads", "the logger's future"], hook="internals of bd-logger are public under cfg(bd_verif)")

prop("C47", "logger", "A log is read out of a buffer as it was encoded into it",
     "For every log (any level, type, message and fields of text or bytes, empty, repeated or many, any session, time before or after 1970 to the nanosecond, any list of flush actions and streams), what is encoded, and then read, is the log: the same values in the same order. One that cannot be written leaves the next ones as they are, no larger and no different. Bytes that were cut off or overwritten are refused or read as some log; they do not end the process or read beyond the bytes.",
     ["inputs", "histories"], "every combination of the stated values; every sequence of up to the stated number of eight logs from one builder, each written or refused; every prefix, and every value of every byte of two logs",
     "The tests encode some logs, and decode two; a value of one kind of field or of one order is not among them.",
     ["bd-client-common/src/fb.rs", "bd-proto/src/flatbuffers/buffer_log_generated.rs"],
     [("make_log, root_as_log", "bd-client-common/src/fb.rs")],
     SEQ, "model_checking", "Reads beyond the bytes are seen as far as they panic.", observe=["bytes given to log_output", "accessors of Log"])

prop("C48", "logger", "The platform is asked for screens and reports as the runtime flags say",
     "While it is enabled, the platform is asked for a resource report, or a screen, at once and then every interval, and not more often; an interval that changes counts from the change; while it is disabled it is not asked. A screenshot is taken for a request if screenshots are enabled and the last one that was asked for has been logged; each request is counted once, as taken, too many, disabled or not ready. The events listener is started when it is enabled and stopped when it is disabled, never twice in a row. This holds for every order of updates, requests and logs, although each of these is dropped and run again whenever a log is processed; no value of a flag makes it panic.",
     ["histories", "schedules"], "every sequence of up to the stated number of: time passes, flags change, it is dropped, it is polled, a screenshot is asked for or logged; with every order in which it looks at what is ready, in up to the stated number of looks",
     "The tests let one future run with one or two updates; in use it is dropped at every log, and several updates may wait when it runs again.",
     ["bd-resource-utilization/src/lib.rs", "bd-session-replay/src/lib.rs", "bd-events/src/lib.rs", "bd-time/src/lib.rs"],
     [("Reporter::run_with_shutdown", "bd-resource-utilization/src/lib.rs"), ("Recorder::run_with_shutdown, ScreenshotLogInterceptor, CaptureScreenshotHandler", "bd-session-replay/src/lib.rs"), ("Listener::run_with_shutdown", "bd-events/src/lib.rs"), ("TimeDurationExt::interval", "bd-time/src/lib.rs")],
     SEQ, "model_checking", "How often it is asked with an interval of none is left open, as is a delay of the next one by up to 5 ms after a late one.", observe=["calls of the targets", "counters of screenshots"])

prop("C49", "logger", "What is added to logs about traffic, network and the logger is right",
     "To a resource log, once resource logs go back more than a minute, is added how many bytes the HTTP responses logged since the oldest resource log of the last minute said they sent and received, by headers and bodies; counts that are missing or no numbers count nothing. A response with a status code means that the network is there. With the network known to be offline, and only then, each log but those of resources, replay and the logger itself says so. With its flag on, a resource log says how many logs of each type there were since the last that said so, and in all. All other fields, and all other logs, stay as they were.",
     ["histories", "inputs"], "every sequence of up to the stated number of events: time, four kinds of responses, resource logs, logs that look similar; two of the nine types and the flag; steady ones for five minutes with eleven intervals",
     "The tests log a handful of responses within one minute; which ones count depends on when the resource logs came.",
     ["bd-logger/src/network.rs", "bd-logger/src/internal_report.rs"],
     [("HTTPTrafficDataUsageTracker, NetworkQualityInterceptor", "bd-logger/src/network.rs"), ("Reporter", "bd-logger/src/internal_report.rs")],
     SEQ, "model_checking", "The clock of the tracker is a stand-in.", observe=["fields after LogInterceptor::process", "set_network_quality"], hook="internals of bd-logger are public under cfg(bd_verif)")
