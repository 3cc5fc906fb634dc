ORACLE = {
"C01": "a map from key to the last value stored, with 'absent' for damaged keys; every read of every key after every operation is compared, and the files of other keys must be unchanged. Damage covers each byte (flipped, cut, replaced) and every short file.",
"C02": "all ids one process is told are equal; they equal the one that was readably stored before; an id is non-empty; a storage call that failed may only cost what was not stored.",
"C03": "linearizability: the results of the threads (current, start, previous) must be those of some sequential order of the calls that respects real time (harness `lin`), with the reference session object as specification.",
"C04": "the set of sessions that the killed process had told, or was just starting; the next process's previous session must be in it, and be the last told one unless storage failed.",
"C05": "every call returns (a deadlock is a state of the scheduler in which nobody can go on), ids are those the callbacks gave or one random one used consistently; scripts of nested calls within callbacks are part of the enumeration.",
"C06": "reference machine of last use, stored use and pending write over a virtual clock; each answer, each report of a change and what is in the store are compared after every step.",
"C07": "linearizability against the reference of C06 with the clock fixed, and the store's content at the end.",
"C08": "the remembered version as a pair, compared at each question and restart; damaged storage counts as none.",
"C09": "the union of sources computed independently by precedence, compared field by field with the log that comes out.",
"C10": "after the events were handled, the snapshot equals what the file says; in between, any content that was on disk since the last one; the loader must not stop.",
"C11": "the number of the 10,000 draws for which the feature is on; values by type of the file that is there.",
"C12": "nobody finds out before the shutdown begins, all after; the shutdown returns exactly when the last component has gone; a state in which nothing can run is a violation.",
"C13": "what is received is what was sent, or an error iff the sender went; nobody waits forever.",
"C14": "a reference registry of names, labels and counts; what is gathered is compared as text and as values.",
"C15": "the time of the last warning that came through; of threads at the same instant exactly one gets through if any may.",
"C16": "the share read and rounded by an independent parser of the classes.",
"C17": "the exit code and output of a child process per combination.",
"C18": "the union of entries by precedence; the first field of a name.",
"C19": "a queue of records with an exact model of reservations in flight, read marks and lock; each operation's result and each record's bytes are compared, and the counters.",
"C20": "as C19 with records that outlive restarts, and with cursor reads; after each history, a restart at that point must read exactly what the model has.",
"C21": "what is read is a record that was committed at some time (each has unique contents), in order, none twice; the buffer must then take and return new records; opening fails only as data loss; no read past the ends (debug assertions and bounds are on).",
"C22": "the set of committed records per producer against what is read, counted as overwritten or refused; each flush/lock/shutdown must return (deadlock detection) and what was committed before a flush be on disk at its return.",
"C23": "the set of buffers, their kinds, files and events by configuration; for flushes, acknowledged exactly once after the buffers were flushed.",
"C24": "an independent evaluator of the protobuf condition (not of the parsed form).",
"C25": "an independent evaluator over the selector's protobuf configuration, and the list of buffers in order of configuration.",
"C26": "an independent interpreter of the transforms on a log as a list of fields.",
"C27": "an independent interpreter of workflows (traversals, runs, exclusive and parallel) over the configuration; compared after each log: runs, traversals, matched counts, and all actions triggered.",
"C28": "the interpreter of C27 with a stored copy; after each step the engine's state, the file and (with faults) what a restart finds are compared.",
"C29": "the interpreter with limits of matched logs, duration and traversals, and the counters of what stopped.",
"C30": "a reference of pending and streaming flushes by action id; what is asked of the server, which buffers are flushed, and where each log goes are compared, over restarts.",
"C31": "the path of every traversal, the counts by tags, and what the server was sent and has answered.",
"C32": "sums by metric id and tags, and the number of screenshots asked for.",
"C33": "the reference list of files (window, sent or not, content); every request is compared with it, and at the end all is drained and summed up.",
"C34": "bounds on what may be lost (sets of recordings that were in the damaged file or the failed flush); all else must arrive once, under one id each.",
"C35": "the sum of what is uploaded equals what was recorded; the number of metrics never exceeds the limit; overflow equals refused recordings.",
"C36": "the list of messages encoded; frames of damaged streams may be anything but must leave other streams of the thread alone.",
"C37": "a reference of the stream machine: what may be sent when, who waits for which uuid, the time of the next attempt (within the backoff's jitter); all frames sent and all answers given are compared after each event.",
"C38": "the time until which the key is to stay silent, over processes; no connection before it, one after it.",
"C39": "the map of the last update, whole; a reader thread may see only maps of updates; the file's content and the count of starts by reference.",
"C40": "the list of configurations given to the logger, what was acknowledged, and what a restart applies; faults bound what may be forgotten.",
"C41": "a queue with count and size; under schedules, linearizability of refusals (a refusal needs a moment at which there was no room).",
"C42": "a reference of one upload's life: attempts, pauses (within the interval jitter allows), quota by period, drop counts; one result each.",
"C43": "the sequence of logs of each buffer against those in uploads: each once (again after a crash or retry under the same upload id), in order, batches within the limits and the flush interval; removal, shutdown and flush requests by reference.",
"C44": "a reference model of the whole: filters, buffers, workflows with pending flushes and answers, stored and unstored state, sessions, fields; what the server gets, and what the next process uploads, is compared with it after each event.",
"C45": "the same model, asked for what must be on disk; the next process is started from a copy of the directory made when the call returned, and what it uploads, counts and goes on with is compared.",
"C46": "all calls have returned within a bound of virtual time in which nothing else can go on; then each buffer's logs at the server: each of the sent ones once, in the order of each thread.",
"C47": "the log that was encoded, field by field; the bytes that a fresh builder makes of it.",
"C48": "the span of time in which the next request is due, the values of each flag since it was last looked at, and whether a screenshot is outstanding (unknown only if its log came with the request); for events, the calls alternate and end as the flag is.",
"C49": "the sums per span between resource logs, over a minute, saturating; counts per type since the last report and ever.",
"C50": "what the handler was scripted to answer, with percent-encoding as the specification of gRPC has it; for reads, the list of frames on their way and when a stop was last seen; for the limit, the calls in the order in which they came.",
"C51": "two lists of bytes (sent and served on the present stream), whether it is open, not answered yet, or closed, and that late data is gone.",
}
