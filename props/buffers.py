SEQ = "stateless model checking of the real code: every operation sequence up to a depth"
CONC = "stateless model checking of the real code: every interleaving up to a preemption bound"
RB = "bd-buffer/src/buffer/"
prop("C19", "buffers", "The memory ring buffer is a queue that loses only its oldest records",
     "What is read from the ring buffer in memory is what was committed to it: whole, unchanged, once, in the order of the reservations, and nothing that is not committed. Records are only lost by being the oldest when a reservation needs their room; a reservation that would touch a record being read or written is refused and changes nothing, and one that cannot fit at all is invalid. A lock refuses reservations as long as any holder has it. Reads and reservations out of turn are errors, and the counters say what happened.",
     ["histories"], "every sequence of reservations of many sizes, commits of concurrent producers, reads, locks and shutdowns up to the depth, for capacities that records divide and do not divide",
     "The tests walk through some dozen hand-written layouts; wrap-around positions, gaps and outstanding reservations combine to thousands.",
     [RB + "volatile_ring_buffer.rs", RB + "common_ring_buffer.rs"],
     [("reservation, gap and wrap arithmetic", RB + "common_ring_buffer.rs"), ("reservations of several producers", RB + "volatile_ring_buffer.rs"), ("IntrusiveQueueWithFreeList", "bd-buffer/src/intrusive_queue_with_free_list.rs")],
     SEQ + ", against a reference model of the records", "model_checking",
     "The memory of a buffer is only used while the buffer lives, as the code requires of its users.",
     observe=["RingBufferProducer::reserve", "RingBufferConsumer::start_read", "RingBufferStats"])
prop("C20", "buffers", "The disk ring buffer keeps its records across restarts",
     "What is committed to the ring buffer on disk is read from it whole, unchanged, once and in order, also after any number of restarts at any point; a record that was not committed never is, and one that was read but not done with is read again. Without overwriting, nothing is ever lost: a reservation without room is refused. With overwriting, only the oldest go. A cursor reads ahead, also past records that are skipped; only what it has advanced past is done with, and what it has not advanced past is protected.",
     ["histories", "crash_points"], "every sequence of writes, reads, cursor advances, restarts with and without open reservations, in 3 modes and 2 capacities, up to the depth",
     "The tests restart at a few points of fixed histories.",
     [RB + "non_volatile_ring_buffer.rs", RB + "common_ring_buffer.rs"],
     [("file header, positions and their checksum", RB + "non_volatile_ring_buffer.rs"), ("CursorConsumerImpl", RB + "non_volatile_ring_buffer.rs")],
     SEQ + " and restart, against a reference model of the records", "model_checking",
     "A restart maps what was written to memory before: the file is mapped, and only the process ends.",
     observe=["RingBufferConsumer::start_read", "RingBufferCursorConsumer::advance_read_pointer"])
prop("C21", "buffers", "A damaged buffer file costs records, never correctness",
     "Whatever a file of a ring buffer has become (any byte damaged, a header or a beginning older than the rest, the words of the last operation on disk in any combination), opening it either fails as lost data or gives a buffer that works: what is read is records that were committed at some time, unchanged, records that are damaged are skipped and counted, and reads end. Nothing panics, hangs, reads outside of the memory or returns bytes that fail their checksum, also when damage strikes while the buffer is open, and after a reset the buffer takes records again.",
     ["crash_points", "fault_sequences", "histories"], "every history up to the depth, every byte position with several damages, every subset of the words that the last operation changed, every older header or beginning",
     "The tests damage two or three fields by hand.",
     [RB + "non_volatile_ring_buffer.rs", RB + "common_ring_buffer.rs"],
     [("header and record checksums", RB + "non_volatile_ring_buffer.rs"), ("total data loss reset", RB + "common_ring_buffer.rs")],
     "systematic fault injection into the real code: every history up to a depth with every damage", "model_checking",
     "A checksum that fits by chance counts as not damaged. While a record is being read, its bytes are not damaged.",
     observe=["NonVolatileRingBuffer::new", "RingBufferConsumer::start_read", "RingBufferStats::total_data_loss"])
prop("C22", "buffers", "Buffer threads lose nothing, and flush, lock and shutdown keep their word",
     "With several producers, the flush thread and a reader at once, every committed record is read once, in its producer's order, unless it is counted as overwritten or its write was refused; a flush returns, and then all that was committed before it is on disk, overwritten or read; a lock that is drained lets no record in; a shutdown returns, writes to disk what memory still held where overwriting is allowed, wakes everyone that blocks, and after it nothing is taken. Every record that memory accepts is flushed or dropped without stopping the flush, and an async reader is woken for every record.",
     ["schedules"], "every interleaving, up to a number of preemptions, of 1 to 2 producers, the flush thread, a reader (plain, cursor or async), flushes, locks and shutdowns, over tight and ample capacities; every record size",
     "The tests fix a few interleavings with sync points.",
     [RB + "aggregate_ring_buffer.rs", RB + "volatile_ring_buffer.rs", RB + "non_volatile_ring_buffer.rs", RB + "common_ring_buffer.rs"],
     [("flush_thread_func", RB + "aggregate_ring_buffer.rs"), ("conditions and drain", RB + "common_ring_buffer.rs")],
     CONC, "model_checking",
     "The locks order all accesses to the buffers' memory, and what a reader holds is not used after the buffer is gone.",
     observe=["AggregateRingBuffer::flush", "AggregateRingBuffer::shutdown", "LockHandle::await_reservations_drained"])
prop("C23", "buffers", "The buffers follow their configuration, and flushes are acknowledged",
     "After an update that succeeds, the buffers are those of the configuration: those that stay keep their contents, the files of removed ones are deleted once nobody uses them, and new ones (with what an earlier run left of them) and the stream buffer have been announced, with their kind, after the removals; the update returns when all of this has been handled. An update that fails changes and announces nothing. A request to flush is acknowledged, after the records written before it to the named buffers (or all) are on disk, also if some are unknown or full, and does not block the readers.",
     ["histories", "schedules"], "every sequence of updates (good and bad), writes, references kept and restarts up to the depth; every interleaving of an update with the handling of its events; every sequence of writes, reads and flush requests up to the depth",
     "The tests have two updates and no flush; failures, references, restarts and flushes of full or unknown buffers are not reached.",
     ["bd-buffer/src/ring_buffer.rs"],
     [("Manager::update_from_config", "bd-buffer/src/ring_buffer.rs"), ("Manager::process_flushes", "bd-buffer/src/ring_buffer.rs"), ("delete_on_drop", "bd-buffer/src/ring_buffer.rs")],
     SEQ + "; " + CONC.split(": ")[1], "model_checking",
     "Files left by updates that fail are not asserted about, as the code says.",
     observe=["Manager::update_from_config", "Manager::process_flushes", "Manager::buffers"])
