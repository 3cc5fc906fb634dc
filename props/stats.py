SEQ = "stateless model checking of the real code: every operation sequence up to a depth, against a reference model"
CONC = "stateless model checking of the real code: every thread schedule up to a preemption bound under a controlled scheduler"
S = "bd-client-stats/src/"
prop("C33", "stats", "Stats are aggregated by window and uploaded once, none twice or lost",
     "What is recorded is, from the next flush on, in exactly one file: the latest one, as long as its window is not over and its upload has not begun, or else a new one. Uploads take the oldest file, one at a time, under an id that stays with it until the server takes it; then it is removed, and files whose window is over follow at once. A flush adds what was recorded since the last one, no more and no less; one with nothing to add changes nothing. Beyond the maximal number of files the oldest one goes, and only then. All this outlives restarts, and only what was not flushed is lost by them.",
     ["histories", "configurations"], "every sequence of recording, flush (by timer or on demand), upload, the server's ok, no or failure to answer, time passing and restarts, up to the depth, with at most 0, 1, 2 or 10 files",
     "The tests follow a dozen histories; a flush of nothing while all files are in use, say, is not among them.",
     [S + "stats.rs", S + "file_manager.rs", "bd-client-stats-store/src/lib.rs"],
     [("Flusher::periodic_flush, merge_delta_snapshot_to_disk", S + "stats.rs"), ("FileManager", S + "file_manager.rs"), ("Histogram::merge_from, snap", "bd-client-stats-store/src/lib.rs")],
     SEQ, "model_checking", "Sketches of histograms are replaced by exact ones. Files are in memory.", hook="file_manager is public under cfg(bd_verif)",
     observe=["StatsUploadRequest as sent", "completion of FlushTrigger"])
prop("C34", "stats", "A disk that fails, or a crash, costs no more stats than it must",
     "When an operation on the files of the stats fails, or the process ends before, in the middle of, or after it, then only this is lost: what the failed flush was about to write, what the file that was damaged or unreadable had in it, and, if it is the list of the files that was damaged, the files. All else is uploaded in the end, nothing under two ids, nothing changed under an id that was sent before, and the flusher goes on.",
     ["histories", "fault_sequences", "crash_points"], "every sequence of recording with flush, upload, the server's answers, time passing and restarts up to the depth; at every operation on the disk of each of them: an error, an error after half of it is written, the end of the process before it, in the middle of it and after it; one such event, and two in shorter sequences",
     "The tests have four ways in which a file is damaged when it is first read; none in which an operation fails later.",
     [S + "file_manager.rs", S + "stats.rs"], [("FileManager, write_index", S + "file_manager.rs"), ("Flusher::flush_to_disk, upload_from_disk", S + "stats.rs")],
     SEQ + ", with faults and crashes at each operation on the disk", "model_checking",
     "What a flush has taken from the collectors when it fails is lost, as the code says. An index that is torn costs all files.", hook="file_manager is public under cfg(bd_verif)",
     observe=["FileSystem", "StatsUploadRequest as sent"])
prop("C35", "stats", "What threads record while stats are collected arrives, within limits",
     "Whatever is recorded, through handles that are held or looked up, by any number of threads, before, after or while the flusher collects, is uploaded exactly once. There are never more dynamic metrics than the limit allows, existing ones go on when it is reached, and each recording that finds no room is counted as overflow. A metric is dropped only when it is not held and recorded nothing since the last flush, and makes room then.",
     ["schedules", "histories"], "all schedules of up to the stated preemptions of two recorders and a flusher that flushes three times, for counters and histograms, held and looked up; of three recorders of two metrics at limits 0 to 2; every sequence of record, hold, increment, drop, flush and another limit up to the depth",
     "The tests use one thread.",
     ["bd-client-stats-store/src/lib.rs", S + "stats.rs", S + "lib.rs"], [("BoundedCollector, get_common, snap", "bd-client-stats-store/src/lib.rs"), ("snap_collector_to_snapshot", S + "stats.rs"), ("DynamicStats", S + "lib.rs")],
     CONC, "model_checking", "Sequentially consistent memory. Each collector holds one metric in the concurrent scenarios with a flusher, as the order of a hash map is not controlled.", hook="file_manager is public under cfg(bd_verif)",
     observe=["StatsUploadRequest as sent", "dynamic_stats_overflow"])
