W = "bd-workflows/src/"
ENUM = "explicit enumeration of all inputs within bounds on the real code, against a reference"
SEQ = "stateless model checking of the real code: every operation sequence up to a depth, against a reference model"
prop("C24", "flow", "A log matcher of a workflow or filter matches exactly the logs it describes",
     "A matcher matches a log if and only if its condition holds: comparisons of the message, of a field (kept with the log before matching-only), of level and type as text, number (also fractional and out of range), version or pattern, or whether it is set, and and/or/not of these to any depth, where an empty conjunction holds and an empty disjunction does not. A binary or missing field satisfies no comparison, not even 'not equal'. A matcher with a part missing or not understood is refused as a whole, and never half applied.",
     ["inputs"], "every condition from the grids of fields, operators and values on every log of the grid; every tree of depth 2 over them; every way to leave out a part",
     "The tests are a table of hand-picked pairs; the operators' behaviour on odd numbers, versions, missing and shadowed fields combines to tens of thousands.",
     ["bd-log-matcher/src/matcher.rs"], [("Tree::do_match, Leaf", "bd-log-matcher/src/matcher.rs")],
     ENUM, "model_checking", "The outcome of each pattern in use is written down by hand: the regex crate itself is not checked. Numbers as texts like NaN and version segments over 2^32 are left out.",
     observe=["Tree::new", "Tree::do_match"])
prop("C25", "flow", "A log goes to exactly the buffers whose filters match it",
     "A log is selected for a buffer if and only if one of the buffer's filters matches: exact, prefix and pattern conditions on message or tag (with the level and type under their reserved names), level and type conditions, and and/or/not of them. Each buffer is named once, whatever other buffers, and buffers of the same name, say. A configuration with a filter that has a part missing or not understood is refused.",
     ["inputs", "configurations"], "every condition of the grid on every log; every combination of up to 3 buffers with up to 2 filters; every way to leave out a part",
     "The tests try a few filters, one buffer each.",
     ["bd-matcher/src/buffer_selector.rs", "bd-matcher/src/matcher.rs"], [("BufferSelector::buffers", "bd-matcher/src/buffer_selector.rs")],
     ENUM, "model_checking", "As for C24.", observe=["BufferSelector::new", "BufferSelector::buffers"])
prop("C26", "flow", "Filters change exactly what they say, in order, and nothing else",
     "The filters of a configuration apply one after another, each to what the ones before left, to the logs its matcher matches: fields are captured, set (from a value or another field; an existing one only where that is allowed), removed or rewritten by pattern, each transform in turn. All else about a log stays as it was, logs that do not match are untouched, no field ends up twice, and a filter that is not understood is left out, counted, and does not disturb the others.",
     ["inputs", "configurations"], "one filter of up to 3 transforms out of 22 and two filters of up to 3 transforms, on each log of a grid; valid and invalid filters in every mix",
     "Each test has one transform or two; orders in which transforms see each other's outcome are not tried.",
     ["bd-log-filter/src/lib.rs"], [("FilterChain::process", "bd-log-filter/src/lib.rs"), ("SetField, override", "bd-log-filter/src/lib.rs")],
     ENUM, "model_checking", "As for C24; substitutions are written down by hand.", observe=["FilterChain::process"])
prop("C27", "flow", "Workflows advance as their states and transitions say",
     "A log moves every traversal that stands at a state with a transition whose matcher and count it completes, to the transition's target, with its actions triggered once per log; it forks where several apply and merges where traversals meet, ends at final states, and a run starts anew from the initial state: at every log for parallel workflows, and, for exclusive ones, only as long as no run has moved on. A change of the session ends all runs. Workflows do not affect each other, and the counts of runs and traversals, started, advanced, stopped and completed, add up.",
     ["histories", "configurations"], "every sequence of logs up to the depth through 14 workflows of up to 5 states, parallel and exclusive, also across two sessions; shorter sequences through each of some 100,000 workflows of up to 4 states, hundreds at a time",
     "The tests follow a dozen histories through a handful of workflows.",
     [W + "workflow.rs", W + "engine.rs", W + "config.rs"], [("Workflow::process_log, Run, Traversal", W + "workflow.rs"), ("WorkflowsEngine::process_log", W + "engine.rs")],
     SEQ, "model_checking", "Workflows have no cycles, as the code asserts. That the log which completes an exclusive run is also seen by the initial run that replaces it is taken as intended.",
     observe=["WorkflowsEngine::process_log"])
prop("C28", "flow", "The progress of workflows outlives the process and changes of the configuration",
     "A workflow goes on after a restart from what was last persisted, if its configuration is still there and fits, and starts afresh otherwise; an update of the configuration keeps the progress of workflows that stay as they are and drops that of the others, and never panics. State is written when it is dirty and its time has come, not more often, and at once where forced. A state file that is cut off, zeroed or something else costs the progress, not more.",
     ["histories", "crash_points", "fault_sequences"], "every sequence of logs in two sessions, persisting, restarts and updates to one of 4 configurations up to the depth; the state file cut off at each of its bytes; each of 14 workflows started with the state of each other",
     "The tests restart twice and damage the file once.",
     [W + "engine.rs", W + "workflow.rs"], [("StateStore", W + "engine.rs"), ("WorkflowsEngine::start, update", W + "engine.rs")],
     SEQ + ", with restarts and damaged files", "model_checking",
     "What becomes of a changed workflow under the same id whose new configuration partly fits is not asserted. The file is bincode without a checksum: other damage is not asserted about.",
     observe=["WorkflowsEngine::start", "WorkflowsEngine::update", "WorkflowsEngine::maybe_persist"])
prop("C29", "flow", "The limits of workflows bind, and only where they apply",
     "A run stops as soon as it has matched more logs than its workflow allows, or when a log comes after its duration is over, counted from its first match; no new traversal comes to be beyond the limit of all workflows. Until then, runs advance as if there were no limits. What stops counts as stopped or exceeded, exactly once, runs that end free their room, and what is not at a limit is not affected.",
     ["histories", "configurations"], "every sequence of logs, and of times between them, up to the depth through 14 workflows with every limit from 0 to several, one and two workflows at a time",
     "The tests run into each limit once.",
     [W + "workflow.rs", W + "engine.rs", W + "config.rs"], [("limits of matched logs and duration", W + "workflow.rs"), ("traversals_count_limit", W + "engine.rs")],
     SEQ, "model_checking", "The actions that a log triggers as it takes its run over the limit still fire, as in the code.",
     observe=["WorkflowsEngine::process_log", "workflow counters"])
prop("C30", "flow", "Flushes that workflows ask for are negotiated once, and survive restarts",
     "When a workflow's action asks to flush buffers, the server is asked about it once, as long as it is pending or streaming; an approved flush flushes exactly the buffers that are there to be flushed, and only while no other flush is under way, and a rejected one flushes nothing. Streaming then sends logs bound for these buffers to its continuous buffers instead, as many as it allows and as long as the session lasts, but at least until the flush is done. Pending requests and streams outlive restarts, which ask again, and follow updates of the configuration: buffers that are gone are no longer flushed, and nothing stays pending for ever.",
     ["histories", "schedules"], "every sequence of logs in two sessions, answers of the server (upload, drop, failure), completions of flushes, persisting, restarts and updates of the buffers, up to the depth",
     "The tests follow five histories; answers that cross with updates and restarts are not reached.",
     [W + "actions_flush_buffers.rs", W + "engine.rs"], [("Resolver, Negotiator, Streaming", W + "actions_flush_buffers.rs"), ("WorkflowsEngine::run_once", W + "engine.rs")],
     SEQ, "model_checking", "The negotiator's task runs until it waits after each step.",
     observe=["WorkflowsEngine::process_log", "BuffersToFlush", "LogUploadIntentRequest"])
prop("C31", "flow", "Paths through workflows are complete, and reported until the server has answered",
     "The path of a diagram consists of the values that the transitions followed by a traversal took from their logs, in order, since the last path it reported; it forks with the traversal, outlives restarts, and beyond the limit loses its oldest node that counts. A path that is reported is counted under its tags, once per log, and the server is asked about it unless it answered for it before: where it wants the path, it is uploaded, whole and under a name that no other path of the diagram has; where the question or the upload fails, the path is asked about when it is next reported. One path is dealt with at a time, in order, and the last 100 answers are remembered.",
     ["histories", "configurations"], "every sequence of logs up to the depth through workflows with limits, forks and several diagrams, alone and in pairs, with restarts; every sequence of reports and answers (yes, no, failure of either step) up to the depth; bursts; more paths than are remembered",
     "The tests report a few paths that the server always takes.",
     [W + "sankey_diagram.rs", W + "workflow.rs"], [("Processor, ProcessedIntents", W + "sankey_diagram.rs"), ("SankeyState, SankeyPath", W + "workflow.rs")],
     SEQ, "model_checking", "Paths are named by their nodes put together without a separator, which is not asserted about; of more than ten waiting paths, some may be dropped.",
     observe=["SankeyPathUploadIntentRequest", "SankeyPathUpload", "workflows_dyn:action"])
prop("C32", "flow", "Metrics and screenshots of workflows are emitted once per log, as they say",
     "A log that makes workflows follow transitions leads to each distinct metric action of these once: the counter or histogram of its id with its tags (fixed, or from the log where it has them) grows by the fixed or extracted value, of which a counter takes the whole part and at least 0, and nothing happens if there is no such number. A screenshot is asked for if and only if one of the actions says so. Beyond the limit of metrics, new ones are not made but counted as overflow, and those that are there go on.",
     ["inputs", "histories", "configurations"], "every increment, set of tags and type on every pair of logs of a grid; every triple of actions on forks and joins of two workflows with every sequence of logs up to the depth; every limit",
     "The tests have a few metrics with plain numbers.",
     [W + "metrics.rs", W + "engine.rs", "bd-client-stats/src/lib.rs"], [("MetricsCollector::emit_metrics", W + "metrics.rs"), ("prepare_actions", W + "engine.rs"), ("DynamicStats", "bd-client-stats/src/lib.rs")],
     SEQ, "model_checking", "Whether a metric whose value cannot be extracted exists with value 0 is not asserted: the code and its comment differ.",
     observe=["DynamicStats", "WorkflowsEngineResult::capture_screenshot"])
