SEQ = "stateless model checking of the real code: every operation sequence up to a depth"
prop("C08", "meta", "An update of the app is told once, with the version before",
     "The first version ever seen is remembered and is no change; afterwards a version is a change exactly if it differs, in name or code, from the one remembered, across restarts. Setting the version answers with the previous one if it changed and with nothing otherwise, and what it sets is what the next launch compares with, whatever writes fail or where the process is killed.",
     ["histories", "fault_sequences", "crash_points"],
     "every sequence of questions, updates, restarts and damage of the stored version up to the depth with 8 versions; the same with failed writes and kills before or after any access to the storage",
     "Two example tests with two versions each; orders of questions and updates, restarts, kills and versions that differ only in kind are not reached.",
     ["bd-logger/src/app_version.rs"], [("Repository over the key-value store", "bd-logger/src/app_version.rs")],
     SEQ + ", with write failures and kills", "model_checking",
     "Storage is in memory; a write that fails either happened in full or not at all.",
     observe=["Repository::has_changed", "Repository::set"])
prop("C09", "meta", "Every log gets its fields from the source with precedence, once",
     "The fields of a log are the union of its sources, each name once, from the first that has it: the provider's own fields, the log's own, the log's custom, the global custom, the provider's custom. Custom fields under reserved names or with a leading underscore never get in; replay, resource and internal logs have the provider's fields for matching only; the latest addition or removal of a global field counts; if the provider fails there are no fields rather than some.",
     ["inputs", "histories"],
     "every subset of 3 names in every source for all 9 types of log, every list with repeated names, every sequence of additions and removals up to the depth, all reserved names and names near them",
     "Four examples with one conflict each; combinations of three or more sources, names repeated within a source and types of log are not reached.",
     ["bd-logger/src/metadata.rs", "bd-log-metadata/src/lib.rs", "bd-log-primitives/src/lib.rs"], [("normalized_metadata_with_extra_fields", "bd-logger/src/metadata.rs")],
     SEQ + " and every combination of sources, against a reference map", "model_checking",
     "The order of the fields in the result is not specified.",
     observe=["MetadataCollector::normalized_metadata_with_extra_fields"])
