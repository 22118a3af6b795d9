#!/usr/bin/env python3
"""Single source for properties.jsonl (run from anywhere; rewrites the file)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": list(files),
            "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
            "mechanism": [dict(name=a, where=b) for a, b in mech],
            "observe_at": list(observe), "hook_needed": None,
        },
    })


IMP = "dustgoggles/codex/implements.py"
COD = "dustgoggles/codex/codecs.py"
MEM = "dustgoggles/codex/memutilz.py"
CMP = "dustgoggles/composition.py"
TRK = "dustgoggles/tracker.py"
DYN = "dustgoggles/dynamic.py"
FUN = "dustgoggles/func.py"
STR = "dustgoggles/structures.py"
PIV = "dustgoggles/pivot.py"
MOS = "dustgoggles/mosaic.py"
SCR = "dustgoggles/scrape.py"

# ------------------------------------------------------------------ codex
prop("C01", "Shared index is changed only under its lock",
     "With locking left on (the default), every operation that adds a key to or removes a key from a shared index "
     "touches that index's shared memory only while it holds the index's lock. Every process using the same index "
     "contends for the same lock, and only constructing with locking disabled skips it.",
     ["schedules", "inputs"], "every key, every index state, every interleaving of processes sharing the index",
     "The two codex tests use one writer and one reader; no test runs two writers, and a lost update needs a particular interleaving.",
     [IMP], [("TagIndex.add / __delitem__ enter the lock", IMP), ("MetaTagIndex.add / __delitem__", IMP),
             ("lock class chosen from no_lockout", IMP)],
     [("length block", "number of keys", IMP), ("key / name / value blocks", "slot contents and reverse map", IMP)])
prop("C02", "Locks are always given back, and a holder never waits for itself",
     "Whatever an index operation does, including raising, the lock it took is free again when it returns. "
     "A failed attempt to take the lock leaves none of its own claims behind, and no operation asks for an index's "
     "lock while it already holds it.",
     ["inputs", "fault_sequences", "schedules"], "every operation, every exit path including exceptions raised inside or while acquiring",
     "Exceptional exits inside the critical section and nested acquisition are never exercised (deleting from a metadata index hung forever before repair).",
     [IMP], [("SlidingLock.__enter__/__exit__/release", IMP), ("with-blocks in TagIndex, MetaTagIndex", IMP)],
     [("lock and marker blocks", "claims on the lock", IMP)])
prop("C03", "The lock admits one holder at a time, in claim order",
     "A process enters only after it has exclusively claimed a numbered slot above the last released one and has seen "
     "no unreleased claim with a lower number. When a holder leaves, it publishes its slot as the new floor before "
     "it withdraws its claims, and a process that never got in publishes nothing.",
     ["schedules"], "every interleaving of any number of contending processes",
     "No test contends for the lock; violations need a process to be preempted between two particular shared-memory operations.",
     [IMP], [("SlidingLock._renumber, _check_acquirement, acquire, release", IMP)],
     [("count", "last released slot number", IMP), ("marker", "claim on a slot", IMP)])
prop("C04", "Adding and removing keys keeps the shared index consistent",
     "After any successful add of a new key or removal of a present key, the recorded length equals the number of "
     "occupied slots, slots are contiguous from zero, and every key's reverse-lookup entry names exactly the slot that "
     "holds that key. Different keys never share an entry, and listing the index returns exactly the keys in its slots, a refresh skipping any slot whose block is missing. Adding a present key changes nothing, removing an absent key raises KeyError and changes nothing.",
     ["inputs", "histories"], "every index state reached by any history of adds and removes, every key",
     "Tests add two keys and never remove one; the swap on removal is never executed.",
     [IMP], [("TagIndex._add, _delitem, check, update", IMP)],
     [("memory", "length block", IMP), ("key_address(i)", "slot contents", IMP), ("hash_address(k)", "reverse map", IMP)])
prop("C05", "Metadata stays attached to its own key",
     "In a metadata index, the metadata recorded with a key is the one returned for that key until it is replaced or "
     "the key is removed, whatever other keys are added or removed. Removing a key removes its metadata, "
     "and a later key reusing the slot never inherits it.",
     ["inputs", "histories"], "every history of adds and removes with and without metadata",
     "No test removes a key from a metadata index.",
     [IMP, MEM], [("MetaTagIndex.add, __getitem__, __delitem__", IMP), ("delete_block(missing_ok)", MEM)],
     [("val_address(i)", "metadata of slot i", IMP)])
prop("C06", "What is stored is what is read back",
     "Reading a key from a notepad or grid paper, or reading a sticky, through any object attached to the same "
     "address, decodes exactly the bytes that were last stored there, with the inverse of the encoding used to store "
     "them; non-empty arrays with plain dtypes come back with the dtype, shape and contents they were stored with, as copies unless a view was asked for. Asked not to fetch a key, reading hands over the block that holds it. Each of the library's codecs is an "
     "encoder paired with its own inverse. A sticky object that has already stored or read a value may return that value until a forced read.",
     ["inputs", "configurations"], "every key, every value, writer and reader in different objects or processes",
     "Tests store two small dicts and two float-free arrays; overwrite, None, and the AST codec are never exercised.",
     [IMP, COD, MEM], [("Notepad/GridPaper __setitem__ / __getitem__", IMP), ("Sticky.stick / read", IMP),
                       ("codec and mnemonic factories", COD)])
prop("C07", "Shared blocks are exactly as big as what is written to them",
     "Whenever the library fills a shared memory block, the block has exactly the size of the data written, even when "
     "a block of another size already existed at that address; nothing is truncated, nothing stale survives past the end, "
     "and storing a bigger or smaller value over an old one works.",
     ["inputs", "histories"], "every sequence of stores of differently sized values to one address",
     "No test stores twice to the same address.",
     [IMP, COD, MEM], [("open_block(overwrite=...)", MEM), ("memorize / memorize_array", COD), ("Sticky.stick", IMP), ("index writes", IMP)])
prop("C08", "exists_ok=False never overwrites",
     "Storing under a key that already has a value with exists_ok=False raises KeyError (FileExistsError from an index "
     "itself) and leaves the existing value and index unchanged; when the key has no value the store succeeds. "
     "With exists_ok=True the new value always replaces the old one.",
     ["inputs", "histories"], "every key, value, and prior state",
     "exists_ok is never passed by a test.",
     [IMP, COD], [("Notepad.__setitem__, GridPaper.__setitem__, TagIndex._add", IMP), ("memorize, memorize_array", COD)])
prop("C09", "Missing entries are reported as missing, never as internal errors",
     "In a notepad or grid paper, reading or deleting a key that has no stored value raises KeyError, get() returns the caller's default, and "
     "reading an address where no sticky exists returns None; no other exception escapes because an entry is missing. "
     "A value that is present, including None, is returned rather than reported missing.",
     ["inputs"], "every key or address, present or not",
     "No test reads a missing notepad key.",
     [IMP, COD], [("Notepad.__getitem__/get/__delitem__", IMP), ("GridPaper.__getitem__/get/__delitem__", IMP), ("Sticky.read", IMP)])
prop("C10", "User keys cannot touch the index's own storage",
     "Storing or deleting under any string key that begins with the reserved index prefix raises KeyError before any "
     "shared memory is touched.",
     ["inputs"], "every key string",
     "Reserved keys are never used in tests; deletion used to destroy index blocks.",
     [IMP], [("guards in Notepad and GridPaper __setitem__/__delitem__", IMP)])
prop("C11", "A failed store lists no key without a value",
     "If storing a new key fails because its value cannot be encoded or placed, the error reaches the caller and the key is not "
     "left listed in the index without a value behind it. A failed store over an existing key leaves the key listed for as long as its value is there.",
     ["fault_sequences", "inputs"], "every value whose encoding or placement raises",
     "No test stores an unserialisable value.",
     [IMP], [("Notepad.__setitem__, GridPaper.__setitem__", IMP)])
prop("C12", "Closing removes everything; clearing removes every entry",
     "Closing a notepad or grid paper removes the stored block and index entries of every listed key, then the index's own length block "
     "and lock counter, saving each entry first when dumping was asked for. Clearing removes every listed key the same way but leaves the index "
     "usable. Closing an index used on its own removes every entry it lists, and pulling a sticky removes its block.",
     ["histories", "inputs"], "any set of keys present at the time",
     "No test closes or clears anything (clear on a grid paper raised before repair).",
     [IMP], [("Notepad.close/clear, GridPaper.close/clear, TagIndex.close, Sticky.close", IMP)])
prop("C13", "Exit-time cleanup runs exactly when asked for",
     "Each shared object registers its own close at interpreter exit if and only if cleanup_on_exit was requested, and an "
     "explicit close withdraws that registration so it is never run twice.",
     ["configurations"], "every constructor of an index, notepad, grid paper or sticky",
     "Exit handlers run after the tests finish.",
     [IMP], [("atexit.register / unregister", IMP)])
prop("C14", "Disabling resource tracking affects shared memory only",
     "After resource tracking is disabled, shared memory registrations are ignored, and every other kind of resource is "
     "still registered and unregistered with the tracker exactly as before.",
     ["inputs", "configurations"], "every resource type and name",
     "Never called by a test; the non-shared-memory branch raised NameError before repair.",
     [MEM], [("fix_register / fix_unregister", MEM)])
prop("C15", "Constructor options reach the component they name",
     "Locking, debugging, creation and cleanup options given to a notepad, grid paper or index take effect on its index and lock under the "
     "same meaning: locking is disabled only by no_lockout, debug logging is on only with debug, and an index is "
     "created only with create, whatever other options are given; a notepad encodes with the codec its codec_factory makes. Attaching without create to an index that does not exist raises FileNotFoundError.",
     ["configurations"], "every combination of constructor options",
     "Tests construct with create=True only; the sibling constructors order their parameters differently.",
     [IMP], [("AbstractNotepad.__init__ -> index_type(...)", IMP), ("TagIndex.__init__ -> ShareableIndex.__init__", IMP)])
prop("C16", "Dumping an entry writes exactly what is stored under its key",
     "Notepad.dump and GridPaper.dump write exactly the bytes stored under the key (a notepad's encoded value, a grid paper's array data), "
     "replacing whatever the file held before, to the file named by fn, or without one to a file named after the prefix and the key "
     "with dots replaced by underscores. get_raw returns those same bytes. Dumping a key that is not there raises and leaves an existing file as it was. "
     "Neither changes anything that is stored.",
     ["inputs", "histories"], "every key, value, codec and file name",
     "Tests never dump; dumping onto an existing file or a missing key needs a history no test has.",
     [IMP, MEM], [("Notepad.dump", IMP), ("GridPaper.dump", IMP), ("AbstractNotepad.get_raw", IMP), ("fetch_block_bytes", MEM)])
# ------------------------------------------------------------ composition
prop("P01", "Pipeline steps run once each, in order, each fed the previous output",
     "Executing a composition calls every step exactly once in the order of its step mapping, giving the first step the "
     "input signal and each later step its predecessor's output, and returns the last step's output. Iterating over an "
     "execution yields exactly the successive step outputs.",
     ["programs", "inputs"], "every pipeline, every signal",
     "Two pipelines are tested; the guarantee is over all pipelines.",
     [CMP], [("itercall, execute, _do_step, call_step", CMP)])
prop("P02", "Sends see each step's output once and never alter the signal",
     "After a step runs and before the next one starts, each of its sends receives that step's output exactly once, in the order "
     "added: piped through the send's function if it has one, then placed at its target if it has one: appended to a list (or put at its pointer), assigned under its pointer in a mapping, given to a writer, or inserted into the named step. Sends never change the "
     "signal passed on or returned.",
     ["programs", "inputs"], "every pipeline, every send table",
     "One send is tested.",
     [CMP], [("_perform_sends, place_into, add_send", CMP)])
prop("P03", "Inserts override values baked into a step",
     "When a step is a partial-like object, arguments inserted into the pipeline for that step override its own positional and "
     "keyword arguments, unmentioned ones are kept, and the step's underlying function is called with the signal in the "
     "first free position. Integer insert keys become positional arguments in key order and string keys become keyword arguments.",
     ["programs", "inputs"], "every step kind, every insert table",
     "Only re.sub with fixed inserts is tested, never overlapping ones.",
     [CMP], [("call_step, _call_partial_step, _flow_signal", CMP)])
prop("P04", "A failing step is hidden only by an optional pipeline",
     "If any step or send raises, executing the composition re-raises that same exception unless the composition is optional, in "
     "which case it returns None; interrupts are always re-raised. With a tracker, the failure is recorded exactly once "
     "before that, against the step that failed.",
     ["fault_sequences", "programs"], "every step at which an exception may occur",
     "No test makes a step fail.",
     [CMP, DYN], [("execute's exception handler", CMP), ("exc_report", DYN)])
prop("P05", "Executing a pipeline does not edit it",
     "Running a composition leaves its steps, its send table and the arguments baked into its steps unchanged, and changes its inserts only through a send "
     "aimed at a step, so executing it again with the same input makes the same calls.",
     ["histories", "programs"], "every pipeline and number of executions",
     "No test executes one composition twice without editing it in between.",
     [CMP], [("call_step, _call_partial_step, _flow_signal", CMP)])
prop("P06", "Tracking is passive",
     "Attaching a tracker adds, for every present and later-added step, a send that only records the step in the tracker; "
     "it feeds nothing back into the pipeline. Without a tracker none is added, and asking to track an already tracked pipeline changes nothing.",
     ["programs", "configurations"], "every pipeline, tracked or not",
     "One tracked pipeline is tested, for two history fields.",
     [CMP], [("_add_track_sends, _add_track_send, track, _track_factory", CMP)])
prop("P07", "Building a pipeline changes exactly what was named",
     "Adding a step under a name puts it at the end, or in the place of the step already under that name, and leaves every other step, and their "
     "order, as it was; without a name it is named one more than the number of steps. Adding an insert or a send registers it for the named step, "
     "after that step's earlier ones (an insert under the same key replaces the old value), whether or not the step exists yet; a send with neither "
     "pipe nor target raises ValueError and changes nothing. A capture always holds its own step's latest output, and capturing every step gives each "
     "one its own. Reindexing names the steps 0, 1, ... in their order; index, send_index and insert_index are tuples of names in order, and "
     "function_names lists the steps' function names in order. A pipeline built without a name gets a default one, and its tracker gets the "
     "pipeline's name. Keywords given to an execution reach the hook for subclasses once, before the first step.",
     ["programs", "histories"], "every pipeline and every sequence of edits to it",
     "Two tests build pipelines by edits, and neither looks at the entries an edit should leave alone.",
     [CMP], [("add_step, add_send, add_insert, add_capture(s), reindex, index properties, __init__, itercall", CMP)])
# --------------------------------------------------------------- tracker
prop("T01", "The tracker's log file is always one complete JSON array",
     "After any number of dumps the log file is a single JSON array with one element per dump, each the serialized log. A dump that cannot "
     "serialize its log raises and leaves the file as it was.",
     ["histories", "fault_sequences"], "every number of dumps, every recorded metadata",
     "No test dumps a tracker.",
     [TRK], [("Tracker.dump", TRK)])
prop("T02", "Recorded history is what gets logged, numbered from one",
     "Each tracked call appends exactly one record to the history that the log holds, numbered consecutively from one, with per-call metadata "
     "taking precedence over standing metadata and both over the record's own fields; metadata set again replaces the value it had. Pausing affects none of this. Clearing empties that same history, deletes the log file and restarts the numbering.",
     ["histories"], "every sequence of track, set_metadata, clear and dump",
     "One test reads two records and never clears.",
     [TRK], [("Tracker.track / clear / set_metadata / __init__", TRK)])
prop("T03", "A paused tracker writes nothing",
     "While a tracker is paused, dumping has no effect on the log file; when not paused every dump writes.",
     ["histories"], "every pause state",
     "Pausing is never tested.",
     [TRK], [("Tracker.dump guard, paused property", TRK)])
prop("T04", "The trivial tracker can stand in for the real one",
     "Every recording operation of the real tracker can be called on the trivial tracker with the same arguments; there it "
     "returns nothing, raises nothing and records nothing.",
     ["inputs"], "every operation and argument list",
     "The trivial tracker is never tested.",
     [TRK], [("TrivialTracker", TRK)])
# --------------------------------------------------------------- dynamic
prop("D01", "Optional calls turn exceptions into records, and nothing else does",
     "Calling a dynamic function as optional, or a function wrapped to be optional, passes the arguments through unchanged, returns its result, and on an "
     "exception returns None after handing that exception to the recorder exactly once and marking the call as failed (a dynamic records the report on that exception, with category 'call' and the function that failed); interrupts still propagate. "
     "Called as not optional, every exception reaches the caller unrecorded.",
     ["fault_sequences", "inputs"], "every exception a wrapped function can raise",
     "One TypeError is tested.",
     [DYN, FUN], [("Dynamic.__call__, dontcare", DYN), ("optionalize", FUN)])
prop("D02", "Loading never silently replaces a loaded function",
     "Loading, compiling or defining a dynamic function that is already loaded (or, for compile_source(recompile=False), already compiled) raises AlreadyLoadedError and changes nothing unless a reload is requested. "
     "Calling one that is not loaded loads it first or, if load-on-call is off, raises UnreadyError; a loaded dynamic has the name and signature of its function. Unloading returns it to the unloaded state with no function, name or signature of it, errors or failure flags. Source that does not compile is recorded as one error of category 'compile' and flagged; interrupts while compiling reach the caller.",
     ["histories"], "every sequence of load, define, call and unload",
     "Only construct-then-call is tested.",
     [DYN], [("Dynamic.load, compile_source, define, unload, _maybe_load_on_call", DYN)])
prop("D03", "An exception report describes every frame of the traceback",
     "An exception report has one line number, one name and one filename for every traceback frame, in order from outermost to innermost, so "
     "the three lists always line up, and names the exception; a frame whose module is known is named with it. A report on no exception is empty.",
     ["inputs"], "every traceback depth and every kind of frame",
     "One message string is tested.",
     [DYN], [("exc_report", DYN)])
prop("D04", "A dynamic built from a function keeps its source and globals",
     "A dynamic object built from an existing function calls that same function and keeps that function's source, globals, name and signature. Digging for source (digsource) reads a function's own source, or that of the function a wrapper such as a partial or dynamic holds, and refuses anything else with TypeError.",
     ["programs"], "every function with retrievable source",
     "from_function is never tested; it lost source and globals before repair.",
     [DYN], [("Dynamic.from_function", DYN)])
# ------------------------------------------------------------------ func
prop("F01", "Function wrappers call what they wrap exactly once, faithfully",
     "Each call wrapper (parameter passing, splatting, triggering, interaction catching, argument stopping, greedy mapping) calls the wrapped "
     "function exactly once per use with exactly the caller's arguments in order, lets its errors through, and returns what it documents: its result, the passed state, or "
     "the default. When interaction is forbidden the wrapped function is not called at all. An optional function (optionalize) that meets an ordinary exception hands "
     "it once to its callback and returns None without calling the function again; constant functions always return their value and zero nothing.",
     ["inputs", "programs"], "every wrapped function and argument list",
     "Each wrapper is sampled on one function.",
     [FUN], [("pass_parameters, splat, triggerize, catch_interaction, argstop, gmap, constant, optionalize, zero", FUN)])
prop("F04", "Set and predicate helpers mean what they say",
     "intersection returns exactly the items found in every given collection; disjoint returns, for each given collection and in its order, exactly the items not found in all of them. "
     "filtern returns the first item satisfying its predicate and raises StopIteration when none does; naturals counts 1, 2, 3 and so on. A predicate from are_in holds of a "
     "container exactly when every item (any item, when combined with or) is in it, and one from is_it exactly of instances of the given types.",
     ["inputs"], "every collection, item, predicate and type",
     "Tests sample two or three collections per helper.",
     [FUN], [("intersection, disjoint, filtern, naturals, are_in, is_it", FUN)])
prop("F02", "Keyboard interrupts always propagate",
     "No library code catches and discards a keyboard interrupt or system exit: wherever user code or blocking work may be interrupted, the interrupt reaches "
     "the caller.",
     ["fault_sequences"], "every try block in the library",
     "Tests never interrupt.",
     [DYN, FUN, STR, IMP, CMP], [("except clauses of every module", "dustgoggles/")])
prop("F03", "One-shot iterables are consumed once",
     "Every function that accepts an iterable of items gives the same result for a generator as for a list with the same items: no "
     "argument is iterated a second time after it may have been exhausted.",
     ["inputs"], "every iterable argument, including generators",
     "Tests pass only lists, sets and tuples.",
     [FUN, STR, SCR], [("disjoint, intersection", FUN), ("separate_by, get_from_all, enumerate_as_mapping, MaybePool.map", STR), ("bulk_scrape_metadata", SCR)])
# ------------------------------------------------------------- structures
prop("S01", "Functions that compute do not modify their inputs",
     "Every public module-level function, other than the ones whose purpose is to edit (dig_and_edit, the nesting dict's conversion, and methods, which act on their own object), leaves the mappings, "
     "sequences, dataframes and arrays passed to it unmodified; mapping a pool over records leaves the records unmodified.",
     ["inputs"], "every function of the structures, pivot, func, scrape and mosaic modules and every argument",
     "No test compares an argument before and after.",
     [STR, PIV, FUN, SCR, MOS], [("all public functions", "dustgoggles/")])
prop("S02", "Digging finds every match at every level",
     "The dig functions apply the predicate to every item of the mapping and of every mapping nested in it at any depth, treating as nested exactly the values of the caller's "
     "mapping types at every level, and return all matches (or None when there are none); keys, values and items variants return the corresponding part of "
     "the same matches, and the single-result variants return one of them exactly when there is one. Given a constant instead of a predicate, "
     "the caller's comparison is applied to it and the part of the item named by the caller (key, value or both).",
     ["inputs"], "every nested mapping, predicate and choice of mapping types",
     "One JSON file and three lookups are tested, always with the default mapping type.",
     [STR], [("_evaluate_diglevel, dig_for_all, dig_for, dig_wrapper, dig_all_wrapper", STR)])
prop("S03", "dig_and_edit edits exactly the matching items, at every level",
     "dig_and_edit replaces the value of every matching item, and only those, with the setter's result for that item's own key and value, in place, at every level "
     "including inside replaced values, and returns the mapping it was given. A nesting dict has what it was made with, every level missing from it becomes a nesting dict of its own, and converted to plain dicts it has no nesting dict left at any level.",
     ["inputs"], "every nested mapping, filter and setter",
     "dig_and_edit is only run by test utilities, never checked.",
     [STR], [("dig_and_edit, NestingDict.todict", STR)])
prop("S04", "Recursive merge keeps every key and lets the second mapping win",
     "A recursive merge contains exactly the keys of either input; a key in one input keeps its value, a key in both takes the second's value unless both values are "
     "mappings of the caller's mapping types, in which case they are merged by the same rule at every level.",
     ["inputs"], "every pair of nested mappings, every choice of mapping types",
     "rmerge is not tested.",
     [STR], [("rmerge", STR)])
prop("S05", "Splitting functions partition their input",
     "Splitting a collection or dataframe by a predicate puts every element in exactly one of the two results: the first gets those satisfying the predicate, "
     "the second the rest, in their original order. Extracting constants splits a dataframe's columns (or rows) the same way: those whose values all equal each other, missing values left out or counted as the caller asks, are the constants, and the dictionary of constants gives, under its own label, "
     "the value each of them has throughout (not a missing value where missing values are ignored and it has others).",
     ["inputs"], "every collection, dataframe and predicate",
     "One dataframe and one predicate are tested.",
     [STR, PIV], [("separate_by", STR), ("split_on, extract_constants", PIV)])
prop("S06", "A hash dict returns an equivalent value for every assigned key",
     "After assigning an item under a key, looking that key up returns an item with the same hash value, and each distinct hash value is stored once. "
     "Reassigning a key makes it refer to the new item's hash.",
     ["histories", "inputs"], "every sequence of assignments",
     "HashDict is not tested.",
     [STR], [("HashDict.__setitem__ / __getitem__", STR)])
prop("S07", "A pool returns exactly one outcome per record, in every mode",
     "Mapping a function over argument records calls the function once per record and produces exactly one outcome for each record under that record's own key, its result or the "
     "exception it raised, whether run serially, in parallel, or in parallel chunks. One record's failure never discards or replaces another's outcome: getting results with "
     "exceptions filtered out drops exactly the failed records, and getting them with exceptions raised raises a record's own exception. A failure to fetch results appears among the outcomes, results can be "
     "got more than once, and the readiness reported reflects the results themselves; a terminated pool offers no results. A single applied call is made with the arguments given, and its result is that call's own result or exception.",
     ["inputs", "fault_sequences", "configurations"], "every record list, failing records included, every mode",
     "The pool is not tested.",
     [STR], [("MaybePool.map/apply/get, MaybeResult, _chunkwrap", STR)])
prop("S08", "A pool's workers are always shut down",
     "Mapping into a pool terminates the pool on every exit, including when submitting or collecting raises, and only after the results have been collected; "
     "on the normal path it stops accepting work and waits for it before collecting.",
     ["fault_sequences"], "every exit of map_into_pool",
     "Not tested.",
     [STR], [("map_into_pool", STR)])
prop("S09", "Flattened records carry exactly their own ancestors' labels",
     "Each flat record made from a nested mapping contains its own fields plus one label per ancestor level, under that level's name; "
     "labels and level names used in one branch never leak into a sibling branch.",
     ["inputs"], "every nested mapping and list of level names",
     "One two-level mapping is tested.",
     [STR], [("to_records", STR)])
prop("S10", "unnest keeps every leaf once, under its joined path key",
     "Flattening a nested mapping returns a flat dictionary with exactly one entry for every leaf whose joined path is distinct, named by the keys on its path joined by the "
     "separator, with the leaf's own value; no leaf of any level is lost. Only values of the caller's mapping types are flattened, at every level.",
     ["inputs"], "every nested mapping",
     "One nested mapping is tested.",
     [STR], [("unnest", STR)])
prop("S11", "Small mapping helpers keep order and values",
     "Inserting after a key keeps every other item in its original order; reindexing and enumerating a mapping keep its values in order under the new keys; getting from several "
     "mappings returns each one's own value or the default; getting an item or attribute tries the key and falls back as documented; listing wraps only what is not already a list.",
     ["inputs"], "every mapping, key and position",
     "Each helper is tested on at most one mapping, several on none.",
     [STR, FUN], [("insert_after, reindex_mapping, enumerate_as_mapping, get_from_all, get_from, listify, getitemattr", STR)])
# ------------------------------------------------------------------ pivot
prop("V01", "Downcasting accepts a type only after checking range and both tolerances",
     "Downcasting returns data in a different type only if all values were first found to fit that type's bounds and, for inexact input, both the absolute and relative errors were "
     "found within the caller's tolerances; data with nonfinite values never become a plain integer type. Every return on success has the same form: recast data with its two errors. "
     "Empty data and data without finite values are converted without failing.",
     ["inputs"], "every array, tolerance and option",
     "downcast is not tested.",
     [PIV], [("downcast, _downcast_int_array, check_in_dtype_bounds, _maybeseries", PIV)])
prop("V02", "Duplicate columns are dropped only if really equal",
     "A column is dropped as a duplicate only after all its values were compared with those of another column of the same name, and one column of each name "
     "stays; same-named columns with different values, also where a value is missing from one of them, raise ValueError.",
     ["inputs"], "every dataframe with repeated column names",
     "Not tested; the comparison compared the data with itself before repair.",
     [PIV], [("check_and_drop_duplicate_columns", PIV)])
prop("V03", "Downcasting a dataframe keeps its columns, rows and labels",
     "Downcasting a dataframe gives one series per column, in the column order and under the column's name, each with the row labels of the input (whatever they are), "
     "and the caller's tolerances and nullable-integer option reach the conversion of every column.",
     ["inputs"], "every dataframe, row index, column mix and combination of options",
     "Not tested; rows were misaligned for any dataframe without a default index before repair.",
     [PIV], [("downcast_df", PIV)])
prop("V04", "Columns are selected by type, signed or not, in frames and Series alike",
     "typed_columns selects exactly the columns whose type's name starts, up to case, with one of the requested names, with or without a leading 'u' for unsigned; numeric_columns "
     "selects every integer and float column, numpy's or pandas' own, and no other; a Series is treated like a column of its type.",
     ["inputs"], "every numpy and pandas column type",
     "Not tested; unsigned Series were refused before repair.",
     [PIV], [("typed_columns, numeric_columns", PIV)])
prop("V05", "Reshaping helpers keep every value with its own row, column and label",
     "Comparing two frames' keys applies the requested set operation to the first's with the second's, over the given columns; unique records pair each column with its own value; "
     "unpacked list columns keep their rows' labels and are named for the column they replace, leaving the caller's frame alone; smashed values are named for their own keys and variable, and only rows whose keys all have "
     "requested values appear; squeezing a series gives one value per distinct label (missing ones included), by the requested aggregation, else any of boolean and the first of other values, whatever its type or name; "
     "duplicating a block repeats every row the requested number of times and keeps the columns' types; string functions get the arguments given.",
     ["inputs", "configurations"], "every frame or series, whatever its index, column names and types, and every option",
     "None of these functions is tested; types and labels were lost, and string series refused, before repair.",
     [PIV], [("junction, smash, unpack, unpack_column, unique_to_records, squeeze, dupe_df_block, pdstr", PIV)])
# ----------------------------------------------------------------- mosaic
prop("M01", "Chunked sorting reads every row exactly once",
     "The value windows used for chunked sorting tile the whole value range with no gap or overlap, each window's rows are selected by one inclusive and one exclusive bound, "
     "and a row group is skipped only if its statistics show that none of its rows can be in the window.",
     ["inputs"], "every column of values and placement of window boundaries, including values equal to a boundary",
     "mosaic is not tested.",
     [MOS], [("read_between, sort_chunked", MOS)])
prop("M02", "Chunked sorting and bounded reads honour the requested options",
     "Chunks are sorted by the sort column in the requested direction and written in that direction's order, as many windows are made as chunks requested; "
     "the caller's row group size, dictionary, version, schema, processing and verbosity options take effect where they are named and only when given, each chunk being processed "
     "once, already sorted; "
     "bounded reads return exactly the requested columns even when the bounded field is not among them; and nothing is printed when verbosity is off.",
     ["configurations"], "every combination of options",
     "mosaic is not tested; direction, verbosity and columns were ignored before repair.",
     [MOS], [("sort_chunked, read_between", MOS)])
prop("M03", "Parquet metadata tables describe each column once and correctly",
     "Metadata tables have one row per column, made only from that column's own records, in which sizes and counts are summed over row groups, no field occurs twice and every "
     "named column carries the field it is named for; extended tables also have every other field that is the same in all row groups.",
     ["inputs"], "every parquet file, whatever its number of columns and row groups and whichever fields agree between them",
     "mosaic is not tested; a misnamed field silently becomes an empty column.",
     [MOS], [("meta_record_df, _flatten_meta_df, meta_column_df", MOS)])
# ----------------------------------------------------------------- scrape
prop("R01", "Files the library opens are closed on every exit",
     "Every file or writer opened by the library is closed when the operation that opened it ends, including when reading, writing or processing raises.",
     ["fault_sequences"], "every opener and every exit path",
     "No test makes I/O fail.",
     [SCR, MOS, TRK, IMP], [("get_label_text, head_file", SCR), ("sort_chunked", MOS), ("Tracker.dump", TRK), ("Notepad.dump, log", IMP)])
prop("R02", "Label reads are bounded by the caller's limit",
     "Reading a label or the head of a file reads at most the requested number of bytes from it, in one pass from its start or current position, so that huge files on "
     "networked filesystems are never read whole.",
     ["inputs"], "every file size and limit",
     "scrape is not tested.",
     [SCR], [("get_label_text, head_file, trim_label", SCR)])
prop("R03", "Data is never executed as code",
     "Text scraped from files and bytes decoded from shared memory are never evaluated as code; only the dynamic function module compiles source, and only "
     "the pickle codec unpickles.",
     ["inputs"], "every label text and block content",
     "A test cannot show absence of an execution path.",
     [SCR, COD, DYN], [("literal_eval in make_scraper and ast codec", SCR), ("codecs", COD)])
prop("R04", "Scraping never fails on odd field text",
     "Scraping a pattern returns None when the text does not contain it, otherwise the matched group as a Python literal if it is one and as the raw text if it is not; "
     "no literal-parsing error escapes. Scraping many patterns returns one entry per requested field, with supplementary results taking precedence. "
     "Scraping a subframe block gives its numbers as integers, in order, however they are padded.",
     ["inputs"], "every text and pattern with a group",
     "scrape is not tested; unhashable literals escaped as TypeError before repair.",
     [SCR], [("make_scraper, scrape_patterns", SCR)])
prop("R05", "A trimmed label ends with its first known ending",
     "Trimming a label gives the text of the file's head up to and including the first occurrence of the first known ending (an END line, else a run of null bytes) that occurs "
     "in it, cut in bytes before it is decoded. Without any known ending the whole head is returned, or ValueError raised exactly where the caller asked for that; an ending that is found never raises.",
     ["inputs", "configurations"], "every head of a file, with and without raise_for_failure",
     "scrape is not tested.",
     [SCR], [("trim_label, KNOWN_LABEL_ENDINGS", SCR)])
# -------------------------------------------------- declined (see DESIGN.md)
prop("N01", "Waiting for the lock is fair and always ends",
     "Every process that asks for an index's lock gets it eventually, and processes get it in the order in which they asked, as long as every holder "
     "gives it back.",
     ["schedules"], "every fair interleaving",
     "Liveness over unbounded schedules.",
     [IMP], [("SlidingLock.wait and the spin loop", IMP)])
prop("N02", "Hard-killed processes leak no shared memory",
     "When a process using shared objects is killed, the blocks it created are eventually removed or remain usable by the others.",
     ["crash_points"], "every kill point",
     "Tests never kill a process mid-operation.",
     [IMP, MEM], [("multiprocessing's resource tracker, cleanup_on_exit", IMP)])
prop("N03", "Row and value contents survive chunked sorting numerically",
     "The sorted output has the same multiset of rows as the input for every numeric type, including values that lose precision when window edges are "
     "computed in floating point.",
     ["inputs"], "every numeric column",
     "mosaic is not tested.",
     [MOS], [("np.linspace windows", MOS)])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
