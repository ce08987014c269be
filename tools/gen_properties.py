#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Kept as a script so that the file is easy to review and edit."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None},
    })

AH, AC = "arena/arena.hpp", "arena/arena.cc"
prop("C01", "Arena memory is in-block, aligned, disjoint and preserved",
  "Every successful arena request (raw bytes, object, array, or through the memory resource) returns memory of at least the requested size that lies inside one block obtained from the configured block allocator, aligned to 8 bytes, to any explicitly requested alignment (8, 16 or 32) and to the created type's own alignment up to 32. It never overlaps block bookkeeping, cleanup records or another live allocation, and its bytes keep what the caller stored until the arena is reset or destroyed.",
  ["inputs", "histories", "configurations"],
  "all sequences of allocation requests (sizes 0..several blocks, alignments 8/16/32), with and without cleanups and resets, for all block-size options and block addresses",
  "the tests allocate a handful of fixed sizes that never land on a block boundary with an alignment above 8; overlap and overflow depend on the exact fill level reached by the history",
  [AH, AC, "align/align.hpp"],
  [("bump pointer from the front, cleanup records from the back", "arena/arena.hpp Arena::Block"), ("choice of new block size", "arena/arena.cc Arena::newBlock")],
  ["returned pointers", "block_alloc/block_dealloc callbacks", "caller-written patterns"],
  [("_pos", "first free byte", "Arena::Block"), ("_limit", "start of cleanup records", "Arena::Block")])
prop("C02", "Arena cleanups run exactly once, newest first, while memory is valid",
  "Every created object that needs destruction, every owned object and every registered cleanup is run exactly once, when the arena is next reset or destroyed, in the reverse of registration order across all blocks and while the memory it refers to is still valid. Nothing is run for trivially destructible or destruction-exempt types, for requests that failed, or a second time after a reset; the reported number of pending cleanups is exact. (Cleanups must not make requests to the arena while it is being reset or destroyed.)",
  ["histories", "inputs", "configurations"],
  "all sequences of create / own / register / allocate / reset / destroy over all block-size options and fill levels",
  "the tests register at most three cleanups in hand-built blocks and do not observe order, repeated resets, or records that spill into a new block",
  [AH, "arena/arenahelper.hpp"],
  [("cleanup records stacked from the block end, run from newest", "Arena::Block::run_cleanups"), ("destructor selection", "ArenaHelper, Arena::RegisterDestructor")],
  ["destructor and cleanup side effects"])
prop("C03", "Arena blocks are sized, held and returned exactly as documented",
  "Each block obtained from the block allocator goes back through the configured deallocator exactly once: all but the first at reset, everything at destruction, and never while it still holds live data. A new block is taken only when the current one cannot hold the request, is large enough for it, and follows the configured first / normal / huge sizes; the reported allocated space equals the total size of the blocks held, the reported remaining space equals the unused bytes of the current block, and reset returns the total held before it and leaves the arena equivalent to a fresh one owning that first block.",
  ["histories", "inputs", "configurations"],
  "all sequences of requests and resets over all combinations of first/normal/huge block sizes",
  "tests check a few scripted block chains through private helpers; equivalence after reset, repeated resets and the accounting across histories are not compared with any model",
  [AH, AC], [("block chain", "Arena::_last_block"), ("space accounting", "Arena::_space_allocated")],
  ["block_alloc/block_dealloc callbacks", "SpaceAllocated", "SpaceRemains", "Reset() result"])
prop("C04", "Arena survives block-allocation failure and impossible sizes",
  "When the block allocator fails, or a size or element count is impossible to satisfy, the request returns null (never a pointer to too little memory) and damages nothing: earlier allocations and pending cleanups are untouched, the accounting stays exact, nothing half-made is left behind undestroyed, and later requests succeed again once memory is available. The memory resource reports the same failure by throwing bad_alloc. A request of more bytes than there are addresses is reported once to the logger, which may be absent; a request that succeeds is not.",
  ["fault_sequences", "histories", "inputs"],
  "every subset of failing block allocations over every short history of requests, and all sizes at the limits of the 64-bit range",
  "the tests use an allocator that always fails from the start; failures in the middle of a history or between an object and its cleanup record never occur",
  [AH, AC], [("null propagation", "Arena::newBlock / allocateAligned / addCleanup / Create")],
  ["returned pointers", "destructor effects", "SpaceAllocated", "cleanups", "logger_func"])
prop("C05", "Arena address classification is exact",
  "For any address, asking the arena about it reports exactly whether the address belongs to a held block's bookkeeping header, to handed-out memory, to free memory, to cleanup records, or to no block at all, in every state the arena can reach.",
  ["histories", "inputs"],
  "every byte address in and around every held block, after every short history of requests and resets",
  "the test probes ten addresses in a one-block arena; other blocks, exact boundaries and post-reset states are never probed",
  [AC], [("offset comparison per block", "Arena::check")], ["check(ptr) result"])
prop("C06", "Moving an arena transfers everything and leaves nothing behind",
  "After an arena is move-constructed from another, the new one holds every block, pending cleanup, accounting value, hook cookie and the memory resource, all earlier pointers stay valid, and memory obtained through the existing memory resource comes from and is released with the new arena. The moved-from arena owns and reports nothing: destroying it runs no cleanup, returns no block and signals no hook, whichever of the two is destroyed first.",
  ["histories", "configurations"],
  "all histories before and after a move (including chains of moves), both destruction orders, with and without hooks",
  "the tests move an arena once and look at private fields; they never allocate through the moved resource nor destroy with hooks installed",
  [AH], [("move constructor", "Arena::Arena(Arena&&)"), ("resource back-pointer", "Arena::memory_resource")],
  ["hooks", "block callbacks", "get_memory_resource()->get_arena()"])
prop("C07", "Arena memory resource serves standard pmr containers faithfully",
  "Standard polymorphic-allocator containers built on an arena's memory resource, or created in the arena itself, behave exactly as on the default heap, with all their storage inside that arena and aligned as requested (up to 32 bytes). Deallocation through the resource changes nothing, and two resources compare equal exactly when they serve the same arena.",
  ["histories", "inputs"],
  "all short operation sequences on pmr vector/string/list/map containers over small block sizes",
  "tests build a few containers and never compare contents with a heap-backed twin over growth across blocks",
  [AH], [("do_allocate/do_deallocate/do_is_equal", "Arena::memory_resource")], ["container contents", "check(ptr)"])
prop("C08", "Arena hooks report every event once with correct figures",
  "With hooks installed, creation is signalled once, each successful caller-facing request once with its size and type, each new block once with its ordinal and size, each reset and the destruction once with the total space held and the total unused bytes of all blocks at that moment, always with the cookie the creation hook returned. Failed requests are not reported as allocations, and any subset of hooks may be absent without changing the arena's behaviour.",
  ["histories", "configurations", "fault_sequences"],
  "all short histories (with and without block-allocation failures) over all subsets of installed hooks",
  "the hook test counts four hooks in one scripted run and ignores every figure passed to them",
  [AH, AC], [("hook call sites", "Arena::init / Reset / ~Arena / AllocateAligned / Create / CreateArray / newBlock")], ["hook arguments"])
MH = "arena/metrics.hpp"
prop("C09", "Arena metrics equal the sum of observed events",
  "With the metrics probes installed, the calling thread's metrics equal the exact totals of the arena events since its last report: counts of creations, destructions, allocations, blocks and resets, bytes allocated, used, wasted and resettled, the size and lifetime histograms (each value counted in the first bucket whose bound is not below it, fractions of a millisecond included, in none above the last) and bytes per creation site. Reporting adds exactly those amounts to the process-wide metrics and zeroes the thread's own; resetting zeroes exactly the metrics it is called on.",
  ["histories", "inputs"],
  "all short histories of arena events, reports and resets over sizes and lifetimes at every histogram boundary, with several arenas and creation sites",
  "tests cover one scripted history; bucket boundaries, several locations, and report/reset in every order are not",
  [MH, "arena/metrics.cc"], [("probe functions", "metrics_probe_on_arena_*"), ("report", "LocalArenaMetrics::report_to_global_metrics")],
  ["public fields of local and global metrics"])
prop("C10", "Concurrent metric reports are race-free and lose nothing",
  "Any number of threads may use their own arenas and report their metrics to the process-wide metrics at the same time: in every interleaving there is no data race, nothing crashes, and afterwards every process-wide figure, including bytes per creation site, equals the sum of what the threads reported. If a thread resets the process-wide metrics meanwhile, every figure is still a sum of whole reports: all those that no reset can have discarded, none that was made before a reset.",
  ["schedules"],
  "all interleavings of 2-3 reporting threads up to a preemption bound, with common and distinct creation sites, first-time and repeated",
  "the existing test starts threads once on whatever schedule the OS gives; map insertion races and lost updates depend on the interleaving",
  [MH, "arena/metrics.cc"], [("atomic counters", "GlobalArenaMetrics"), ("per-site map update", "LocalArenaMetrics::report_to_global_metrics")],
  ["public fields of the global metrics"])
prop("C11", "Metrics text report is produced for every counter state",
  "Rendering the process-wide metrics as text succeeds for every state of the counters, including before anything was recorded; it shows each counter's value, for both histograms the cumulative share of recorded values up to each bucket bound in whole percent (0 when there are none), and every creation site with its bytes.",
  ["inputs", "histories"],
  "all combinations of counter values over small and boundary domains, including zero totals",
  "the test renders once after a busy run; zero totals (division) and other combinations never occur",
  [MH], [("text rendering", "GlobalArenaMetrics::string")], ["returned text"])

SH, ASH = "string/string.hpp", "string/arena_string.hpp"
prop("C12", "String operations match std::basic_string on every history",
  "After any sequence of constructions and modifying operations (assign, append, insert, erase, replace, resize, reserve, push/pop, clear, substr, swap, move, concatenation, shrink), with any sizes, positions and character width, a string has the same contents, size, return values and out-of-range exceptions as std::basic_string with the same history, is zero-terminated, and reports a capacity not below its size.",
  ["histories", "inputs", "configurations"],
  "all operation sequences up to a depth over sizes around every storage threshold, positions including out-of-range, aliasing-free arguments, char/wide characters, release and debug layouts",
  "tests compare random samples in the debug layout only, where the in-place small representation is switched off",
  [SH], [("three-way storage core", "string_core"), ("algorithms", "basic_string")], ["contents, size, return values, exceptions"],
  [("small/medium/large", "storage category by size", "string_core::category")])
prop("C13", "String copies are isolated and share storage safely",
  "Copies of a string are independent values: no operation on one (write through reference or iterator, growth, shrink, assignment, move, destruction) ever changes what another observes, in any order and whatever storage they share. All storage is released exactly once, when the last user is gone, and nothing is read or written after that.",
  ["histories"],
  "all sequences of copy/assign/move/swap/mutate/destroy over 3 strings of sizes around the sharing threshold",
  "tests copy a long string once or twice; isolation depends on who mutates first and on reference counts reached by longer histories",
  [SH], [("reference counting and unshare", "string_core::RefCounted, unshare, mutableDataLarge")], ["contents of all strings", "heap ledger"])
prop("C14", "String search and comparison agree with std::basic_string",
  "For every haystack, needle, character set, start position and length, find, rfind, the find-first/last-of families, compare, contains, starts_with, ends_with and all relational operators (between strings, C strings, string views and std strings) return what std::basic_string / string_view returns, embedded zero characters included.",
  ["inputs"],
  "all strings up to a length over a 2-3 letter alphabet (including NUL), all needles, all positions including beyond the end and npos",
  "tests use random samples; skip-table and boundary mistakes need specific periodic needles and positions",
  [SH], [("Boyer-Moore-like find", "basic_string::find"), ("others", "rfind, find_first_of, ..., compare")], ["return values"])
prop("C15", "Strings survive allocation failure without damage or leaks",
  "If memory for a throwing string operation cannot be obtained, or the requested length cannot exist, the operation throws (bad_alloc or length_error) and leaves the string and all others readable, destructible and reusable with nothing leaked or freed twice; an appending, inserting or reserving operation that throws leaves the contents as they were.",
  ["fault_sequences", "histories"],
  "every single failing allocation in every short operation history, and lengths up to the size limit",
  "no test injects allocation failures",
  [SH, ASH], [("checked allocation wrappers", "checkedMalloc/checkedRealloc/smartRealloc"), ("size arithmetic", "expandNoinit, RefCounted::create")], ["exceptions", "contents", "heap ledger"])
prop("C16", "String operations accept parts of the string itself",
  "Passing a string, a pointer or an iterator range into the very string being modified to assign, append, insert, replace, += or concatenation gives the same result as passing an independent copy of those characters, in every storage state and whether or not the operation must grow or un-share the storage.",
  ["inputs", "histories"],
  "all (operation, position, self-range) combinations over sizes around every storage threshold, tight and slack capacity, shared and unshared",
  "tests cover a single self-append and self-replace",
  [SH, ASH], [("alias detection", "basic_string::append / replaceAliased / insertImpl")], ["contents"])
prop("C17", "String stream I/O, conversion, hashing and formatting agree with std",
  "Reading with >> and getline (any delimiter, width, buffer content and stream state), writing with <<, converting to and from std strings and views, hashing and formatting give the same contents, stream state and output as for std::string holding the same characters, embedded zeros included; equal strings hash equally.",
  ["inputs", "histories"],
  "all short stream contents over a small alphabet, widths, delimiters and prior string states; lengths around storage and buffer thresholds",
  "tests read a few lines; buffer-boundary line lengths, end-of-file combinations and widths are not covered",
  [SH, ASH], [("getlineImpl, operator>>, operator<<", SH), ("hash and formatter specialisations", SH)], ["contents, stream state, output"])
prop("C18", "Cloned strings can be used by another thread",
  "A string obtained by cloning shares no storage with the original or its copies, so one thread may read, modify and destroy the clone while others use the originals, in every interleaving without a data race and with each seeing only its own changes.",
  ["schedules", "histories"],
  "all interleavings of operations of 2-3 threads on clones and originals of sizes around every storage threshold, with prior sharing",
  "the test clones once and compares contents on one thread",
  [SH], [("deep copy", "basic_string::clone")], ["memory accesses", "contents"])
prop("C19", "Arena strings match std::string and live only in their arena",
  "After any sequence of operations arena strings have the same contents, sizes, return values and exceptions as std::string with the same history, copies are isolated, and all character storage beyond the in-place small form lies in memory handed out by the string's own arena: nothing goes to or comes from the global heap, and nothing is freed before the arena.",
  ["histories", "inputs", "configurations"],
  "all operation sequences up to a depth over sizes around every storage threshold, sharing states and several arenas",
  "tests check a few scripted sequences; the alias and sharing paths that fall back to a default allocator are not reached",
  [ASH, SH], [("allocator-carrying core", "arena_string_core")], ["contents", "check(ptr)", "heap ledger"])

VH = "container/stdb_vector.hpp"
prop("C20", "Vector operations match std::vector on every history",
  "After any sequence of constructions, assignments, insertions, emplacements, erasures (by position, range, value, predicate), resizes, reserves, shrinks, fills, swaps, copies and moves, with any counts (zero included), positions and input ranges of any iterator kind, the vector holds the same elements in the same order and returns the same values as std::vector with the same history, for every class of element type it accepts.",
  ["histories", "inputs", "configurations"],
  "all operation sequences up to a depth over small sizes and capacities, all positions and counts, for trivial, relocatable, movable, copy-only and move-only element types",
  "tests run one scripted sequence per operation and mostly with int",
  [VH], [("three-pointer core and shifting", "core, move_backward/move_forward"), ("modifiers", "stdb_vector")], ["contents, size, return values"])
prop("C21", "Vector element lifetimes are exact",
  "Every element a vector holds is a live object constructed exactly once and destroyed exactly once: no operation reads or assigns to a dead or never-constructed slot, destroys an element twice, forgets one that leaves the vector, or leaves memory allocated after the vector is gone. (Elements moved to new storage may leave moved-from shells undestroyed only where the type owns nothing after a move.)",
  ["histories", "configurations"],
  "all operation sequences up to a depth with instrumented element types of every class",
  "tests count nothing; double destruction of a string or a leak only shows for particular histories under the sanitizer",
  [VH], [("destroy/construct pairs around shifting", "destroy_range, move_range_*, copy_range")], ["instrumented element events", "heap ledger"])
prop("C22", "Vector capacity guarantees hold",
  "Capacity is never below size, reserve gives at least what was asked and never shrinks, no operation moves elements to new storage while the result still fits the capacity, growth by repeated appending at least multiplies the capacity by about one and a half, shrinking to fit gives capacity equal to size, and write buffers and unchecked variants hand out exactly the requested slots within the capacity.",
  ["histories", "inputs"],
  "all operation sequences up to a depth over element sizes from 1 byte to beyond a growth threshold",
  "tests check a few capacities for int; other element sizes and thresholds are not reached",
  [VH], [("growth policy", "compute_next_capacity/compute_new_capacity"), ("reallocation", "realloc_with_move")], ["capacity(), data()", "allocation requests"])
prop("C23", "Vector survives allocation failure",
  "If memory for a vector operation cannot be obtained it throws bad_alloc; the vector stays valid, readable and destructible with no element lost track of, leaked or destroyed twice, and appending, inserting, reserving, resizing and shrinking operations leave contents as they were before the failed call. The same holds when constructing an element throws, or the predicate or comparison of an erasing operation (which may then have erased some elements), for element types which can be moved without failing (relocating other types must not fail; the program is terminated if it does).",
  ["fault_sequences", "histories"],
  "every single failing allocation in every short operation history, for several element classes",
  "no test injects allocation failures",
  [VH], [("allocation checks", "core::allocate, realloc_with_move, realloc_and_emplace_back")], ["exceptions, contents, heap ledger"])
prop("C24", "Vector operations accept their own elements as arguments",
  "Appending, inserting (one or many), emplacing, assigning, resizing with, or erasing by a value that is itself an element of the vector gives the same result as using an independent copy of that value, whether or not storage must grow or elements must shift.",
  ["inputs", "histories"],
  "all (operation, position, element index) combinations over sizes with full and slack capacity, for several element classes",
  "tests never pass an element of the vector",
  [VH], [("construct before release", "realloc_and_emplace_back"), ("insert/resize", "stdb_vector::insert")], ["contents"])
prop("C25", "Vector iterators, comparison and formatting are faithful",
  "Forward, constant and reverse iterators visit exactly the elements in order and obey random-access arithmetic and comparison; equality and ordering between vectors are element-wise and lexicographic, consistent with each other and with std::vector; formatting prints the elements in order.",
  ["inputs"],
  "all pairs of vectors up to a length over a small alphabet, all iterator offsets",
  "tests iterate over a few fixed vectors",
  [VH], [("IteratorT", VH), ("operator== / operator<=>", VH)], ["iterator and comparison results"])

OH, OC = "optparse/optparse.hpp", "optparse/optparse.cc"
prop("C26", "Command-line parsing yields exactly the values given",
  "For any declared options and any argument list, parsing stores for each destination exactly the value(s) the arguments give it: separate or name=value form, short or long names, repeated options (last wins), appended and comma-separated lists in order, counts, flags, choices (invalid choices rejected) and numeric conversion of the leading number with 0 for non-numbers and saturation at the type's limits. An option takes the argument behind it when that is no option; an empty name= also takes the next argument whatever it is and is left over when there is none. Values never given are absent, and a valued option without a value is refused with an exception.",
  ["inputs", "configurations"],
  "all argument lists up to a length over a vocabulary of option, value and malformed tokens, for several option tables and prefixes",
  "tests parse about a dozen fixed command lines",
  [OH, OC], [("token classification and dispatch", "OptionParser::parse_args/handle_opt"), ("conversion", "parse_value/process_opt")], ["ValueStore contents, exceptions"])
prop("C27", "Unrecognised arguments are passed through intact and in order",
  "Every argument that is neither a declared option nor a value consumed by one appears exactly once, in order and as the original pointer, in the leftover list, and the rebuilt argument vector is the program name followed by them; no consumed argument appears there. Parsing again starts from a clean slate.",
  ["inputs", "histories"],
  "all argument lists up to a length over a vocabulary of known, unknown and positional tokens, parsed once or twice",
  "tests check one or two leftover lists",
  [OH, OC], [("leftover collection", "OptionParser::parse_args/handle_opt"), ("raw argv", "get_raw_argc/get_raw_argv")], ["invalid_args(), get_raw_argv()"])
prop("C28", "Option registration rejects or replaces conflicts cleanly",
  "Registering an option whose name is malformed for the parser's prefix, or already taken under the error policy, throws and leaves the parser exactly as it was and usable; under the replace policy the newest registration answers to the name. A copied or moved parser answers as the original did, whether or not that still exists. Only the documented prefix characters are accepted by every constructor, and options incomplete at parse time (no action or destination, choices on a non-choice type) are refused.",
  ["histories", "configurations"],
  "all short sequences of registrations over overlapping short/long/malformed names, all prefixes and both policies, each followed by parsing",
  "tests check that one duplicate throws and do not use the parser afterwards",
  [OH, OC], [("registration maps", "OptionParser::add_option"), ("validation", "Option::validate")], ["exceptions, later parses"])
prop("C29", "Command line, defaults and environment apply in fixed precedence",
  "For every option a value given on the command line wins, otherwise its default applies, otherwise the named environment variable if set; a source of lower precedence never changes, adds to or overrides a value already provided by a higher one, and each applies the same conversions as the command line. This holds on every parse, however often the parser is reused.",
  ["inputs", "configurations", "histories"],
  "all combinations of present/absent command line, default and environment over every action and type, parsed repeatedly",
  "tests cover single cases of default and environment",
  [OH, OC], [("default and environment passes", "OptionParser::parse_args")], ["ValueStore contents"])
prop("C30", "Usage, help and version texts list exactly what was declared",
  "The usage text names the program and each option in declaration order, the help text lists every option's names, type and help message, aligned and in order (including the automatically added usage, help and version options after a parse, unless their names were taken), and the version text is the one configured or the default naming the program; texts set by the caller are returned unchanged, also after parsing.",
  ["configurations", "histories"],
  "all option tables up to a size, with and without caller-set texts, before and after parsing",
  "tests compare one usage and one help text",
  [OH, OC], [("text assembly", "format_usage/format_help/format_verison")], ["returned texts"])
prop("C31", "Alignment rounding and size literals are exact",
  "Rounding up to a power of two or to any block size gives the smallest multiple not below the input whenever it is representable, and the kilo/mega/gigabyte literals equal the digits times the binary unit.",
  ["inputs"],
  "all inputs in a dense low range, around every power of two and at the top of the 64-bit range, for every supported alignment and many block sizes",
  "tests check a handful of numbers",
  ["align/align.hpp", "memory.hpp"], [("AlignUpTo, AlignUp", "align/align.hpp"), ("literals", "memory.hpp")], ["returned values"])
prop("C32", "Arena constructs objects exactly as asked, in place",
  "Creating an object in an arena constructs exactly one object of that type in the memory returned, handing every argument on as it was given (the same object, with the same value category), plus the arena as the first argument, or the arena's memory resource as the last one, where the type's constructor takes it (also after the arena was moved). Without arguments objects are value-initialised, and creating an array does this for each of its elements in order. Afterwards exactly the objects whose type needs destruction and does not skip it are destroyed, each once, and a refused creation leaves nothing constructed behind.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "all classes of constructor and destruction tags x all argument lists of all value categories x all fill levels, histories with resets, moves and failing blocks",
  "tests create a handful of objects with one kind of argument and read one or two members; value categories, elements of arrays and the arguments added by the arena are not observed",
  ["arena/arena.hpp", "arena/arenahelper.hpp"], [("construction channel", "Arena::Construct / Create / CreateArray"), ("tags", "ArenaHelper")], ["constructor and destructor calls of observed classes"])
prop("C33", "Arena strings on the default memory resource give back what they took",
  "In release builds arena strings may also live on the default memory resource (debug builds refuse this with logic_error, which ends the program where a constructor is declared noexcept). There they match std::string under every operation like any arena string, every allocation is returned to the resource exactly once, with the size it was requested with, no earlier than its last user goes away and no later, also when strings share storage, when an allocation fails, and when strings of an arena are copied, moved and swapped with them; nothing else touches the global heap.",
  ["histories", "inputs", "fault_sequences"],
  "all operation sequences up to a depth over sizes around every storage threshold and sharing states, every failing allocation",
  "tests run in debug builds, where the default resource is refused: the code that returns storage is never executed by them",
  ["string/arena_string.hpp", "string/string.hpp"], [("return of storage", "arena_string_core::destroyMediumLarge / RefCounted::decrementRefs / arena_smartRealloc")], ["contents", "ledger of the default resource"])
prop("C34", "The value store answers with exactly what was put in",
  "For any history of setting, appending one value or a list of values, and counting, a value store gives for each destination exactly the value last set or counted (an increment starts at one), with its type, and exactly the values appended to it, in order; values and lists of a destination do not affect each other or other destinations; a destination which got nothing has neither, and user_set names exactly those which got something. Lists handed out stay as they were, and a moved store answers the same.",
  ["histories", "inputs"],
  "all histories of operations up to a depth over one to three destinations, lists and numbers of destinations of every length",
  "tests look at values stored by a parse of fixed arguments; the store's own operations, in particular appending lists, are not used by any test",
  [OH], [("value and list maps", "ValueStore::set/append/increment/get/get_list/user_set")], ["get, get_list, user_set"])
prop("C35", "String capacity guarantees hold",
  "For strings of every character type and arena strings: reserving gives at least the capacity asked for and never reduces it. While the result fits the capacity, no appending, inserting, replacing, resizing, erasing, assigning or clearing operation moves the text of a string that shares its storage with no other, nor changes its capacity. Growing a full string by appending or inserting multiplies its capacity by at least about one and a half, so that long texts are built with few moves. Shrinking to fit never raises the capacity and leaves at most half as much spare room as text (arena strings do not shrink). Copying a long string shares its storage until one of the two changes, moving and swapping hand storage over, and concatenating with a string about to expire uses its spare room. (Short texts live in the string object and move with it; operations whose argument lies in the string itself or comes from a single-pass input are excepted; for arena strings a destroyed copy still counts as sharing.)",
  ["histories", "inputs"],
  "all strings of every length up to 300 and around long thresholds in every storage state, every reservation around them, every growing and shrinking operation within the capacity, and growth over thousands of steps",
  "tests compare contents; storage kept in place and growth cost show only in pointers and capacities at particular combinations of size, capacity and sharing",
  ["string/string.hpp", "string/arena_string.hpp"], [("growth", "string_core::expandNoinit, reserveSmall/Medium/Large"), ("shrinking in place", "string_core::shrink"), ("lazy copies", "string_core::copyLarge, unshare")],
  ["capacity()", "data()", "contents"])
prop("C36", "Distinct objects can be used in different threads at once",
  "Threads which share no object do not disturb each other: strings of every character type, arenas with what lives in them, their memory resources and arena strings, vectors, option parsers and value stores that belong to one thread each give, in every interleaving, exactly the results they give when the threads run one after another, and no access of one thread races with one of another. (The process-wide arena metrics are subject of C10, clones handed to another thread of C18.)",
  ["schedules", "histories"],
  "all interleavings of two or three threads, each working on its own objects of every kind, over sizes around every storage threshold",
  "every test runs on one thread; a buffer, cache or stream which has become static keeps all of them passing",
  [SH, ASH, AH, AC, VH, OH, OC], [("state beyond the objects: none", "namespace-scope and function-local variables of all files")], ["memory accesses", "results and texts"])
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
