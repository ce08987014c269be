"""What each check builds and runs, and how it is described in the evidence and in MANIFEST.json."""
WRAP = ["malloc", "free", "calloc", "realloc"]
THR_WRAP = WRAP + ["memcpy", "memmove", "memset", "memcmp", "memchr", "strlen", "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock",
                   "pthread_once", "sched_yield", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "__cxa_allocate_exception"]
HARNESSES = {
    "align": {"src": ["h_align.cpp"]},
    "objects": {"src": ["h_objects.cpp"], "repo": ["arena/*.cc"], "libs": ["-lfmt"]},
    "pmr": {"src": ["h_pmr.cpp"], "repo": ["arena/*.cc"], "libs": ["-lfmt"]},
    "metrics": {"src": ["h_metrics.cpp"], "repo": ["arena/*.cc"], "libs": ["-lfmt"], "wrap": ["_ZNSt6chrono3_V212steady_clock3nowEv"]},
    "string": {"src": ["h_string.cpp", "h_string_c.cpp", "h_string_u16.cpp", "h_string_u32.cpp", "h_string_w.cpp"], "wrap": WRAP, "libs": ["-lfmt"]},
    "strsearch": {"src": ["h_strsearch.cpp", "h_strsearch_c.cpp", "h_strsearch_w.cpp", "h_strsearch_u16.cpp", "h_strsearch_u32.cpp"], "libs": ["-lfmt"]},
    "astring": {"src": ["h_astring.cpp", "h_astring_exact.cpp", "h_astring_arena.cpp"], "repo": ["arena/*.cc"], "wrap": WRAP, "libs": ["-lfmt"]},
    "astrdef": {"src": ["h_astring.cpp", "h_astring_default.cpp"], "flags": ["-DDEFAULT_RESOURCE"], "repo": ["arena/*.cc"], "wrap": WRAP, "libs": ["-lfmt"]},
    "strio": {"src": ["h_strio.cpp"], "repo": ["arena/*.cc"], "libs": ["-lfmt", "-lxxhash"]},
    "strcap": {"src": ["h_strcap.cpp"], "repo": ["arena/*.cc"], "libs": ["-lfmt"]},
    "vector": {"src": ["h_vector.cpp"] + ["h_vec_%s.cpp" % c for c in "abcdef"], "wrap": WRAP, "libs": ["-lfmt"]},
    "veciter": {"src": ["h_veciter.cpp"], "libs": ["-lfmt"]},
    "optparse": {"src": ["h_optparse.cpp"], "repo": ["optparse/*.cc"], "libs": ["-lfmt"]},
    "thrmetrics": {"src": ["h_thrmetrics.cpp", "thr_rt.cpp"], "plain": ["thr_rt.cpp"], "repo": ["arena/*.cc"], "libs": ["-lfmt"], "wrap": THR_WRAP},
    "thrstring": {"src": ["h_thrstring.cpp", "thr_rt.cpp"], "plain": ["thr_rt.cpp"], "libs": ["-lfmt"], "wrap": THR_WRAP},
    "throwned": {"src": ["h_throwned.cpp", "thr_rt.cpp"], "plain": ["thr_rt.cpp"], "repo": ["arena/*.cc", "optparse/*.cc"], "libs": ["-lfmt", "-lxxhash"], "wrap": THR_WRAP},
    "arena": {"src": ["h_arena.cpp"], "repo": ["arena/*.cc"], "libs": ["-lfmt"]},
}
SL = "exhaustive bounded exploration of the compiled code (every operation sequence within the bounds) against a reference model"
FI = "exhaustive fault enumeration on the compiled code (every failing allocation within the bounds) against a reference model"
TRUST = ("Every execution within the bounds printed in the evidence file is run on the code compiled from /repo and judged by the reference model, under ASan and UBSan. "
         "Trusts the harness, its reference model, the compiler and the sanitizers; nothing is claimed beyond the alphabets and depths of the listed spaces.")

SCHED = "exhaustive exploration of the thread schedules of the compiled code under a controlled scheduler (preemption-bounded), with vector-clock race detection, against a reference model"
THRTRUST = ("Every schedule within the bounds printed in the evidence file is run on the code compiled from /repo with a scheduler and race detector of our own behind the compiler's thread instrumentation. "
            "Trusts the harness, its runtime, and the compiler; atomics are given sequentially consistent values and the shared C++ library's inner accesses are not seen.")


def arena(bounds, technique=SL, jobs=(("arena", "dbg"),)):
    return {"jobs": list(jobs), "level": "model_checking", "technique": technique, "bounds": bounds, "note": TRUST}


def optparse(bounds, technique="bounded exhaustive enumeration of argument lists, registration histories and value sources on the compiled code against a reference parser"):
    return {"jobs": [("optparse", "dbg")], "level": "model_checking", "technique": technique, "bounds": bounds, "note": TRUST}


def string(bounds, technique=SL):
    return {"jobs": [("string", "dbg"), ("string", "rel")], "level": "model_checking", "technique": technique, "bounds": bounds, "note": TRUST}


def string_arena(bounds, technique):
    r = string(bounds, technique)
    r["jobs"].append(("astring", "dbg"))
    return r


def vector(bounds, technique=SL):
    return {"jobs": [("vector", "dbg"), ("vector", "rel", "thorough")], "level": "model_checking", "technique": technique, "bounds": bounds, "note": TRUST}


CHECKS = {
    "C01": arena("all histories of 2 requests over the full alphabet (sizes around every block boundary x alignments none/8/16/32 x kinds x 18 option sets), depth 4 over a medium and depth 7 over a small alphabet, "
                 "and 2 requests from every fill level of a block; recording block allocator at every 8-byte phase; 12..300 operations of 8 patterns in 4 configurations with usual block sizes, reset or not, then any operation; requests of every seventh size to 5000 and around every block size to 2 MB; histories of 5 requests up to 6 GB in blocks up to 16 GB"),
    "C02": arena("all histories of cleanup registrations to depth 4, 2 registrations from every fill level with and without block failures, n<=64 registrations with resets, containers in the arena outgrowing it; 12..300 operations of 8 patterns in 4 configurations with usual block sizes, reset or not, then any operation; requests of every seventh size to 5000 and around every block size to 2 MB; histories of 5 requests up to 6 GB in blocks up to 16 GB",
                 jobs=(("arena", "dbg"), ("pmr", "dbg"))),
    "C03": arena("as C01, plus block sizes for every request size and configuration, and reset compared with a fresh arena; 12..300 operations of 8 patterns in 4 configurations with usual block sizes, reset or not, then any operation; requests of every seventh size to 5000 and around every block size to 2 MB; histories of 5 requests up to 6 GB in blocks up to 16 GB"),
    "C04": arena("every subset of failing block allocations over the C01 histories and fill levels, 381 impossible sizes x 9 kinds of request in every state, with and without a logger and memory for its messages, arenas without a resource, failures seen by containers; 12..300 operations of 8 patterns in 4 configurations with usual block sizes, reset or not, then any operation; requests of every seventh size to 5000 and around every block size to 2 MB", FI, (("arena", "dbg"), ("pmr", "dbg"))),
    "C05": arena("check(p) for every byte in and around every block after every history of the alphabet and at every fill level and number of records; 12..300 operations of 8 patterns in 4 configurations with usual block sizes, reset or not, then any operation; requests of every seventh size to 5000 and around every block size to 2 MB; histories of 5 requests up to 6 GB in blocks up to 16 GB"),
    "C06": arena("all (history, one or two moves, history, destruction order) combinations, and moves at every fill state; 12..300 operations of 8 patterns in 4 configurations with usual block sizes, reset or not, then any operation; requests of every seventh size to 5000 and around every block size to 2 MB; histories of 5 requests up to 6 GB in blocks up to 16 GB"),
    "C07": arena("10 container types, all histories of 4 operations, up to 1500 elements built in 3 ways with 4 block configurations; 3 requests to the resource of 12 sizes x 5 alignments with deallocation of any", jobs=(("pmr", "dbg"),)),
    "C08": arena("every history x every subset of hooks, long histories with all hooks, every subset of failing blocks, every fill level; 12..300 operations of 8 patterns in 4 configurations with usual block sizes, reset or not, then any operation; requests of every seventh size to 5000 and around every block size to 2 MB; histories of 5 requests up to 6 GB in blocks up to 16 GB"),
    "C09": arena("all event histories of length 7 on one arena and 5 on two arenas, every size around every histogram bound, every lifetime around every bound (clock owned by the harness), all figure vectors; up to 366 arenas at as many creation sites (names of every length), 2000 events of every kind", jobs=(("metrics", "dbg"),)),
    "C10": {"jobs": [("thrmetrics", "thr")], "level": "model_checking", "note": THRTRUST, "technique": SCHED,
            "bounds": "all pairs of 10 thread bodies (1..4 arenas' worth of metric events at 4 creation sites and up to 2 reports), of 4 bodies with real arenas, of 4 using every arena operation, of 5 with concurrent text rendering, of 5 with 24 creation sites each, of 8 with resets of the process-wide metrics, and triples of 4, with creation sites known before or not; every schedule with at most 2 (rendering, many sites, resets, triples: 1; thorough 3, 2, 2) preemptions at atomic operations, locks and thread ends; races decided by vector clocks"},
    "C18": {"jobs": [("thrstring", "thr"), ("thrstring", "thrrel"), ("thrstring", "thrx")], "level": "model_checking", "note": THRTRUST, "technique": SCHED,
            "bounds": "12 sizes x 6 sharing histories x 20 operations of the owner before or after the hand-over x 20 of the receiver, three threads with clones of clones, every length 0..599 (thorough 1199); every order of the threads, "
                      "and every schedule with at most 2 preemptions for a part of them; debug, release and cross-thread-checking builds"},
    "C11": arena("every counter value 0..101 per counter, all totals x bucket contents over 3..4 values, all sets of up to 3 creation sites, the text after every short event history; up to 300 sites; shares of every total 0..400", jobs=(("metrics", "dbg"),)),
    "C36": {"jobs": [("throwned", "thr"), ("throwned", "thrrel")], "level": "model_checking", "note": THRTRUST, "technique": SCHED,
            "bounds": "14 kinds of use (strings of 3 character types, arenas, arena strings, containers in arenas, vectors, option parsers, value stores) x 14 x 7 x 7 sizes in two threads, with up to 2 preemptions at synchronising operations for 7 x 3 sizes; three threads of every three kinds in 3 sizes; debug and release builds"},
    "C12": string("10 sizes around every storage threshold x 7 ways to build the string x every shaping operation x every operation with all positions/lengths (char); no shaping operation for wchar_t, char16_t, char32_t; "
                  "all histories of 4 (char) / 3 operations over a small alphabet; every length 3..300 (others 130) and 10..19 long ones up to 524289 x every operation; growth to 40000 characters in 6 ways; debug and release layouts"),
    "C13": string("three strings; all sequences of 3 (char) / 2 (others) operations from 8 starting configurations: 15 pair operations, 34 modifications, creation, destruction; debug and release layouts"),
    "C14": {"jobs": [("strsearch", "dbg"), ("strsearch", "rel")], "level": "model_checking", "note": TRUST,
            "technique": "bounded exhaustive input enumeration of the compiled code against std::basic_string",
            "bounds": "every haystack of length <= 10 (char) / 8 over 2 letters and <= 5 / 4 over 3 letters (NUL and a letter with the sign bit or high bytes included) x every needle of length <= 6 / 4 / 3 x every position 0..size+2 and six around npos; "
                      "the same behind 24 and 250 other characters in shared storage; every needle of length <= 6 in haystacks made of its own prefixes and suffixes; every pair of characters behind equal beginnings; needles of every length 1..330 (others 90) at 5 places of long haystacks, whole or with one of 4 characters wrong; sets of every size 0..71 and 128..255; all overloads, debug and release layouts"},
    "C15": string_arena("every failing allocation in every operation from every start state, all four character types, both layouts, and arena strings; every length parameter near the limits of size_t; every length 3..60 and ten long ones", FI),
    "C16": string("10 sizes x 7 builds x every shaping operation x every operation with every self-range (char); without shaping for the others; every length 3..300 (others 130) and long ones up to 262145; both layouts"),
    "C17": {"jobs": [("strio", "dbg"), ("strio", "rel")], "level": "model_checking", "note": TRUST,
            "technique": "bounded exhaustive input enumeration of the compiled code against std::basic_string",
            "bounds": "every stream content of length <= 5 over 5 letters (blank, newline, NUL, a high character) x every 2..3 reads out of 8 kinds (>> with widths, getline with 5 delimiters) x skipws x chunking, all 8 stream states x all exception masks x 9 prior states of the string, "
                      "every character between others, repeated and as delimiter in 3 reads, every word and line length 0..700, writing of every text <= 3 and every length 0..300 with 10 widths, 4 adjustments, 2 fills, 4 stream states and 5 failing sinks; char and wchar_t; hashing and conversions of every length 0..400 built in 12 ways, all character types; "
                      "formatting of every text of <= 3 pieces with every specification of a 2880-element grid"},
    "C19": {"jobs": [("astring", "dbg"), ("astring", "rel")], "level": "model_checking", "technique": SL, "note": TRUST,
            "bounds": "10 sizes x 7 builds x every shaping operation x every operation (and every operation with parts of the string itself), histories of 4 operations, three strings x 3 operations, "
                      "on a resource that gives every request its own heap block and (without shaping, depth 3) on a real Arena; strings of two arenas, 100 size pairs x 24 operations x 16 storage states, one arena destroyed; every length 0..600 created in the arena and in its containers; every length 3..130, long ones up to 4097 and growth to 40000 characters"},
    "C33": {"jobs": [("astrdef", "rel"), ("astrdef", "dbg")], "level": "model_checking", "technique": SL, "note": TRUST,
            "bounds": "10 sizes x 7 builds x every shaping operation x every operation, every operation with parts of the string itself, histories of 3 operations, three strings x 3 operations, every failing allocation in every operation, every length near the limits of size_t, every length 3..130, long ones up to 4097, growth to 40000 characters; "
                      "with strings of another resource, 100 size pairs x 24 operations x 16 storage states (release builds); the refusals of debug builds: 9 constructors x every length 0..300"},
    "C20": vector("15 element types of every class (trivial, one byte, unassignable, self-pointing, movable, move-only, copy-only, copied-when-moved, declared relocatable, declared zero-initialisable, strings); 32 operations with every position, count, "
                  "value, 13 iterator kinds and unchecked variants from every size 0..5 x 5 slacks, each followed by one more operation; all histories of 3 operations of two vectors over a reduced choice of parameters; one operation on 8..257 elements (some types and thorough: 4097) with positions and counts around the ends, halves and capacities"),
    "C21": vector("as C20, with a table of live elements and a heap ledger compared after every operation and after destruction"),
    "C22": vector("the operations of C20 from sizes 0..4; growth by appending in 4 ways to 300 elements, and to 1.2 MB of six types, reserve/resize/insert/write buffer of every size 0..300, 23 element types of 1..300000 bytes"),
    "C23": vector("every failing allocation or failing element construction of every operation from every size 0..4 x 4 slacks, a throwing predicate or comparison at every element of every size 0..6 x every set of victims, histories of 3 operations with one failure, every failure in one operation on up to 130 elements, 17 impossible sizes x 9 operations", FI),
    "C24": vector("13 operations with every element as argument, every position and count, sizes 1..6 and 8..257 x 5 slacks, checked and unchecked"),
    "C25": {"jobs": [("veciter", "dbg")], "level": "model_checking", "note": TRUST,
            "technique": "bounded exhaustive input enumeration of the compiled code against std::vector",
            "bounds": "all pairs of vectors of length <= 4 over 4 letters, 10 element types (not-a-number, nested vectors, classes without <=>), all comparison operators; all pairs of iterator positions in vectors of size 0..11, six iterator kinds; "
                      "12 library algorithms on all permutations of 7; formatting of every vector of length <= 4; long vectors (every length 5..40, lengths around powers of two up to 300): equal but for each position with every letter and four continuations, 14 algorithms x 5 patterns, iterators, formatting"},
    "C26": optparse("every argument text of up to 6 characters out of 6, alone and next to others; every argument list of length <= 3 over 19 tokens for every action x type x 2 prefixes, <= 4 over 15 tokens for a table of nine options, <= 4 over 12 tokens for options sharing destinations, every subset of 7 names which are prefixes of each other; "
                    "every text of length <= 5 over 8 characters as each numeric type, 1200 numbers around powers of 2 and 10 in 7 decorations, every comma list of length <= 6 over 5 characters; two parses with one parser; tables of up to 300 options all given, arguments of every length 0..400 of 10 kinds, one option given up to 300 times; each of the 255 characters in and around names, values and list items; 32767..65600 arguments of 4 patterns"),
    "C27": optparse("the argument lists of C26; two parses with one parser, lists of <= 2 over 8 tokens, both overloads; up to 190 arguments; the tables, long arguments, single characters and 65600 arguments of C26"),
    "C28": optparse("all 256 prefix characters and all constructors; every list of 0..3 names over 15 names x 6 prefixes x both policies; histories of 3 registrations (with parses between) over 45 name lists; 384 incomplete options; "
                    "every own option named like the added ones; copies and moves; each followed by parsing every name; one more name next to up to 300 options"),
    "C29": optparse("every action x type x 5 defaults x 6 environments x 9 command lines x a second parse with another environment and command line; two options with shared or own destinations and variables; defaults of every C++ type; up to 300 options with defaults and variables of their own"),
    "C30": optparse("all histories of 4 declarations, settings, text requests and parses over 17 operations; every ordered table of up to 5 of 6 options before and after a parse and a later declaration; every pair of name lengths 1..40; printed texts; up to 300 options; names, messages, destinations and texts of every length 0..400"),
    "C34": optparse("all histories of 5 operations (14 kinds) on one destination, 3 on two and three; lists of every length 0..300 in 7 kinds with 5 further operations; up to 300 destinations in 3 orders, counts up to 300",
                    "exhaustive bounded exploration of the compiled code (every operation history within the bounds) against a reference model"),
    "C35": {"jobs": [("strcap", "rel"), ("strcap", "dbg")], "level": "model_checking", "technique": SL, "note": TRUST,
            "bounds": "every length 0..300 (other character types: fewer) and around 500, 1000, 4096 x 7 ways to build the string x 25 reservations x 12 growing and 9 shrinking operations in several steps up to the capacity; growth by 11 operations with 4 step sizes to 3000..12000 characters (thorough 4 times that); "
                      "shrink_to_fit after every reservation; 13 ways to copy, move, swap or concatenate; char, wchar_t, char16_t, char32_t and arena strings, debug and release layouts"},
    "C31": {
        "jobs": [("align", "dbg")],
        "level": "model_checking",
        "technique": "bounded exhaustive input enumeration of the compiled code against 128-bit arithmetic",
        "bounds": {"quick": "AlignUpTo<2^3..2^63> on 0..65535 and 2^k±600; AlignUp on 0..2999 x blocks 1..600 and around every power of two",
                   "thorough": "as quick, with 0..2^21, ±5000, blocks to 4096"},
        "note": TRUST,
    },
    "C32": arena("40 observed classes (5 kinds of constructor x 4 kinds of destruction, 5 layouts) x every list of up to 2 (5 of them 3) arguments of 4 value categories x every fill level of a block, moved and reset arenas; arrays of 12 element types of every length 0..129; "
                 "19 scalars, aggregates, strings, variants and containers; all histories of 3; every subset of up to 2 failing blocks", jobs=(("objects", "dbg"), ("objects", "rel"))),
}
# Properties without a check yet, and why.
NOT_CLAIMED = {
}
