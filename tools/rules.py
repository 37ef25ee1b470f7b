"""Per property: how cases are made and counted, what the check must have seen at least,
how long it runs, and the words of the manifest."""

TECH = "runtime monitoring: online oracle over generated workloads on an instrumented build (overflow checks, debug assertions, crash and hang watchdog)"
TRUST = "Assumes the harness's reference model (mon/src/model.rs and the monitor itself) states the property; covers the executions generated, not all."

MAPS = ("Maps are generated, mostly small with colliding coordinates, some with thousands of segments: lines, columns and indices from narrow and from "
        "full 31-bit ranges, segments without original or name, repeats, shuffled lines, sources of all URL kinds, roots, map URLs, contents with nulls, "
        "JSON spelled with random member order, whitespace and escapes; the consumer is built in one of four ways. ")

RULES = {}


def rule(prop, text, floors, note="", **kw):
    RULES[prop] = dict(rule=text, floors=floors, note=note, assumptions=kw.pop("assumptions", []), **kw)


rule("C01", "A case is a block of 2^18 consecutive 32-bit integers, all 2^32 in turn, or all integers within 600 of a power of two; each text is compared with an independent encoder's. "
     "Distinct blocks are counted.", {"numbers encoded": 500_000_000, "single digits encoded": 1000},
     "Exact oracle per number (decode, alphabet, minimal length, continuation bits).")
rule("C02", "A case is a history of adds to one generator (0 to thousands of mappings, sorted, reversed, random or nearly sorted, with repeats, emits in between); its document is decoded by "
     "an independent strict reader and compared as a multiset. Non-trivial: at least two mappings; distinct histories are counted.", {"mappings decoded": 20000, "emits before the end": 100, "repeats removed": 500})
rule("C03", "As C02; the decoded text is checked for order, equal neighbours, empty segments and trailing separators, and the tables against first use in the history. Distinct histories are counted.",
     {"segments in order": 20000, "histories added out of order": 100, "table entries checked": 2000})
rule("C04", "A case is an interleaving of adds with setting, replacing and removing contents under a random root, with emits in between; each document is compared with a map kept by the monitor. "
     "Distinct histories with at least one content are counted.", {"content entries compared": 2000, "contents removed": 500, "histories with a root": 200})
rule("C05", "A case is a history of valid and invalid mappings (every combination of presence and sign); the monitor predicts each refusal and compares documents with those of a generator never "
     "offered the refused ones. Distinct histories are counted.", {"mappings accepted": 3000, "mappings refused": 3000}, release=True)
rule("C06", "A case is a history with random Unicode in every text field and emits at random points; documents are read by serde_json and compared with what was supplied and with a twin never emitted before. "
     "Distinct histories are counted.", {"emits before the end": 1000, "strings compared": 1000})
rule("C07", "A case is a set of valid mappings with distinct generated positions, generated, emitted, consumed, and asked for both ways. Distinct sets of at least two are counted.",
     {"mappings asked both ways": 5000})
rule("C08", "A case is an insertion history with reads and unordered iterations at random points; each read is compared with the multiset added so far and checked for order. Distinct histories of at least two are counted.",
     {"mappings added": 20000, "reads between adds": 1000, "histories added out of order": 100})
rule("C09", "A case is a history of additions of colliding strings with and without duplicates allowed, all queries compared with a plain list; including sets from vectors and clones. Distinct histories are counted.",
     {"elements added": 10000, "queries compared": 50000})
rule("C10", "A case is a sorted slice with repeats and eight searches with all biases; the answer is compared with a linear scan and the number of needle comparisons bounded by 2+2*log2(n). Distinct (slice, needle, bias) are counted.",
     {"searches compared": 10000, "needle comparisons observed": 30000})
rule("C11", MAPS + "Enumerations in both orders at random points of a query history are compared with the generated segments. Distinct maps and histories are counted.",
     {"mappings visited in generated order": 20000, "mappings visited in original order": 10000, "generated positions answered": 200})
rule("C12", MAPS + "Positions at, around and far from segments, all biases; the answer must be one of the nearest segments by linear scan. Distinct (map, position, bias) with segments are counted.",
     {"original positions answered": 5000, "answered by a neighbour": 1000})
rule("C13", MAPS + "Original positions at, around and far from segments, all biases, under several names of the source; the answer must be one of the nearest by linear scan. Distinct (map, position, bias) are counted.",
     {"generated positions answered": 5000})
rule("C14", MAPS + "Lines and columns at, around and far from segments, and no column; the answer is compared with a linear scan. Distinct (map, question) are counted.",
     {"positions returned": 5000, "answers of several positions": 500, "all positions asked": 5000})
rule("C15", MAPS + "Basic (60%) and indexed maps; spans computed at random points of query histories; each end is compared with the next mapping of its line in the enumerated order, and with the next section. Distinct maps are counted.",
     {"ends checked": 20000, "closed ends": 50, "open ends": 50})
rule("C16", "References are built structurally (kind, host, segments, dot segments, query, fragment) and printed; sources, roots and map URLs go through the URL functions and through basic and indexed consumers, and are compared with "
     "a structural model of RFC 3986 resolution. Distinct (root, source, URL) are counted.", {"relative sources": 2000, "absolute sources": 500, "path-absolute sources": 500, "scheme-relative sources": 500, "joins compared": 1000, "reported lists compared": 500},
     "Also sources nothing is resolved against (data:, webpack:x, unparsable URLs). Excluded as having no agreed reading: empty inner segments, percent-encoded dots, ':' in the first segment, drive letters.")
rule("C17", "Sources, root and URL as in C16; each lookup uses the reported, listed, respelled, map-relative or root-relative name, or any; the expected index follows from the model by the documented order of rules. Distinct (map, names asked) are counted.",
     {"found as reported": 500, "found as listed": 500, "found respelled": 500, "found map-relative": 100, "found root-relative": 100, "names of no source": 500})
rule("C18", MAPS + "Contents are asked under all spellings, with and without the refusal of unknown sources; compared with the list. Distinct (map, question) are counted.",
     {"contents asked": 5000, "contents listed": 1000, "maps with all contents": 200, "unknown sources asked": 1000})
rule("C19", MAPS + "A case is a history of up to 30 calls of all kinds, some refused, on one basic or indexed consumer; each answer is compared with that of a fresh consumer, end columns aside. Distinct histories are counted.",
     {"calls compared with a fresh consumer": 3000, "refused calls": 200})
rule("C20", "Texts are built from all combinations of fields, well and badly typed, plus mutations and truncations of documents and arbitrary strings; an independent judge of the parsed tree says basic, indexed or refused; exposed fields are compared. "
     "Distinct texts are counted; texts with an open reading (duplicate members, fractional integers, arrays for objects) are only checked not to panic.", {"accepted as basic": 1000, "accepted as indexed": 300, "refused as no source map": 1000, "refused as not JSON": 1000})
rule("C21", MAPS + "The text is made malformed at a random segment in one of the ways the property lists; random calls in random order. Distinct (map, history) are counted.",
     {"calls refused": 5000, "contents of malformed maps": 1000}, release=True)
rule("C22", MAPS + "Indices then point beyond shortened or absent lists; answers are compared with the linear scan, absent entries included. Distinct (map, question) are counted.",
     {"dangling references": 5000, "original positions answered": 2000, "generated positions answered": 2000, "positions returned": 500})
SEC = "Indexed maps of 0 to 400 sections at distinct and at equal offsets (several per line, gaps, line 0 and far), each section a generated map that may reach past its end. "
rule("C23", SEC + "Positions around segments and section borders, all biases; the answer must be one of the covering section's nearest segments, moved. Distinct (map, position, bias) are counted.",
     {"original positions answered": 1000, "asked before the first section": 100, "sections": 2000})
rule("C24", SEC + "Sources of any section; the answer is compared with the linear scan of the first section listing the source, moved. Distinct (map, question) are counted.",
     {"generated positions answered": 300, "answered by a later section": 200, "positions returned": 300})
rule("C25", SEC + "Enumerations in both orders, before and after queries, compared with the concatenation of moved sections. Distinct maps and histories are counted.",
     {"mappings visited": 20000, "sections": 2000})
rule("C26", SEC + "Sources, contents under all spellings, and the completeness of contents, compared with the concatenation. Distinct (map, question) are counted.",
     {"contents answered": 500, "contents missing": 500, "maps with all contents": 50, "lists compared": 500})
rule("C27", MAPS + "The map is cut at random generated lines into sections with tables of their own; all answers of the two consumers are compared. Distinct (map, cuts, question) are counted.",
     {"original positions compared": 5000, "generated positions compared": 1000, "enumerations compared": 500, "cuts": 1000})
rule("C28", "An indexed map of up to 250 sections of uneven size, ordered or with one section out of place, is constructed repeatedly in pools of 1 to 16 workers and from several threads at once, while the allocator yields, spins and sleeps at "
     "random allocations; the first two stages differ by build (debug, ThreadSanitizer). Distinct schedules are counted by a hash over the order in which threads reach allocations.",
     {"constructions": 200, "constructions spread over threads": 30, "ordered maps": 30, "unordered maps": 30, "thread switches seen": 10000},
     "Deterministic expectation (document order) compared across schedules; ThreadSanitizer watches the same workload.", quick_secs=20, mem=12, thorough_secs=300)
rule("C29", "Threads leave a barrier and do independent seeded work of all kinds (URLs, basic and indexed consumers, generators, refusals, handing a consumer to another thread) under schedule disturbance; each result is compared with the same work done "
     "alone; a quarter of the cases do so in a fresh process, where it is the first use. Distinct schedules are counted.",
     {"threads compared": 300, "fresh processes": 20, "rounds of threads at once": 60, "thread switches seen": 10000},
     "Deterministic expectation compared across schedules; ThreadSanitizer watches the same workload.", quick_secs=20, mem=12, thorough_secs=300)
rule("C30", "Hostile calls of every public function: arbitrary and mutated documents, arbitrary mappings text, garbage URLs, out-of-range numbers, inconsistent comparators, very large and deeply nested inputs; the process must survive, without "
     "AddressSanitizer or Miri reports. Panics are counted and allowed. Distinct cases are counted by what they called.",
     {"cases": 300, "queries": 500, "generator calls": 1000, "documents read": 300, "URL calls": 50, "probes of known findings": 2},
     "Inputs asking for tables or output larger than memory are outside, but for the two known findings, which are probed under a limit.", quick_secs=15, mem=4, thorough_secs=240,
     assumptions=["Under ThreadSanitizer and Miri dependencies' intended weak-memory idioms are accepted (tree borrows)."])
rule("C31", "Roots and targets are built structurally, mostly of one kind with a shared prefix; the answer is compared with the model's shortest reference and followed back by the code's own resolution. Distinct pairs are counted.",
     {"relative references followed back": 3000, "targets of another kind or host": 500})
rule("C32", MAPS + "Basic and indexed maps are asked with out-of-range lines and columns at random points of a history of valid queries, whose answers are checked too. Distinct questions are counted.",
     {"refused queries": 3000, "original positions asked": 300, "generated positions asked": 300}, release=True)
rule("C33", "Pairs and triples of mappings and strings, often equal in prefixes of the key; the sign is compared with lexicographic comparison of the key. Distinct sets of mappings are counted.",
     {"pairs compared": 100000})
rule("C34", "Documents with every combination of present fields, random strings, nulls and sections are read, written and read again; trees are compared. Distinct texts are counted.",
     {"documents written and read": 2000})

EXTRA_TECH = {
    "C28": "runtime monitoring: schedule disturbance at allocations with a deterministic result oracle; ThreadSanitizer",
    "C29": "runtime monitoring: schedule disturbance with comparison to sequential runs, fresh-process first use; ThreadSanitizer",
    "C30": "AddressSanitizer, Miri (thorough), std's debug-mode UB checks and a crash/hang monitor over hostile workloads",
}
