#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the file stays valid JSON)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })

V, B, G, M, A, S = ("src/base64_vlq.rs", "src/base64.rs", "src/generator.rs",
                    "src/mapping_list.rs", "src/array_set.rs", "src/binary_search.rs")
C, U, J = "src/consumer.rs", "src/util.rs", "src/source_map.rs"

p("C01", "Number encoding is exact and canonical",
  "For every 32-bit signed integer, the Base64-VLQ encoder returns text that decodes, by the source map v3 rule, to exactly that integer, uses only the standard Base64 alphabet, has the fewest digits possible, and sets the continuation bit on every digit except the last. The single-digit encoder returns the standard alphabet's character for 0 to 63 and nothing for any other integer.",
  ["inputs"], "all 2^32 values of the argument", "the tests encode -255..255 and three digits; carries into the sign and continuation bits of large magnitudes are not reached",
  [V, B], [("sign folding and 5-bit digit loop", V), ("digit alphabet table", B)], observe=["return value of the public encoders"])
p("C02", "Generated maps lose and invent no mapping",
  "For every sequence of valid mappings added to a generator, in any order and with any repetition, the emitted document decodes (by the source map v3 rules, resolving indices through the emitted source and name lists) to exactly the set of distinct mappings added: same generated position, original position, source and name. No mapping appears more often than it was added.",
  ["inputs", "histories"], "every multiset of valid mappings, every insertion order, columns and original positions up to 2^31-1 (generated lines as far as memory allows, since each takes a byte of output)", "one test adds thirteen mappings already in order with small deltas and compares one string",
  [G, M, V, A], [("delta encoding of sorted mappings", G), ("dedup of equal neighbours", G), ("lazy sorting on insertion order", M)],
  [("previous_* counters", "running values the deltas are relative to", G)], ["document returned by the generator"])
p("C03", "Generated mappings text is ordered and its tables are canonical",
  "In every emitted document the decoded segments are in non-decreasing generated position order and no two neighbouring segments are identical; the text has no empty segment and no trailing separator. The source and name lists hold every string used by an added mapping exactly once, in order of first use, and nothing else.",
  ["inputs", "histories"], "every sequence of valid mappings, any insertion order", "the single ordering test adds mappings already sorted",
  [G, M, A], [("sort before serialising", M), ("source and name interning", A)], observe=["document returned by the generator"])
p("C04", "Source contents stay attached to their sources",
  "After any interleaving of adding mappings and setting, replacing or removing source contents, the emitted document pairs each listed source with the content last set for it and with null if there is none, position by position, whatever the source root; without any content set there is no contents list. A source whose content was removed has none.",
  ["histories", "inputs"], "all histories of set, replace and remove interleaved with adds, with and without a source root", "no test sets source content",
  [G, U, J], [("contents keyed by root-relative source name", G), ("relative()", U)], [("source_contents", "content by relative source name", G)], ["sourcesContent of the emitted document"])
p("C05", "Invalid mappings are refused and leave no trace",
  "With validation on, adding a mapping is refused by a panic exactly when its generated line is below 1 or a column is negative, its original line is below 1, it has an original position without a source, or a source or name without an original position. A refused mapping leaves the generator as it was; an accepted one can always be emitted; and with validation skipped no valid mapping is treated differently.",
  ["inputs", "histories"], "all combinations of presence and sign of the mapping's fields, anywhere in a history", "no test adds an invalid mapping; validation was not wired up",
  [G], [("validation before interning and insertion", G)], observe=["panic or return of adding, later emitted document"])
p("C06", "Emitted documents are faithful JSON and emitting changes nothing",
  "Every emitted document is valid JSON for a version 3 source map whose file and source root are present exactly when given and whose strings are, for every Unicode text, character for character those supplied. Emitting twice gives the same text, and emitting at any point of a history does not change which mappings, sources, names and contents later documents describe.",
  ["histories", "inputs"], "all Unicode strings in every text field; all placements of emits in a history", "two tests emit one ASCII document once",
  [G, J, M], [("serde serialisation with optional fields skipped", J), ("sorting in place on emit", M)], [("sorted", "whether the list is in order", M)], ["successive documents of one generator"])
p("C07", "Generator and consumer are inverse to each other",
  "For every set of valid mappings with distinct generated positions, a consumer built from the generator or from its emitted text answers the exact generated position of each mapping with that mapping's original line and column, source and name, and answers its original position with a generated position some mapping with that original position has. With no source root and no map URL, names, and sources that are already normalised, are the strings supplied.",
  ["inputs", "histories"], "all sets of valid mappings, any insertion order, with and without source root and map URL", "no test connects generator and consumer; no test queries a position at all",
  [G, C, V, J], [("encoding", G), ("parsing and 0/1-based line conversion", C)], observe=["positions answered by the consumer"])
p("C08", "The mapping list is a position-ordered permutation of what was added",
  "At any point of a history of adds, the list's array is a permutation of the mappings added so far, in non-decreasing generated position order, and reading it does not change what later reads return. Unordered iteration visits each stored mapping exactly once with indices counting from zero.",
  ["histories", "inputs"], "all insertion sequences with reads at any point", "no test exercises the list directly",
  [M, U], [("sorted flag and last mapping", M), ("inflated position comparator", U)], [("sorted/last", "claim that the array is in order", M)], ["array and iteration of the list"])
p("C09", "The array set keeps first indices and insertion order",
  "After any history of additions with or without duplicates allowed, membership, the index of an element (always its first occurrence), the element at an index, the number of distinct elements and the array are exactly those of an insertion-ordered list that skips a repeated element unless duplicates were allowed. Indices that are negative or past the end have no element.",
  ["histories", "inputs"], "all add histories over all strings; all 32-bit indices", "doc tests each do one or two additions of distinct strings",
  [A], [("array plus index map", A)], [("array/set", "elements and index of first occurrence", A)], ["return values of all queries"])
p("C10", "Binary search finds the nearest element, leftmost among equals",
  "For every sorted slice, needle and bias the search returns the smallest index of an element equal to the needle; failing that the smallest index among the elements equal to the nearest one below (default and lower-bound bias) or above (upper-bound bias); and -1 if there is none or the slice is empty. It always ends, and compares the needle a number of times logarithmic in the length.",
  ["inputs"], "all sorted slices including repeats, all needles, both biases", "seven tests on one or two fixed slices",
  [S], [("recursive halving", S), ("backing up over equals", S)], observe=["returned index, comparator calls"])
p("C11", "Enumeration reports exactly the map's mappings",
  "For every well-formed mappings text, enumerating a basic consumer in generated order visits every mapping of the text exactly once with all its fields, in non-decreasing generated order; enumerating in original order visits exactly those that have an original position, in non-decreasing order of source, original line and original column. Neither enumeration, repeated or interleaved with queries, changes the other.",
  ["inputs", "histories"], "all well-formed mappings texts and all interleavings of enumerations and queries", "no test enumerates mappings",
  [C], [("lazy parsing", C), ("each_mapping", C)], [("mappings", "parsed mappings, cached", C)], ["callback arguments"])
p("C12", "Original positions are those of the nearest mapping on the line",
  "For every map and every generated position, a basic consumer answers with a mapping at that position if there is one, otherwise with the nearest mapping before it (after it, with upper-bound bias) on the same generated line, reporting that mapping's 1-based original line, its column, its resolved source and its own name. If there is no such mapping on the line, or it has no original position, there is no answer.",
  ["inputs"], "all well-formed maps, all positions with line >= 1 and column >= 0, both biases and the default", "no test asks for an original position; the answer was always empty before it was repaired",
  [C], [("original_position_for and its line check", C)], observe=["returned mapping"])
p("C13", "Generated positions are those of the nearest mapping of the source",
  "For every map, source and original position, a basic consumer answers with the generated position of a mapping of that source at that original position if there is one, otherwise of the nearest one before it (after it, with upper-bound bias) in the same source, reporting that mapping's own original position, source and name with 1-based lines. Without such a mapping, or for a source the map does not have, there is no answer.",
  ["inputs"], "all well-formed maps, all sources, all original positions, both biases and the default", "no test asks for a generated position",
  [C], [("generated_position_for", C)], observe=["returned mapping"])
p("C14", "All generated positions of an original location are found",
  "For every map, source and original line, asking a basic consumer for all generated positions returns every mapping of the source on that line, or on the next later line that has any, when no column is given, and every mapping of the source on that line at that column, or at the next larger column that has any, when one is given. Each is returned exactly once, in original order, and nothing else is.",
  ["inputs"], "all well-formed maps, all sources, lines, and columns or none", "no test asks for all positions",
  [C], [("all_generated_position_for", C)], observe=["returned mappings"])
p("C15", "Column spans end where the next mapping of the line starts",
  "After column spans are computed, each enumerated mapping carries the generated column of the next mapping on its line in the enumerated order as its end, and none if it is the last of its line; a mapping answered by an original or a generated position query carries the same end, where a last mapping of a generated position query is marked open-ended by -1. For sections of an indexed map the last span of a line also ends at the start of the next section if that starts on the same line, and computing spans again or changing the order of queries changes nothing.",
  ["inputs", "histories"], "all well-formed maps, basic and indexed; span computation at any point of a history", "no test computes spans",
  [C], [("compute_column_spans", C), ("section end truncation", C)], [("computed_column_spans", "whether ends are known", C)], ["last_generated_column of enumerated and returned mappings"])
p("C16", "Source names resolve as URLs",
  "A consumer reports each source as the URL reference obtained by normalising the listed source, resolving it inside the source root (a leading slash being dropped), and resolving that against the directory of the map URL, a missing or empty root or URL changing nothing. Absolute, scheme-relative, path-absolute and relative references keep their kind, dot segments are removed except for leading parent steps, and query and fragment are kept. A URL with no slash after its scheme, as data: URLs are, and text that looks like a URL but is none, are reported as they are listed, whatever the root and the map URL, except that the scheme is in lower case.",
  ["inputs"], "all sources, roots and map URLs built from path segments, dot segments, hosts, schemes, queries and fragments", "one absolute root with two plain file names is tested",
  [U, C], [("compute_source_url, join, normalize on a safe base", U)], observe=["reported sources, computed URL"])
p("C17", "A source is found under every name that denotes it",
  "A lookup by source gives the same answer whether the source is named as reported, as listed in the map (which a source root and the map URL then apply to), or by its unnormalised or map-relative spelling, provided the name does not denote another source by an earlier rule; with repeated sources it is the first. A name that denotes no source of the map gives no position and an empty list, and repeating a lookup in any order never changes its answer.",
  ["inputs", "histories"], "all maps with any source root and map URL, all spellings, all lookup orders", "no test looks a source up",
  [C, U, A], [("find_source_index with its three rules", C)], [("source_lookup_cache", "index by spelling asked for", C)], ["answers of lookups by source"])
p("C18", "Source contents are returned for the right source",
  "For every map, asking a basic consumer for a source's content returns exactly the string the contents list holds at that source's index, under any spelling of the source, and nothing if that entry is null or missing or the map has no contents list. Unless told otherwise an unknown source is refused by a panic when the map has contents, and all contents are reported present exactly if the list has an entry for every source and no null.",
  ["inputs"], "all maps with contents lists that are absent, shorter, equal, longer or hold nulls", "no test asks for content",
  [C, J], [("source_content_for, has_contents_of_all_sources", C)], observe=["returned content or panic"])
p("C19", "Queries do not influence each other",
  "For any sequence of queries, enumerations, span computations and refused queries on one consumer, each position query returns the position, source and name a fresh consumer of the same map would return. The only thing an earlier call may change is whether the end column of a mapping is known.",
  ["histories", "inputs"], "all interleavings of all operations on basic and indexed consumers", "every test performs at most one kind of call on a fresh consumer",
  [C], [("lazy parse, lookup cache, span flag", C)], [("mappings, source_lookup_cache, computed_column_spans", "caches filled by queries", C)], ["answers compared with a fresh consumer's"])
p("C20", "Any text is either accepted as the right kind of map or refused",
  "For every text, creating a consumer returns an error, without panicking, unless the text is a JSON version 3 source map with sources and mappings, or with sections of such maps at non-negative, ordered offsets and without URLs; then it returns a consumer: an indexed one exactly if the map has sections, a basic one otherwise. The accepted document is kept unchanged: every field the consumer exposes equals the text's. Members the format does not name are ignored wherever they stand. An indexed consumer that is built directly, not by create_consumer, panics on a version other than 3 and on sections with URLs or at negative or unordered offsets.",
  ["inputs"], "arbitrary bytes as text, mutated and truncated documents, all combinations of missing and mistyped fields", "the tests create consumers from two well-formed documents",
  [C, J], [("deserialisation and checks in create_consumer", C)], observe=["result of creation, variant, exposed document"])
p("C21", "Malformed mappings never produce an answer",
  "If a map's mappings text is malformed (a character outside the alphabet, a truncated number, a segment of two or three fields, or a running value below zero) then no position query returns a mapping and no enumeration visits one, on the first and on every later call: a query is refused by a panic or has no answer. Source names and contents of such a map stay available.",
  ["inputs", "histories"], "all malformed mappings texts, every kind and order of query", "no test uses malformed mappings",
  [C], [("lazy parse with error", C)], observe=["answers, panics and callbacks"])
p("C22", "Inconsistent but well-formed maps are answered without panicking",
  "If a well-formed map refers to names or sources beyond its lists, or has no names list, every query still answers with the right position, reporting the missing source or name as absent and never one belonging to another index. This holds for exact, nearest and all-positions queries alike.",
  ["inputs"], "all maps with dangling source or name indices, short or absent lists", "no test has a dangling index",
  [C], [("bounds-checked table lookups", C)], observe=["returned mapping or panic"])
p("C23", "Indexed maps answer from the section that covers the position",
  "For every indexed map and generated position, the original position is that which the covering section's map (the last section starting at or before the position, of several at the same offset the last) gives for the position taken relative to the section's start, where the column is relative only on the section's first line. Before the first section there is no answer, and the reported generated position is in terms of the whole file.",
  ["inputs"], "all section layouts (several per line, gaps, many sections) and all positions, both biases", "one test only builds an indexed map; none queries one",
  [C, S], [("binary search over offsets, shift into the section", C)], [("sections", "offset and consumer of each section", C)], ["returned mapping"])
p("C24", "Indexed maps map originals back into the whole file",
  "For every indexed map and source, the generated position of an original position, and the list of all of them, are those the first section listing the source gives, moved by that section's line offset and, on the section's first line, by its column offset. A source of no section has no position and an empty list.",
  ["inputs"], "all section layouts, all sources in any section, all original positions, both biases", "no test does a reverse lookup on an indexed map",
  [C], [("section choice and shift", C)], observe=["returned positions and mappings"])
p("C25", "Indexed enumeration is the concatenation of its shifted sections",
  "Enumerating an indexed map visits, section by section in document order, exactly the mappings of each section in the requested order, with generated lines moved by the section's line offset and columns of its first line by its column offset. Source and name indices are those of the concatenated source and name lists of all sections; original lines and columns are unchanged.",
  ["inputs"], "all indexed maps, both orders, before and after queries", "no test enumerates an indexed map",
  [C], [("each_mapping over sections", C)], observe=["callback arguments"])
p("C26", "Indexed maps expose all sections' sources and contents",
  "An indexed map's sources are the resolved sources of its sections concatenated in document order, each resolved against its own section's root; what stands beside the sections plays no part. A source's content is that of the first section having content for it, whichever section that is; content of no section is refused by a panic, or absent when asked so; and all contents are reported present exactly if every section has all of its own.",
  ["inputs"], "all numbers of sections and distributions of sources and contents over them", "no test reads sources or contents of an indexed map",
  [C], [("iteration over sections", C)], observe=["returned lists and strings"])
p("C27", "Splitting a map into sections does not change its answers",
  "Cutting a flat map at generated line boundaries into an indexed map of shifted parts, each with its own tables, gives the same original position, source and name for every generated position and bias, the same enumeration in generated order up to index numbering, and the same generated position for a source that lies wholly in one part.",
  ["inputs", "programs"], "all flat maps and all sets of cut lines", "no test compares two representations of one map",
  [C], [("section offsets and shifts", C)], observe=["answers of both consumers"])
p("C28", "Building an indexed map does not depend on thread scheduling",
  "For every indexed map and every number of worker threads, construction accepts it exactly if its section offsets are ordered in document order, and an accepted map has its sections, sources and answers in document order. Repeating the construction, also from many threads at once, always gives the same result.",
  ["schedules", "inputs"], "all thread schedules of the parallel construction, 1 to many workers, many sections of uneven size", "the two-section test map leaves almost no room for reordering; tests sample one schedule",
  [C], [("order check and parallel collect", C)], [("last offset", "offset of the section before", C)], ["acceptance, sources and answers across repetitions"])
p("C29", "Independent use from several threads is race-free and unaffected",
  "Creating, querying and generating maps concurrently in several threads, including the very first use in the process and moving a basic consumer between threads, gives in every thread the results of running alone, without data races, deadlocks or poisoned shared state. A panic refused in one thread does not affect the others.",
  ["schedules", "histories"], "all interleavings of independent work in several threads, including concurrent first use", "tests use one consumer per thread, never compare and never stress first use",
  [U, C], [("lazily initialised URL helpers and patterns", U), ("parallel section construction", C)], [("lazy statics", "process-wide helpers", U)], ["results per thread, ThreadSanitizer reports"])
p("C30", "No input causes a memory error, undefined behaviour or an abort",
  "No sequence of calls to the public interface, with any text, position or index including hostile ones, makes the process abort, read or write outside live memory, or execute undefined behaviour. Refusals are ordinary returns or unwinding panics.",
  ["inputs", "histories"], "all call sequences and inputs, valid and hostile, whose output and tables fit in memory", "the tests are run without sanitizers, on well-formed input",
  [C, G, U, S, A, M], [("safe Rust, bounds checks", "src/*.rs")], observe=["AddressSanitizer and Miri reports, debug assertions, exit status"])
p("C31", "Relative URLs lead back to their target",
  "For a root and target of the same kind, scheme and host, resolving the relative reference computed from root to target inside the root's directory gives the target again (up to a trailing slash where the target is the root or a directory above it), and it is as short as a common directory prefix allows. For roots and targets of different kind or host the normalised target itself is returned.",
  ["inputs"], "all pairs of roots and targets of all kinds, relative roots climbing no further up than the target", "no test calls it; it panicked on every root that is not absolute",
  [U], [("relative over a safe base", U)], observe=["returned reference"])
p("C32", "Invalid query positions are refused, never answered",
  "A query by generated position with a line below 1 or a negative column, or by original position of a known source with a line below 1 or a negative column, is refused by a panic, whatever the map and whether it is basic or indexed. After any refusal the consumer answers valid queries as before.",
  ["inputs", "histories"], "all 32-bit lines and columns out of range, in any history", "no test passes an invalid position",
  [C], [("argument checks", C)], observe=["panic or answer, later answers"])
p("C33", "The mapping order is a consistent total order",
  "For all valid mappings the published position comparison is antisymmetric and transitive, orders by generated line, then column, then source, original line, original column and name, with an absent source or name after any present one, and says equal exactly if these fields are all equal. Mappings that lack an original, without having been validated, are compared by the other fields. Strings are compared by their code points. The published string comparison behaves so too.",
  ["inputs"], "all pairs and triples of valid mappings and optional strings", "no test compares mappings",
  [U], [("compare_by_generated_pos_inflated, strcmp", U)], observe=["sign of the comparison"])

p("C34", "Reading and writing documents are inverse",
  "Writing any map document the library has read gives JSON under the names of the source map format with exactly the fields that are present, each with the value read, sections and their offsets included; reading that text gives the same document again. Absent fields are left out and unknown ones ignored.",
  ["inputs"], "all documents of the accepted structure: every combination of present fields, all strings, nulls in contents, any number of sections", "the tests read two fixed documents and compare single fields",
  [J], [("serde derive with renames and skipped absent fields", J)], observe=["serialised text, document read from it"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
