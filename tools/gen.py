#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed) from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = ["inputs"]; IC = ["inputs", "configurations"]; H = ["histories"]
surf, sp, de, bu, su, bv, ra, se, la = ("include/%s.hpp" % x for x in ["surf", "louds_sparse", "louds_dense", "surf_builder", "suffix", "bitvector", "rank", "select", "label_vector"])
T = "Tests use one 235k word list and one integer list; "
P = []
def p(id, title, stmt, over, q, why, files, mech, note, observe=None):
    P.append((dict(id=id, title=title, statement=stmt, quantifier=dict(over=over, text=q), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)), note))
KC = "every sorted non-empty list of non-empty byte strings x every encoding (dense on/off, any ratio) x every suffix type and length"
p("C01", "A point query never denies a stored key",
  "For every filter and every key it was built from, a point query for that key answers present. This holds for any bytes in the keys, any encoding and any suffix configuration.",
  IC, KC, T + "the bytes 0x00 and 0xff, keys that are prefixes of others, wide roots, deep chains, all-dense tries and most suffix lengths never occur.",
  [surf, de, sp, su], [("lookupKey", surf), ("checkEquality", su), ("builder insertion", bu)],
  "every stored key of every enumerated key list is looked up", ["SuRF::lookupKey"])
p("C02", "A point query says present only for a matching prefix and matching suffix bits",
  "A point query for an absent key answers present only if the query agrees with a stored key on that key's shortest separating prefix and on the stored real suffix bits. Hash suffix bits let through about one in two-to-the-bits of the remaining absent keys.",
  IC, KC + " x every query string", "Tests count false positives but assert nothing about any of them; a filter that always answers true passes most of them.",
  [surf, de, sp, su], [("lookupKey", surf), ("checkEquality", su), ("suffixHash", "include/hash.hpp")],
  "queries: all strings over a wider alphabet and neighbourhoods of the keys; the hash share is an aggregate count over a fixed enumerated query set (1.4 x expectation + 20)", ["SuRF::lookupKey"])
p("C03", "A range query never misses a stored key",
  "If some stored key lies in the queried interval, a range query answers true, whichever of its two ends are included. This holds for any bounds with left not above right.",
  IC, KC + " x every pair of bounds and inclusiveness", T + "their bounds are stored keys or keys with one byte appended; bounds in the gaps, at byte 0/255 and inside shared prefixes are not tried.",
  [surf, de, sp, su], [("lookupRange", surf), ("suffix compare", su)], "pairs of queries: all pairs or neighbourhoods plus long jumps", ["SuRF::lookupRange"])
p("C04", "A range query says true only when a kept key cannot be told from the interval",
  "A range query answers true only if some stored key, as far as its separating prefix and stored suffix bits show, may lie in the closed interval. Intervals clearly separated from every stored key are rejected.",
  IC, KC + " x every pair of bounds", "Tests have few negative range queries, all of one shape; a filter that always answers true would pass them.",
  [surf, de, sp, su], [("lookupRange", surf), ("Iter::compare", surf)], "same pairs as C03; a rejected interval must be rejected unless the reference calls a boundary key indistinguishable", ["SuRF::lookupRange"])
p("C05", "A forward seek lands on the first key not below the target and flags doubt",
  "Seeking forward to a key gives the first stored key that is not certainly below it, or an invalid iterator if there is none; an exclusive seek skips a key known to be equal. The doubt flag is set exactly when the landing key may be smaller than or equal to the target.",
  IC, KC + " x every seek key, inclusive and exclusive", T + "seeks go to stored keys and a few neighbours; landing after running off a node, level or the dense/sparse border is sampled by luck only.",
  [surf, de, sp], [("moveToKeyGreaterThan", surf), ("moveToLeftInNextSubtrie", sp)], "position and flag of every seek compared with the sorted list", ["SuRF::moveToKeyGreaterThan", "Iter::getFpFlag"])
p("C06", "A backward seek lands on the last key not above the target and flags doubt",
  "Seeking backward to a key gives the last stored key that is not certainly above it, or an invalid iterator if there is none; an exclusive seek skips a key known to be equal. The doubt flag is set exactly when the landing key is indistinguishable from the target.",
  IC, KC + " x every seek key, inclusive and exclusive", "Tests of backward seeks are few and use stored keys; several of the defects found here lived in this path while all tests passed.",
  [surf, de, sp], [("moveToKeyLessThan", surf), ("moveToRightInPrevSubtrie", sp)], "position and flag of every seek compared with the sorted list", ["SuRF::moveToKeyLessThan", "Iter::getFpFlag"])
p("C07", "Iteration visits every key once, in order, in both directions",
  "Starting at the first key and advancing visits every stored key once in order and then becomes invalid, and likewise backwards from the last. From any position, any mix of forward and backward steps moves like an index into the sorted list, and a step's result says whether it ended on a key.",
  ["inputs", "configurations", "histories"], KC + " x every short sequence of ++ and --", "Tests scan once forward and once backward; mixed steps, steps after a seek and steps across the dense/sparse border are not covered.",
  [surf, de, sp], [("Iter::operator++ / --", surf), ("LoudsDense/LoudsSparse::Iter", sp)], "full scans plus every +/- sequence to depth 3-5 from every position and seek", ["SuRF::Iter"])
p("C08", "An iterator reports exactly the kept prefix and suffix bits of its key",
  "At every key, the iterator's key is the shortest prefix separating that key from the others, and its suffix is the key's following bits in the configured number (or none where the key is too short). The combined form appends exactly those bits.",
  IC, KC, "Tests compare prefixes for two lists and one 8-bit suffix; other lengths, word-spanning suffixes and short keys are never read back.",
  [surf, de, sp, su], [("getKey/getSuffix/getKeyWithSuffix", surf), ("BitvectorSuffix::read", su)], "every key, reached by scans in both directions and by seeks", ["Iter::getKey", "Iter::getSuffix", "Iter::getKeyWithSuffix"])
p("C09", "Comparing an iterator with a key is sound and as precise as the kept bits allow",
  "Comparing the iterator's key with a given key says less or greater only if the stored key really is, and says undecided only if the kept prefix and bits agree with the given key.",
  IC, KC + " x every comparison key", "No test calls it other than through range queries.", [surf, de, sp, su], [("Iter::compare", surf), ("BitvectorSuffix::compare", su)],
  "every iterator position x every query (neighbourhoods for large sets)", ["Iter::compare"])
p("C10", "Approximate counts are exact up to the two boundary keys",
  "The count between two keys is never above the number of stored keys in the closed interval and at most two below it. The count between two iterators is exactly the number of keys strictly between them, and zero if one is invalid or they are reversed.",
  IC, KC + " x every pair of bounds or iterators", T + "counts are checked over a few ranges with the default encoding.", [surf, de, sp], [("approxCount", surf), ("countLeafsBefore", sp)],
  "pairs of queries and pairs of iterator positions", ["SuRF::approxCount"])
p("C11", "A filter survives serialization: the copy answers everything alike",
  "A filter deserialized from another's image gives the same answer to every operation, and serializing it again gives the same bytes. The original is unchanged and may be destroyed before or after.",
  ["inputs", "configurations", "histories"], KC + " x every operation, three generations", "Tests re-run lookups after one round trip of the word list, not iteration, counts, suffix reads or re-serialization.",
  [surf, de, sp, su, bv, ra, se, la], [("serialize/deSerialize", surf), ("align", "include/config.hpp")], "all answers of the bounded query set compared between the original and two copies", ["SuRF::serialize", "SuRF::deSerialize"])
p("C12", "The image has the announced size and is deterministic and self-contained",
  "Serialization writes exactly the announced number of bytes and reading consumes no byte beyond them. Equal inputs give byte-equal images whatever the heap contained, and the image can be read at any aligned address and discarded afterwards.",
  IC, KC + " x heap contents x buffer positions", "Tests never look at the image's size, padding or bytes, nor free it before use.", [surf, de, sp, su, bv, ra, se, la], [("serializedSize/serialize", surf)],
  "image in front of a guard page; heap filled with two kinds of junk; buffer overwritten before use", ["SuRF::serializedSize", "SuRF::serialize"])
p("C13", "The encoding parameters never change an answer",
  "The choice of dense levels (none, some, all) affects size only: every operation answers the same for every setting of the encoding parameters.",
  IC, "every key list x suffix configuration x dense/sparse split reachable by the parameters", "Tests run each encoding against word-list samples separately; short levels and splits inside chains and prefix keys are not compared.",
  [surf, de, sp, bu], [("determineCutoffLevel", bu), ("dense-to-sparse hand-over", surf)], "all splits produced by 7 ratios compared with the all-sparse filter on the full answer set", ["SuRF"])
p("C14", "Queries change nothing, and iterators are independent of each other",
  "Any history of queries leaves every later answer and the serialized image as on a fresh filter. Iterators keep their place whatever else is done with the filter, and several iterators never disturb each other.",
  ["histories", "inputs", "configurations"], "every sequence of queries up to the depth x every interleaving of two iterators", "Tests run one kind of query at a time in one order.", [surf, de, sp], [("const queries", surf), ("Iter state", surf)],
  "all histories of 15 operations to depth 2-4; all interleavings of two iterators with 3-4 steps each", ["SuRF"])
p("C15", "Threads may query one filter at the same time",
  "Any number of threads querying one filter, or each building, reading or destroying filters of their own, get the answers they would get alone. No two of them touch the same memory unordered with one writing.",
  ["schedules"], "every interleaving of the threads' memory accesses", "No test starts a thread; the multi-threaded benchmark checks no answer.", [surf, de, sp, "bench/workload_multi_thread.cpp"], [("const queries without shared scratch", surf)],
  "real code under a controlled scheduler: every schedule with up to 1 or 2 preemptions at shared accesses, with vector-clock race detection on each (instrumented by the compiler at source level; sequentially consistent)", ["SuRF queries"])
p("C16", "No operation reads or writes memory it does not own, or has undefined behaviour",
  "Building, querying, iterating, counting, serializing, deserializing and destroying stay inside the objects they own and are free of undefined behaviour, for every input that meets the documented preconditions.",
  IC, KC + " x every operation", "The tests run without sanitizers; over-reads of the bit vectors passed silently.", [surf, de, sp, su, bv, ra, se, la, "include/popcount.h"], [("array sizes and shifts", bv)],
  "every scenario executed with address and undefined-behaviour sanitizers and assertions off (thorough: on as well)", ["SuRF"])
p("C17", "Every life cycle releases everything and keeps other filters intact",
  "After any history of creating, copying through an image, querying and destroying filters, every filter alive answers correctly, and when all are destroyed no memory remains allocated and none was released twice.",
  H + ["configurations"], "every history up to the depth over two filters", "Tests destroy one filter per case and never look at the heap.", [surf, de, sp, su, bv, ra, se, la], [("destroy", surf)],
  "all enabled histories to depth 4-6 over 10 operations, heap balance checked after each", ["SuRF::destroy"])
p("C18", "Repeating a key in the input changes nothing",
  "Building from a sorted list in which keys are repeated any number of times gives the same filter, to the byte, as building from the distinct keys.",
  I, "every key list x every multiplicity", "Tests use lists without duplicates.", [bu], [("skip duplicates", bu)], "every multiplicity vector in 1..3 for small lists, selected ones for large lists", ["SuRF"])
p("C19", "The integer key encoding is an order-preserving bijection",
  "Encoding an integer to a key and back gives the integer, and encoded keys compare like the integers. This holds in the library and in the benchmark helpers.",
  I, "all pairs of 64-bit integers", "Tests use ascending integers with a fixed step.", ["include/config.hpp", "bench/bench.hpp"], [("uint64ToString/stringToUint64", "include/config.hpp")],
  "5^8 integers covering every byte pattern over 5 byte values, with neighbours; order against 3^8", ["surf::uint64ToString"])
p("C20", "Size: reported sizes are true and within the succinct encoding's bound",
  "The reported memory usage matches what the filter keeps on the heap, the image is no larger than that, and its size stays within the bits the encoding needs per label, node and suffix. The density ratio bounds the dense share.",
  IC, KC, "Tests print sizes but assert nothing about them.", [surf, de, sp, bu, la], [("getMemoryUsage/serializedSize", surf), ("determineCutoffLevel", bu)],
  "limits computed per level from the reference trie; heap measured by interposed allocation", ["SuRF::getMemoryUsage", "SuRF::serializedSize"])
p("C21", "Rank, select and scans over bit vectors agree with counting bits",
  "On every bit sequence, rank is the number of ones up to a position, select the position of the n-th one, and the distance scans find the neighbouring ones, also after a serialization round trip and for a sub-range of levels.",
  I, "every bit sequence (starting with a one for select) x levels x block and sample size", "Tests read the vectors of one trie with the default parameters.", [bv, ra, se, "include/popcount.h"], [("rank/select lookup tables", ra)],
  "all sequences to 12 (16) bits, all windows at word, block and sample seams, periodic patterns to 4096 bits", ["BitvectorRank::rank", "BitvectorSelect::select"])
p("C22", "Label search finds exactly the labels of its node",
  "Searching a node's labels finds a label exactly if the node has it, at its place, and the greater-than search finds the smallest larger label; labels of other nodes are never found. The linear, binary and vectorised searches agree.",
  I, "every set of labels x place in the vector x sought label", "Tests search the labels of one word-list trie.", [la], [("search/searchGreaterThan", la), ("SIMD search", la)],
  "all subsets of 10 labels, fan-outs 1..256 with strides and alignments, all 256 targets", ["LabelVector::search"])
p("C23", "The suffix store returns the bits stored and compares them correctly",
  "Every suffix reads back as stored, for every length up to 64 bits and any position, also after a round trip. Equality and order tests against a key follow from those bits alone.",
  IC, "every suffix type and length x entry position x keys", "Tests use 8-bit suffixes.", [su], [("read/compare/checkEquality", su)], "all lengths 1..64 of every type x entry counts to 129", ["BitvectorSuffix"])
p("C24", "The builder's trie holds exactly the shortest separating prefixes",
  "The levels the builder produces decode to a trie whose leaves are exactly the shortest separating prefixes of the distinct keys, with node, label and suffix counts to match. The dense form of a level describes the same nodes as its sparse form.",
  IC, KC, "Tests re-derive the trie for the word list with the same algorithm.", [bu], [("insertKeyBytesIntoTrieUntilUnique", bu), ("buildDense", bu)],
  "level vectors decoded and compared with the reference for every enumerated list", ["SuRFBuilder"])
p("C25", "The benchmark Bloom filter never denies an inserted key",
  "For every set and bits-per-key setting, the Bloom filter reports every inserted key as possibly present, for strings and integers, and its false-positive share stays near what the bits allow.",
  IC, "every key set x bits per key", "No test touches it.", ["bench/bloom.hpp"], [("CreateFilter/KeyMayMatch", "bench/bloom.hpp")], "sets of 1..1000 (20011) keys x bits per key; string lengths 0..80", ["BloomFilter"])
p("C26", "The benchmark filters answer as the filters they stand for",
  "A filter made by the benchmark factory answers point, range and count queries and sizes exactly as the filter it names, never denies an inserted key, and is released completely when deleted through its interface.",
  IC, "every key list x filter type x suffix length", "No test touches the adapters.", ["bench/filter.hpp", "bench/filter_factory.hpp", "bench/filter_surf.hpp", "bench/filter_bloom.hpp"], [("FilterFactory::createFilter", "bench/filter_factory.hpp")],
  "all pairs of bounds on small lists; heap balance", ["bench::Filter"])
p("C27", "The benchmark helpers load, select and modify keys faithfully",
  "Loading a key file yields exactly its records, selecting a percentage yields that many of the offered keys in order, and the key-changing helpers change only what they are asked to.",
  I, "every small file, percentage and position", "No test touches them.", ["bench/bench.hpp"], [("loadKeysFromFile/selectKeysToInsert", "bench/bench.hpp")], "all files of up to 4 (5) records with every separator and ending; all percentages", ["bench helpers"])
p("C28", "The benchmark programs report what the filter did",
  "Each benchmark program loads the keys and transactions it is given, runs every transaction once against the filter its arguments name, and prints the positives, true and false positives and true negatives of those answers. With several threads every transaction is run by exactly one thread and the totals are the same under every schedule.",
  ["inputs", "configurations", "schedules"], "every load file, transaction file and argument list x every thread schedule", "No test runs the benchmark programs, and one run of a threaded program shows one schedule.",
  ["bench/workload.cpp", "bench/workload_multi_thread.cpp"], [("main", "bench/workload.cpp"), ("execute_in_thread/main", "bench/workload_multi_thread.cpp")],
  "every small load and transaction file x argument list; threads: all schedules with at most 2 (2 threads), 1 or 0 preemptions at calls", ["stdout of workload", "stdout of workload_multi_thread"])
p("C29", "Height and dense levels are reported truthfully for every encoding",
  "The reported height is that of the trie: the longest kept path, plus at most one level, the same for every encoding and after serialization. The number of dense levels is at most the height, zero when dense encoding is declined, and never grows with the ratio. The shorter constructors build the documented default.",
  IC, KC + " x 15 ratios", "Tests never read either number.", [surf, bu, sp, de], [("getHeight/getSparseStartLevel", surf), ("determineCutoffLevel", bu)],
  "every key list x 16 encodings, before and after a round trip", ["SuRF::getHeight", "SuRF::getSparseStartLevel"])
p("C30", "Iterators are values: copies, assignments and clearing affect nothing else",
  "An iterator may be copied, assigned over another (of the same or another filter), swapped, cleared or default-constructed at any moment. Each copy then moves on its own, an invalid one stays invalid, reports no key and returns false when stepped, and counting between any two is exact.",
  ["inputs", "configurations", "histories"], KC + " x every sequence of iterator operations over two variables", "Tests use one iterator at a time and never copy, clear or reuse one.", [surf, de, sp], [("SuRF::Iter", surf), ("LoudsDense/LoudsSparse::Iter", sp)],
  "every sequence of 15 operations on two iterators to depth 3-4 (thorough 5)", ["SuRF::Iter"])
p("C31", "Running out of memory is reported and harms nothing",
  "If an allocation fails during a query, seek, step, count, iterator copy or serialization, std::bad_alloc reaches the caller or the answer is still right, and nothing is leaked. If it fails while a filter is built or read from an image, std::bad_alloc reaches the caller. Afterwards every other filter, iterator and image is as before.",
  ["inputs", "configurations", "fault_sequences"], KC + " x every operation x every allocation in it as the one that fails, alone or with all later ones", "No test makes an allocation fail.", [surf, sp, de, bu], [("SuRF::Iter", surf), ("serialize/deSerialize", surf), ("create", surf)],
  "every allocation of 34 operations and of building and reading fails in turn, alone and with all later ones", ["SuRF"])
p("C32", "Counting and finding bits in words agrees with looking at each bit",
  "Every population count and every n-th-one search over a word, 512 bits or a run of words gives what looking at the bits one by one gives, from any word of the run. A search for more ones than there are says so, where it promises an answer, and reads nothing past the run.",
  I, "every word and run of words x bit count x rank sought", "No test calls them; only one of the alternatives is on a path the tests take.", ["include/popcount.h", ra, se], [("popcountLinear/select64*/selectLinear", "include/popcount.h")],
  "every value of 16 (22) neighbouring bits at every place over zeros and ones, 6^8 words by bytes, all runs of 1-3, 8 and 9 words over 3-5 word values", ["surf::popcountLinear", "surf::select64", "surf::selectLinear"])
exec(open(os.path.join(V, "tools", "more.py")).read()) if os.path.exists(os.path.join(V, "tools", "more.py")) else None

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, _ in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
TECH = {"C15": "stateless model checking: exhaustive bounded-preemption schedule enumeration of the real code",
        "C07": "bounded-exhaustive model checking: all key sets and step sequences in bounds, vs a reference model",
        "C14": "bounded-exhaustive model checking: all query histories and iterator interleavings in bounds",
        "C31": "fault-point model checking: every allocation of every operation fails in turn, real code",
        "C30": "bounded-exhaustive model checking: all operation sequences over two iterators to a depth",
        "C17": "bounded-exhaustive model checking: all life-cycle histories to a depth, real code",
        "C28": "bounded-exhaustive enumeration of inputs and bounded-preemption schedules of the real programs",
        "C16": "bounded-exhaustive enumeration of the real code, sanitizers as monitor"}
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=[], not_applicable=[],
         notes="Every check enumerates its bounded spaces completely on the real code built from /repo's working tree; see DESIGN.md. No hooks in /repo.")
for d, note in P:
    m["checks"].append(dict(property=d["id"], quick_cmd="python3 check.py %s --tier quick" % d["id"], thorough_cmd="python3 check.py %s --tier thorough" % d["id"],
                            technique=TECH.get(d["id"], "bounded-exhaustive model checking: real code vs a reference model on every member of the space"),
                            level="model_checking", level_note="Holds for every member of the enumerated spaces (%s). Trusts the reference model in mc/, the compiler and the stated preconditions." % note))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
