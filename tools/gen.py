#!/usr/bin/env python3-vt
"""writes properties.jsonl and MANIFEST.json from the texts below and vcg/props.py"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT)
E = "libCacheSim/cache/eviction/"
T = []
def P(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}; a.update(kw)
    T.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

P("C01", "A cache never holds more than its size and its accounting is exact",
  "For FIFO, LRU, MRU, Clock, Sieve and LFU, after every request, eviction and removal the occupied bytes equal the sum over the resident objects of size plus per-object metadata overhead, the reported object count equals the number of resident objects, and the occupied bytes do not exceed the configured cache size.",
  ["inputs", "histories", "configurations"], "all cache sizes, per-object sizes below 2^32, metadata on or off, all interleavings of get, lookup, evict, to_evict and remove",
  "The suite replays one trace per algorithm and compares total miss counts; drift of the byte or object accounting, or an overflow at a boundary size, does not change those counts.",
  [E + "FIFO.c", E + "LRU.c", E + "MRU.c", E + "Clock.c", E + "Sieve.c", E + "LFU.c", "libCacheSim/cache/cache.c"],
  [("byte and object accounting on insertion, eviction, removal", "libCacheSim/cache/cache.c: cache_insert_base, cache_evict_base, cache_remove_obj_base"), ("evict until the new object fits", "libCacheSim/cache/cache.c: cache_get_base")],
  observe_at=["cache->get_occupied_byte", "cache->get_n_obj", "cache->find"])
P("C02", "A request is a hit exactly when its object is resident",
  "For FIFO, LRU, MRU, Clock, Sieve and LFU, a request reports a hit exactly if its object is resident at that moment, a lookup that is told not to update changes nothing observable, and after an admitted miss the object is resident with the requested size. An object that with its overhead is larger than the cache is never inserted and its request evicts nothing, and a hit evicts nothing.",
  ["inputs", "histories", "configurations"], "all ids including colliding and zero, all sizes around the capacity, all histories",
  "Tests compare aggregate miss ratios of one trace; a wrong answer for a boundary size, an id collision or after a removal leaves these unchanged.",
  ["libCacheSim/cache/cache.c", E + "FIFO.c", E + "LRU.c", E + "MRU.c", E + "Clock.c", E + "Sieve.c", E + "LFU.c"],
  [("lookup, admission and insertion of one request", "libCacheSim/cache/cache.c: cache_get_base, cache_find_base, cache_can_insert_default")],
  observe_at=["cache->get", "cache->find"])
P("C03", "FIFO, LRU and MRU evict exactly the object their policy names",
  "FIFO evicts the resident object inserted earliest, LRU the one whose insertion or latest updating hit is oldest, and MRU the one whose insertion or latest updating hit is newest; lookups without update and to_evict do not influence the order. A request evicts only while the new object does not fit.",
  ["inputs", "histories", "configurations"], "all request histories with sizes, removals, direct evictions and lookups without update",
  "The suite checks only the miss count of one trace per algorithm; many wrong orders yield similar counts and removal or explicit eviction is never exercised.",
  [E + "FIFO.c", E + "LRU.c", E + "MRU.c", "libCacheSim/cache/cacheObj.c"],
  [("the queue and its primitives", "libCacheSim/cache/cacheObj.c: prepend_obj_to_head, move_obj_to_head, remove_obj_from_list"), ("victim choice", E + "LRU.c: LRU_evict, FIFO.c: FIFO_evict, MRU.c: MRU_evict")],
  observe_at=["cache->find after each cache->get"])
P("C04", "Clock and Sieve evict exactly the object their second-chance rule names",
  "Clock keeps an insertion-ordered queue with a saturating hit counter per object (n-bit, default 1) and evicts the oldest object with counter zero, after decrementing and re-queueing the older ones it passes; Sieve keeps an insertion-ordered queue with one visited bit and a hand that walks from old to new, clearing bits, and evicts the first unvisited object, then points to the next newer one. Removing an object leaves the hand valid and the order of the others unchanged.",
  ["inputs", "histories", "configurations"], "all request histories, counter widths, hand positions, removals of the object under the hand",
  "Tests compare the miss count of one trace; the hand after removals, saturation and wrap-around are reached only by specific histories.",
  [E + "Clock.c", E + "Sieve.c"],
  [("second chance loop", E + "Clock.c: Clock_evict"), ("hand movement", E + "Sieve.c: Sieve_evict, Sieve_remove_obj")],
  observe_at=["cache->find after each cache->get"])
P("C05", "LFU evicts a least frequently used object, ties in age order",
  "LFU evicts a resident object with the smallest number of updating hits since insertion; among those the one that reached this count first. The count restarts when an object is inserted again, and removal of any object leaves the choice among the others unchanged.",
  ["inputs", "histories", "configurations"], "all request histories including removals that empty the lowest frequency class",
  "One trace's miss count does not see tie breaking or the state left behind when a frequency class empties through a removal.",
  [E + "LFU.c"], [("frequency classes", E + "LFU.c: LFU_find, LFU_insert, LFU_evict, LFU_remove")], observe_at=["cache->find after each cache->get"])
P("C06", "remove deletes exactly the named object",
  "For FIFO, LRU, MRU, Clock, Sieve and LFU, remove(id) answers true exactly if the object was resident; afterwards that object is not resident, every other object is, the object is no longer counted, and the replacement order of the others is unchanged.",
  ["inputs", "histories"], "removal at any position (first, last, only, under the hand), of absent ids, between any other operations",
  "The existing tests never call remove.",
  [E + "FIFO.c", E + "LRU.c", E + "MRU.c", E + "Clock.c", E + "Sieve.c", E + "LFU.c", "libCacheSim/cache/cache.c"],
  [("unlink and accounting", "libCacheSim/cache/cache.c: cache_remove_obj_base; remove functions of the algorithms")], observe_at=["cache->remove", "cache->find"])
P("C07", "The doubly linked list primitives preserve a well-formed queue",
  "Starting from a well-formed queue (head and tail delimit a null-terminated doubly linked sequence of distinct objects), append, prepend, move-to-head, move-to-tail and unlink yield again a well-formed queue that holds exactly the same objects plus or minus the argument, in the same relative order with the argument at the stated end, for queues of every length.",
  ["inputs"], "queues of every length, every position of the argument",
  "Tests see the lists only through aggregate miss counts; shape violations at the ends show up only in particular sequences.",
  ["libCacheSim/cache/cacheObj.c"], [("list primitives", "libCacheSim/cache/cacheObj.c: append_obj_to_tail, prepend_obj_to_head, move_obj_to_head, move_obj_to_tail, remove_obj_from_list")])
P("C08", "The object hash table is an exact map through collisions and resizes",
  "After any sequence of insertions of distinct ids, deletions and lookups, a lookup returns the object inserted under that id and not yet deleted, or nothing; growth of the table loses, duplicates or alters no entry, and the reported entry count is exact. Deleting an absent object leaves the table unchanged and reports failure.",
  ["inputs", "histories", "configurations"], "all ids (all hash collision patterns), all initial sizes, chains of any length, any number of resizes",
  "The tests use the table with one size and a few ids; behaviour of colliding chains and of resizing depends on hash values no test controls.",
  ["libCacheSim/dataStructure/hashtable/chainedHashTableV2.c"],
  [("chained buckets with doubling", "libCacheSim/dataStructure/hashtable/chainedHashTableV2.c: chained_hashtable_find_obj_id_v2, _insert_v2, _delete_v2, _try_delete_v2, _delete_obj_id_v2, _chained_hashtable_expand_v2")],
  observe_at=["hashtable_find_obj_id", "hashtable->n_obj"])
P("C09", "to_evict names the next victim and changes nothing",
  "For FIFO, LRU, MRU, Clock, Sieve and LFU on a non-empty cache, to_evict returns a resident object, an eviction that follows immediately removes exactly that object, and to_evict itself changes neither residency, accounting nor the replacement order.",
  ["histories", "configurations"], "all reachable cache states",
  "No test calls to_evict.",
  [E + "FIFO.c", E + "LRU.c", E + "MRU.c", E + "Clock.c", E + "Sieve.c", E + "LFU.c"], [("victim preview", "the to_evict functions of the algorithms")], observe_at=["cache->to_evict"])
P("C10", "The priority queue pops a largest element and keeps positions exact",
  "After any sequence of insert, pop, peek, priority change and remove, the priority queue behind Belady, Size and the PG prefetcher holds exactly the elements inserted and not yet popped or removed; peek and pop return an element of largest priority among them (NULL exactly when empty), the reported size is their number, and every element's stored position is where it sits.",
  ["inputs", "histories"], "heaps of any size, any priorities with duplicates, any mixture of operations",
  "No test exercises the queue directly; a wrong sift shows only for particular shapes and priority changes.",
  ["libCacheSim/dataStructure/pqueue.c"], [("binary heap", "libCacheSim/dataStructure/pqueue.c: bubble_up, percolate_down, pqueue_insert, pqueue_change_priority, pqueue_remove, pqueue_pop")])
P("C11", "Admission policies decide exactly as configured",
  "The size admission policy admits a request exactly if its object is smaller than the configured threshold; the bloom-filter policy rejects the first request for an object id and admits every later request for it, whatever else was requested in between; the probabilistic policy admits exactly if the next pseudo-random draw of its generator (modulo its modulus) lies below the configured share, so it always admits at probability one. A clone decides by the same configuration.",
  ["inputs", "configurations"], "all object sizes and ids (64 bit), all thresholds and parameter strings",
  "No test uses an admission policy.",
  ["libCacheSim/cache/admission/size.c", "libCacheSim/cache/admission/bloomfilter.c", "libCacheSim/cache/admission/prob.c"],
  [("admit functions", "libCacheSim/cache/admission/*.c")])
P("C12", "Trace samplers select deterministically at the configured ratio",
  "The spatial sampler with ratio r keeps or drops all requests for an object alike: exactly those whose hashed id is a multiple of the integer part of 1/r. The temporal sampler with ratio r keeps exactly every k-th request of the stream, k the integer part of 1/r, and drops the others. A cloned sampler has the same ratio and decides alike.",
  ["inputs", "configurations"], "all 64-bit ids, all ratios in (0,0.5], all stream lengths",
  "Tests do not check samplers against ids at the threshold.",
  ["libCacheSim/traceReader/sampling/spatial.c", "libCacheSim/traceReader/sampling/temporal.c"], [("sample functions", "spatial.c: spatial_sample, temporal.c: temporal_sample")])
P("C13", "Binary trace records are decoded exactly as the format specifies",
  "For every fixed-layout binary trace format (the oracleGeneral family, standardBin, twr, cf1, akamai, wiki, valpin, vscsi) and for generic binary and LCS traces with any field layout, every record yields a request whose time, object id, size and next access equal the bytes of the record at the format's documented offsets (unsigned unless the field's format is signed; a next access of -1 or INT64_MAX becomes INT64_MAX), records are consumed one after the other without overlap or gap (when zero-size requests are to be ignored exactly those are passed over), the end is reported exactly when no complete record is left, and reading never touches memory outside the trace.",
  ["inputs"], "all byte contents and all file lengths",
  "The tests read one well-formed file per format.",
  ["libCacheSim/traceReader/reader.c", "libCacheSim/traceReader/customizedReader/oracle/oracleGeneralBin.h", "libCacheSim/traceReader/customizedReader/vscsi.h", "libCacheSim/traceReader/generalReader/binary.c"],
  [("record decoding", "the *_read_one_req functions of libCacheSim/traceReader/customizedReader; binary.c: binary_read_one_req, read_data"), ("dispatch", "libCacheSim/traceReader/reader.c: read_one_req")])
P("C14", "Reader navigation is consistent with sequential reading",
  "Resetting a reader restarts the identical request sequence and a clone reads that sequence from its start, independently of the original, for every trace including compressed ones. For uncompressed traces of which no request is passed over for its size, going back one request makes the next read return the same request again, skipping n requests then reading equals reading n+1 times (past the end: all that are left are skipped, and their number is returned), reading backwards yields the reverse of the forward sequence, and the reported request count equals the number of requests a full read yields.",
  ["inputs", "histories"], "all traces, all interleavings of read, reset, skip, go back, clone",
  "The tests follow one fixed script on one trace.",
  ["libCacheSim/traceReader/reader.c"], [("navigation", "libCacheSim/traceReader/reader.c: reset_reader, go_back_one_req, skip_n_req, read_one_req_above, clone_reader, get_num_of_req")])
P("C15", "Text traces are parsed exactly line by line",
  "For plain-text and CSV traces without empty lines (numeric ids in decimal below 2^64 without leading zeros), the i-th request read corresponds to the i-th line after the header with the configured columns, whether the last line ends in a newline or not, for every delimiter and header setting and any line length, and equal (different) textual ids yield equal (different) object ids.",
  ["inputs", "configurations"], "all well-formed files, all column orders, lengths of lines and buffer boundaries",
  "The tests read one file of each format.",
  ["libCacheSim/traceReader/generalReader/csv.c", "libCacheSim/traceReader/generalReader/txt.c"], [("line and field scanning", "csv.c, txt.c, libcsv.c")])
P("C16", "Simulation results do not depend on threads and match a sequential run",
  "Simulating several caches over a trace yields for each cache the counts a sequential run of that cache over the same trace yields, independent of the number of threads, of the other caches and of scheduling; requests used for warm-up change cache state but not the counts, and the results are reported in the order of the caches.",
  ["schedules", "inputs", "configurations"], "all thread schedules, all cache lists and warm-up settings",
  "The tests run with fixed thread counts and sampled schedules.",
  ["libCacheSim/profiler/simulator.c"], [("thread pool over caches", "libCacheSim/profiler/simulator.c: simulate_with_multi_caches, _simulate")])
P("C17", "Reuse distances and the LRU miss ratio curve are exact",
  "The computed stack distance of every request is the number of distinct objects requested since the previous request of the same object (and is marked infinite on first access), and the LRU miss ratio reported for a size equals the miss ratio an LRU cache of that size achieves on the trace.",
  ["inputs"], "all traces of unit-size objects",
  "Tests compare a few values for one trace.",
  ["libCacheSim/profiler/dist.c", "libCacheSim/profiler/profilerLRU.c"], [("splay-tree stack distance", "libCacheSim/profiler/dist.c, profilerLRU.c")])
P("C18", "The splay tree stays a search tree with exact ranks",
  "After any sequence of splay, insert and delete operations the tree holds exactly the inserted keys in search order and the stored subtree sizes are exact, so that the rank of a key is the number of smaller keys.",
  ["inputs", "histories"], "trees of any shape and size, all keys",
  "Only reached through one trace's distance computation.",
  ["libCacheSim/dataStructure/splay.c"], [("top-down splay with sizes", "libCacheSim/dataStructure/splay.c: splay, insert, splay_delete")])
P("C19", "Approximate set and counter filters never under-report",
  "A bloom filter answers present for every key added since it was created, and the minimal-increment counting filter's estimate of a key is never below the number of times it was added since the last decay, as long as counters stay below 2^31.",
  ["inputs", "histories", "configurations"], "all keys, capacities and error rates",
  "No test covers the filters.",
  ["libCacheSim/dataStructure/bloom.c", "libCacheSim/dataStructure/minimalIncrementCBF.c"], [("bit and counter updates", "bloom.c: bloom_add, bloom_check; minimalIncrementCBF.c")])
P("C20", "Cache sizes on the command line are parsed exactly",
  "In the comma-separated list of cache sizes given to cachesim, a decimal number with an optional unit K, M, G or T (either case, with or without a B) is that number times 2^10, 2^20, 2^30 or 2^40 bytes, exactly, as long as it fits 63 bits; a fraction such as 0.25 is that share of the trace's working set, counted in bytes, or in objects when object sizes are ignored. The caches are created with these sizes, one per entry, in order.",
  ["inputs"], "all well-formed size strings that fit 64 bits",
  "The tests call the library, not the command line.",
  ["libCacheSim/bin/cachesim/cli_parser.c", "libCacheSim/bin/cli_reader_utils.c"], [("unit parsing", "conv_size_str_to_byte_ul"), ("the list", "conv_cache_sizes"), ("working set", "cal_working_set_size")])
P("C21", "A cloned or resized cache behaves like a freshly created one",
  "Cloning a cache, or creating one from it with another size, yields an empty cache of the same algorithm with the same parameter text (below 256 characters), metadata setting, time to live and admission policy and the requested size, which shares no mutable state with the original: from then on each behaves exactly as if created alone. This holds for the algorithms C22 names.",
  ["histories", "configurations"], "all algorithms with parameters, originals in any state",
  "The multi-size simulation tests use default parameters only.",
  ["libCacheSim/cache/cache.c"], [("re-creation through the initializer", "libCacheSim/cache/cache.c: clone_cache, create_cache_with_new_size")])
P("C22", "Every replacement algorithm keeps exact accounting, residency and removal",
  "For FIFO, LRU, MRU, Clock, Sieve, LFU (C and C++ versions), GDSF, LHD, Hyperbolic, ARC, Belady, BeladySize, CR-LFU, LeCaR, Random, RandomTwo, RandomLRU, SLRU, TwoQ, Size, WTinyLFU, FIFO-Merge, FIFO-Reinsertion, LRU-Prob, SFIFO, QDLP, S3FIFO and S3FIFOd: a request is a hit exactly if its object is resident; a missed request whose object fits leaves it resident (BeladySize may decline); occupied bytes equal the sum over the resident objects of size plus per-object overhead (WTinyLFU: without overhead; LHD: sizes fixed per object) and stay within the cache size, and the object count is exact; remove answers whether the object was resident, and deletes exactly it. Objects are small against the algorithm's smallest segment.",
  ["inputs", "histories", "configurations"], "all histories, sizes, parameters",
  "Tests compare the miss count of one trace.",
  [E + f for f in ("SLRU.c", "TwoQ.c", "ARC.c", "S3FIFO.c", "S3FIFOd.c", "QDLP.c", "fifo/SFIFO.c", "Random.c", "RandomTwo.c", "RandomLRU.c", "Size.c", "Belady.c", "BeladySize.c", "Hyperbolic.c", "LeCaR.c", "CR_LFU.c", "WTinyLFU.c", "FIFO_Merge.c", "FIFO_Reinsertion.c", "LRUProb.c", "cpp/GDSF.cpp", "cpp/LFU.cpp", "LHD/LHD_Interface.cpp")], [("composition of sub-caches", "the get, evict and insert functions of each algorithm")], observe_at=["cache->get", "cache->find", "cache->get_occupied_byte"])
json.dump
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for t in T: f.write(json.dumps(t) + "\n")
from vcg import props
checks = []; na = []
for t in T:
    if t["id"] in props.PROPS:
        p = props.PROPS[t["id"]]
        checks.append({"property": t["id"], "quick_cmd": "python3-vt check.py %s --tier quick" % t["id"], "thorough_cmd": "python3-vt check.py %s --tier thorough" % t["id"],
            "technique": p.get("technique", "contract-based deductive verification: verification conditions generated from the LLVM IR of /repo's functions against contracts, loop and data structure invariants, discharged by Z3; executable contracts replay counterexamples on the real code"),
            "level": p.get("level", "proof"), "level_note": p.get("level_note", "")})
    else: na.append({"property": t["id"], "reason": props.NA.get(t["id"], "contracts not built yet")})
m = {"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "check.py regenerates every obligation from /repo's current source (clang -S -emit-llvm with the build's own defines) on each run; see DESIGN.md"}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
