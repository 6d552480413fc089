"""What each check consists of: proof units (from units.py), bounded drivers,
and the text of the evidence."""
A_COMMON = ["malloc and calloc do not fail (the code does not check)", "each object's size fits the 32-bit field of the object and byte totals stay below 2^62",
            "the preprocessor configuration of the release build (TTL support off, asserts compiled out)"]
A_READ = ["traces are smaller than 2^48 bytes", "the mapped trace is not changed while it is read (MAP_PRIVATE of a file nobody writes)", "no cap on the number of requests, no sampler, no pending repetitions of a counted request",
          "malloc, mmap, open and fstat succeed"]
PROPS = {
 "C01": dict(rac=[("rac_cache", "", 6, 60)], assumptions=A_COMMON),
 "C02": dict(rac=[("rac_cache", "", 6, 60)], assumptions=A_COMMON),
 "C03": dict(rac=[("rac_cache", "", 6, 60)], assumptions=A_COMMON),
 "C04": dict(rac=[("rac_cache", "", 6, 60)], assumptions=A_COMMON),
 "C05": dict(rac=[("rac_cache", "", 6, 60)], assumptions=A_COMMON + ["fewer than 2^32 - 1 objects share one hit count; fewer than 2^62 hits", "glib's GHashTable behaves as a finite map from counts to nodes (trusted external)"], slow=["LFU_find"]),
 "C06": dict(rac=[("rac_cache", "", 6, 60)], assumptions=A_COMMON),
 "C07": dict(rac=[], assumptions=A_COMMON),
 "C08": dict(rac=[("rac_ht", "", 6, 60)], assumptions=A_COMMON + ["the table holds fewer than 2^29 entries, initial hash power at most 30", "XXH3 of the 8 id bytes is a pure function (uninterpreted, so every collision pattern is covered)"]),
 "C09": dict(rac=[("rac_cache", "", 6, 60)], assumptions=A_COMMON),
 "C10": dict(rac=[("rac_ds", "", 4, 60)], assumptions=["fewer than 2^39 queued elements", "realloc either fails (NULL, old block intact) or moves the block; malloc does not fail", "priorities are not NaN", "each element is in at most one queue"]),
 "C11": dict(rac=[("rac_ds", "", 4, 60)], assumptions=["glib's GHashTable behaves as a finite map (trusted external)", "fewer than 2^31 - 1 requests for one object (bloom filter policy)", "parsing of the parameter text is covered by the executable contracts only"]),
 "C12": dict(rac=[("rac_ds", "", 4, 60)], assumptions=["XXH3 of the 8 id bytes is a pure function", "sampling ratio in (0, 0.5]"]),
 "C19": dict(rac=[("rac_ds", "", 4, 60)], assumptions=["XXH64 of the key bytes is a pure function", "counters below 2^31 - 4096, at most 2048 hash functions", "the caller does not overlap the key with the filter's memory"]),
 "C13": dict(rac=[("rac_reader", "", 5, 60)], assumptions=A_READ + ["the fields named by a generic binary trace's parameters lie within its record (established by binaryReader_setup, covered by the executable contracts)"]),
 "C14": dict(rac=[("rac_reader", "", 5, 60)], assumptions=A_READ + ["text and zstd traces are covered by the executable contracts only"]),
 "C16": dict(rac=[("rac_sim", "", 10, 120)], assumptions=["a cache's answer and next state depend only on its state, the content of the request and the generator of the thread (a consequence of C01..C05, C22 per algorithm; caches share no state)", "a reader delivers its trace in order and a clone delivers the same trace (C13, C14)", "create_cache_with_new_size gives a new cache of the same kind (C21)", "glib's thread pool runs the worker once per pushed item and g_thread_pool_free(pool, FALSE, TRUE) waits for all of them (trusted external)", "the wait loop's unsynchronised read of the progress counter only decides how long to wait; its termination is not proved", "traces shorter than 2^48 requests"]),
 "C20": dict(rac=[("rac_cli", "", 5, 60)], assumptions=["strtoul and strtol with base 10 return the value of the leading digits (trusted external)", "strtok splits the list at commas and leaves its parts alone (trusted external)", "atof, and the product of a fraction and the working set size, are uninterpreted (the executable contract compares them with strtod)", "at most 128 sizes; the list is not the automatic one (0 or auto)", "the working set size of cal_working_set_size is an assumed contract here (executable contract only)"]),
 "C21": dict(rac=[("rac_multi", "", 10, 90)], assumptions=["parameter texts are shorter than 256 characters", "an initialiser other than those under contract (FIFO, LRU, MRU, Clock, Sieve, LFU) keeps the contract of an initialiser (covered by the executable contracts)", "prefetcher clones keep their configuration"]),
 "C22": dict(rac=[("rac_multi", "", 12, 90)], assumptions=A_COMMON + ["no admission policy changes the cache", "algorithms without proved contracts (everything except the functions listed) are covered by the executable contracts only"]),
}
NOTE = "Deductive proof for all inputs of the functions under contract (LLVM IR of the current source, Z3); assumed contracts and externals are listed in the evidence. Functions of the property not yet under contract are covered only by the bounded executable contracts, reported separately as bounded."
for p in PROPS.values(): p.setdefault("level_note", NOTE)
NA = {}
