"""Registry: which functions of /repo are verified against which contract, and
which property each obligation belongs to."""
import os, re
from vcg import vcg, lists, core, queues, ht, clocks, lfu, pq, small, readers, cachenew, weak, cli, sim

class Unit:
    """one verification task: one function (or lemma) against its contract"""
    def __init__(s, name, files, build, props, engine="vcg", fn=None, shards=1):
        s.name, s.files, s.build, s.props, s.engine, s.fn = name, list(files), build, set(props), engine, fn or name; s.shards = shards

UNITS = {}
def add(u): UNITS[u.name] = u

# outside the hash table no verified function may write its private fields or an object's id
PRIVATE = ["cache_obj.hash_next", "cache_obj.obj_id", "hashtable.ptr_table", "hashtable.hashpower", "hashtable.n_obj", "hashtable.external_obj"]
OPTS = {"private": PRIVATE}
CACHE_FILES = ["cache/cache.c", "cache/cacheObj.c"]

def env_core():
    cons = dict(lists.contracts()); cons.update(core.ht_contracts()); cons.update(core.cache_contracts())
    return cons

def mk_core(fn):
    def build(prog):
        cons = env_core()
        return cons, cons[fn], core.GH, core.axioms(), OPTS
    return build

for fn in lists.contracts():
    add(Unit(fn, CACHE_FILES, mk_core(fn), ["C01", "C03", "C04", "C05", "C06", "C07"]))
for fn in ("cache_find_base", "cache_insert_base", "cache_evict_base", "cache_remove_obj_base", "cache_can_insert_default"):
    add(Unit(fn, CACHE_FILES, mk_core(fn), ["C01", "C02", "C03", "C04", "C06"]))

def mk_queue(q, fn):
    def build(prog):
        cons = env_core(); cons.update(queues.contracts(q, prog))
        return cons, cons[fn], core.GH, core.axioms(), OPTS
    return build

OPPROPS = {"find": ["C01", "C02"], "insert": ["C01", "C02"], "evict": ["C01", "C02", "C09"], "to_evict": ["C09"], "remove": ["C01", "C06"], "get": ["C01", "C02"]}
for q in queues.FAMILY.values():
    for op, ps in OPPROPS.items():
        order = "C03"
        add(Unit(q.fn(op), [q.file] + CACHE_FILES, mk_queue(q, q.fn(op)), ps + ([order] if op != "to_evict" else [])))

def mk_clock(q, fn):
    def build(prog):
        cons = env_core(); cons.update(clocks.contracts(q, prog)); con = cons[fn]
        if fn == q.fn("get"): clocks.for_get(q, cons)
        return cons, con, core.GH, core.axioms() + clocks.axioms(), OPTS
    return build
for q in clocks.FAMILY.values():
    for op, ps in OPPROPS.items():
        add(Unit(q.fn(op), [q.file] + CACHE_FILES, mk_clock(q, q.fn(op)), ps + (["C04"] if op != "to_evict" else [])))

def mk_lfu(op):
    def build(prog):
        cons = env_core(); cons.update(lfu.contracts(prog)); con = cons["LFU_" + op]; gh = dict(core.GH); gh.update(lfu.GH)
        if op == "get": clocks.for_get(lfu._E(), cons)
        return cons, con, gh, core.axioms() + lfu.axioms(), dict(OPTS, externals=lfu.EXT, rlimit=40000000)
    return build
for op, ps in OPPROPS.items():
    # LFU_find is the expensive one: proved (all its obligations) under C05
    add(Unit("LFU_" + op, [lfu.FILE] + CACHE_FILES, mk_lfu(op), (ps if op != "find" else []) + ["C05"], shards=14 if op == "find" else 2 if op in ("evict", "remove") else 1))

def mk_ht(fn, own):
    def build(prog):
        core.EXTV[0] = own
        cons = ht.contracts(); gh = dict(core.GH); gh.update(ht.GH)
        return cons, cons[fn], gh, core.axioms() + ht.axioms(), {"externals": ht.EXT, "bounds": ht.bounds, "rlimit": 40000000}
    return build
for fn in ht.contracts():
    for _own in ht.OWN.get(fn, [None]):
        add(Unit(("ht-ext:" if _own else "ht:") + fn, ht.FILES, mk_ht(fn, _own), ["C08"], fn=fn, shards=4 if "expand" in fn or "insert" in fn else 1))

def mk_pq(fn):
    def build(prog):
        cons = pq.contracts()
        return cons, pq.root_lemma if fn == "root" else cons[fn], pq.GH, [], {"externals": pq.EXT, "bounds": pq.bounds}
    return build
for fn in pq.contracts():
    add(Unit(fn, pq.FILES, mk_pq(fn), ["C10"]))
add(Unit("pq:root", pq.FILES, mk_pq("root"), ["C10"], engine="lemma", fn="root-is-largest lemma"))

def mk_small(fn):
    def build(prog):
        cons = small.contracts()
        return cons, cons[fn], small.GH, small.axioms(), {"externals": small.EXT, "bounds": small.bounds, "rlimit": 30000000}
    return build
for p, f, c in small.table():
    add(Unit(c.fn, [f], mk_small(c.fn), [p]))

def mk_reader(i):
    def build(prog):
        con, ps, callees = readers.table()[i]
        cons = {con.fn: con}; cons.update(callees)
        return cons, con, readers.GH, [], {"externals": readers.EXT, "bounds": readers.bounds, "rlimit": 30000000}
    return build
for _i, (_c, _p, _d) in enumerate(readers.table()):
    add(Unit(_c.name, [readers.FILE, readers.BFILE], mk_reader(_i), _p, fn=_c.fn))

# C21: cache creation, cloning, resizing; the initialisers establish the invariants of C01..C05
def mk_new(fn):
    def build(prog):
        if fn == "LFU_init": cachenew.LFUGID[0] = "freq_node+%d" % prog.field("freq_node", "first_obj")[0]
        all_ = cachenew.contracts(); con = all_[fn]
        cons = dict(core.ht_contracts()); cons.update(cachenew.contracts_generic()); cons.update(getattr(con, "extra", {})); cons[fn] = con
        gh = dict(core.GH); gh.update(cachenew.GH); gh.update(getattr(con, "gh", {}))
        return cons, con, gh, core.axioms() + cachenew.axioms() + getattr(con, "ax", []), {"externals": dict(cachenew.EXT, **getattr(con, "ext", {})), "rlimit": 30000000}
    return build
for _fn, _c in cachenew.contracts().items():
    if _fn.startswith("virtual"): continue
    _n = _fn.replace("_init", "")
    _p = ["C21"] + (["C01", "C02"] if _fn.endswith("_init") else []) + (["C03"] if _n in queues.FAMILY else ["C04"] if _n in clocks.FAMILY else ["C05"] if _n == "LFU" else [])
    add(Unit(_fn, getattr(_c, "files", ["cache/cache.c"]), mk_new(_fn), _p))
for _n in ("size", "prob", "bloomfilter"): UNITS["clone_%s_admissioner" % _n].props.add("C21"); UNITS["create_%s_admissioner" % _n].props.add("C21")

# C22: algorithms whose replacement order is not specified: accounting, residency, removal
def mk_weak(w, fn):
    def build(prog):
        cons = env_core(); cons.update(weak.contracts(w, prog)); gh = dict(core.GH); gh.update(w.gh)
        return cons, cons[fn], gh, core.axioms() + w.ax, dict(OPTS, externals=w.ext, rlimit=40000000)
    return build
for w in weak.FAMILY.values():
    for fn in w.funcs(): add(Unit(fn, [w.file] + w.files + CACHE_FILES, mk_weak(w, fn), ["C22"]))

# C16: the simulator
def mk_sim(fn):
    def build(prog):
        cons = sim.contracts(); gh = dict(core.GH); gh.update(sim.GH)
        return cons, cons[fn], gh, core.axioms() + sim.axioms(), {"externals": sim.EXT, "rlimit": 30000000, "bounds": sim.bounds if fn.startswith("simulate") else None}
    return build
for _fn, _c in sim.contracts().items():
    if not _c.trusted: add(Unit(_fn, ["profiler/simulator.c"], mk_sim(_fn), ["C16"], shards=4 if _fn == "_simulate" else 1))

# C20: sizes on the command line
def mk_cli(fn):
    def build(prog):
        cons = dict(cli.contracts())
        if fn == "conv_cache_sizes": cons.update(cli.callees())
        return cons, cli.contracts()[fn], dict(cli.GH), [], {"externals": cli.EXT, "rlimit": 40000000}
    return build
for _fn in cli.contracts(): add(Unit(_fn, [cli.FILE], mk_cli(_fn), ["C20"], shards=4 if _fn.startswith("conv_size") else 1))
