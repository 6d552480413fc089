"""Contracts of cache creation (C21): the initialisers of the algorithms, and
clone_cache / create_cache_with_new_size over any initialiser."""
import z3
from vcg.vcg import *
from vcg import lists, core, queues, clocks, lfu
from vcg.core import CV, HV, LIM

TxtS = z3.DeclareSort("Txt")
EMPTY = z3.Const("EMPTYTXT", TxtS)
TXT = z3.Function("TXT", PtrS, TxtS)                        # text behind a string pointer
LEN = z3.Function("TXTLEN", TxtS, BV64)
ADMCFG = "admcfg"; PFCFG = "pfcfg"
CfgS = z3.DeclareSort("Cfg")
BV8 = z3.BitVecSort(8)
MK = z3.Function("CONFIGURED", PtrS, BV64, BV64, z3.BoolSort(), TxtS, CfgS)     # initialiser, size, ttl, metadata flag, parameter text
MD = z3.Function("MDSIZE", PtrS, z3.BoolSort(), TxtS, z3.BitVecSort(32))
GH = {"ctxt": z3.ArraySort(PtrS, TxtS), "cfg": z3.ArraySort(PtrS, CfgS), "acfg": z3.ArraySort(PtrS, CfgS), "pcfg": z3.ArraySort(PtrS, CfgS)}
IPO = lambda c: c.prog.field("cache", "init_params")[0] if hasattr(c, "prog") else c.ex.prog.field("cache", "init_params")[0]

def B0KEY(ex): return ("cache", ((IPO(ex), "i8"),), 0, "i8")
def isarr(p, off): return isinstance(p, Ptr) and p.root == "cache" and p.off == 0 and p.dims == ((off, "i8"),) and z3.is_bv_value(p.idx[0]) and p.idx[0].as_long() == 0
def byte0(ex, S, cache):
    return z3.Select(z3.Select(S.map(B0KEY(ex)), cache), z3.BitVecVal(0, 64))
def ctext(ex, S, cache):
    """text of the cache's own copy of its parameters"""
    return z3.If(byte0(ex, S, cache) == 0, EMPTY, z3.Select(S.g("ctxt"), cache))
def conf(c, S, p):
    """parameter text a pointer argument denotes (NULL: none)"""
    if isarr(p, IPO(c)): return ctext(c.ex, S, p.base)
    b = addr_term(p) if isinstance(p, Ptr) else p
    return z3.If(b == NULL, EMPTY, TXT(b))
P = lambda c, i, f: c.S0.f(c[i], "common_cache_params_t." + f)
def flag(c): return z3.Extract(0, 0, P(c, 0, "consider_obj_metadata")) == 1

def axioms():
    t = z3.Const("tx", TxtS); i = z3.Const("mi", PtrS); b = z3.Const("mb", z3.BoolSort())
    return [LEN(EMPTY) == 0, z3.ForAll([t], z3.Implies(LEN(t) == 0, t == EMPTY), patterns=[LEN(t)])]

def x_strncpy(ex, S, args, rty, ins):
    d, s, n = args
    off = IPO(ex); coff = ex.prog.field("cache", "cache_name")[0]
    if isarr(d, coff):
        ex.prove(S, z3.ULE(n, z3.BitVecVal(off - coff, 64)) if off > coff else z3.ULE(n, z3.BitVecVal(64, 64)), "memory safety: the name is copied within its array", ins.line)
        return [(S, args[0])]
    if not isarr(d, off): raise Unsupported("strncpy to an unexpected place")
    src = conf(type("C", (), {"ex": ex})(), S, s)
    ex.prove(S, z3.And(z3.ULE(n, z3.BitVecVal(256, 64)), z3.ULT(LEN(src), n)), "the parameter text is copied whole and within its array", ins.line)
    b = fresh("byte0", BV8); S.assume((b == 0) == (src == EMPTY))
    k = B0KEY(ex); row = z3.Select(S.map(k), d.base)
    S.setmap(k, z3.Store(S.map(k), d.base, z3.Store(fresh("text", row.sort()), z3.BitVecVal(0, 64), b))); S.ghost["ctxt"] = z3.Store(S.g("ctxt"), d.base, src)
    return [(S, args[0])]
def x_snprintf(ex, S, args, rty, ins):
    d = args[0]; coff = ex.prog.field("cache", "cache_name")[0]
    if not isarr(d, coff): raise Unsupported("snprintf to something other than the cache name")
    ex.prove(S, z3.ULE(args[1], z3.BitVecVal(64, 64)), "memory safety: the name stays within its array", ins.line)
    return [(S, fresh("n", z3.BitVecSort(32)))]
EXT = {"strncpy": x_strncpy, "snprintf": x_snprintf}

# ------------------------------------------------------------------ any initialiser
def created(c, p0, ptext, cache):
    """what every initialiser promises: common_cache_params_t object p0, parameter text"""
    S, S0 = c.S, c.S0; C = CV(S, cache)
    f = lambda n: S.f(cache, "cache." + n)
    q = lambda n: S0.f(p0, "common_cache_params_t." + n)
    return [("fresh cache", z3.And(cache != NULL, z3.Not(S0.live(cache)), S.live(cache))),
            ("requested size", f("cache_size") == q("cache_size")), ("requested time to live", f("default_ttl") == q("default_ttl")),
            ("no policy attached, no future distances, no preview", z3.And(f("admissioner") == NULL, f("prefetcher") == NULL, f("future_stack_dist") == NULL, f("future_stack_dist_array_size") == 0,
                 f("to_evict_candidate") == NULL, f("to_evict_candidate_gen_vtime") == -1, f("n_req") == 0)),
            ("own hash table", z3.And(C.h != NULL, z3.Not(S0.live(C.h)), S.live(C.h), C.h != cache)),
            ("empty", z3.And(C.H.ht == z3.K(PtrS, z3.BoolVal(False)), C.occ == 0, C.nobj == 0)),
            ("keeps the parameter text", ctext(c.ex, S, cache) == ptext)]

def init_virtual():
    def post(c):
        t = conf(c, c.S0, c.raw(1)); me = c.S0.f(c.old, "cache.cache_init") if hasattr(c, "old") else None
        return created(c, c[0], t, c.ret)
    con = Contract("virtual:cache_init", trusted=True, allocates=True, note="an initialiser creates an empty cache from the common parameters and the text (proved for the initialisers under contract)",
        pre=lambda c: [("the text fits its array", z3.ULT(LEN(conf(c, c.S, c.raw(1))), 256))],
        modifies=["ghost:ctxt", "ghost:ht", "ghost:byid", "ghost:cfg", "ghost:live"])
    def effect(c):
        S, S0 = c.S, c.S0
        S.event(("junk", c.ret, next(vcg_fresh())))
        x = z3.Const("xo", PtrS)
        for g in ("ctxt", "ht", "byid", "cfg"):
            a, b = c.ex.named(S, g, S0.g(g)), S.g(g)
            S.assume(z3.ForAll([x], z3.Implies(S0.live(x), z3.Select(b, x) == z3.Select(a, x)), patterns=[z3.Select(b, x), z3.Select(a, x)]))
        a, b = c.ex.named(S, "live", S0.g("live")), S.g("live")
        S.assume(z3.ForAll([x], z3.Implies(z3.Select(a, x), z3.Select(b, x)), patterns=[z3.Select(a, x), z3.Select(b, x)]))
        t = conf(c, S0, c.raw(1)); fl = z3.Extract(0, 0, S0.f(c[0], "common_cache_params_t.consider_obj_metadata")) == 1
        me = INITFN
        S.assume(z3.Select(S.g("cfg"), c.ret) == MK(me, S0.f(c[0], "common_cache_params_t.cache_size"), S0.f(c[0], "common_cache_params_t.default_ttl"), fl, t))
        S.assume(S.f(c.ret, "cache.obj_md_size") == MD(me, fl, t))
        S.assume(S.f(c.ret, "cache.cache_init") == me)
    con.effect = effect; con.post = post
    return con
INITFN = z3.Const("the_initialiser", PtrS)
def vcg_fresh():
    import vcg.vcg as V
    return V._fresh

def adm_virtual(which, fld):
    g = "acfg" if which == "adm" else "pcfg"
    def post(c):
        r = [("fresh policy", z3.And(c.ret != NULL, z3.Not(c.S0.live(c.ret))))]
        if which == "adm": r.append(("same configuration", z3.Select(c.S.g(g), c.ret) == z3.Select(c.S0.g(g), c[0])))
        else: r.append(("same configuration for the requested cache size", z3.Select(c.S.g(g), c.ret) == z3.Select(c.S0.g(g), c[0])))
        return r
    con = Contract("virtual:%s_clone" % which, trusted=True, allocates=True, pre=lambda c: [("policy present", c[0] != NULL)] + ([("told the requested size", c[1] == REQ)] if which == "pf" else []), post=post,
        modifies=["ghost:" + g], note="a policy's clone is a fresh policy with the same configuration (proved for the admission policies in small.py)")
    def effect(c):
        x = z3.Const("xo", PtrS); a, b = c.ex.named(c.S, g, c.S0.g(g)), c.S.g(g)
        c.S.assume(z3.ForAll([x], z3.Implies(x != c.ret, z3.Select(b, x) == z3.Select(a, x)), patterns=[z3.Select(b, x), z3.Select(a, x)]))
        c.S.ghost["live"] = c.ex.named(c.S, "live", z3.Store(c.S0.g("live"), c.ret, True))
    con.effect = effect
    return con
REQ = z3.Const("the_requested_size", BV64)

def clone_con(fn):
    def size(c): return c.S0.f(c[0], "cache.cache_size") if fn == "clone_cache" else c[1]
    def pre(c):
        S = c.S; o = c[0]; t = ctext(c.ex, S, o); f = lambda n: S.f(o, "cache." + n); md = f("obj_md_size")
        return [("original live", z3.And(o != NULL, S.live(o), f("hashtable") != NULL, S.live(f("hashtable")))),
                ("made by its initialiser", z3.And(f("cache_init") == INITFN, MD(INITFN, False, t) == 0, z3.Or(md == 0, md == MD(INITFN, True, t)), z3.ULT(LEN(t), 256))),
                ("the requested size", REQ == size(c))]
    def post(c):
        S, S0, o, n = c.S, c.S0, c[0], c.ret; f = lambda k: S.f(n, "cache." + k); g = lambda k: S0.f(o, "cache." + k)
        t = ctext(c.ex, S0, o); C = CV(S, n)
        return [("a fresh cache", z3.And(n != NULL, z3.Not(S0.live(n)), n != o)), ("the requested size", f("cache_size") == size(c)),
                ("the same time to live", f("default_ttl") == g("default_ttl")), ("the same metadata overhead per object", f("obj_md_size") == g("obj_md_size")),
                ("the same algorithm", f("cache_init") == g("cache_init")), ("the same parameter text", ctext(c.ex, S, n) == t),
                ("configured as a cache created with these parameters", z3.Select(S.g("cfg"), n) == MK(INITFN, size(c), g("default_ttl"), g("obj_md_size") != 0, t)),
                ("empty, with a hash table of its own", z3.And(C.H.ht == z3.K(PtrS, z3.BoolVal(False)), C.occ == 0, C.nobj == 0, z3.Not(S0.live(C.h)))),
                ("no admission policy iff the original has none", (f("admissioner") == NULL) == (g("admissioner") == NULL)),
                ("an admission policy of its own with the same configuration", z3.Implies(g("admissioner") != NULL, z3.And(z3.Not(S0.live(f("admissioner"))), z3.Select(S.g("acfg"), f("admissioner")) == z3.Select(S0.g("acfg"), g("admissioner"))))),
                ("no prefetcher iff the original has none", (f("prefetcher") == NULL) == (g("prefetcher") == NULL)),
                ("a prefetcher of its own with the same configuration", z3.Implies(g("prefetcher") != NULL, z3.And(z3.Not(S0.live(f("prefetcher"))), z3.Select(S.g("pcfg"), f("prefetcher")) == z3.Select(S0.g("pcfg"), g("prefetcher"))))),
                ("the same future distances", z3.And(f("future_stack_dist") == g("future_stack_dist"), f("future_stack_dist_array_size") == g("future_stack_dist_array_size"))),
                ("the original keeps its text, contents and policies' configuration", z3.And(ctext(c.ex, S, o) == t, z3.Select(S.g("ht"), g("hashtable")) == z3.Select(S0.g("ht"), g("hashtable")),
                     z3.Implies(g("admissioner") != NULL, z3.Implies(S0.live(g("admissioner")), z3.Select(S.g("acfg"), g("admissioner")) == z3.Select(S0.g("acfg"), g("admissioner"))))))]
    def assume(c):
        S = c.S; o = c[0]; g = lambda k: S.f(o, "cache." + k)
        return [("policies live", z3.And(z3.Or(g("admissioner") == NULL, S.live(g("admissioner"))), z3.Or(g("prefetcher") == NULL, S.live(g("prefetcher")))))]
    return Contract(fn, pre=lambda c: pre(c) + assume(c), post=post, allocates=True,
        modifies=["ghost:" + g for g in ("ctxt", "ht", "byid", "cfg", "acfg", "pcfg", "live")],
        roles={"cache.cache_init": "virtual:cache_init", "admissioner.clone": "virtual:adm_clone", "prefetcher.clone": "virtual:pf_clone"})

# ------------------------------------------------------------------ the initialisers
def boundfns(c, cache, table):
    return [("operation table", z3.And([c.S.f(cache, "cache." + k) == c.S.fn(v) for k, v in table.items()]))]

def contracts_generic():
    return {c.fn: c for c in (clone_con("clone_cache"), clone_con("create_cache_with_new_size"), init_virtual(), adm_virtual("adm", ""), adm_virtual("pf", ""))}
EMPTYSET = z3.K(PtrS, z3.BoolVal(False))
def init_pre(c):
    S = c.S; q = lambda f: S.f(c[0], "common_cache_params_t." + f)
    return [("common parameters live", z3.And(c[0] != NULL, S.live(c[0]))), ("the size is below 2^62", z3.And(q("cache_size") >= 0, q("cache_size") < LIM)),
            ("the parameter text is shorter than 256 characters", z3.ULT(LEN(conf(c, S, c.raw(1))), 256))]
def init_con(name, file, inv, md, table, ghosts, posts=None, extra=None, ext=None, ax=(), gh=None, pkeys=()):
    def post(c):
        n = c.ret; fl = flag(c); S = c.S
        r = created(c, c[0], conf(c, c.S0, c.raw(1)), n)
        r.append(("per-object overhead as documented", S.f(n, "cache.obj_md_size") == (z3.If(fl, z3.BitVecVal(md, 32), z3.BitVecVal(0, 32)))))
        r.append(("operation table", z3.And([S.f(n, "cache." + k) == S.fn(v) for k, v in table.items()])))
        if inv: r += [("invariant established: " + l, f) for l, f in inv(c.ex, S, n)]
        if posts: r += posts(c)
        return r
    con = Contract(name + "_init", pre=init_pre, post=post, allocates=True, modifies=["ghost:ctxt", "ghost:ht", "ghost:byid", "ghost:live"], ghost_post=ghosts)
    con.files = [file, "cache/cache.c"]; con.ext = ext or {}; con.ax = list(ax); con.gh = gh or {}; con.extra = extra or {}
    return con
def ops(name, *names):
    t = {"cache_init": name + "_init", "cache_free": name + "_free"}
    for n in names or ("get", "find", "insert", "evict", "remove", "to_evict"): t[n] = "%s_%s" % (name, n)
    t.update({"can_insert": "cache_can_insert_default", "get_occupied_byte": "cache_get_occupied_byte_default", "get_n_obj": "cache_get_n_obj_default"})
    return t
def empty_list(q):
    def g(c): return z3.Store(c.S0.g("in@" + q.gid(c.ex)), CV(c.S, c.ret).params, EMPTYSET)
    return {(lambda c: "in@" + q.gid(c.ex)): g}

NB = z3.Function("PARSED_nbit", z3.BitVecSort(32), TxtS, z3.BitVecSort(32)); MX = z3.Function("PARSED_maxfreq", z3.BitVecSort(32), TxtS, z3.BitVecSort(32))
def c_parse(fn, fields, inv):
    """parsing of the parameter text (trusted): each setting becomes a function of its old value and the text"""
    def par(c): return c.S.f(c[0], "cache.eviction_params")
    def post(c):
        S0, S = c.S0, c.S; p = par(c); t = conf(c, S0, c.raw(1))
        return [("%s as the text says" % f, S.f(p, f) == F(S0.f(p, f), t)) for f, F in fields] + inv(c, p)
    con = Contract(fn, pre=lambda c: [("parameters live", z3.And(c.S.live(c[0]), c.S.live(par(c))))], post=post, trusted=True, note="parsing of the parameter text")
    def effect(c):
        for f, F in fields:
            k = c.ex.key(f); c.S.setmap(k, z3.Store(c.S.map(k), par(c), fresh("parsed", c.S.map(k).sort().range())))
    con.effect = effect
    return con
def x_gnew(ex, S, args, rty, ins):
    for i, f in enumerate(("g_direct_hash", "g_direct_equal")):
        ex.prove(S, addr_term(args[i]) == S.fn(f), "the count table compares counts by value", ins.line)
    p = ex.alloc(S, "htab"); S.ghost["gmap"] = z3.Store(S.g("gmap"), p, z3.K(BV64, NULL))
    return [(S, Ptr(p))]

def inits():
    out = []
    for n, md in (("FIFO", 0), ("LRU", 16), ("MRU", 0)):
        q = queues.FAMILY[n]
        out.append(init_con(n, q.file, q.inv, md, ops(n), empty_list(q)))
    q = clocks.FAMILY["Sieve"]
    out.append(init_con("Sieve", q.file, q.inv, 1, ops("Sieve"), empty_list(q), ax=clocks.axioms()))
    q = clocks.FAMILY["Clock"]
    def cl(c):
        p = CV(c.S, c.ret).params; t = conf(c, c.S0, c.raw(1)); d = c.S0.map(("@DEFAULT_PARAMS", (), 0, "ptr")) if False else None
        return []
    pc = c_parse("Clock_parse_params", [("Clock_params_t.n_bit_counter", NB), ("Clock_params_t.max_freq", MX)], lambda c, p: [("assumed: the counter limit is not negative", c.S.f(p, "Clock_params_t.max_freq") >= 0)])
    out.append(init_con("Clock", q.file, q.inv, 0, ops("Clock"), empty_list(q), posts=cl, extra={"Clock_parse_params": pc}, ax=clocks.axioms()))
    gid = lambda c: lfu.V(c.ex, c.S, c.ret).gid
    con = init_con("LFU", lfu.FILE, lfu.inv, 16, ops("LFU"), {}, ext=dict(lfu.EXT, g_hash_table_new_full=x_gnew), ax=lfu.axioms(), gh=lfu.GH)
    con.modifies += ["ghost:gmap", lambda args: "ghost:in@" + LFUGID[0]]
    out.append(con)
    return out
LFUGID = ["freq_node+16"]
def contracts():
    r = contracts_generic()
    for c in inits(): r[c.fn] = c
    return r
