"""Contracts of LFU: one list per hit count, found through a glib hash table."""
import z3
from vcg.vcg import *
from vcg import lists, core, queues
from vcg.lists import X, Y, P, N, LV, dll
from vcg.core import CV, HV, ID, SZ, BV32, cap, req_ok, adm_pre, NUM, HTMODS, LIM
from vcg.queues import FREQ, NAV, set_cache, ht_del

FK = "cache_obj.lfu.freq"; NF = "freq_node.freq"; NN = "freq_node.n_obj"; FO = "freq_node.first_obj"; LO = "freq_node.last_obj"
MAPS = z3.ArraySort(BV64, PtrS); FM = z3.ArraySort(PtrS, BV64)
GH = {"gmap": z3.ArraySort(PtrS, MAPS)}
K = z3.Const("k", BV64)
CARD32 = z3.Function("CARD32", SetS, BV32)       # number of members modulo 2^32
SMALL = z3.Function("SMALL", SetS, z3.BoolSort())  # fewer than 2^32 members
SMALL1 = z3.Function("SMALL1", SetS, z3.BoolSort())  # fewer than 2^32 - 1 members
MINF = z3.Function("MINF", SetS, FM, BV64); WITF = z3.Function("WITF", SetS, FM, PtrS)
MARK = z3.Function("MARK", PtrS, z3.BoolSort())

def axioms():
    S = z3.Const("aS", SetS); f = z3.Const("af64", FM); x = z3.Const("ax", PtrS)
    T, F = z3.BoolVal(True), z3.BoolVal(False); i = z3.Select(S, x); add, dele = z3.Store(S, x, T), z3.Store(S, x, F)
    A = lambda vs, b_, *p: z3.ForAll(vs, b_, patterns=[z3.MultiPattern(*p) if len(p) > 1 else p[0]])
    return [
        A([S, x], CARD32(add) == z3.If(i, CARD32(S), CARD32(S) + 1), CARD32(add)),
        A([S, x], CARD32(dele) == z3.If(i, CARD32(S) - 1, CARD32(S)), CARD32(dele)),
        A([S], z3.Or(z3.Select(S, core.WIT(S)), CARD32(S) == 0), CARD32(S)),
        A([S, x], z3.Implies(z3.Or(SMALL(S), SMALL1(S)), SMALL(dele)), SMALL(dele)),
        A([S, x], z3.Implies(SMALL1(S), SMALL(add)), SMALL(add)),
        A([S], z3.Implies(SMALL1(S), SMALL(S)), SMALL1(S)),
        A([S, x], z3.Implies(z3.And(SMALL(S), CARD32(S) == 0), z3.Not(i)), CARD32(S), i),
        A([S, f, x], z3.Implies(i, z3.And(z3.ULE(MINF(S, f), z3.Select(f, x)), z3.Select(S, WITF(S, f)), z3.Select(f, WITF(S, f)) == MINF(S, f))), i, MINF(S, f)),
    ]

# ---- the glib hash table from counts to nodes (g_direct_hash/equal, values destroyed by free_freq_node)
def _key(p): 
    t = addr_term(p)
    return t.arg(0) if z3.is_app(t) and t.decl().eq(i2p) else p2i(t)
def x_lookup(ex, S, args, rty, ins):
    return [(S, Ptr(z3.Select(z3.Select(S.g("gmap"), addr_term(args[0])), _key(args[1]))))]
def x_insert(ex, S, args, rty, ins):
    t = addr_term(args[0]); m = z3.Select(S.g("gmap"), t); k = _key(args[1])
    ex.prove(S, z3.Select(m, k) == NULL, "g_hash_table_insert: the count has no node yet", ins.line)
    n = addr_term(args[2])
    S.ghost["gmap"] = ex.named(S, "gmap", z3.Store(S.g("gmap"), t, z3.Store(m, k, n)))
    # ghost code: the new node's list starts empty
    ex.prove(S, z3.And(S.f(n, FO) == NULL, S.f(n, LO) == NULL), "a new count starts with an empty list", ins.line)
    off, _ = ex.prog.field("freq_node", "first_obj"); g = "in@freq_node+%d" % off
    S.ghost[g] = ex.named(S, g, z3.Store(S.g(g), n, z3.K(PtrS, z3.BoolVal(False))))
    return [(S, None)]
def x_remove(ex, S, args, rty, ins):
    t = addr_term(args[0]); m = z3.Select(S.g("gmap"), t); k = _key(args[1]); v = z3.Select(m, k)
    ex.prove(S, z3.Or(v == NULL, S.live(v)), "g_hash_table_remove: the destroyed node is live", ins.line)
    S.ghost["live"] = ex.named(S, "live", z3.If(v == NULL, S.g("live"), z3.Store(S.g("live"), v, False))); S.ghost["_safe"] = ()
    S.ghost["gmap"] = ex.named(S, "gmap", z3.Store(S.g("gmap"), t, z3.Store(m, k, NULL)))
    return [(S, fresh("removed", BV32))]
EXT = {"g_hash_table_lookup": x_lookup, "g_hash_table_insert": x_insert, "g_hash_table_remove": x_remove}

class NL:
    """the list of one node (same interface as lists.LV)"""
    def __init__(s, V, n):
        S = V.S; s.S, s.n, s.hd, s.tl = S, n, S.f(n, FO), S.f(n, LO)
        s.inn = z3.Select(V.IN, n); s.rk = z3.Select(V.RK, n); s.nx, s.pv = S.m(N), S.m(P)
    def has(s, x): return z3.Select(s.inn, x)
    def rank(s, x): return z3.Select(s.rk, x)
    def next(s, x): return z3.Select(s.nx, x)
    def prev(s, x): return z3.Select(s.pv, x)

class V:
    def __init__(s, ex, S, c, params=None):
        s.ex, s.S, s.c = ex, S, c
        s.p = params if params is not None else CV(S, c).params
        s.t = S.f(s.p, "LFU_params.freq_map"); s.M = z3.Select(S.g("gmap"), s.t)
        s.min, s.max, s.one = S.f(s.p, "LFU_params.min_freq"), S.f(s.p, "LFU_params.max_freq"), S.f(s.p, "LFU_params.freq_one_node")
        off, _ = ex.prog.field("freq_node", "first_obj"); s.gid = "freq_node+%d" % off
        s.IN, s.RK = S.g("in@" + s.gid), S.g("rk@" + s.gid)
        s.F = S.m(FK)
        if c is not None: s.ht = CV(S, c).H.ht
    def node(s, k): return z3.Select(s.M, k)
    def L(s, k): return NL(s, s.node(k))
    def f(s, x): return z3.Select(s.F, x)
    def rank(s, x): return s.L(s.f(x)).rank(x)
    def victim(s): return s.S.f(s.node(MINF(s.ht, s.F)), FO)

ROLES = {"cache." + op: "LFU_" + op for op in ("find", "insert", "evict", "remove", "to_evict")} | {
    "cache.can_insert": "cache_can_insert_default", "cache.get_occupied_byte": "cache_get_occupied_byte_default",
    "cache.get_n_obj": "cache_get_n_obj_default", "admissioner.admit": "virtual:admit"}

def fa(vs, b, *p): return z3.ForAll(vs, b, patterns=[z3.MultiPattern(*p) if len(p) > 1 else p[0]])

def nodes_inv(v):
    """every count's node carries that count and a well-formed list of exactly the resident objects with that count"""
    S, M = v.S, v.M; n = v.node(K); L = NL(v, n); r = []
    for lab, f in dll(L, "list of a count"):
        r.append((lab, fa([K], z3.Implies(n != NULL, f), n)))
    c = v.c; C = CV(S, c)
    r += [("every node carries its count, is live and no cached object", fa([K], z3.Implies(n != NULL, z3.And(S.f(n, NF) == K, S.live(n), z3.Not(z3.Select(v.ht, n)), n != c, n != v.p, n != v.t, n != C.h)), n)),
          ("the node's object count is exact", fa([K], z3.Implies(n != NULL, S.f(n, NN) == CARD32(z3.Select(v.IN, n))), n)),
          ("listed objects are resident with this count", fa([K, X], z3.Implies(z3.And(n != NULL, L.has(X)), z3.And(z3.Select(v.ht, X), v.f(X) == K)), L.has(X))),
          ("every resident object is listed under its count", fa([X], z3.Implies(z3.Select(v.ht, X), z3.And(v.node(v.f(X)) != NULL, z3.Select(z3.Select(v.IN, v.node(v.f(X))), X),
               z3.UGE(v.f(X), 1), z3.ULE(v.f(X), v.max))), z3.Select(v.ht, X)))]
    return r

def inv(ex, S, c):
    v = V(ex, S, c); C = CV(S, c)
    nonempty = z3.Select(v.ht, core.WIT(v.ht))
    r = core.base(S, c) + core.plive(S, c) + nodes_inv(v)
    r += [("count-one node", z3.And(v.one != NULL, v.node(z3.BitVecVal(1, 64)) == v.one)), ("table live", z3.And(v.t != NULL, S.live(v.t), z3.Not(z3.Select(v.ht, v.t)))),
          ("distinct structures", z3.Distinct(c, v.p, v.t, C.h)),
          ("the minimum is a lower bound", fa([X], z3.Implies(z3.And(z3.Select(v.ht, X), v.min != 0), z3.UGE(v.f(X), v.min)), z3.Select(v.ht, X))),
          ("the minimum is attained unless unknown", fa([X], z3.Implies(z3.And(z3.Select(v.ht, X), v.min != 0), z3.And(v.node(v.min) != NULL, S.f(v.node(v.min), FO) != NULL)), z3.Select(v.ht, X))),
          ("counts start at one", z3.UGE(v.max, 1))]
    r += [("operation table", z3.And([S.f(c, k) == S.fn(w) for k, w in ROLES.items() if k.startswith("cache.") and not k.endswith("to_evict")]))]
    return r

def env(c):
    """stated assumptions on magnitudes"""
    v = V(c.ex, c.S, c[0])
    return [("fewer than 2^32 - 1 objects have the same hit count", fa([K], z3.Implies(v.node(K) != NULL, SMALL1(z3.Select(v.IN, v.node(K)))), v.node(K))),
            ("fewer than 2^62 hits per object", z3.ULT(v.max, LIM))]

def others(c, v0):
    """other LFU caches: their maps, nodes and lists are untouched (this cache's nodes are those in its map)"""
    r = []
    if not c.caller:
        g0, g1 = c.S0.g("gmap"), c.S.g("gmap")
        r += [("other count maps untouched", z3.ForAll([X], z3.Implies(X != v0.t, z3.Select(g1, X) == z3.Select(g0, X))))]
        for key in ("cache.occupied_byte", "cache.n_obj"):
            r += [("other caches untouched: " + key, z3.ForAll([X], z3.Implies(z3.And(X != c[0], c.S0.live(X)), z3.Select(c.S.m(key), X) == z3.Select(c.S0.m(key), X))))]
        for key in ("LFU_params.min_freq", "LFU_params.max_freq"):
            r += [("other caches untouched: " + key, z3.ForAll([X], z3.Implies(z3.And(X != v0.p, c.S0.live(X)), z3.Select(c.S.m(key), X) == z3.Select(c.S0.m(key), X))))]
    return r

def min_loop(key):
    """update_min_freq: no node strictly between the old minimum and the cursor has objects"""
    def li(c):
        S, S0 = c.S, c.S0; v = V(c.ex, S, None, c[0]); fr = c.local("freq")
        m0 = S0.f(c[0], "LFU_params.min_freq")
        return [("minimum not yet changed", S.m("LFU_params.min_freq") == S0.m("LFU_params.min_freq")), ("cursor above the minimum", z3.And(z3.UGT(fr, m0), z3.Or(z3.ULE(fr, v.max), fr == v.max + 1, fr == m0 + 1))),
                ("skipped counts have no objects", fa([K], z3.Implies(z3.And(z3.UGT(K, m0), z3.ULT(K, fr)), z3.Or(v.node(K) == NULL, S.f(v.node(K), NN) == 0)), v.node(K)))]
    def var(c):
        v = V(c.ex, c.S, None, c[0]); fr = c.local("freq")
        return z3.If(z3.ULE(fr, v.max), v.max - fr + 1, z3.BitVecVal(0, 64))
    return {"update_min_freq": {0: {"inv": li, "variant": var}}}

LISTMODS = [FO, LO, N, P, NN]
GM = lambda c: "ghost:x"
def gmods(gid): return ["ghost:in@" + gid, "ghost:rk@" + gid]

def hints(c):
    v0, v1 = V(c.ex, c.S0, c[0]), V(c.ex, c.S, c[0]); n = v1.node(K); S = c.S; m = v1.node(v1.min)
    r = []
    if c.ret is not None and c.ret.sort() == PtrS:      # the node the hit object leaves
        on = v0.node(v0.f(c.ret))
        r = [("the old node's count is exact", z3.Implies(z3.And(c.ret != NULL, c[2]), z3.And(S.f(on, NN) == CARD32(z3.Select(v1.IN, on)), SMALL(z3.Select(v1.IN, on))))),
             ("the old node is empty if its count is zero", z3.Implies(z3.And(c.ret != NULL, c[2], S.f(on, NN) == 0), fa([X], z3.Not(z3.Select(z3.Select(v1.IN, on), X)), z3.Select(z3.Select(v1.IN, on), X))))]
    return r + [("node counts are exact", fa([K], z3.Implies(n != NULL, S.f(n, NN) == CARD32(z3.Select(v1.IN, n))), n)),
            ("node sizes stay in range", fa([K], z3.Implies(n != NULL, SMALL(z3.Select(v1.IN, n))), n)),
            ("residents are listed", fa([X], z3.Implies(z3.Select(v1.ht, X), z3.And(v1.node(v1.f(X)) != NULL, z3.Select(z3.Select(v1.IN, v1.node(v1.f(X))), X))), z3.Select(v1.ht, X))),
            ("listed objects are resident with this count", fa([K, X], z3.Implies(z3.And(n != NULL, z3.Select(z3.Select(v1.IN, n), X)), z3.And(z3.Select(v1.ht, X), v1.f(X) == K)), z3.Select(z3.Select(v1.IN, n), X))),
            ("head null only for an empty list", fa([K, X], z3.Implies(z3.And(n != NULL, S.f(n, FO) == NULL), z3.Not(z3.Select(z3.Select(v1.IN, n), X))), z3.Select(z3.Select(v1.IN, n), X))),
            ("a node with objects has a head", fa([K], z3.Implies(z3.And(n != NULL, S.f(n, NN) != 0), S.f(n, FO) != NULL), n)),
            ("a resident's node has objects", fa([X], z3.Implies(z3.Select(v1.ht, X), S.f(v1.node(v1.f(X)), NN) != 0), z3.Select(v1.ht, X)))]

def keeps(c, v0, v1, but):
    """order: objects of equal count keep their relative order; `but` is the object that moved"""
    return [("[C05] objects of equal count keep their age order", z3.ForAll([X, Y], z3.Implies(z3.And(z3.Select(v1.ht, X), z3.Select(v1.ht, Y), X != but, Y != but, z3.Select(v0.ht, X), z3.Select(v0.ht, Y), v0.f(X) == v0.f(Y)),
              (v1.rank(X) < v1.rank(Y)) == (v0.rank(X) < v0.rank(Y))), patterns=[z3.MultiPattern(z3.Select(v1.ht, X), z3.Select(v1.ht, Y))]))]

def last(v1, o):
    return z3.ForAll([X], z3.Implies(z3.And(z3.Select(v1.ht, X), X != o, v1.f(X) == v1.f(o)), v1.rank(X) > v1.rank(o)), patterns=[z3.Select(v1.ht, X)])

def lfind(gid):
    def post(c):
        H0 = CV(c.S0, c[0]).H; i = c.S0.f(c[1], "request.obj_id"); o = c.ret
        v0, v1 = V(c.ex, c.S0, c[0]), V(c.ex, c.S, c[0]); up = z3.And(c[2], o != NULL)
        mods = LISTMODS + [FREQ, NAV, FK]
        r = [("hit iff resident", o == z3.If(H0.found(i), H0.at(i), NULL)), ("residency unchanged", c.S.g("ht") == c.S0.g("ht"))]
        r += [("[C02,C05] lookup without update or miss changes nothing: " + k, z3.Implies(z3.Not(up), c.S.m(k) == c.S0.m(k))) for k in mods]
        r += [("[C02,C05] lookup without update or miss changes no list", z3.Implies(z3.Not(up), z3.And(c.S.g("gmap") == c.S0.g("gmap"), v1.IN == v0.IN, v1.RK == v0.RK, v1.min == v0.min, v1.max == v0.max)))]
        r += [("[C05] an updating hit adds one to the hit object's count, to no other", z3.ForAll([X], z3.Implies(z3.Select(v0.ht, X), v1.f(X) == z3.If(z3.And(up, X == o), v0.f(X) + 1, v0.f(X))), patterns=[v1.f(X)])),
              ("[C05] the hit object is the latest of its new count", z3.Implies(up, last(v1, o))),
              ("hit statistics", z3.Implies(up, z3.And(c.S.f(o, FREQ) == c.S0.f(o, FREQ) + 1, c.S.f(o, NAV) == c.S0.f(c[1], "request.next_access_vtime"))))]
        r += [("nothing is freed except an emptied count node", fa([X], z3.Implies(z3.And(c.S0.live(X), z3.Not(c.S.live(X))), v0.node(c.S0.f(X, NF)) == X), c.S.live(X)))]
        return r + inv(c.ex, c.S, c[0]) + keeps(c, v0, v1, o) + others(c, v0)
    return Contract("LFU_find", pre=lambda c: inv(c.ex, c.S, c[0]) + req_ok(c.S, c[1]) + [("request is not a cached object", z3.Not(CV(c.S, c[0]).H.has(c[1])))], post=post, allocates=True, frees=True, extra_assume=env, roles=ROLES, loops=min_loop("find"),
        modifies=LISTMODS + [NF, FREQ, NAV, FK, "LFU_params.min_freq", "LFU_params.max_freq", "ghost:gmap", "ghost:live"] + gmods(gid))

def live_frame(c, keep_req=True):
    return []

def linsert(gid):
    base = queues.qinsert
    def pre(c):
        C = CV(c.S, c[0])
        return inv(c.ex, c.S, c[0]) + req_ok(c.S, c[1]) + [("id not resident", z3.Not(C.H.found(c.S.f(c[1], "request.obj_id")))),
            ("room", z3.And(C.occ >= 0, C.occ + c.S.f(c[1], "request.obj_size") + C.md <= C.size))]
    def post(c):
        o, S, S0 = c.ret, c.S, c.S0
        C0, C1 = CV(S0, c[0]), CV(S, c[0]); v0, v1 = V(c.ex, S0, c[0]), V(c.ex, S, c[0])
        r = [("new object is fresh", z3.And(o != NULL, z3.Not(S0.live(o)), z3.Not(z3.Select(S0.g("ever"), o)), z3.Not(C0.H.has(o)), S.live(o))),
             ("id and size copied from the request", z3.And(S.f(o, ID) == S0.f(c[1], "request.obj_id"), S.f(o, SZ) == z3.Extract(31, 0, S0.f(c[1], "request.obj_size")))),
             ("occupied grows by size + metadata", C1.occ == C0.occ + S0.f(c[1], "request.obj_size") + C0.md),
             ("object count grows by one", C1.nobj == C0.nobj + 1),
             ("[C05] the count starts at one", v1.f(o) == 1), ("[C05] the new object is the latest of its count", last(v1, o)),
             ("[C05] other counts unchanged", z3.ForAll([X], z3.Implies(z3.Select(v0.ht, X), v1.f(X) == v0.f(X)), patterns=[v1.f(X)])),
             ("fresh metadata", z3.And(S.f(o, FREQ) == 0, S.f(o, NAV) == S0.f(c[1], "request.next_access_vtime")))]
        return r + inv(c.ex, S, c[0]) + cap(S, c[0]) + keeps(c, v0, v1, o) + others(c, v0)
    q = queues.Q("LFU", "", "LFU_params")
    con = Contract("LFU_insert", pre=pre, post=post, allocates=True, modifies=HTMODS + LISTMODS + ["LFU_params.min_freq", FK] + gmods(gid), roles=ROLES,
        ghost_post={"ht": lambda c: z3.Store(CV(c.S0, c[0]).H.HT, CV(c.S0, c[0]).h, z3.Store(CV(c.S0, c[0]).H.ht, c.ret, True)),
                    "byid": lambda c: z3.Store(CV(c.S0, c[0]).H.BY, CV(c.S0, c[0]).h, z3.Store(CV(c.S0, c[0]).H.by, c.S0.f(c[1], "request.obj_id"), c.ret)),
                    "live": core.LIVE1, "ever": core.EVER})
    def effect(c):
        o = c.ret; S, S0, ex = c.S, c.S0, c.ex
        keep = {k: S.m(k) for k in (N, P, FK)}
        S.event(("zero", o, "cache_obj"))
        for path, val in ((ID, S0.f(c[1], "request.obj_id")), (SZ, z3.Extract(31, 0, S0.f(c[1], "request.obj_size"))), (NAV, S0.f(c[1], "request.next_access_vtime"))):
            k = ex.key(path); S.setmap(k, z3.Store(S.map(k), o, val))
        for k, v in keep.items(): S.setmap(ex.key(k), v)
        C0 = CV(S0, c[0])
        set_cache(c, "cache.occupied_byte", C0.occ + S0.f(c[1], "request.obj_size") + C0.md); set_cache(c, "cache.n_obj", C0.nobj + 1)
    con.effect = effect; con.effmods = ["cache.occupied_byte", "cache.n_obj"]
    return con

def nonempty(c): return [("cache not empty", z3.Select(CV(c.S, c[0]).H.ht, core.WIT(CV(c.S, c[0]).H.ht)))]

def levict(gid):
    vic = lambda c: V(c.ex, c.S0, c[0]).victim()
    def post(c):
        C0, C1 = CV(c.S0, c[0]), CV(c.S, c[0]); v0, v1 = V(c.ex, c.S0, c[0]), V(c.ex, c.S, c[0]); v = vic(c)
        return [("occupied shrinks by the victim", C1.occ == C0.occ - C0.cost(v)), ("object count shrinks by one", C1.nobj == C0.nobj - 1)] + \
            inv(c.ex, c.S, c[0]) + keeps(c, v0, v1, NULL) + others(c, v0)
    con = Contract("LFU_evict", pre=lambda c: inv(c.ex, c.S, c[0]) + nonempty(c), post=post, frees=True, extra_assume=env, roles=ROLES, loops=min_loop("evict"),
        modifies=HTMODS + LISTMODS + ["LFU_params.min_freq"] + ["cache.to_evict_candidate", "cache.to_evict_candidate_gen_vtime"] + gmods(gid),
        ghost_post={"ht": lambda c: ht_del(c, vic(c)), "live": lambda c: z3.Store(c.S0.g("live"), vic(c), False)})
    con.effect = queues.qremoval_effect(None, vic); con.effmods = ["cache.occupied_byte", "cache.n_obj"]
    return con

def lto_evict(gid):
    def post(c):
        v0 = V(c.ex, c.S0, c[0]); H0 = CV(c.S0, c[0]).H
        return [("names the object the next eviction removes", c.ret == v0.victim()), ("[C05] the victim is resident, its count is minimal and it is the earliest of its count",
                z3.And(H0.has(c.ret), z3.ForAll([X], z3.Implies(H0.has(X), z3.And(z3.UGE(v0.f(X), v0.f(c.ret)), z3.Implies(z3.And(X != c.ret, v0.f(X) == v0.f(c.ret)), v0.rank(X) < v0.rank(c.ret)))), patterns=[H0.has(X)])))] + inv(c.ex, c.S, c[0])
    return Contract("LFU_to_evict", pre=lambda c: inv(c.ex, c.S, c[0]) + nonempty(c), post=post, extra_assume=env, roles=ROLES, loops=min_loop("to_evict"),
        modifies=["LFU_params.min_freq", "cache.to_evict_candidate", "cache.to_evict_candidate_gen_vtime"])

def lremove(gid):
    def H(c): return CV(c.S0, c[0]).H
    def cond(c, new, old): return z3.If(H(c).found(c[1]), new, old)
    def post(c):
        C0, C1 = CV(c.S0, c[0]), CV(c.S, c[0]); f = H(c).found(c[1]); o = H(c).at(c[1]); v0, v1 = V(c.ex, c.S0, c[0]), V(c.ex, c.S, c[0])
        return [("reports whether the object was resident", c.ret == f),
                ("occupied shrinks by exactly that object", C1.occ == z3.If(f, C0.occ - C0.cost(o), C0.occ)),
                ("object count", C1.nobj == z3.If(f, C0.nobj - 1, C0.nobj))] + inv(c.ex, c.S, c[0]) + keeps(c, v0, v1, NULL) + others(c, v0)
    return Contract("LFU_remove", pre=lambda c: inv(c.ex, c.S, c[0]), post=post, frees=True, extra_assume=env, roles=ROLES, loops=min_loop("remove"),
        modifies=HTMODS + LISTMODS + ["LFU_params.min_freq", "cache.occupied_byte", "cache.n_obj"] + gmods(gid),
        ghost_post={"ht": lambda c: cond(c, ht_del(c, H(c).at(c[1])), H(c).HT), "live": lambda c: cond(c, z3.Store(c.S0.g("live"), H(c).at(c[1]), False), c.S0.g("live"))})

def lget(gid):
    def pre(c):
        return inv(c.ex, c.S, c[0]) + cap(c.S, c[0]) + req_ok(c.S, c[1]) + adm_pre(c.S, c[0]) + [("request is not a cached object", z3.Not(CV(c.S, c[0]).H.has(c[1]))),
            ("request and admission policy are not internal nodes", z3.And([V(c.ex, c.S, c[0]).node(c.S.f(o, NF)) != o for o in (c[1], c.S.f(c[0], "cache.admissioner"))]))]
    def lin(c):
        ex, S, S0 = c.ex, c.S, c.S0; ca, rq = c[0], c[1]
        C0, C1 = CV(S0, ca), CV(S, ca); v0, v1 = V(ex, S0, ca), V(ex, S, ca); i = S.f(rq, "request.obj_id")
        fits0 = C0.occ + S.f(rq, "request.obj_size") + C0.md <= C0.size
        r = inv(ex, S, ca) + cap(S, ca) + req_ok(S, rq)
        r += [("requested id not resident", z3.Not(C1.H.found(i))), ("request fits the cache", S.f(rq, "request.obj_size") + C1.md <= C1.size),
              ("only residents remain", z3.ForAll([X], z3.Implies(C1.H.has(X), C0.H.has(X)), patterns=[C1.H.has(X)])),
              ("nothing happens while the object fits", z3.Implies(fits0, C1.H.ht == C0.H.ht)),
              ("[C05] counts unchanged", S.m(FK) == S0.m(FK))] + keeps(c, v0, v1, NULL)
        for k in (SZ, ID, FREQ, NAV): r.append((k + " unchanged", S.m(k) == S0.m(k)))
        r += [("cache parameters unchanged", z3.And([S.f(ca, "cache." + f) == S0.f(ca, "cache." + f) for f in ("cache_size", "obj_md_size", "eviction_params", "hashtable", "admissioner")])),
              ("request counted once", S.f(ca, "cache.n_req") == S0.f(ca, "cache.n_req") + 1)]
        return r
    def post(c):
        ex, S, S0 = c.ex, c.S, c.S0; ca, rq = c[0], c[1]
        C0, C1 = CV(S0, ca), CV(S, ca); v0, v1 = V(ex, S0, ca), V(ex, S, ca)
        i = S0.f(rq, "request.obj_id"); hit = C0.H.found(i); o = C0.H.at(i); n = C1.H.at(i)
        need = S0.f(rq, "request.obj_size") + C0.md; noadm = S0.f(ca, "cache.admissioner") == NULL; fits = need <= C0.size
        ins = z3.And(z3.Not(hit), C1.H.found(i)); same = C1.H.HT == C0.H.HT; f0, f1 = S0.m(FK), S.m(FK)
        return [("hit exactly when the object was resident", c.ret == hit)] + inv(ex, S, ca) + cap(S, ca) + [
              ("a hit keeps every resident object", z3.Implies(hit, same)),
              ("[C05,C02] a hit adds one to exactly the hit object's count", z3.Implies(hit, z3.And(last(v1, o), z3.ForAll([X], z3.Implies(z3.Select(v0.ht, X), v1.f(X) == z3.If(X == o, v0.f(X) + 1, v0.f(X))), patterns=[v1.f(X)])))),
              ("an admissible miss leaves the object resident", z3.Implies(z3.And(z3.Not(hit), noadm, fits), z3.And(C1.H.found(i), C1.sz(n) == z3.Extract(31, 0, S0.f(rq, "request.obj_size"))))),
              ("an object larger than the cache is never inserted and evicts nothing", z3.Implies(z3.And(z3.Not(hit), z3.Not(fits)), z3.And(same, f1 == f0))),
              ("a denied request changes nothing", z3.Implies(z3.And(z3.Not(hit), z3.Not(C1.H.found(i))), z3.And(same, f1 == f0))),
              ("nothing but the requested object is added", z3.ForAll([X], z3.Implies(C1.H.has(X), z3.Or(C0.H.has(X), X == n)), patterns=[C1.H.has(X)])),
              ("nothing is evicted while the object fits", z3.Implies(z3.And(ins, C0.occ + need <= C0.size), z3.ForAll([X], z3.Implies(C0.H.has(X), C1.H.has(X)), patterns=[C0.H.has(X)]))),
              ("[C05] the new object starts at count one, latest of its count", z3.Implies(ins, z3.And(v1.f(n) == 1, last(v1, n)))),
              ("[C05] a miss changes no other count", z3.Implies(z3.Not(hit), z3.ForAll([X], z3.Implies(z3.And(C1.H.has(X), X != n), v1.f(X) == v0.f(X)), patterns=[C1.H.has(X)])))] + keeps(c, v0, v1, z3.If(hit, o, n))
    mods = HTMODS + LISTMODS + [NF, FREQ, NAV, FK, "LFU_params.min_freq", "LFU_params.max_freq", "cache.occupied_byte", "cache.n_obj", "cache.n_req", "cache.to_evict_candidate", "cache.to_evict_candidate_gen_vtime"] + \
        ["ghost:" + g for g in ("ht", "byid", "gmap", "live")] + gmods(gid)
    return Contract("LFU_get", pre=pre, post=post, allocates=True, frees=True, modifies=mods, roles=ROLES, loops={"cache_get_base": {0: {"inv": lin, "variant": lambda c: NUM(CV(c.S, c[0]).H.ht)}}})

def contracts(prog):
    off, _ = prog.field("freq_node", "first_obj"); gid = "freq_node+%d" % off
    r = {c.fn: c for c in (lfind(gid), linsert(gid), levict(gid), lto_evict(gid), lremove(gid), lget(gid))}
    for o in ("find", "evict", "remove"): r["LFU_" + o].hints = hints
    return r

class _E:
    def fn(s, op): return "LFU_" + op
FILE = "cache/eviction/LFU.c"
