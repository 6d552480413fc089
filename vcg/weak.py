"""Contracts of algorithms whose replacement order is not specified here:
accounting, residency, removal (C22)."""
import z3
from vcg.vcg import *
from vcg import lists, core, queues, clocks
from vcg.lists import X, Y, P, N, LV, dll
from vcg.core import CV, HV, ID, SZ, base, cap, req_ok, acct, adm_pre, NUM, HTMODS
from vcg.queues import FREQ, NAV, ht_del, set_cache

class W:
    def __init__(s, name, file, pstruct=None, lists=(), extra_keys=(), init_md=None, te=False, loops=None, ext=None, axioms=(), size_fixed=True, static=True, own_get=None):
        s.name, s.file, s.pstruct, s.lists, s.extra_keys = name, file, pstruct, list(lists), list(extra_keys)
        s.init_md, s.te, s.loops, s.ext, s.ax = init_md, te, loops or {}, ext or {}, list(axioms)
    def fn(s, op): return s.name + "_" + op
    def loc(s, ex, S, c, f):
        off, lt = ex.prog.field(s.pstruct, f)
        return Ptr(CV(S, c).params, s.pstruct, (), off)
    def Ls(s, ex, S, c): return [LV(ex, S, s.loc(ex, S, c, h), s.loc(ex, S, c, t)) for h, t in s.lists]
    def gids(s, prog): return ["%s+%d" % (s.pstruct, prog.field(s.pstruct, h)[0]) for h, t in s.lists]
    def listkeys(s): return [s.pstruct + "." + f for l in s.lists for f in l]
    def roles(s):
        return {"cache." + op: s.fn(op) for op in ("find", "insert", "evict", "remove", "to_evict")} | {
            "cache.can_insert": "cache_can_insert_default", "cache.get_occupied_byte": "cache_get_occupied_byte_default",
            "cache.get_n_obj": "cache_get_n_obj_default", "admissioner.admit": "virtual:admit"}
    def inv(s, ex, S, c):
        C = CV(S, c); r = base(S, c)
        if s.pstruct: r += core.plive(S, c)
        Ls = s.Ls(ex, S, c)
        for i, L in enumerate(Ls): r += dll(L, "queue %d" % i if len(Ls) > 1 else "queue")
        if len(Ls) == 1: r.append(("queue members = resident objects", Ls[0].inn == C.H.ht))
        elif Ls:
            r.append(("every resident object is in exactly one queue", z3.ForAll([X], C.H.has(X) == z3.Or([L.has(X) for L in Ls]), patterns=[C.H.has(X)] + [L.has(X) for L in Ls])))
            for i, L in enumerate(Ls):
                for M in Ls[:i]: r.append(("the queues are disjoint", z3.ForAll([X], z3.Not(z3.And(L.has(X), M.has(X))), patterns=[L.has(X), M.has(X)])))
        return r + s.more(ex, S, c) + [("operation table", z3.And([S.f(c, k) == S.fn(v) for k, v in s.roles().items() if k.startswith("cache.") and not k.endswith("to_evict")]))]
    def more(s, ex, S, c): return []
    def ghosts(s, prog): return ["ghost:%s@%s" % (g, i) for i in s.gids(prog) for g in ("in", "rk")]
    def mods(s): return s.listkeys() + ([N, P] if s.lists else []) + s.extra_keys + (["cache.to_evict_candidate", "cache.to_evict_candidate_gen_vtime"])

def kept(c):
    """ids and sizes of objects, and the parameters of the cache, do not change"""
    S, S0 = c.S, c.S0
    return [(k + " unchanged", S.m(k) == S0.m(k)) for k in (ID, SZ)] + \
           [("cache parameters unchanged", z3.And([S.f(c[0], "cache." + f) == S0.f(c[0], "cache." + f) for f in ("cache_size", "obj_md_size", "eviction_params", "hashtable", "admissioner")]))]
def otherc(c):
    if c.caller: return []
    return [("other caches untouched: " + k, z3.ForAll([X], z3.Implies(z3.And(X != c[0], c.S0.live(X)), z3.Select(c.S.m(k), X) == z3.Select(c.S0.m(k), X)))) for k in ("cache.occupied_byte", "cache.n_obj")]

def wfind(w):
    def post(c):
        C0, C1 = CV(c.S0, c[0]), CV(c.S, c[0]); i = c.S0.f(c[1], "request.obj_id")
        return [("hit iff resident", c.ret == z3.If(C0.H.found(i), C0.H.at(i), NULL))] + w.inv(c.ex, c.S, c[0]) + kept(c)
    return Contract(w.fn("find"), pre=lambda c: w.inv(c.ex, c.S, c[0]) + req_ok(c.S, c[1]), post=post, modifies=w.mods() + [FREQ, NAV] + w.G, roles=w.roles())

def winsert(w):
    def pre(c):
        C = CV(c.S, c[0])
        return w.inv(c.ex, c.S, c[0]) + req_ok(c.S, c[1]) + [("id not resident", z3.Not(C.H.found(c.S.f(c[1], "request.obj_id")))),
            ("room", z3.And(C.occ >= 0, C.occ + c.S.f(c[1], "request.obj_size") + C.md <= C.size))]
    def effect(c):
        S, S0, o = c.S, c.S0, c.ret
        for path, val in ((ID, S0.f(c[1], "request.obj_id")), (SZ, z3.Extract(31, 0, S0.f(c[1], "request.obj_size")))):
            k = c.ex.key(path); S.setmap(k, z3.Store(S.map(k), o, val))
        C0 = CV(S0, c[0]); set_cache(c, "cache.occupied_byte", C0.occ + S0.f(c[1], "request.obj_size") + C0.md); set_cache(c, "cache.n_obj", C0.nobj + 1)
    def post(c):
        o, S, S0 = c.ret, c.S, c.S0; C0, C1 = CV(S0, c[0]), CV(S, c[0])
        return [("new object is fresh", z3.And(o != NULL, z3.Not(S0.live(o)), z3.Not(z3.Select(S0.g("ever"), o)), z3.Not(C0.H.has(o)), S.live(o))),
             ("id and size copied from the request", z3.And(S.f(o, ID) == S0.f(c[1], "request.obj_id"), S.f(o, SZ) == z3.Extract(31, 0, S0.f(c[1], "request.obj_size")))),
             ("occupied grows by size + metadata", C1.occ == C0.occ + S0.f(c[1], "request.obj_size") + C0.md), ("object count grows by one", C1.nobj == C0.nobj + 1)] + \
             w.inv(c.ex, S, c[0]) + cap(S, c[0]) + otherc(c)
    con = Contract(w.fn("insert"), pre=pre, post=post, allocates=True, modifies=HTMODS + w.mods() + [FREQ, NAV] + w.G, roles=w.roles(),
        ghost_post={"ht": lambda c: z3.Store(CV(c.S0, c[0]).H.HT, CV(c.S0, c[0]).h, z3.Store(CV(c.S0, c[0]).H.ht, c.ret, True)),
                    "byid": lambda c: z3.Store(CV(c.S0, c[0]).H.BY, CV(c.S0, c[0]).h, z3.Store(CV(c.S0, c[0]).H.by, c.S0.f(c[1], "request.obj_id"), c.ret)),
                    "live": core.LIVE1, "ever": core.EVER})
    con.effect = effect; con.effmods = ["cache.occupied_byte", "cache.n_obj"]
    return con

def nonempty(c): 
    h = CV(c.S, c[0]).H; return [("cache not empty", h.has(core.WIT(h.ht)))]
def shrunk(c):
    """some residents left; everything else is as before"""
    C0, C1 = CV(c.S0, c[0]), CV(c.S, c[0]); gone = lambda x: z3.And(C0.H.has(x), z3.Not(C1.H.has(x)))
    l0, l1 = c.S0.g("live"), c.S.g("live")
    return [("only residents remain", z3.ForAll([X], z3.Implies(C1.H.has(X), C0.H.has(X)), patterns=[C1.H.has(X)])),
            ("other tables untouched", C1.H.HT == z3.Store(C0.H.HT, C0.h, C1.H.ht)),
            ("exactly the evicted objects are freed", z3.ForAll([X], z3.Select(l1, X) == z3.And(z3.Select(l0, X), z3.Not(gone(X))), patterns=[z3.Select(l1, X), z3.Select(l0, X)]))]
def wevict(w):
    def post(c):
        C0, C1 = CV(c.S0, c[0]), CV(c.S, c[0])
        return w.inv(c.ex, c.S, c[0]) + shrunk(c) + kept(c) + [("something is evicted", NUM(C1.H.ht) < NUM(C0.H.ht)), ("occupied does not grow", z3.And(C1.occ >= 0, C1.occ <= C0.occ))] + otherc(c)
    return Contract(w.fn("evict"), pre=lambda c: w.inv(c.ex, c.S, c[0]) + cap(c.S, c[0]) + nonempty(c), post=post, frees=True,
        modifies=HTMODS + w.mods() + w.G + ["cache.occupied_byte", "cache.n_obj", "ghost:ht", "ghost:live"] + w.evmods, roles=w.roles(), loops=w.evloops(), mayabort=False)

def wremove(w):
    def H(c): return CV(c.S0, c[0]).H
    def post(c):
        C0, C1 = CV(c.S0, c[0]), CV(c.S, c[0]); f = H(c).found(c[1]); v = H(c).at(c[1])
        return [("reports whether the object was resident", c.ret == f), ("occupied shrinks by exactly that object", C1.occ == z3.If(f, C0.occ - C0.cost(v), C0.occ)),
                ("object count", C1.nobj == z3.If(f, C0.nobj - 1, C0.nobj))] + w.inv(c.ex, c.S, c[0]) + kept(c) + otherc(c)
    def cond(c, new, old): return z3.If(H(c).found(c[1]), new, old)
    return Contract(w.fn("remove"), pre=lambda c: w.inv(c.ex, c.S, c[0]), post=post, frees=True,
        modifies=HTMODS + w.mods() + w.G + ["cache.occupied_byte", "cache.n_obj"],
        ghost_post={"ht": lambda c: cond(c, ht_del(c, H(c).at(c[1])), H(c).HT), "live": lambda c: cond(c, z3.Store(c.S0.g("live"), H(c).at(c[1]), False), c.S0.g("live"))}, roles=w.roles())

def wget(w):
    def loop(c):
        ex, S, S0 = c.ex, c.S, c.S0; ca, rq = c[0], c[1]; C0, C1 = CV(S0, ca), CV(S, ca); i = S.f(rq, "request.obj_id")
        return w.inv(ex, S, ca) + cap(S, ca) + req_ok(S, rq) + [("requested id not resident", z3.Not(C1.H.found(i))), ("request fits the cache", S.f(rq, "request.obj_size") + C1.md <= C1.size),
              ("only residents remain", z3.ForAll([X], z3.Implies(C1.H.has(X), C0.H.has(X)), patterns=[C1.H.has(X)]))] + kept(c) + [("request not a cached object", z3.Not(C1.H.has(rq)))]
    def post(c):
        ex, S, S0 = c.ex, c.S, c.S0; ca, rq = c[0], c[1]; C0, C1 = CV(S0, ca), CV(S, ca); i = S0.f(rq, "request.obj_id"); hit = C0.H.found(i); n = C1.H.at(i)
        noadm = S0.f(ca, "cache.admissioner") == NULL; fits = S0.f(rq, "request.obj_size") + C0.md <= C0.size
        return [("hit exactly when the object was resident", c.ret == hit)] + w.inv(ex, S, ca) + cap(S, ca) + [
            ("a hit keeps every resident object", z3.Implies(hit, C1.H.HT == C0.H.HT)),
            ("an admissible miss leaves the object resident", z3.Implies(z3.And(z3.Not(hit), noadm, fits), z3.And(C1.H.found(i), C1.sz(n) == z3.Extract(31, 0, S0.f(rq, "request.obj_size"))))),
            ("an object larger than the cache is never inserted and evicts nothing", z3.Implies(z3.And(z3.Not(hit), z3.Not(fits)), C1.H.HT == C0.H.HT)),
            ("a denied request changes nothing", z3.Implies(z3.And(z3.Not(hit), z3.Not(C1.H.found(i))), C1.H.HT == C0.H.HT)),
            ("nothing but the requested object is added", z3.ForAll([X], z3.Implies(C1.H.has(X), z3.Or(C0.H.has(X), X == n)), patterns=[C1.H.has(X)]))]
    return Contract(w.fn("get"), pre=lambda c: w.inv(c.ex, c.S, c[0]) + cap(c.S, c[0]) + req_ok(c.S, c[1]) + adm_pre(c.S, c[0]) + [("request is not a cached object", z3.Not(CV(c.S, c[0]).H.has(c[1])))], post=post,
        allocates=True, frees=True, roles=w.roles(), loops={"cache_get_base": {0: {"inv": loop, "variant": lambda c: NUM(CV(c.S, c[0]).H.ht)}}},
        modifies=HTMODS + w.mods() + w.G + w.evmods + [FREQ, NAV, "cache.occupied_byte", "cache.n_obj", "cache.n_req", "ghost:ht", "ghost:byid", "ghost:live"])

def contracts(w, prog):
    w.G = w.ghosts(prog) if w.lists else []
    r = {c.fn: c for c in (wfind(w), winsert(w), wevict(w), wremove(w), wget(w))}
    for n, c in w.helpers(prog).items(): r[n] = c
    return r
W.gh = {}; W.files = []
W.funcs = lambda s: [s.fn(op) for op in ("find", "insert", "evict", "remove", "get")]
W.evloops = lambda s: {}; W.helpers = lambda s, prog: {}
W.evmods = []

LV_ = "cache_obj.Random.last_access_vtime"
def x_rand(ex, S, args, rty, ins): return [(S, fresh("draw", BV64))]
class RLRU(W):
    pass
FAMILY = {w.name: w for w in (
    W("Random", "cache/eviction/Random.c"),
    W("RandomTwo", "cache/eviction/RandomTwo.c", extra_keys=[LV_]),
    W("LRU_Prob", "cache/eviction/LRUProb.c", "LRU_Prob_params", [("q_head", "q_tail")], ext={"next_rand": x_rand}),
)}
