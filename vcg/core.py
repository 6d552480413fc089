"""Contracts for the hash table interface (abstract view) and the functions of
cache.c that every eviction algorithm builds on."""
import z3
from vcg.vcg import *
from vcg import lists
from vcg.lists import X, Y, P, N

BV32 = z3.BitVecSort(32)
SIZEM = z3.ArraySort(PtrS, BV32)
GH = dict(lists.GHOSTS)
GH.update({"ht": z3.ArraySort(PtrS, SetS), "byid": z3.ArraySort(PtrS, z3.ArraySort(BV64, PtrS))})

# ---- finite-set sums (lemmas are proved for finite sets in lemmas.lean)
SUM = z3.Function("SUM", SetS, SIZEM, BV64, BV64)          # bytes of a set, modulo 2^64
FITS = z3.Function("FITS", SetS, SIZEM, BV64, z3.BoolSort())  # the true sum is < 2^62 
CARD = z3.Function("CARD", SetS, BV64)                      # number of members modulo 2^64
NUM = z3.Function("NUM", SetS, z3.IntSort())                # number of members
WIT = z3.Function("WIT", SetS, PtrS)                        # a member of a non-empty set
LIM = z3.BitVecVal(1 << 62, 64)

def axioms():
    S = z3.Const("aS", SetS); f = z3.Const("af", SIZEM); x = z3.Const("ax", PtrS); v = z3.Const("av", BV32); md = z3.Const("amd", BV64)
    T, F = z3.BoolVal(True), z3.BoolVal(False)
    add, dele = z3.Store(S, x, T), z3.Store(S, x, F)
    w = lambda t: z3.ZeroExt(32, t) + md
    fx = z3.Select(f, x); inn = z3.Select(S, x)
    fo = z3.Store(f, x, v)
    A = lambda vs, b, p: z3.ForAll(vs, b, patterns=[p])
    return [
        A([S, x, f, md], SUM(add, f, md) == z3.If(inn, SUM(S, f, md), SUM(S, f, md) + w(fx)), SUM(add, f, md)),
        A([S, x, f, md], SUM(dele, f, md) == z3.If(inn, SUM(S, f, md) - w(fx), SUM(S, f, md)), SUM(dele, f, md)),
        A([S, x, f, v, md], SUM(S, fo, md) == z3.If(inn, SUM(S, f, md) - w(fx) + w(v), SUM(S, f, md)), SUM(S, fo, md)),
        A([S, f, md], z3.Implies(z3.Not(z3.Select(S, WIT(S))), SUM(S, f, md) == 0), SUM(S, f, md)),
        A([S, f, md], z3.Implies(FITS(S, f, md), z3.ULT(SUM(S, f, md), LIM)), FITS(S, f, md)),
        A([S, x, f, md], z3.Implies(z3.And(FITS(S, f, md), inn, z3.ULT(md, LIM)), z3.And(FITS(dele, f, md), z3.ULE(w(fx), SUM(S, f, md)))), FITS(dele, f, md)),
        A([S, x, f, md], z3.Implies(z3.And(FITS(S, f, md), z3.Not(inn), z3.ULT(md, LIM), z3.ULT(SUM(S, f, md) + w(fx), LIM)), FITS(add, f, md)), FITS(add, f, md)),
        A([S, x, f, v, md], z3.Implies(z3.Not(inn), FITS(S, fo, md) == FITS(S, f, md)), FITS(S, fo, md)),
        A([S, x], CARD(add) == z3.If(inn, CARD(S), CARD(S) + 1), CARD(add)),
        A([S, x], CARD(dele) == z3.If(inn, CARD(S) - 1, CARD(S)), CARD(dele)),
        A([S, x], NUM(add) == z3.If(inn, NUM(S), NUM(S) + 1), NUM(add)),
        A([S, x], NUM(dele) == z3.If(inn, NUM(S) - 1, NUM(S)), NUM(dele)),
        A([S], NUM(S) >= 0, NUM(S)),
        z3.And([SUM(z3.K(PtrS, F), z3.Const("kf", SIZEM), z3.BitVecVal(0, 64)) == SUM(z3.K(PtrS, F), z3.Const("kf", SIZEM), z3.BitVecVal(0, 64))]),
        CARD(z3.K(PtrS, F)) == 0,
        A([f, md], z3.And(SUM(z3.K(PtrS, F), f, md) == 0, FITS(z3.K(PtrS, F), f, md)), SUM(z3.K(PtrS, F), f, md)),
        A([f, md], FITS(z3.K(PtrS, F), f, md), FITS(z3.K(PtrS, F), f, md)),
    ]

ID, SZ = "cache_obj.obj_id", "cache_obj.obj_size"

class HV:
    """abstract view of a hash table: set of member objects with unique ids"""
    def __init__(s, S, h):
        s.S, s.h = S, h
        s.HT, s.BY = S.g("ht"), S.g("byid")
        s.ht = z3.Select(s.HT, h); s.by = z3.Select(s.BY, h)
        s.idm = S.m(ID)
    def has(s, x): return z3.Select(s.ht, x)
    def id(s, x): return z3.Select(s.idm, x)
    def at(s, i): return z3.Select(s.by, i)
    def found(s, i): return z3.And(s.has(s.at(i)), s.id(s.at(i)) == i)

# whether the objects of the tables under verification belong to the caller: 0 no, 1 yes, None either
EXTV = [0]
def ht_inv(S, h, nm="hash table"):
    H = HV(S, h)
    return [(nm + " live", z3.And(h != NULL, S.live(h), z3.BoolVal(True) if EXTV[0] is None else S.f(h, "hashtable.external_obj") == EXTV[0])),
            (nm + " members are live, ids unique", z3.ForAll([X], z3.Implies(H.has(X),
               z3.And(X != NULL, S.live(X), H.at(H.id(X)) == X)), patterns=[H.has(X)]))]

HTMODS = ["hashtable.n_obj"]
# keys private to the hash table implementation: nothing outside chainedHashTableV2.c may write them
PRIVATE = ["cache_obj.hash_next", "hashtable.ptr_table", "hashtable.hashpower", "hashtable.n_obj", "hashtable.external_obj"]

def c_find_id():
    def post(c):
        H = HV(c.S, c[0])
        return [("lookup is exact", c.ret == z3.If(H.found(c[1]), H.at(c[1]), NULL))]
    return Contract("chained_hashtable_find_obj_id_v2", pre=lambda c: ht_inv(c.S, c[0]), post=post, trusted=True)
def c_find_req():
    def post(c):
        H = HV(c.S, c[0]); i = c.S.f(c[1], "request.obj_id")
        return [("lookup is exact", c.ret == z3.If(H.found(i), H.at(i), NULL))]
    return Contract("chained_hashtable_find_v2", pre=lambda c: ht_inv(c.S, c[0]) + [("request live", c.S.live(c[1]))], post=post, trusted=True)

def LIVE1(c): return z3.Store(c.S0.g("live"), c.ret, True) if c.caller else c.S.g("live")
def EVER(c): return z3.Store(c.S0.g("ever"), c.ret, True) if c.caller else c.S.g("ever")
def zeroed(c, o, but=()):
    """every per-object metadata field except those named starts at zero"""
    r = []
    for f in c.ex.prog.all_fields("cache_obj"):
        if f in but: continue
        v = c.S.f(o, "cache_obj." + f)
        r.append(("new object zeroed: " + f, v == (NULL if v.sort() == PtrS else c.ex.fconst("0.000000e+00") if v.sort() == FltS else 0)))
    return r

def c_insert():
    def pre(c):
        H = HV(c.S, c[0])
        return ht_inv(c.S, c[0]) + [("request live", c.S.live(c[1])), ("id not present", z3.Not(H.found(c.S.f(c[1], "request.obj_id"))))]
    def effect(c):
        o = c.ret; S, S0 = c.S, c.S0
        S.event(("zero", o, "cache_obj"))
        ex = c.ex
        for path, val in ((ID, S0.f(c[1], "request.obj_id")), (SZ, z3.Extract(31, 0, S0.f(c[1], "request.obj_size")))):
            k = ex.key(path); S.setmap(k, z3.Store(S.map(k), o, val))
    def post(c):
        o, S, S0 = c.ret, c.S, c.S0
        H0 = HV(S0, c[0])
        r = [("new object is fresh", z3.And(o != NULL, z3.Not(S0.live(o)), z3.Not(z3.Select(S0.g("ever"), o)), z3.Not(H0.has(o)), S.live(o))),
                ("id and size copied from the request", z3.And(S.f(o, ID) == S0.f(c[1], "request.obj_id"), S.f(o, SZ) == z3.Extract(31, 0, S0.f(c[1], "request.obj_size"))))]
        if not c.caller:
            r += zeroed(c, o, ("hash_next", "obj_id", "obj_size"))
        return r + ht_inv(S, c[0])
    con = Contract("chained_hashtable_insert_v2", pre=pre, post=post, modifies=HTMODS, allocates=True,
        ghost_post={"ever": EVER, "live": LIVE1,"ht": lambda c: z3.Store(HV(c.S0, c[0]).HT, c[0], z3.Store(HV(c.S0, c[0]).ht, c.ret, True)),
                    "byid": lambda c: z3.Store(HV(c.S0, c[0]).BY, c[0], z3.Store(HV(c.S0, c[0]).by, c.S0.f(c[1], "request.obj_id"), c.ret))},
        trusted=True)
    con.effect = effect
    return con

def c_delete():
    def pre(c):
        return ht_inv(c.S, c[0]) + [("object is in the table", HV(c.S, c[0]).has(c[1]))]
    con = Contract("chained_hashtable_delete_v2", pre=pre, modifies=HTMODS, frees=True, trusted=True,
        post=lambda c: ht_inv(c.S, c[0]),
        ghost_post={"ht": lambda c: z3.Store(HV(c.S0, c[0]).HT, c[0], z3.Store(HV(c.S0, c[0]).ht, c[1], False)),
                    "live": lambda c: z3.Store(c.S0.g("live"), c[1], False) if not EXTV[0] else c.S0.g("live")})
    return con

def c_new_table():
    def post(c):
        H = HV(c.S, c.ret)
        return [("fresh table", z3.And(c.ret != NULL, z3.Not(c.S0.live(c.ret)), c.S.f(c.ret, "hashtable.external_obj") == 0)),
                ("empty", HV(c.S, c.ret).ht == z3.K(PtrS, z3.BoolVal(False)))]
    con = Contract("create_chained_hashtable_v2", post=post, allocates=True, trusted=True,
        ghost_post={"ever": EVER, "live": LIVE1,
                    "ht": lambda c: z3.Store(c.S0.g("ht"), c.ret, z3.K(PtrS, z3.BoolVal(False)))})
    def effect(c):
        k = c.ex.key("hashtable.external_obj")
        c.S.setmap(k, z3.Store(c.S.map(k), c.ret, z3.BitVecVal(0, 8)))
    con.effect = effect
    return con

def c_rand():
    return Contract("chained_hashtable_rand_obj_v2", trusted=True, pre=lambda c: ht_inv(c.S, c[0]) + [("the table is not empty", HV(c.S, c[0]).has(WIT(HV(c.S, c[0]).ht)))],
        post=lambda c: [("a present object", HV(c.S, c[0]).has(c.ret))])

def ht_contracts():
    return {c.fn: c for c in (c_find_id(), c_find_req(), c_insert(), c_delete(), c_new_table(), c_rand())}

# ---- cache-level view
class CV:
    def __init__(s, S, c):
        s.S, s.c = S, c
        s.h = S.f(c, "cache.hashtable")
        s.H = HV(S, s.h)
        s.occ, s.nobj, s.size = S.f(c, "cache.occupied_byte"), S.f(c, "cache.n_obj"), S.f(c, "cache.cache_size")
        s.md32 = S.f(c, "cache.obj_md_size")
        s.md = z3.SignExt(32, s.md32)
        s.params = S.f(c, "cache.eviction_params")
        s.szm = S.m(SZ)
    def sz(s, x): return z3.Select(s.szm, x)
    def cost(s, x): return z3.ZeroExt(32, s.sz(x)) + s.md

def acct(S, c):
    """the byte and object accounting invariant"""
    C = CV(S, c)
    return [("occupied bytes = sum over resident objects", C.occ == SUM(C.H.ht, C.szm, C.md)),
            ("object count = number of resident objects", C.nobj == CARD(C.H.ht)),
            ("sum does not wrap", FITS(C.H.ht, C.szm, C.md))]

def limits(S, c):
    C = CV(S, c)
    return [("cache and table are not cached objects", z3.And(z3.Not(C.H.has(c)), z3.Not(C.H.has(C.h)))),
            ("cache live", z3.And(c != NULL, S.live(c))),
            ("size limits", z3.And(C.size >= 0, C.size < LIM, C.md32 >= 0, C.md32 < 65536)),
            ("no prefetcher", S.f(c, "cache.prefetcher") == NULL)]

def plive(S, c):
    C = CV(S, c)
    return [("parameters live and not a cached object", z3.And(S.live(C.params), C.params != NULL, z3.Not(C.H.has(C.params))))]

def cap(S, c):
    C = CV(S, c)
    return [("occupied bytes within the cache size", z3.And(C.occ >= 0, C.occ <= C.size))]

def req_ok(S, r, c=None):
    z = S.f(r, "request.obj_size")
    return [("request live", z3.And(r != NULL, S.live(r))), ("request size in range", z3.And(z >= 0, z < (1 << 32)))]

def base(S, c):
    return limits(S, c) + ht_inv(S, CV(S, c).h) + acct(S, c)

# cache_find_base
def c_find_base():
    def post(c):
        C0 = CV(c.S0, c[0]); i = c.S0.f(c[1], "request.obj_id")
        o = c.ret; upd = c[2]
        m0, m1 = c.S0.m("cache_obj.misc.freq"), c.S.m("cache_obj.misc.freq")
        v0, v1 = c.S0.m("cache_obj.misc.next_access_vtime"), c.S.m("cache_obj.misc.next_access_vtime")
        return [("result is the resident object with that id, or NULL", o == z3.If(C0.H.found(i), C0.H.at(i), NULL)),
                ("per-object metadata touched only for the hit object of an updating lookup", z3.ForAll([X], z3.Implies(z3.Or(X != o, z3.Not(upd)),
                      z3.And(z3.Select(m1, X) == z3.Select(m0, X), z3.Select(v1, X) == z3.Select(v0, X))), patterns=[z3.Select(m1, X), z3.Select(v1, X)])),
                ("hit count incremented, next access recorded", z3.Implies(z3.And(o != NULL, upd), z3.And(z3.Select(m1, o) == z3.Select(m0, o) + 1,
                      z3.Select(v1, o) == c.S0.f(c[1], "request.next_access_vtime"))))]
    def effect(c):
        C0 = CV(c.S0, c[0]); o = c.ret; ex = c.ex
        c.S.assume(o == z3.If(C0.H.found(c.S0.f(c[1], "request.obj_id")), C0.H.at(c.S0.f(c[1], "request.obj_id")), NULL))
        for path, val in (("cache_obj.misc.freq", c.S0.f(o, "cache_obj.misc.freq") + 1), ("cache_obj.misc.next_access_vtime", c.S0.f(c[1], "request.next_access_vtime"))):
            k = ex.key(path); m = c.S.map(k)
            c.S.setmap(k, ex.named(c.S, "upd", z3.If(z3.And(o != NULL, c[2]), z3.Store(m, o, val), m)))
    con = Contract("cache_find_base", pre=lambda c: limits(c.S, c[0]) + ht_inv(c.S, CV(c.S, c[0]).h) + [("request live", c.S.live(c[1]))], post=post)
    con.effect = effect; con.effmods = ["cache_obj.misc.freq", "cache_obj.misc.next_access_vtime"]
    return con

def c_insert_base():
    def pre(c):
        C = CV(c.S, c[0])
        return base(c.S, c[0]) + req_ok(c.S, c[1]) + [("id not resident", z3.Not(C.H.found(c.S.f(c[1], "request.obj_id")))),
            ("room", z3.And(C.occ >= 0, C.occ + c.S.f(c[1], "request.obj_size") + C.md <= C.size))]
    def effect(c):
        o = c.ret; S, S0, ex = c.S, c.S0, c.ex
        S.event(("zero", o, "cache_obj"))
        for path, val in ((ID, S0.f(c[1], "request.obj_id")), (SZ, z3.Extract(31, 0, S0.f(c[1], "request.obj_size"))),
                          ("cache_obj.misc.next_access_vtime", S0.f(c[1], "request.next_access_vtime"))):
            k = ex.key(path); S.setmap(k, z3.Store(S.map(k), o, val))
        C0 = CV(S0, c[0])
        for path, val in (("cache.occupied_byte", C0.occ + S0.f(c[1], "request.obj_size") + C0.md), ("cache.n_obj", C0.nobj + 1)):
            k = ex.key(path); S.setmap(k, z3.Store(S.map(k), c[0], val))
    def post(c):
        o, S, S0 = c.ret, c.S, c.S0
        C0, C1 = CV(S0, c[0]), CV(S, c[0])
        r = [("new object is fresh", z3.And(o != NULL, z3.Not(S0.live(o)), z3.Not(z3.Select(S0.g("ever"), o)), z3.Not(C0.H.has(o)), S.live(o))),
                ("id and size copied from the request", z3.And(S.f(o, ID) == S0.f(c[1], "request.obj_id"), S.f(o, SZ) == z3.Extract(31, 0, S0.f(c[1], "request.obj_size")))),
                ("occupied grows by size + metadata", C1.occ == C0.occ + S0.f(c[1], "request.obj_size") + C0.md),
                ("object count grows by one", C1.nobj == C0.nobj + 1)] + base(S, c[0]) + cap(S, c[0])
        if not c.caller:
            r += [("next access time recorded", S.f(o, "cache_obj.misc.next_access_vtime") == S0.f(c[1], "request.next_access_vtime"))]
            r += zeroed(c, o, ("hash_next", "obj_id", "obj_size", "misc.next_access_vtime"))
            for key in ("cache.occupied_byte", "cache.n_obj"):
                r += [("other caches untouched: " + key, z3.ForAll([X], z3.Implies(z3.And(X != c[0], S0.live(X)), z3.Select(S.m(key), X) == z3.Select(S0.m(key), X))))]
        return r
    con = Contract("cache_insert_base", pre=pre, post=post, allocates=True, modifies=HTMODS,
        ghost_post={"ever": EVER, "live": LIVE1, "ht": lambda c: z3.Store(CV(c.S0, c[0]).H.HT, CV(c.S0, c[0]).h, z3.Store(CV(c.S0, c[0]).H.ht, c.ret, True)),
                    "byid": lambda c: z3.Store(CV(c.S0, c[0]).H.BY, CV(c.S0, c[0]).h, z3.Store(CV(c.S0, c[0]).H.by, c.S0.f(c[1], "request.obj_id"), c.ret))})
    con.effect = effect; con.effmods = ["cache.occupied_byte", "cache.n_obj"]
    return con

def c_remove_base(fn):
    """cache_evict_base / cache_remove_obj_base with remove_from_hashtable"""
    def pre(c):
        C = CV(c.S, c[0])
        return base(c.S, c[0]) + [("object is resident", C.H.has(c[1])), ("removal from the hash table requested", c[2])]
    def effect(c):
        S, S0, ex = c.S, c.S0, c.ex
        C0 = CV(S0, c[0])
        for path, val in (("cache.occupied_byte", C0.occ - C0.cost(c[1])), ("cache.n_obj", C0.nobj - 1)):
            k = ex.key(path); S.setmap(k, z3.Store(S.map(k), c[0], val))
    def post(c):
        S, S0 = c.S, c.S0; C0, C1 = CV(S0, c[0]), CV(S, c[0])
        r = [("occupied shrinks by size + metadata", C1.occ == C0.occ - C0.cost(c[1])), ("object count shrinks by one", C1.nobj == C0.nobj - 1)] + base(S, c[0])
        if not c.caller:
            for key in ("cache.occupied_byte", "cache.n_obj"):
                r += [("other caches untouched: " + key, z3.ForAll([X], z3.Implies(z3.And(X != c[0], S0.live(X)), z3.Select(S.m(key), X) == z3.Select(S0.m(key), X))))]
        return r
    con = Contract(fn, pre=pre, post=post, frees=True, modifies=HTMODS,
        ghost_post={"ht": lambda c: z3.Store(CV(c.S0, c[0]).H.HT, CV(c.S0, c[0]).h, z3.Store(CV(c.S0, c[0]).H.ht, c[1], False)),
                    "live": lambda c: z3.Store(c.S0.g("live"), c[1], False)})
    con.effect = effect; con.effmods = ["cache.occupied_byte", "cache.n_obj"]
    return con

def c_can_insert():
    def post(c):
        C = CV(c.S0, c[0])
        fits = c.S0.f(c[1], "request.obj_size") + C.md <= C.size
        return [("never admits an object larger than the cache", z3.Implies(c.ret, fits)),
                ("without an admission policy, admits exactly what fits", z3.Implies(c.S0.f(c[0], "cache.admissioner") == NULL, c.ret == fits))]
    return Contract("cache_can_insert_default", pre=lambda c: limits(c.S, c[0]) + req_ok(c.S, c[1]) + adm_pre(c.S, c[0]), post=post,
                    roles={"admissioner.admit": "virtual:admit"})

def adm_pre(S, c):
    a = S.f(c, "cache.admissioner")
    return [("admission policy live if present", z3.Or(a == NULL, S.live(a)))]

def c_admit_virtual():
    return Contract("virtual:admit", trusted=True, note="an admission policy answers admit/deny and changes only its own state")

def cache_contracts():
    return {c.fn: c for c in (c_find_base(), c_insert_base(), c_remove_base("cache_evict_base"), c_remove_base("cache_remove_obj_base"), c_can_insert(), c_admit_virtual())}
