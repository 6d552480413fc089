"""Contracts of the single-queue eviction algorithms (FIFO, LRU, MRU, ...)."""
import z3
from vcg.vcg import *
from vcg import lists, core
from vcg.lists import X, Y, P, N, LV, dll
from vcg.core import CV, HV, ID, SZ, base, cap, req_ok, acct, limits, adm_pre

FREQ = "cache_obj.misc.freq"; NAV = "cache_obj.misc.next_access_vtime"

class Q:
    def __init__(s, name, file, params, head="q_head", tail="q_tail", evict_end="tail", hit="none", md=(0, 0), funcs=None, sets_md=True, objinv=None,
                 extra_mods=(), on_insert=None, on_hit_extra=None, md_free=False, params_inv=None):
        s.name, s.file, s.pstruct, s.head, s.tail, s.evict_end, s.hit = name, file, params, head, tail, evict_end, hit
        s.md = md; s.extra_mods = list(extra_mods); s.objinv = objinv; s.params_inv = params_inv
        s.te_mods = ["cache.to_evict_candidate", "cache.to_evict_candidate_gen_vtime"]
    def fn(s, op): return s.name + "_" + op
    # locations of head and tail
    def loc(s, ex, S, c, f):
        off, lt = ex.prog.field(s.pstruct, f)
        return Ptr(CV(S, c).params, s.pstruct, (), off)
    def L(s, ex, S, c):
        return LV(ex, S, s.loc(ex, S, c, s.head), s.loc(ex, S, c, s.tail))
    def gid(s, ex):
        off, lt = ex.prog.field(s.pstruct, s.head)
        return "%s+%d" % (s.pstruct, off)
    def keyH(s): return s.pstruct + "." + s.head
    def keyT(s): return s.pstruct + "." + s.tail
    def roles(s):
        return {"cache." + op: s.fn(op) for op in ("find", "insert", "evict", "remove", "to_evict")} | {
            "cache.can_insert": "cache_can_insert_default", "cache.get_occupied_byte": "cache_get_occupied_byte_default",
            "cache.get_n_obj": "cache_get_n_obj_default", "admissioner.admit": "virtual:admit"}
    def bound(s, S, c):
        """the operation table of the cache is the one init installs"""
        return [("operation table", z3.And([S.f(c, k) == S.fn(v) for k, v in s.roles().items() if k.startswith("cache.") and not k.endswith("to_evict")]))]
    def inv(s, ex, S, c, nm="queue"):
        L = s.L(ex, S, c); C = CV(S, c)
        r = base(S, c) + core.plive(S, c) + dll(L, nm) + [("queue members = resident objects", L.inn == C.H.ht)]
        if s.objinv: r += s.objinv(s, ex, S, c)
        return r + s.bound(S, c)
    def victim(s, L): return L.tl if s.evict_end == "tail" else L.hd

def eqk(c, keys):
    """the maps are unchanged"""
    out = []
    for k in keys:
        a, b = c.S.m(k), c.S0.m(k)
        out.append((k + " unchanged", a == b))
    return z3.And([f for _, f in out])

def qfind(q):
    mods = [q.keyH(), q.keyT(), N, P, FREQ, NAV] + q.extra_mods if q.hit != "none" else [FREQ, NAV] + q.extra_mods
    def found(c):
        return CV(c.S0, c[0]).H
    def post(c):
        H0 = found(c); i = c.S0.f(c[1], "request.obj_id")
        L0, L1 = q.L(c.ex, c.S0, c[0]), q.L(c.ex, c.S, c[0])
        r = [("hit iff resident", c.ret == z3.If(H0.found(i), H0.at(i), NULL))]
        r += q.inv(c.ex, c.S, c[0])
        r += [("lookup without update or miss changes nothing: " + k, z3.Implies(z3.Or(z3.Not(c[2]), c.ret == NULL), c.S.m(k) == c.S0.m(k))) for k in mods]
        r += [("hit count incremented, next access recorded", z3.Implies(z3.And(c.ret != NULL, c[2]),
               z3.And(c.S.f(c.ret, FREQ) == c.S0.f(c.ret, FREQ) + 1, c.S.f(c.ret, NAV) == c.S0.f(c[1], "request.next_access_vtime"))))]
        if q.hit == "front":
            r += [("updating hit moves the object to the front", z3.Implies(z3.And(c.ret != NULL, c[2]), L1.hd == c.ret))]
        return r
    def rk(c):
        L0 = q.L(c.ex, c.S0, c[0])
        upd = z3.And(c[2], c.ret != NULL, c.ret != L0.hd)
        return z3.If(upd, L0.setrk(c.ret, L0.rank(L0.hd) + 1), L0.RK)
    gp = {}
    if q.hit == "front": gp[lambda c: "rk@" + q.gid(c.ex)] = rk
    return Contract(q.fn("find"), pre=lambda c: q.inv(c.ex, c.S, c[0]) + req_ok(c.S, c[1]), post=post, modifies=mods, ghost_post=gp, roles=q.roles())

def ht_del(c, v):
    C0 = CV(c.S0, c[0]); return z3.Store(C0.H.HT, C0.h, z3.Store(C0.H.ht, v, False))

def core_frame(c, q):
    """cache-level numbers of this call; other caches untouched"""
    r = []
    if not c.caller:
        for key in ("cache.occupied_byte", "cache.n_obj"):
            r += [("other caches untouched: " + key, z3.ForAll([X], z3.Implies(z3.And(X != c[0], c.S0.live(X)), z3.Select(c.S.m(key), X) == z3.Select(c.S0.m(key), X))))]
        for key in (q.keyH(), q.keyT()):
            pr = CV(c.S0, c[0]).params
            r += [("other queues untouched: " + key, z3.ForAll([X], z3.Implies(z3.And(X != pr, c.S0.live(X)), z3.Select(c.S.m(key), X) == z3.Select(c.S0.m(key), X))))]
    return r

def set_cache(c, path, v):
    k = c.ex.key(path); c.S.setmap(k, z3.Store(c.S.map(k), c[0], v))

def qinsert(q):
    def pre(c):
        C = CV(c.S, c[0])
        return q.inv(c.ex, c.S, c[0]) + req_ok(c.S, c[1]) + [("id not resident", z3.Not(C.H.found(c.S.f(c[1], "request.obj_id")))),
            ("room", z3.And(C.occ >= 0, C.occ + c.S.f(c[1], "request.obj_size") + C.md <= C.size))]
    def effect(c):
        o = c.ret; S, S0, ex = c.S, c.S0, c.ex
        nx, pv = S.m(N), S.m(P)
        S.event(("zero", o, "cache_obj"))
        for path, val in ((ID, S0.f(c[1], "request.obj_id")), (SZ, z3.Extract(31, 0, S0.f(c[1], "request.obj_size"))),
                          (NAV, S0.f(c[1], "request.next_access_vtime"))):
            k = ex.key(path); S.setmap(k, z3.Store(S.map(k), o, val))
        for k, v in ((N, nx), (P, pv)): S.setmap(ex.key(k), v)
        C0 = CV(S0, c[0])
        set_cache(c, "cache.occupied_byte", C0.occ + S0.f(c[1], "request.obj_size") + C0.md)
        set_cache(c, "cache.n_obj", C0.nobj + 1)
    def post(c):
        o, S, S0 = c.ret, c.S, c.S0
        C0, C1 = CV(S0, c[0]), CV(S, c[0]); L1 = q.L(c.ex, S, c[0])
        r = [("new object is fresh", z3.And(o != NULL, z3.Not(S0.live(o)), z3.Not(z3.Select(S0.g("ever"), o)), z3.Not(C0.H.has(o)), S.live(o))),
             ("id and size copied from the request", z3.And(S.f(o, ID) == S0.f(c[1], "request.obj_id"), S.f(o, SZ) == z3.Extract(31, 0, S0.f(c[1], "request.obj_size")))),
             ("occupied grows by size + metadata", C1.occ == C0.occ + S0.f(c[1], "request.obj_size") + C0.md),
             ("object count grows by one", C1.nobj == C0.nobj + 1),
             ("new object is at the front", L1.hd == o),
             ("fresh metadata", z3.And(S.f(o, FREQ) == 0, S.f(o, NAV) == S0.f(c[1], "request.next_access_vtime")))]
        return r + q.inv(c.ex, S, c[0]) + cap(S, c[0]) + core_frame(c, q)
    def gp_in(c):
        L0 = q.L(c.ex, c.S0, c[0]); return L0.setin(c.ret, True)
    def gp_rk(c):
        L0 = q.L(c.ex, c.S0, c[0]); return L0.setrk(c.ret, z3.If(L0.hd == NULL, z3.IntVal(0), L0.rank(L0.hd) + 1))
    con = Contract(q.fn("insert"), pre=pre, post=post, allocates=True, modifies=core.HTMODS + [q.keyH(), q.keyT(), N, P],
        ghost_post={"ht": lambda c: z3.Store(CV(c.S0, c[0]).H.HT, CV(c.S0, c[0]).h, z3.Store(CV(c.S0, c[0]).H.ht, c.ret, True)),
                    "byid": lambda c: z3.Store(CV(c.S0, c[0]).H.BY, CV(c.S0, c[0]).h, z3.Store(CV(c.S0, c[0]).H.by, c.S0.f(c[1], "request.obj_id"), c.ret)),
                    "live": core.LIVE1, "ever": core.EVER,
                    (lambda c: "in@" + q.gid(c.ex)): gp_in, (lambda c: "rk@" + q.gid(c.ex)): gp_rk}, roles=q.roles())
    con.effect = effect; con.effmods = ["cache.occupied_byte", "cache.n_obj"]
    return con

def qremoval_effect(q, victim):
    def effect(c):
        C0 = CV(c.S0, c[0]); v = victim(c)
        set_cache(c, "cache.occupied_byte", C0.occ - C0.cost(v)); set_cache(c, "cache.n_obj", C0.nobj - 1)
    return effect

def qevict(q):
    vic = lambda c: q.victim(q.L(c.ex, c.S0, c[0]))
    def pre(c):
        return q.inv(c.ex, c.S, c[0]) + [("cache not empty", q.L(c.ex, c.S, c[0]).hd != NULL)]
    def post(c):
        C0, C1 = CV(c.S0, c[0]), CV(c.S, c[0]); v = vic(c)
        return [("occupied shrinks by the victim", C1.occ == C0.occ - C0.cost(v)), ("object count shrinks by one", C1.nobj == C0.nobj - 1)] + \
            q.inv(c.ex, c.S, c[0]) + core_frame(c, q)
    con = Contract(q.fn("evict"), pre=pre, post=post, frees=True, modifies=core.HTMODS + [q.keyH(), q.keyT(), N, P] + q.te_mods,
        ghost_post={"ht": lambda c: ht_del(c, vic(c)), "live": lambda c: z3.Store(c.S0.g("live"), vic(c), False),
                    (lambda c: "in@" + q.gid(c.ex)): lambda c: q.L(c.ex, c.S0, c[0]).setin(vic(c), False)}, roles=q.roles())
    con.effect = qremoval_effect(q, vic); con.effmods = ["cache.occupied_byte", "cache.n_obj"]
    return con

def qto_evict(q):
    mods = q.te_mods
    return Contract(q.fn("to_evict"), pre=lambda c: q.inv(c.ex, c.S, c[0]) + [("cache not empty", q.L(c.ex, c.S, c[0]).hd != NULL)],
        post=lambda c: [("names the object the next eviction removes", c.ret == q.victim(q.L(c.ex, c.S0, c[0])))] + q.inv(c.ex, c.S, c[0]), modifies=mods, roles=q.roles())

def qremove(q):
    def H(c): return CV(c.S0, c[0]).H
    def post(c):
        C0, C1 = CV(c.S0, c[0]), CV(c.S, c[0]); f = H(c).found(c[1]); v = H(c).at(c[1])
        return [("reports whether the object was resident", c.ret == f),
                ("occupied shrinks by exactly that object", C1.occ == z3.If(f, C0.occ - C0.cost(v), C0.occ)),
                ("object count", C1.nobj == z3.If(f, C0.nobj - 1, C0.nobj))] + q.inv(c.ex, c.S, c[0]) + core_frame(c, q)
    def cond(c, new, old):
        return z3.If(H(c).found(c[1]), new, old)
    con = Contract(q.fn("remove"), pre=lambda c: q.inv(c.ex, c.S, c[0]), post=post, frees=True,
        modifies=core.HTMODS + [q.keyH(), q.keyT(), N, P, "cache.occupied_byte", "cache.n_obj"],
        ghost_post={"ht": lambda c: cond(c, ht_del(c, H(c).at(c[1])), H(c).HT),
                    "live": lambda c: cond(c, z3.Store(c.S0.g("live"), H(c).at(c[1]), False), c.S0.g("live")),
                    (lambda c: "in@" + q.gid(c.ex)): lambda c: cond(c, q.L(c.ex, c.S0, c[0]).setin(H(c).at(c[1]), False), q.L(c.ex, c.S0, c[0]).IN)}, roles=q.roles())
    return con

def get_loop(q):
    def inv(c):
        ex, S, S0 = c.ex, c.S, c.S0
        ca, rq = c[0], c[1]
        C0, C1 = CV(S0, ca), CV(S, ca); L0, L1 = q.L(ex, S0, ca), q.L(ex, S, ca)
        need = S.f(rq, "request.obj_size") + C1.md
        i = S.f(rq, "request.obj_id")
        gone = lambda x: z3.And(L0.has(x), z3.Not(L1.has(x)))
        r = q.inv(ex, S, ca) + cap(S, ca) + req_ok(S, rq)
        order = (lambda a, b: a < b) if q.evict_end == "tail" else (lambda a, b: a > b)
        nb = L0.prev if q.evict_end == "tail" else L0.next
        r += [("requested id not resident", z3.Not(C1.H.found(i))),
              ("request fits the cache", S.f(rq, "request.obj_size") + C1.md <= C1.size),
              ("only residents remain", z3.ForAll([X], z3.Implies(L1.has(X), L0.has(X)), patterns=[L1.has(X)])),
              ("survivors keep their order", L1.RK == L0.RK),
              ("victims leave in replacement order", z3.ForAll([X, Y], z3.Implies(z3.And(L1.has(X), gone(Y)), order(L0.rank(Y), L0.rank(X))),
                    patterns=[z3.MultiPattern(L1.has(X), L0.has(Y))])),
              ("no eviction beyond what is needed", z3.ForAll([X], z3.Implies(z3.And(gone(X), z3.Or(nb(X) == NULL, L1.has(nb(X)))),
                    C1.occ + C0.cost(X) + need > C1.size), patterns=[L0.has(X)])),
              ]
        for k in (SZ, ID, FREQ, NAV): r.append((k + " unchanged", S.m(k) == S0.m(k)))
        r += [("cache parameters unchanged", z3.And([S.f(ca, "cache." + f) == S0.f(ca, "cache." + f) for f in ("cache_size", "obj_md_size", "eviction_params", "hashtable", "admissioner")])),
              ("request counted once", S.f(ca, "cache.n_req") == S0.f(ca, "cache.n_req") + 1)]
        return r
    return {"inv": inv, "variant": lambda c: core.NUM(CV(c.S, c[0]).H.ht)}

def qget(q):
    def pre(c):
        return q.inv(c.ex, c.S, c[0]) + cap(c.S, c[0]) + req_ok(c.S, c[1]) + adm_pre(c.S, c[0]) + [("request is not a cached object", z3.Not(CV(c.S, c[0]).H.has(c[1])))]
    def post(c):
        ex, S, S0 = c.ex, c.S, c.S0
        ca, rq = c[0], c[1]
        C0, C1 = CV(S0, ca), CV(S, ca); L0, L1 = q.L(ex, S0, ca), q.L(ex, S, ca)
        i = S0.f(rq, "request.obj_id")
        hit = C0.H.found(i); v = C0.H.at(i); n = C1.H.at(i)
        need = S0.f(rq, "request.obj_size") + C0.md
        noadm = S0.f(ca, "cache.admissioner") == NULL
        fits = need <= C0.size
        gone = lambda x: z3.And(L0.has(x), z3.Not(L1.has(x)))
        order = (lambda a, b: a < b) if q.evict_end == "tail" else (lambda a, b: a > b)
        nb = L0.prev if q.evict_end == "tail" else L0.next
        ins = z3.And(z3.Not(hit), C1.H.found(i))
        occ_after = C1.occ
        r = [("hit exactly when the object was resident", c.ret == hit)]
        r += q.inv(ex, S, ca) + cap(S, ca)
        r += [("a hit keeps every resident object", z3.Implies(hit, C1.H.HT == C0.H.HT)),
              ("an admissible miss leaves the object resident", z3.Implies(z3.And(z3.Not(hit), noadm, fits), z3.And(C1.H.found(i), C1.sz(n) == z3.Extract(31, 0, S0.f(rq, "request.obj_size"))))),
              ("an object larger than the cache is never inserted and evicts nothing", z3.Implies(z3.And(z3.Not(hit), z3.Not(fits)), z3.And(C1.H.HT == C0.H.HT, L1.RK == L0.RK))),
              ("a denied request changes nothing", z3.Implies(z3.And(z3.Not(hit), z3.Not(C1.H.found(i))), z3.And(C1.H.HT == C0.H.HT, L1.RK == L0.RK))),
              ("nothing but the requested object is added", z3.ForAll([X], z3.Implies(C1.H.has(X), z3.Or(C0.H.has(X), X == n)), patterns=[C1.H.has(X)])),
              ("victims leave in replacement order", z3.ForAll([X, Y], z3.Implies(z3.And(ins, L1.has(X), X != n, gone(Y)), order(L0.rank(Y), L0.rank(X))),
                    patterns=[z3.MultiPattern(L1.has(X), L0.has(Y))])),
              ("no eviction beyond what is needed", z3.ForAll([X], z3.Implies(z3.And(ins, gone(X), z3.Or(nb(X) == NULL, z3.And(L1.has(nb(X)), nb(X) != n))),
                    C1.occ + C0.cost(X) > C1.size), patterns=[L0.has(X)])),
              ("new object is the most recent; others keep their order", z3.Implies(ins, z3.And(L1.hd == n, z3.ForAll([X], z3.Implies(z3.And(L1.has(X), X != n), z3.And(L1.rank(X) == L0.rank(X), L0.rank(X) < L1.rank(n))), patterns=[L1.has(X)])))),
              ]
        if q.hit == "none":
            r += [("a hit does not reorder", z3.Implies(hit, L1.RK == L0.RK))]
        else:
            r += [("a hit moves exactly the object to the front", z3.Implies(hit, z3.And(L1.hd == v, z3.ForAll([X], z3.Implies(z3.And(L1.has(X), X != v), z3.And(L1.rank(X) == L0.rank(X), L1.rank(X) < L1.rank(v))), patterns=[L1.has(X)]))))]
        return r
    mods = core.HTMODS + [q.keyH(), q.keyT(), N, P, FREQ, NAV, "cache.occupied_byte", "cache.n_obj", "cache.n_req"] + q.te_mods + \
        ["ghost:" + g for g in ("ht", "byid")] + q.extra_mods
    con = Contract(q.fn("get"), pre=pre, post=post, allocates=True, frees=True, modifies=mods, roles=q.roles(),
                   loops={"cache_get_base": {0: get_loop(q)}})
    con.modifies += [lambda args, q=q: "ghost:in@" + q._gid, lambda args, q=q: "ghost:rk@" + q._gid, "ghost:live"]
    return con

def contracts(q, prog):
    off, _ = prog.field(q.pstruct, q.head); q._gid = "%s+%d" % (q.pstruct, off)
    return {c.fn: c for c in (qfind(q), qinsert(q), qevict(q), qto_evict(q), qremove(q), qget(q))}

FAMILY = {
    "FIFO": Q("FIFO", "cache/eviction/FIFO.c", "FIFO_params_t"),
    "LRU": Q("LRU", "cache/eviction/LRU.c", "LRU_params_t", hit="front"),
    "MRU": Q("MRU", "cache/eviction/MRU.c", "MRU_params_t", hit="front", evict_end="head"),
}
