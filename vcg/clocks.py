"""Contracts of the second-chance algorithms: Clock and Sieve."""
import z3
from vcg.vcg import *
from vcg import lists, core, queues
from vcg.lists import X, Y, P, N, LV, dll
from vcg.core import CV, HV, ID, SZ, BV32, cap, req_ok, adm_pre, NUM
from vcg.queues import Q, FREQ, NAV, core_frame, ht_del, qremoval_effect

FM = z3.ArraySort(PtrS, BV32); RM = z3.ArraySort(PtrS, z3.IntSort())
# the member of a finite non-empty set with the least (counter, rank); for Sieve the rank order starts at a given member
ARG = z3.Function("CLOCKMIN", SetS, FM, RM, PtrS)
ARGS_ = z3.Function("SIEVEMIN", SetS, FM, RM, PtrS, PtrS)
FSUM = z3.Function("FSUM", SetS, FM, z3.IntSort())          # sum of the counters over a finite set
U = z3.Function("U32", BV32, z3.IntSort())                   # unsigned value of a machine word

DEC = z3.Function("DEC", BV32, BV32)                         # machine word minus one (proof hint)

def cyc(rk, s, x, y):
    """x comes before y when the queue is walked from s towards the head, then from the tail on"""
    r = lambda a: z3.Select(rk, a)
    return z3.If(r(x) < r(s), z3.And(r(y) < r(s), r(x) < r(y)), z3.Or(r(y) < r(s), r(x) < r(y)))

def axioms():
    S = z3.Const("aS", SetS); f = z3.Const("af32", FM); r = z3.Const("ark", RM); x = z3.Const("ax", PtrS); s = z3.Const("as", PtrS); v = z3.Const("av", BV32); a, b = z3.Consts("ua ub", BV32)
    i = z3.Select(S, x); m = ARG(S, f, r); ms = ARGS_(S, f, r, s)
    F = lambda t: z3.Select(f, t); R = lambda t: z3.Select(r, t)
    A = lambda vs, b_, *p: z3.ForAll(vs, b_, patterns=[z3.MultiPattern(*p) if len(p) > 1 else p[0]])
    return [
        A([S, f, r, x], z3.Implies(i, z3.And(z3.Select(S, m), z3.Or(z3.ULT(F(m), F(x)), z3.And(F(m) == F(x), R(m) <= R(x))))), i, m),
        A([S, f, r, s, x], z3.Implies(i, z3.And(z3.Select(S, ms), z3.Or(z3.ULT(F(ms), F(x)), z3.And(F(ms) == F(x), z3.Not(cyc(r, s, x, ms)))))), i, ms),
        A([S, f], FSUM(S, f) >= 0, FSUM(S, f)),
        A([S, f, x, v], FSUM(S, z3.Store(f, x, v)) == z3.If(i, FSUM(S, f) - U(F(x)) + U(v), FSUM(S, f)), FSUM(S, z3.Store(f, x, v))),
        A([a, b], z3.Implies(z3.ULT(a, b), U(a) < U(b)), U(a), U(b)),
        A([a], z3.And(U(a) >= 0, (U(a) == 0) == (a == 0)), U(a)),
        A([a], z3.And(DEC(a) == a - 1, z3.Implies(a != 0, U(DEC(a)) == U(a) - 1)), DEC(a)),
    ]

class CQ(Q):
    """queue with a per-object counter"""
    def __init__(s, name, file, params, fk, **kw):
        Q.__init__(s, name, file, params, hit="none", **kw)
        s.fk = fk
    def F(s, S): return S.m(s.fk)

class ClockQ(CQ):
    def __init__(s): 
        CQ.__init__(s, "Clock", "cache/eviction/Clock.c", "Clock_params_t", "cache_obj.clock.freq")
        s.extra = ["Clock_params_t.n_obj_rewritten", "Clock_params_t.n_byte_rewritten"]
    def maxf(s, S, c): return S.f(CV(S, c).params, "Clock_params_t.max_freq")
    def inv(s, ex, S, c, nm="queue"):
        L = s.L(ex, S, c); f = s.F(S)
        return Q.inv(s, ex, S, c, nm) + [("hit counters within 0..max", z3.And(s.maxf(S, c) >= 0, z3.ForAll([X], z3.Implies(L.has(X),
            z3.And(z3.Select(f, X) >= 0, z3.Select(f, X) <= s.maxf(S, c))), patterns=[L.has(X)])))]
    def victim(s, L): return ARG(L.inn, s.F(L.S), L.rk)
    def hitval(s, S, c, f): return z3.If(f < s.maxf(S, c), f + 1, f)
    mods_evict = property(lambda s: [s.fk] + s.extra)
    rk_changes = True
    def evict_post(s, c):
        """counters and order after the hand stopped at the victim v"""
        L0, L1 = s.L(c.ex, c.S0, c[0]), s.L(c.ex, c.S, c[0]); v = s.victim(L0)
        f0, f1 = s.F(c.S0), s.F(c.S)
        side = lambda x: L0.rank(x) < L0.rank(v)
        newer = z3.If(side(X) == side(Y), L0.rank(X) > L0.rank(Y), side(X))
        fv = U(z3.Select(f0, v))
        F = lambda b: z3.ForAll([X], b, patterns=[z3.Select(f1, X)])
        return [("[C04] every object older than the victim loses one count more than the victim had", F(z3.Implies(z3.And(L1.has(X), side(X)), U(z3.Select(f1, X)) == U(z3.Select(f0, X)) - fv - 1))),
                ("[C04] every object newer than the victim loses as many counts as the victim had", F(z3.Implies(z3.And(L1.has(X), z3.Not(side(X))), U(z3.Select(f1, X)) == U(z3.Select(f0, X)) - fv))),
                ("[C04] no other counter changes", F(z3.Implies(z3.And(z3.Not(L1.has(X)), X != v), z3.Select(f1, X) == z3.Select(f0, X)))),
                ("[C04] passed objects are re-queued as newest, everything else keeps its order", z3.ForAll([X, Y], z3.Implies(z3.And(L1.has(X), L1.has(Y), X != Y), (L1.rank(X) > L1.rank(Y)) == newer),
                    patterns=[z3.MultiPattern(L1.has(X), L1.has(Y))]))]
    def ptr_inv(s, ex, S, c): return []
    def extra_insert(s, c): return []
    def evict_loops(s):
        def inv(c):
            ex, S, S0 = c.ex, c.S, c.S0
            ca = c[0]; L0, L = s.L(ex, S0, ca), s.L(ex, S, ca); f0, f = s.F(S0), s.F(S)
            d = lambda x: U(z3.Select(f0, x)) - U(z3.Select(f, x))
            r = d(L.tl)
            P2 = lambda b: z3.ForAll([X, Y], z3.Implies(z3.And(L.has(X), L.has(Y)), b), patterns=[z3.MultiPattern(L.has(X), L.has(Y))])
            out = dll(L, "queue") + [("membership unchanged", L.inn == L0.inn), ("at the tail", c.local("obj_to_evict") == L.tl), ("not empty", L.tl != NULL),
                ("counters only shrink", z3.ForAll([X], z3.Implies(L.has(X), z3.And(z3.Select(f, X) >= 0, U(z3.Select(f, X)) <= U(z3.Select(f0, X)))), patterns=[L.has(X)])),
                ("other objects' counters unchanged", z3.ForAll([X], z3.Implies(z3.Not(L.has(X)), z3.Select(f, X) == z3.Select(f0, X)), patterns=[z3.Select(f, X)])),
                ("passes differ by at most one", z3.ForAll([X], z3.Implies(L.has(X), z3.Or(d(X) == r, d(X) == r + 1)), patterns=[L.has(X)])),
                ("re-queued objects are newer and were older", P2(z3.Implies(z3.And(d(X) == r + 1, d(Y) == r), z3.And(L.rank(X) > L.rank(Y), L0.rank(X) < L0.rank(Y))))),
                ("equal passes keep the order", P2(z3.Implies(z3.And(d(X) == d(Y), X != Y), (L.rank(X) < L.rank(Y)) == (L0.rank(X) < L0.rank(Y)))))]
            pr = CV(S0, ca).params
            for nm, m1, m0 in (("heads", S.m(s.keyH()), S0.m(s.keyH())), ("tails", S.m(s.keyT()), S0.m(s.keyT())), ("order", L.RK, L0.RK)):
                out.append(("other queues untouched: " + nm, z3.ForAll([X], z3.Implies(X != pr, z3.Select(m1, X) == z3.Select(m0, X)), patterns=[z3.Select(m1, X)])))
            out.append(("other queues untouched: members", L.IN == L0.IN))
            return out
        def var(c):
            L = s.L(c.ex, c.S, c[0]); return FSUM(L.inn, s.F(c.S))
        def hints(c):
            ex, S, S0, SI = c.ex, c.S, c.S0, c.SI
            Li, L = s.L(ex, SI, c[0]), s.L(ex, S, c[0]); f0, fi, f = s.F(S0), s.F(SI), s.F(S); t = Li.tl
            d = lambda x: U(z3.Select(f0, x)) - U(z3.Select(f, x)); di = lambda x: U(z3.Select(f0, x)) - U(z3.Select(fi, x)); r = di(t)
            A = lambda b: z3.ForAll([X], z3.Implies(L.has(X), b), patterns=[L.has(X)])
            return [("the new tail is the neighbour of the old one", L.tl == z3.If(Li.hd == t, t, Li.prev(t))),
                    ("the counter of the old tail is decremented", z3.Select(f, t) == DEC(z3.Select(fi, t))),
                    ("one count is taken from the old tail", d(t) == r + 1),
                    ("no other counter changes", z3.ForAll([X], z3.Implies(X != t, z3.Select(f, X) == z3.Select(fi, X)), patterns=[z3.Select(f, X)])),
                    ("the new tail has this or the next pass", z3.Or(d(L.tl) == r, d(L.tl) == r + 1)),
                    ("nothing lies between the old and the new tail", A(z3.Or(X == t, Li.rank(L.tl) <= Li.rank(X)))),
                    ("a finished pass is finished by all", z3.Implies(d(L.tl) == r + 1, A(d(X) == r + 1))),
                    ("an unfinished pass differs by one", z3.Implies(d(L.tl) == r, A(z3.Or(d(X) == r, d(X) == r + 1))))]
        return {0: {"inv": inv, "variant": var, "hints": hints}}
    def to_evict_loops(s):
        def inv(c):
            L = s.L(c.ex, c.S, c[0]); f = s.F(c.S); o = c.local("obj_to_evict"); r = c.local("n_round")
            return [("cursor in the queue", L.has(o)), ("round not negative", r >= 0),
                    ("every counter reaches this round", z3.ForAll([X], z3.Implies(L.has(X), z3.And(z3.Select(f, X) >= r, z3.Implies(L.rank(X) < L.rank(o), z3.Select(f, X) > r))), patterns=[L.has(X)]))]
        def var(c):
            L = s.L(c.ex, c.S, c[0]); f = s.F(c.S); o = c.local("obj_to_evict"); r = c.local("n_round")
            return (z3.Select(f, L.tl) - r, L.rank(L.hd) - L.rank(o))
        return {s.fn("to_evict"): {0: {"inv": inv, "variant": var}}}

class SieveQ(CQ):
    def __init__(s):
        CQ.__init__(s, "Sieve", "cache/eviction/Sieve.c", "Sieve_params_t", "cache_obj.sieve.freq")
        s.extra = []
    PT = "Sieve_params_t.pointer"
    def ptr(s, S, c): return S.f(CV(S, c).params, s.PT)
    def inv(s, ex, S, c, nm="queue"):
        L = s.L(ex, S, c); f = s.F(S); p = s.ptr(S, c)
        return Q.inv(s, ex, S, c, nm) + [("visited bit is 0 or 1", z3.ForAll([X], z3.Implies(L.has(X), z3.Or(z3.Select(f, X) == 0, z3.Select(f, X) == 1)), patterns=[L.has(X)])),
            ("the hand points to a queued object or nowhere", z3.Or(p == NULL, L.has(p)))]
    def start(s, L, c=None):
        p = s.ptr(L.S, L.cache); return z3.If(p == NULL, L.tl, p)
    def L(s, ex, S, c):
        L = Q.L(s, ex, S, c); L.cache = c; return L
    def victim(s, L): return ARGS_(L.inn, s.F(L.S), L.rk, s.start(L))
    def hitval(s, S, c, f): return z3.BitVecVal(1, 32)
    mods_evict = property(lambda s: [s.fk, s.PT])
    rk_changes = False
    def evict_post(s, c):
        L0, L1 = s.L(c.ex, c.S0, c[0]), s.L(c.ex, c.S, c[0]); v = s.victim(L0); st = s.start(L0)
        f0, f1 = s.F(c.S0), s.F(c.S); z = z3.BitVecVal(0, 32); pr = CV(c.S0, c[0]).params
        nf = z3.If(z3.Or(z3.Select(f0, v) == 1, cyc(L0.rk, st, X, v)), z, z3.Select(f0, X))
        return [("[C04] exactly the visited bits the hand passed are cleared", z3.ForAll([X], z3.If(L1.has(X), z3.Select(f1, X) == nf, z3.Implies(X != v, z3.Select(f1, X) == z3.Select(f0, X))), patterns=[z3.Select(f1, X)])),
                ("[C04] the hand moves to the next newer object", s.ptr(c.S, c[0]) == L0.prev(v)),
                ("other hands untouched", c.S.m(s.PT) == z3.Store(c.S0.m(s.PT), pr, L0.prev(v)))]
    def evict_loops(s):
        def inv(c):
            ex, S, S0 = c.ex, c.S, c.S0
            L0 = s.L(ex, S0, c[0]); f0, f = s.F(S0), s.F(S); st = s.start(L0); cur = c.local("obj")
            touched = z3.Select(f, st) != z3.Select(f0, st)
            passed = z3.Or(cyc(L0.rk, st, X, cur), z3.And(cur == st, touched))
            return [("cursor in the queue", L0.has(cur)), ("hand still at its start or moved on after clearing a bit", z3.Or(touched, cur == st)),
                ("bits behind the hand are cleared, the others untouched", z3.ForAll([X], z3.Implies(L0.has(X), z3.And(z3.Select(f, X) == z3.If(passed, z3.BitVecVal(0, 32), z3.Select(f0, X)), z3.Implies(passed, z3.Select(f0, X) == 1))), patterns=[L0.has(X)])),
                ("other objects' bits unchanged", z3.ForAll([X], z3.Implies(z3.Not(L0.has(X)), z3.Select(f, X) == z3.Select(f0, X)), patterns=[z3.Select(f, X)]))]
        def var(c):
            return FSUM(s.L(c.ex, c.S0, c[0]).inn, s.F(c.S))
        return {0: {"inv": inv, "variant": var}}
    def to_evict_loops(s):
        g = lambda c: (s.L(c.ex, c.S0, c[0]), s.F(c.S0))
        def above(c, L, f, cond): return z3.ForAll([X], z3.Implies(z3.And(L.has(X), cond), z3.Select(f, X) > c[2]), patterns=[L.has(X)])
        def inv0(c):
            L, f = g(c); p = c.local("pointer"); st = s.start(L)
            return [("cursor in the queue", z3.Or(p == NULL, z3.And(L.has(p), L.rank(p) >= L.rank(st)))),
                    ("everything between the hand and the cursor is visited", above(c, L, f, z3.And(L.rank(X) >= L.rank(st), z3.Or(p == NULL, L.rank(X) < L.rank(p)))))]
        def inv1(c):
            L, f = g(c); p = c.local("pointer"); st = s.start(L)
            return [("cursor in the queue", z3.Or(p == NULL, L.has(p))), ("everything from the hand on is visited", above(c, L, f, L.rank(X) >= L.rank(st))),
                    ("everything from the tail to the cursor is visited", above(c, L, f, z3.Or(p == NULL, L.rank(X) < L.rank(p))))]
        def var(c):
            L, f = g(c); p = c.local("pointer"); return z3.If(p == NULL, z3.IntVal(0), L.rank(L.hd) - L.rank(p) + 1)
        def oinv(c):
            L, f = g(c); o = c.local("obj_to_evict"); k = c.local("to_evict_freq")
            return [("either found, or all visited", z3.If(o == NULL, z3.And(k == 0, z3.ForAll([X], z3.Implies(L.has(X), z3.Select(f, X) == 1), patterns=[L.has(X)])), o == s.victim(L)))]
        def ovar(c): return z3.If(c.local("obj_to_evict") == NULL, z3.IntVal(1), z3.IntVal(0))
        return {"Sieve_to_evict_with_freq": {0: {"inv": inv0, "variant": var}, 1: {"inv": inv1, "variant": var}}, s.fn("to_evict"): {0: {"inv": oinv, "variant": ovar}}}

# ---------------------------------------------------------------- contracts
def cfind(q):
    con = queues.qfind(q)
    base = con.post; con.modifies = con.modifies + [q.fk]
    def post(c):
        f0, f1 = c.S0.m(q.fk), c.S.m(q.fk)
        nv = q.hitval(c.S0, c[0], z3.Select(f0, c.ret))
        return base(c) + [("[C04,C02] the counter of the hit object, and no other, is updated", f1 == z3.If(z3.And(c[2], c.ret != NULL), z3.Store(f0, c.ret, nv), f0)),
                          ("order untouched", z3.And(q.L(c.ex, c.S, c[0]).RK == q.L(c.ex, c.S0, c[0]).RK, q.L(c.ex, c.S, c[0]).IN == q.L(c.ex, c.S0, c[0]).IN))]
    con.post = post
    return con

def cinsert(q):
    con = queues.qinsert(q); base = con.post
    con.modifies = list(con.modifies)
    eff = con.effect
    def post(c):
        r = base(c)
        # the new object's counter is zero; no other counter changes
        f0, f1 = c.S0.m(q.fk), c.S.m(q.fk)
        if not c.caller:
            r += [("[C04] counter of the new object is zero", z3.Select(f1, c.ret) == 0)]
        return r
    con.post = post
    return con

def cevict(q, needed=False):
    con = queues.qevict(q)
    b = con.post
    vic = lambda c: q.victim(q.L(c.ex, c.S0, c[0]))
    con.post = lambda c: b(c) + q.evict_post(c)
    con.modifies = con.modifies + q.mods_evict + (["ghost:rk@" + q._gid] if q.rk_changes else [])
    con.loops = {q.fn("evict"): q.evict_loops()}
    if q.rk_changes:
        b2 = con.post
        con.post = lambda c: b2(c) + [("other queues' order untouched", z3.ForAll([X], z3.Implies(X != CV(c.S0, c[0]).params, z3.Select(c.S.g("rk@" + q._gid), X) == z3.Select(c.S0.g("rk@" + q._gid), X)), patterns=[z3.Select(c.S.g("rk@" + q._gid), X)]))]
    return con

def cto_evict(q):
    con = queues.qto_evict(q); con.loops = q.to_evict_loops(); return con

def cremove(q):
    con = queues.qremove(q)
    if isinstance(q, SieveQ):
        con.modifies = con.modifies + [q.PT]; b = con.post
        def post(c):
            C0 = CV(c.S0, c[0]); f = C0.H.found(c[1]); v = C0.H.at(c[1]); p = q.ptr(c.S0, c[0]); L0 = q.L(c.ex, c.S0, c[0])
            return b(c) + [("[C04,C06] the hand stays, or moves to the next newer object if its object is removed", c.S.m(q.PT) == z3.Store(c.S0.m(q.PT), C0.params, z3.If(z3.And(f, p == v), L0.prev(v), p)))]
        con.post = post
    return con

def cget(q):
    b = queues.qget(q)
    def lin(c):
        ex, S, S0 = c.ex, c.S, c.S0
        ca, rq = c[0], c[1]
        C0, C1 = CV(S0, ca), CV(S, ca); L0, L1 = q.L(ex, S0, ca), q.L(ex, S, ca)
        i = S.f(rq, "request.obj_id")
        fits0 = C0.occ + S.f(rq, "request.obj_size") + C0.md <= C0.size
        r = q.inv(ex, S, ca) + cap(S, ca) + req_ok(S, rq)
        r += [("requested id not resident", z3.Not(C1.H.found(i))),
              ("request fits the cache", S.f(rq, "request.obj_size") + C1.md <= C1.size),
              ("only residents remain", z3.ForAll([X], z3.Implies(L1.has(X), L0.has(X)), patterns=[L1.has(X)])),
              ("nothing happens while the object fits", z3.Implies(fits0, z3.And(L1.inn == L0.inn, L1.rk == L0.rk, q.F(S) == q.F(S0))))]
        for k in (SZ, ID, FREQ, NAV): r.append((k + " unchanged", S.m(k) == S0.m(k)))
        r += [("cache parameters unchanged", z3.And([S.f(ca, "cache." + f) == S0.f(ca, "cache." + f) for f in ("cache_size", "obj_md_size", "eviction_params", "hashtable", "admissioner")])),
              ("request counted once", S.f(ca, "cache.n_req") == S0.f(ca, "cache.n_req") + 1)]
        return r
    def post(c):
        ex, S, S0 = c.ex, c.S, c.S0
        ca, rq = c[0], c[1]
        C0, C1 = CV(S0, ca), CV(S, ca); L0, L1 = q.L(ex, S0, ca), q.L(ex, S, ca)
        i = S0.f(rq, "request.obj_id"); hit = C0.H.found(i); v = C0.H.at(i); n = C1.H.at(i)
        need = S0.f(rq, "request.obj_size") + C0.md
        noadm = S0.f(ca, "cache.admissioner") == NULL
        fits = need <= C0.size; f0, f1 = q.F(S0), q.F(S)
        ins = z3.And(z3.Not(hit), C1.H.found(i))
        same = z3.And(C1.H.HT == C0.H.HT, L1.rk == L0.rk)
        r = [("hit exactly when the object was resident", c.ret == hit)] + q.inv(ex, S, ca) + cap(S, ca)
        r += [("a hit keeps every resident object and the order", z3.Implies(hit, same)),
              ("[C04,C02] a hit updates exactly the hit object's counter", z3.Implies(hit, f1 == z3.Store(f0, v, q.hitval(S0, ca, z3.Select(f0, v))))),
              ("an admissible miss leaves the object resident", z3.Implies(z3.And(z3.Not(hit), noadm, fits), z3.And(C1.H.found(i), C1.sz(n) == z3.Extract(31, 0, S0.f(rq, "request.obj_size"))))),
              ("an object larger than the cache is never inserted and evicts nothing", z3.Implies(z3.And(z3.Not(hit), z3.Not(fits)), z3.And(same, f1 == f0))),
              ("a denied request changes nothing", z3.Implies(z3.And(z3.Not(hit), z3.Not(C1.H.found(i))), z3.And(same, f1 == f0))),
              ("nothing but the requested object is added", z3.ForAll([X], z3.Implies(C1.H.has(X), z3.Or(C0.H.has(X), X == n)), patterns=[C1.H.has(X)])),
              ("nothing is evicted while the object fits", z3.Implies(z3.And(ins, C0.occ + need <= C0.size), z3.ForAll([X], z3.Implies(C0.H.has(X), C1.H.has(X)), patterns=[C0.H.has(X)]))),
              ("new object is the newest", z3.Implies(ins, z3.And(L1.hd == n, z3.Select(f1, n) == 0)))]
        return r
    mods = [m for m in b.modifies] + [q.fk] + q.mods_evict
    con = Contract(q.fn("get"), pre=b.pre, post=post, allocates=True, frees=True, modifies=mods, roles=q.roles(), loops={"cache_get_base": {0: {"inv": lin, "variant": lambda c: NUM(CV(c.S, c[0]).H.ht)}}})
    return con

def contracts(q, prog):
    off, _ = prog.field(q.pstruct, q.head); q._gid = "%s+%d" % (q.pstruct, off)
    return {c.fn: c for c in (cfind(q), cinsert(q), cevict(q), cto_evict(q), cremove(q), cget(q))}

def for_get(q, cons):
    """inside get an eviction is allowed only while the new object does not fit"""
    e = cons[q.fn("evict")]; pre = e.pre
    def p(c):
        C = CV(c.S, c[0])
        return pre(c) + [("[C04] eviction only while the new object does not fit", C.occ + c.S.f(c[1], "request.obj_size") + C.md > C.size)]
    n = Contract(e.fn); n.__dict__.update(e.__dict__); n.pre = p
    cons[e.fn] = n

FAMILY = {"Clock": ClockQ(), "Sieve": SieveQ()}
