"""Contracts of the simulator (C16): one worker feeds its cache the trace in
order and counts; the pool gets every cache exactly once."""
import z3
from vcg.vcg import *
from vcg import core

BV32 = z3.BitVecSort(32)
StS, TrS, RgS, RcS = (z3.DeclareSort(n) for n in ("CacheState", "Trace", "Rng", "Content"))
GH = {"tr": z3.ArraySort(PtrS, TrS), "pos": z3.ArraySort(PtrS, BV64), "cst": z3.ArraySort(PtrS, StS), "rng": RgS, "mainr": PtrS}
M = "simulator_multithreading_params."
U64 = BV64
def F_(n, *s): return z3.Function(n, *s)
VAL = lambda T, p: z3.ULT(p, LENT(T))
LENT = F_("trace_length", TrS, U64)
CLK, IDV, SIZ, NAV = (F_("trace_" + n, TrS, U64, U64) for n in ("time", "id", "size", "next"))
RC = F_("request_content", U64, U64, U64, U64, RcS)          # time, id, size, next access: everything a cache may look at
STEP = F_("cache_step", StS, RgS, RcS, StS); HIT = F_("cache_hit", StS, RgS, RcS, z3.BoolSort()); RNX = F_("rng_step", StS, RgS, RcS, RgS)
NOBJ = F_("state_objects", StS, U64); OCC = F_("state_bytes", StS, U64)
SEED = F_("seeded", U64, RgS)
# a run: start state, start rng, trace, time origin, number of requests
RUN = (StS, RgS, TrS, U64)
ST = F_("run_state", *RUN, U64, StS); RG = F_("run_rng", *RUN, U64, RgS)
MISS = F_("run_misses", *RUN, U64, U64, U64); MISSB = F_("run_missed_bytes", *RUN, U64, U64, U64); REQB = F_("run_bytes", TrS, U64, U64, U64)
RD = F_("has_been_read", TrS, U64, z3.BoolSort())             # trigger only
WOK = F_("warm_up_condition_held_before", TrS, U64, U64, U64, U64, z3.BoolSort())
def wcond(T, t0, n, d, p): return z3.And(VAL(T, p), z3.Or(z3.ULT(p, n), CLK(T, p) - t0 < d))
WEND = F_("warm_up_condition_fails_at", TrS, U64, U64, U64, U64, z3.BoolSort())
def content(T, t0, p): return RC(CLK(T, p) - t0, IDV(T, p), SIZ(T, p), NAV(T, p))
KEEP = []
def axioms():
    s, g, T, t0, p, w = z3.Const("xs", StS), z3.Const("xg", RgS), z3.Const("xT", TrS), *z3.Consts("xt0 xp xw", U64)
    r, n, d = z3.Consts("xr xn xd", U64); a = (ST(s, g, T, t0, p), RG(s, g, T, t0, p), content(T, t0, p)); h = HIT(*a)
    z = z3.BitVecVal(0, 64); run = [s, g, T, t0]
    def MP(a, b): KEEP.extend([a, b]); m = z3.MultiPattern(b, a); KEEP.append(m); return m
    def base(vs, f, w, p, v): return z3.ForAll(vs, z3.Implies(p == w, f == v), patterns=[f])
    def step(vs, f, v): return z3.ForAll(vs, z3.Implies(r == p + 1, f == v), patterns=[MP(RD(T, p), f)])
    mul = F_("mul64", U64, U64, U64)
    return [z3.ForAll([p, r], mul(p, r) == mul(r, p), patterns=[mul(p, r)]), z3.ForAll([T, w], RD(T, w), patterns=[RD(T, w)]),
            base([T, t0, n, d, p], WOK(T, t0, n, d, p), z, p, z3.BoolVal(True)), step([T, t0, n, d, p, r], WOK(T, t0, n, d, r), z3.And(WOK(T, t0, n, d, p), wcond(T, t0, n, d, p))),
            z3.ForAll([T, t0, n, d, p, r], z3.Implies(r == p, WEND(T, t0, n, d, r) == z3.Not(wcond(T, t0, n, d, p))), patterns=[MP(RD(T, p), WEND(T, t0, n, d, r))]),
            base(run + [p], ST(*run, p), z, p, s), base(run + [p], RG(*run, p), z, p, g),
            step(run + [p, r], ST(*run, r), STEP(*a)), step(run + [p, r], RG(*run, r), RNX(*a)),
            base(run + [w, p], MISS(*run, w, p), w, p, z), base(run + [w, p], MISSB(*run, w, p), w, p, z), base([T, w, p], REQB(T, w, p), w, p, z),
            step(run + [w, p, r], MISS(*run, w, r), MISS(*run, w, p) + z3.If(h, z, z + 1)), step(run + [w, p, r], MISSB(*run, w, r), MISSB(*run, w, p) + z3.If(h, z, SIZ(T, p))),
            step([T, w, p, r], REQB(T, w, r), REQB(T, w, p) + SIZ(T, p))]

RQ = ["clock_time", "hv", "obj_id", "obj_size", "ttl", "op", "next_access_vtime", "valid", "n_req"]
def on(b): return z3.Extract(0, 0, b) == 1 if not z3.is_bool(b) else b
def q(S, r, f): return S.f(r, "request." + f)
def T_(S, r): return z3.Select(S.g("tr"), r)
def P_(S, r): return z3.Select(S.g("pos"), r)
def holds(S, r, T, p):
    """request object r holds the p-th request of trace T"""
    return [("the request read is the next of the trace", z3.And(on(q(S, r, "valid")) == VAL(T, p), z3.Implies(VAL(T, p), z3.And(q(S, r, "clock_time") == CLK(T, p), q(S, r, "obj_id") == IDV(T, p),
             q(S, r, "obj_size") == SIZ(T, p), q(S, r, "next_access_vtime") == NAV(T, p))))), ("trigger", RD(T, p))]

def c_read():
    def post(c):
        T, p = T_(c.S0, c[0]), P_(c.S0, c[0])
        return holds(c.S, c[1], T, p) + [("other requests unchanged", z3.And([c.S.m("request." + f) == z3.Store(c.S0.m("request." + f), c[1], q(c.S, c[1], f)) for f in RQ]))]
    return Contract("read_one_req", trusted=True, note="a reader delivers its trace in order (proved per format under C13, C14; executable contracts otherwise)",
        pre=lambda c: [("reader and request live", z3.And(c.S.live(c[0]), c.S.live(c[1])))], post=post, modifies=["request." + f for f in RQ],
        ghost_post={"pos": lambda c: z3.Store(c.S0.g("pos"), c[0], P_(c.S0, c[0]) + 1)})
def fresh_obj(c): return [("fresh", z3.And(c.ret != NULL, z3.Not(c.S0.live(c.ret)), z3.Not(z3.Select(c.S0.g("ever"), c.ret)), c.S.live(c.ret)))]
def born(c): return z3.Store(c.S0.g("live"), c.ret, True) if c.caller else c.S.g("live")
def c_clone():
    return Contract("clone_reader", trusted=True, note="a cloned reader delivers the same trace from its start", allocates=True, pre=lambda c: [("reader live", z3.And(c[0] != NULL, c.S.live(c[0])))], post=fresh_obj,
        ghost_post={"ever": core.EVER, "live": core.LIVE1, "mainr": lambda c: z3.If(c.S0.g("mainr") == NULL, c.ret, c.S0.g("mainr")), "tr": lambda c: z3.Store(c.S0.g("tr"), c.ret, T_(c.S0, c[0])), "pos": lambda c: z3.Store(c.S0.g("pos"), c.ret, z3.BitVecVal(0, 64))})
def c_newreq(): return Contract("new_request", trusted=True, note="allocates a request", allocates=True, post=fresh_obj, ghost_post={"ever": core.EVER, "live": core.LIVE1})
def c_del(fn): return Contract(fn, trusted=True, frees=True, note="releases its argument", pre=lambda c: [("live", c.S.live(c[0]))], ghost_post={"live": lambda c: z3.Store(c.S0.g("live"), c[0], False)})
def c_seed(): return Contract("set_rand_seed", trusted=True, note="seeds the generator of this thread (a thread-local variable)", ghost_post={"rng": lambda c: SEED(c[0])})
def cst(S, k): return z3.Select(S.g("cst"), k)
def rc_of(S, r): return RC(q(S, r, "clock_time"), q(S, r, "obj_id"), q(S, r, "obj_size"), q(S, r, "next_access_vtime"))
def c_get():
    def post(c):
        S, S0 = c.S, c.S0; k = c[0]; st = cst(S, k)
        return [("answer", c.ret == HIT(cst(S0, k), S0.g("rng"), rc_of(S0, c[1]))), ("the fields reflect the state", z3.And(S.f(k, "cache.n_obj") == NOBJ(st), S.f(k, "cache.occupied_byte") == OCC(st)))]
    return Contract("virtual:get", trusted=True, note="the answer and the next state of a cache depend only on its state, the content of the request and the thread's generator; the request's id, size, time and future are not changed",
        pre=lambda c: [("cache and request live", z3.And(c.S.live(c[0]), c.S.live(c[1]))), ("a request is given", on(q(c.S, c[1], "valid")))], post=post, modifies=["cache.n_obj", "cache.occupied_byte", "cache.n_req", "request.hv"],
        ghost_post={"cst": lambda c: z3.Store(c.S0.g("cst"), c[0], STEP(cst(c.S0, c[0]), c.S0.g("rng"), rc_of(c.S0, c[1]))), "rng": lambda c: RNX(cst(c.S0, c[0]), c.S0.g("rng"), rc_of(c.S0, c[1]))})
def c_cfree():
    con = c_del("virtual:cache_free"); con.note = "cache_free releases the cache"; return con

STAT = "cache_stat_t"
def skey(ex, f):
    off, lt = ex.prog.field(STAT, f); return ("arr", ((0, STAT),), off, lt)
def R_(ex, S, res, i, f): return z3.Select(z3.Select(S.map(skey(ex, f)), res), i)
PK = ("arr", ((0, "ptr"),), 0, "ptr")
STATS = ["n_warmup_req", "n_req", "n_req_byte", "n_miss", "n_miss_byte", "n_obj", "occupied_byte", "cache_size", "curr_rtime", "expired_obj_cnt", "expired_bytes"]

class SV:
    def __init__(s, c, SS):
        s.c, s.S = c, SS; s.u = c[1]; d = c[0]
        s.idx = z3.SignExt(32, z3.Extract(31, 0, p2i(d)) - 1)
        f = lambda n: SS.f(s.u, M + n)
        s.res, s.reader, s.warm, s.caches, s.prog, s.flag = f("result"), f("reader"), f("warmup_reader"), f("caches"), f("progress"), f("free_cache_when_finish")
        s.nw, s.ws = f("n_warmup_req"), z3.SignExt(32, f("warmup_sec"))
        s.f = f
        s.k = z3.Select(z3.Select(SS.map(PK), s.caches), s.idx)
    def r(s, f): return R_(s.c.ex, s.S, s.res, s.idx, f)
def prog_val(ex, S, p): return z3.Select(z3.Select(S.map(("arr", ((0, "i32"),), 0, "i32")), p), z3.BitVecVal(0, 64))

def spec(c):
    """the run the contract promises, in terms of the entry state"""
    V = SV(c, c.S0); Z = z3.BitVecVal(0, 64)
    T, TW = T_(c.S0, V.reader), T_(c.S0, V.warm); s0 = cst(c.S0, V.k); g0 = SEED(Z); has = V.warm != NULL
    s1 = z3.If(has, ST(s0, g0, TW, Z, LENT(TW)), s0); g1 = z3.If(has, RG(s0, g0, TW, Z, LENT(TW)), g0); nwr = z3.If(has, LENT(TW), Z)
    return V, T, TW, s0, g0, s1, g1, nwr
def warmc(V, T, t0, p): return wcond(T, t0, V.nw, V.ws, p)
QQ = z3.Const("wq", BV64)

def c_simulate():
    fn = "_simulate"
    def pre(c):
        V = SV(c, c.S); S = c.S; objs = [V.u, V.res, V.reader, V.caches, V.k, V.prog]
        return [("arguments live", z3.And([z3.And(S.live(x), x != NULL) for x in objs] + [z3.Implies(V.warm != NULL, S.live(V.warm))])),
                ("distinct objects", z3.And(z3.Distinct(*objs), z3.Not(z3.Or([V.warm == x for x in (V.u, V.res, V.caches, V.k, V.prog)])))),
                ("index in range", z3.And(V.idx >= 0, V.idx < S.f(V.u, M + "n_caches"))) if False else ("index not negative", V.idx >= 0),
                ("traces shorter than 2^48, durations below 2^62", z3.And(z3.ULT(LENT(T_(S, V.reader)), 1 << 48), z3.ULT(LENT(T_(S, V.warm)), 1 << 48))),
                ("the result starts at zero", z3.And([V.r(f) == 0 for f in ("n_warmup_req", "n_req", "n_req_byte", "n_miss", "n_miss_byte")])), ("not locked", S.g("lock") == NULL), ("no reader cloned yet", S.g("mainr") == NULL)]
    def others(c):
        """what belongs to the other workers is not written"""
        V = SV(c, c.S0); j = z3.Const("oj", BV64); x = X_; r = []
        for f in STATS:
            m0, m1 = c.S0.map(skey(c.ex, f)), c.S.map(skey(c.ex, f))
            if m0.eq(m1): continue
            r.append(("only this worker's result is written: " + f, z3.ForAll([x, j], z3.Implies(z3.Or(x != V.res, j != V.idx), z3.Select(z3.Select(m1, x), j) == z3.Select(z3.Select(m0, x), j)), patterns=[z3.Select(z3.Select(m1, x), j)])))
        return r
    def common(c):
        V, T, TW, s0, g0, s1, g1, nwr = spec(c); S = c.S; r = c.local("cloned_reader"); rq = c.local("req"); k = c.local("local_cache")
        own = [V.u, V.res, V.reader, V.caches, V.k, V.prog]
        return [("locals", z3.And(r == S.g("mainr"), k == V.k, c.local("params") == V.u, c.local("result") == V.res, z3.SignExt(32, c.local("idx")) == V.idx)),
                ("own reader", z3.And(S.live(r), r != NULL, z3.Not(c.S0.live(r)))), ("own request", z3.And(S.live(rq), rq != NULL, r != rq, z3.Not(c.S0.live(rq)))), ("reader never used before", z3.Not(z3.Select(c.S0.g("ever"), r))),
                ("request never used before", z3.Not(z3.Select(c.S0.g("ever"), rq))), ("own reader reads the given trace", T_(S, r) == T),
                ("given readers untouched", z3.And(P_(S, V.reader) == P_(c.S0, V.reader), T_(S, V.reader) == T, z3.Implies(V.warm != NULL, z3.And(P_(S, V.warm) == P_(c.S0, V.warm), T_(S, V.warm) == TW)))),
                ("not locked", S.g("lock") == NULL)] + others(c) + \
               [("other caches untouched", z3.ForAll([X_], z3.Implies(X_ != V.k, z3.And(cst(S, X_) == cst(c.S0, X_))), patterns=[cst(S, X_)]))]
    def live_is(c, *objs):
        return [("live objects", z3.ForAll([X_], c.S.live(X_) == z3.Or(c.S0.live(X_), *[X_ == o for o in objs]), patterns=[c.S.live(X_)]))]
    def same(c, *fs):
        V0, V1 = SV(c, c.S0), SV(c, c.S)
        return [("not yet counted: " + f, V1.r(f) == V0.r(f)) for f in fs]
    def l_warm_reader(c):
        V, T, TW, s0, g0, s1, g1, nwr = spec(c); S = c.S; wr = c.local("warmup_cloned_reader"); rq = c.local("req"); p = P_(S, wr) - 1; Z = z3.BitVecVal(0, 64)
        return common(c) + live_is(c, c.local("cloned_reader"), rq, wr) + same(c, *[f for f in STATS if f != "n_warmup_req"]) + [
            ("warm-up reader", z3.And(S.live(wr), z3.Not(c.S0.live(wr)), wr != NULL, wr != rq, wr != c.local("cloned_reader"), T_(S, wr) == TW, V.warm != NULL, P_(S, wr) != 0, z3.ULE(p, LENT(TW)))),
            ("main reader at the start", P_(S, c.local("cloned_reader")) == 0)] + holds(S, rq, TW, p) + [
            ("cache fed the warm-up trace", z3.And(cst(S, V.k) == ST(s0, g0, TW, Z, p), S.g("rng") == RG(s0, g0, TW, Z, p))),
            ("warm-up requests counted", SV(c, S).r("n_warmup_req") == p)]
    def l_warm(c):
        V, T, TW, s0, g0, s1, g1, nwr = spec(c); S = c.S; r = c.local("cloned_reader"); rq = c.local("req"); p = P_(S, r) - 1; t0 = c.local("start_ts")
        return common(c) + live_is(c, r, rq) + same(c, *[f for f in STATS if f != "n_warmup_req"]) + holds(S, rq, T, p) + [
            ("main reader", z3.And(P_(S, r) != 0, z3.ULE(p, LENT(T)), z3.Implies(LENT(T) != 0, t0 == CLK(T, z3.BitVecVal(0, 64))))),
            ("cache fed the trace", z3.And(cst(S, V.k) == ST(s1, g1, T, t0, p), S.g("rng") == RG(s1, g1, T, t0, p))),
            ("warm-up requests counted", z3.And(c.local("n_warmup") == p, SV(c, S).r("n_warmup_req") == nwr)),
            ("warm-up condition held so far", WOK(T, t0, V.nw, V.ws, p))]
    def wlen(c, V, nwr): return SV(c, c.S).r("n_warmup_req") - nwr
    def warm_done(c, V, T, t0, w):
        asked = z3.Or(z3.UGT(V.nw, 0), V.ws > 0)
        return [("warm-up within the trace", z3.ULE(w, LENT(T))), ("every warm-up request is within the requested number or time", WOK(T, t0, V.nw, V.ws, w)),
                ("the warm-up does not end early", z3.Or(z3.Not(asked), WEND(T, t0, V.nw, V.ws, w))), ("no warm-up unless requested", z3.Or(asked, w == 0))]
    def counts(c, V, T, s1, g1, t0, w, p):
        V1 = SV(c, c.S)
        return [("requests counted", V1.r("n_req") == (p - w)), ("requested bytes counted", V1.r("n_req_byte") == REQB(T, w, p)),
                ("misses counted", V1.r("n_miss") == MISS(s1, g1, T, t0, w, p)), ("missed bytes counted", V1.r("n_miss_byte") == MISSB(s1, g1, T, t0, w, p))]
    def l_main(c):
        V, T, TW, s0, g0, s1, g1, nwr = spec(c); S = c.S; r = c.local("cloned_reader"); rq = c.local("req"); p = P_(S, r) - 1; t0 = c.local("start_ts"); w = wlen(c, V, nwr)
        return common(c) + live_is(c, r, rq) + same(c, "n_obj", "occupied_byte", "cache_size", "expired_obj_cnt", "expired_bytes") + holds(S, rq, T, p) + [
            ("main reader", z3.And(P_(S, r) != 0, z3.ULE(p, LENT(T)), z3.ULE(w, p), z3.Implies(LENT(T) != 0, t0 == CLK(T, z3.BitVecVal(0, 64))))),
            ("cache fed the trace", z3.And(cst(S, V.k) == ST(s1, g1, T, t0, p), S.g("rng") == RG(s1, g1, T, t0, p)))] + warm_done(c, V, T, t0, w) + counts(c, V, T, s1, g1, t0, w, p)
    def var(name):
        def v(c): r = c.local(name); return LENT(T_(c.S, r)) + 1 - P_(c.S, r)
        return v
    def post(c):
        V, T, TW, s0, g0, s1, g1, nwr = spec(c); S = c.S; V1 = SV(c, S); w = wlen(c, V, nwr); N = LENT(T); p = P_(S, S.g("mainr")) - 1
        t0 = CLK(T, z3.BitVecVal(0, 64)); ne = N != 0
        st = z3.If(ne, ST(s1, g1, T, t0, p), s1)
        imp = lambda L: [(n, z3.Implies(ne, f)) for n, f in L]
        r = [("the whole trace was read", p == N)] + imp(warm_done(c, V, T, t0, w)) + imp(counts(c, V, T, s1, g1, t0, w, p)) + [
            ("an empty trace counts nothing", z3.Implies(z3.Not(ne), z3.And([V1.r(f) == 0 for f in ("n_req", "n_req_byte", "n_miss", "n_miss_byte")] + [w == 0]))),
            ("the cache is in the state of a sequential run", cst(S, V.k) == st),
            ("objects and bytes of the final state are reported", z3.And(V1.r("n_obj") == S.f(V.k, "cache.n_obj"), V1.r("occupied_byte") == S.f(V.k, "cache.occupied_byte"))),
            ("cache size of the result kept", V1.r("cache_size") == V.r("cache_size")),
            ("progress reported once, under the lock", z3.And(prog_val(c.ex, S, V.prog) == prog_val(c.ex, c.S0, V.prog) + 1, S.g("lock") == NULL)),
            ("everything allocated is released, the cache exactly on request", z3.ForAll([X_], S.live(X_) == z3.And(c.S0.live(X_), z3.Not(z3.And(on(V.flag), X_ == V.k))), patterns=[S.live(X_)])),
            ("given readers untouched", z3.And(P_(S, V.reader) == P_(c.S0, V.reader), z3.Implies(V.warm != NULL, P_(S, V.warm) == P_(c.S0, V.warm))))]
        return r + others(c) + [("other caches untouched", z3.ForAll([X_], z3.Implies(X_ != V.k, cst(S, X_) == cst(c.S0, X_)), patterns=[cst(S, X_)]))]
    con = Contract(fn, pre=pre, post=post, allocates=True, frees=True, roles={"cache.get": "virtual:get", "cache.cache_free": "virtual:cache_free"},
        modifies=["arr:i32", "cache.n_obj", "cache.occupied_byte", "cache.n_req"] + ["arr:cache_stat_t." + f for f in STATS] + ["request." + f for f in RQ] + ["ghost:" + g for g in ("tr", "pos", "cst", "rng", "live", "lock", "mainr")],
        loops={fn: {0: {"inv": l_warm_reader, "variant": var("warmup_cloned_reader")}, 1: {"inv": l_warm, "variant": var("cloned_reader")}, 2: {"inv": l_main, "variant": var("cloned_reader")}}})
    return con
X_ = z3.Const("xo", PtrS)
GH["lock"] = PtrS
# ---- the pool: every cache is given to one worker, exactly once
IDX = z3.ArraySort(BV64, z3.BoolSort())
GH.update({"pool": z3.ArraySort(PtrS, PtrS), "pushed": z3.ArraySort(PtrS, IDX), "joined": z3.ArraySort(PtrS, z3.BoolSort()), "minit": z3.ArraySort(PtrS, z3.BoolSort()), "acnt": z3.ArraySort(PtrS, BV64)})
NREQ = F_("trace_count", TrS, U64); CNEW = F_("state_of_a_new_cache", StS, U64, StS)
WF = ["n_warmup_req", "n_req", "n_req_byte", "n_miss", "n_miss_byte", "n_obj", "occupied_byte"]        # what a worker reports
SIMF = {f: F_("simulation_" + f, TrS, z3.BoolSort(), TrS, U64, U64, StS, U64) for f in WF}         # proved of _simulate: a function of these alone
JJ = z3.Const("jj", BV64)
def sim_result(V, S, f, st, has=None):
    has = V.warm != NULL
    return SIMF[f](T_(S, V.reader), has, z3.If(has, T_(S, V.warm), T_(S, V.reader)), V.nw, V.ws, st)
STAT_MOD = ["arr:cache_stat_t." + f for f in STATS]
def x_pool_new(ex, S, args, rty, ins):
    ex.prove(S, z3.BoolVal(z3.is_app(args[0].base) and args[0].base.decl().name() == "@_simulate"), "the pool runs the simulation worker", ins.line)
    p = ex.alloc(S, "pool"); d = addr_term(args[1])
    S.ghost["pool"] = z3.Store(S.g("pool"), p, d); S.ghost["pushed"] = z3.Store(S.g("pushed"), p, z3.K(BV64, z3.BoolVal(False))); S.ghost["joined"] = z3.Store(S.g("joined"), p, False)
    return [(S, Ptr(p))]
def x_pool_push(ex, S, args, rty, ins):
    p = addr_term(args[0]); u = z3.Select(S.g("pool"), p)
    cc = Ctx(ex, S, S, [args[1], Ptr(u)]); V = SV(cc, S)
    ex.prove(S, z3.Not(z3.Select(S.g("joined"), p)), "the pool is open", ins.line)
    ex.prove(S, z3.Not(z3.Select(z3.Select(S.g("pushed"), p), V.idx)), "no cache is given to two workers", ins.line)
    ex.prove(S, z3.And(V.idx >= 0, z3.ULT(V.idx, z3.Select(S.g("acnt"), V.res)), z3.ULT(V.idx, z3.Select(S.g("acnt"), V.caches))), "the index given to a worker is within the caches and results", ins.line)
    ex.prove(S, z3.Select(S.g("minit"), u), "the lock is initialised before a worker starts", ins.line)
    for lab, f in c_simulate().pre(cc):
        if lab not in ("not locked", "no reader cloned yet", "traces shorter than 2^48, durations below 2^62"): ex.prove(S, f, "precondition of the worker: " + lab, ins.line)
    S.ghost["pushed"] = z3.Store(S.g("pushed"), p, z3.Store(z3.Select(S.g("pushed"), p), V.idx, True))
    b = fresh("still_mine", z3.BoolSort()); S.assume(b == z3.And(S.live(V.k), z3.Not(on(V.flag))))
    S.ghost["live"] = ex.named(S, "live", z3.Store(S.g("live"), V.k, b)); S.ghost["_safe"] = ()
    return [(S, z3.BitVecVal(1, 32))]
def x_pool_free(ex, S, args, rty, ins):
    p = addr_term(args[0]); u = z3.Select(S.g("pool"), p); pu = z3.Select(S.g("pushed"), p)
    cc = Ctx(ex, S, S, [Ptr(NULL), Ptr(u)]); V = SV(cc, S); row = lambda f: z3.Select(S.map(skey(ex, f)), V.res)
    ex.prove(S, z3.And(args[1] == 0, args[2] != 0), "the pool is closed only after every worker is done", ins.line)
    ex.prove(S, z3.And([S.live(x) for x in (u, V.res, V.reader, V.caches, V.prog)] + [z3.Select(S.g("minit"), u), z3.Not(z3.Select(S.g("joined"), p))]), "what the workers use is alive until they are done", ins.line)
    ex.prove(S, z3.ForAll([JJ], z3.Implies(z3.Select(pu, JJ), z3.And([z3.Select(row(f), JJ) == 0 for f in WF])), patterns=[z3.Select(pu, JJ)] + [z3.Select(row(f), JJ) for f in WF[:1]]), "the results are left to the workers", ins.line)
    V0 = V; S0 = S.copy()
    for f in WF:
        k = skey(ex, f); nr = fresh("res_" + f, z3.ArraySort(BV64, BV64)); r0 = row(f)
        st = z3.Select(S.g("cst"), z3.Select(z3.Select(S.map(PK), V.caches), JJ))
        S.assume(z3.ForAll([JJ], z3.Select(nr, JJ) == z3.If(z3.Select(pu, JJ), sim_result(V, S, f, st), z3.Select(r0, JJ)), patterns=[z3.Select(nr, JJ)]))
        S.setmap(k, z3.Store(S.map(k), V.res, nr))
    S.ghost["joined"] = z3.Store(S.g("joined"), p, True)
    S.ghost["live"] = z3.Store(S.g("live"), p, False); S.ghost["_safe"] = ()
    return [(S, None)]
def x_minit(ex, S, args, rty, ins):
    S.ghost["minit"] = z3.Store(S.g("minit"), args[0].base, True); return [(S, None)]
def x_mclear(ex, S, args, rty, ins):
    ex.prove(S, z3.Select(S.g("minit"), args[0].base), "only an initialised lock is cleared", ins.line)
    S.ghost["minit"] = z3.Store(S.g("minit"), args[0].base, False); return [(S, None)]
def x_calloc(ex, S, args, rty, ins):
    p = ex.alloc(S, "calloc", zero=True); S.ghost["acnt"] = z3.Store(S.g("acnt"), p, args[1]); return [(S, Ptr(p))]
def x_memset(ex, S, args, rty, ins):
    p, v, n = args[:3]
    if not (z3.is_bv_value(v) and v.as_long() == 0 and isinstance(p, Ptr) and p.plain()): return NotImplemented
    if z3.is_bv_value(n): return NotImplemented
    size = ex.prog.size(STAT) if hasattr(ex.prog, "size") else 152
    ex.prove(S, z3.And(S.live(p.base), z3.ULE(n, size * z3.Select(S.g("acnt"), p.base)), z3.ULT(n, 1 << 62)), "memory safety: memset within the results", ins.line)
    for f in STATS:
        k = skey(ex, f); S.setmap(k, z3.Store(S.map(k), p.base, z3.K(BV64, z3.BitVecVal(0, int(k[3][1:])))))
    return [(S, None)]
def x_progress(ex, S, args, rty, ins):
    """while the main thread waits, workers advance the progress counter (and nothing else main may look at)"""
    k = ("arr", ((0, "i32"),), 0, "i32"); S.setmap(k, fresh("progress", S.map(k).sort())); return [(S, None)]
def bounds(ex, S, p, line):
    if p.root == "arr" and len(p.dims) == 1 and len(p.idx) == 1 and p.dims[0][1] in (STAT, "ptr", "i64"):
        ex.prove(S, z3.ULT(p.idx[0], z3.Select(S.g("acnt"), p.base)), "memory safety: index within the array", line)
def c_numreq():
    return Contract("get_num_of_req", trusted=True, note="the number of requests of the trace (C13, C14)", pre=lambda c: [("reader live", z3.And(c[0] != NULL, c.S.live(c[0])))], post=lambda c: [("count", c.ret == NREQ(T_(c.S0, c[0])))])
def c_newsize():
    return Contract("create_cache_with_new_size", trusted=True, note="proved under C21; the state of a new cache depends on its parameters and size only", allocates=True, pre=lambda c: [("live", z3.And(c[0] != NULL, c.S.live(c[0])))],
        post=lambda c: fresh_obj(c) + [("size", c.S.f(c.ret, "cache.cache_size") == c[1])], ghost_post={"ever": core.EVER, "live": core.LIVE1, "cst": lambda c: z3.Store(c.S0.g("cst"), c.ret, CNEW(cst(c.S0, c[0]), c[1]))})
def c_tostr(): return Contract("convert_size_to_str", trusted=True, note="formats a size into the caller's buffer")
def nwarm(ex, T, frac, gate):
    v = ex.uf("fptoui64", BV64, ex.uf("fmul", FltS, ex.uf("uitofp64", FltS, NREQ(T)), frac))
    return z3.If(fcmp("ogt", frac, ex.fconst(gate)), v, z3.BitVecVal(0, 64)) if gate else v
def c_driver(fn):
    multi = fn == "simulate_with_multi_caches"
    A = ["reader", "caches", "n", "warm", "frac", "sec", "thr", "flag"] if multi else ["reader", "cache", "n", "sizes", "warm", "frac", "sec", "thr"]
    class D:
        def __init__(s, c):
            for i, a in enumerate(A): setattr(s, a, c[i])
            s.n = z3.SignExt(32, s.n); s.ws = z3.SignExt(32, s.sec)
    SZK = ("arr", ((0, "i64"),), 0, "i64")
    def CA(S, d, j): return z3.Select(z3.Select(S.map(PK), d.caches), j)
    def SZ(S, d, j): return z3.Select(z3.Select(S.map(SZK), d.sizes), j)
    def rng(d, j): return z3.And(j >= 0, j < d.n)
    def pre(c):
        d, S = D(c), c.S
        common = [("some caches", z3.And(d.n > 0, d.n < 1 << 30)), ("readers", z3.And(d.reader != NULL, S.live(d.reader), z3.Implies(d.warm != NULL, S.live(d.warm))))]
        if multi:
            k = CA(S, d, JJ); J2 = z3.Const("j2", BV64)
            return common + [("caches array", z3.And(S.live(d.caches), d.caches != NULL, z3.Select(S.g("acnt"), d.caches) == d.n, d.caches != d.reader, d.caches != d.warm)),
                ("caches live", z3.ForAll([JJ], z3.Implies(rng(d, JJ), z3.And(k != NULL, S.live(k), z3.Select(S.g("ever"), k), k != d.caches, k != d.reader, k != d.warm)), patterns=[k])),
                ("caches distinct", z3.ForAll([JJ, J2], z3.Implies(z3.And(rng(d, JJ), rng(d, J2), JJ != J2), k != CA(S, d, J2)), patterns=[z3.MultiPattern(k, CA(S, d, J2))]))]
        return common + [("cache and sizes", z3.And(d.cache != NULL, S.live(d.cache), d.sizes != NULL, S.live(d.sizes), d.cache != d.reader, d.cache != d.warm, z3.Select(S.g("acnt"), d.sizes) == d.n))]
    def state(c, d, j): return cst(c.S0, CA(c.S0, d, j)) if multi else CNEW(cst(c.S0, d.cache), SZ(c.S0, d, j))
    def size(c, d, j): return c.S0.f(CA(c.S0, d, j), "cache.cache_size") if multi else SZ(c.S0, d, j)
    def rd(c, S, r, f, j): return R_(c.ex, S, r, j, f)
    def post(c):
        d, S = D(c), c.S; T, TW = T_(c.S0, d.reader), T_(c.S0, d.warm); nw = nwarm(c.ex, T, d.frac, "1.000000e-06" if multi else None); has = d.warm != NULL
        r = [("a new result array", z3.And(c.ret != NULL, S.live(c.ret), z3.Not(c.S0.live(c.ret))))]
        for f in WF: r.append(("every result is the one of its own sequential simulation: " + f, z3.ForAll([JJ], z3.Implies(rng(d, JJ), rd(c, S, c.ret, f, JJ) == SIMF[f](T, has, z3.If(has, TW, T), nw, d.ws, state(c, d, JJ))), patterns=[rd(c, S, c.ret, f, JJ)])))
        r.append(("every result carries the size of its cache", z3.ForAll([JJ], z3.Implies(rng(d, JJ), rd(c, S, c.ret, "cache_size", JJ) == size(c, d, JJ)), patterns=[rd(c, S, c.ret, "cache_size", JJ)])))
        if multi: r.append(("what the caller keeps alive", z3.ForAll([X_], z3.Implies(z3.And(c.S0.live(X_), z3.Not(S.live(X_))), z3.And(on(d.flag), z3.Exists([JJ], z3.And(rng(d, JJ), CA(c.S0, d, JJ) == X_)))))))
        else: r.append(("nothing of the caller ends", z3.ForAll([X_], z3.Implies(c.S0.live(X_), S.live(X_)), patterns=[S.live(X_), c.S0.live(X_)])))
        return r
    def inv_common(c):
        d, S = D(c), c.S; u, res, pool = c.local("params"), c.local("result"), c.local("gthread_pool"); f = lambda n: S.f(u, M + n); T = T_(c.S0, d.reader)
        prog = f("progress")
        nw = nwarm(c.ex, T, d.frac, "1.000000e-06" if multi else None)
        new = [u, res, pool, prog] + ([] if multi else [f("caches")])
        return [("parameters of the workers", z3.And(f("reader") == d.reader, f("warmup_reader") == d.warm, f("warmup_sec") == d.sec, f("n_warmup_req") == nw, f("result") == res,
                   (on(f("free_cache_when_finish")) == on(d.flag)) if multi else on(f("free_cache_when_finish")), (f("caches") == d.caches) if multi else z3.BoolVal(True))),
                ("own objects", z3.And([z3.And(S.live(x), x != NULL, z3.Not(c.S0.live(x)), z3.Not(z3.Select(c.S0.g("ever"), x))) for x in new] + [z3.Distinct(*new)])),
                ("pool and lock", z3.And(z3.Select(S.g("pool"), pool) == u, z3.Not(z3.Select(S.g("joined"), pool)), z3.Select(S.g("minit"), u), z3.Select(S.g("acnt"), res) == d.n)),
                ("traces", z3.And(T_(S, d.reader) == T, T_(S, d.warm) == T_(c.S0, d.warm)))] + ([] if multi else [("caches array", z3.Select(S.g("acnt"), f("caches")) == d.n)])
    def zeros(c, res, d):
        return [("no result is written by the caller: " + f, z3.ForAll([JJ], rd(c, c.S, res, f, JJ) == 0, patterns=[rd(c, c.S, res, f, JJ)])) for f in WF]
    def sizes_done(c, d, res, i):
        return [("sizes of the results", z3.ForAll([JJ], z3.Implies(z3.And(JJ >= 0, JJ < i), rd(c, c.S, res, "cache_size", JJ) == size(c, d, JJ)), patterns=[rd(c, c.S, res, "cache_size", JJ)]))]
    def others_same(c):
        S = c.S
        if multi: return [("caches array unchanged", z3.Select(S.map(PK), D(c).caches) == z3.Select(c.S0.map(PK), D(c).caches)), ("states", S.g("cst") == c.S0.g("cst"))]
        return [("sizes array unchanged", z3.Select(S.map(SZK), D(c).sizes) == z3.Select(c.S0.map(SZK), D(c).sizes))]
    def alive(c, d, lo):
        """objects alive before are alive, except the caches already given away"""
        S = c.S; own = [d.reader, d.caches] if multi else [d.reader, d.cache, d.sizes]
        r = [("inputs alive", z3.And([S.live(x) for x in own] + [z3.Implies(d.warm != NULL, S.live(d.warm))]))]
        if multi:
            k = CA(c.S0, d, JJ)
            r += [("caches not yet given away are alive", z3.ForAll([JJ], z3.Implies(z3.And(JJ >= lo, JJ < d.n), S.live(k)), patterns=[k])),
                  ("only caches given away end", z3.ForAll([X_], z3.Implies(z3.And(c.S0.live(X_), z3.Not(S.live(X_))), z3.And(on(d.flag), z3.Exists([JJ], z3.And(JJ >= 0, JJ < lo, CA(c.S0, d, JJ) == X_)))), patterns=[S.live(X_)]))]
        else: r.append(("nothing of the caller ends", z3.ForAll([X_], z3.Implies(c.S0.live(X_), S.live(X_)), patterns=[S.live(X_), c.S0.live(X_)])))
        return r
    def pushed_upto(c, i):
        pu = z3.Select(c.S.g("pushed"), c.local("gthread_pool"))
        return [("exactly the caches so far are given to workers", z3.ForAll([JJ], z3.Select(pu, JJ) == z3.And(JJ >= 0, JJ < i), patterns=[z3.Select(pu, JJ)]))]
    def built(c, d, i):
        if multi: return []
        k = z3.Select(z3.Select(c.S.map(PK), c.S.f(c.local("params"), M + "caches")), JJ)
        return [("the caches so far are new caches of the given sizes", z3.ForAll([JJ], z3.Implies(z3.And(JJ >= 0, JJ < i), z3.And(z3.Select(c.S.g("ever"), k), cst(c.S, k) == CNEW(cst(c.S0, d.cache), SZ(c.S0, d, JJ)))), patterns=[k])),
                ("states of the caller's caches", z3.ForAll([X_], z3.Implies(c.S0.live(X_), cst(c.S, X_) == cst(c.S0, X_)), patterns=[cst(c.S, X_)]))]
    def l_sizes(c):
        d = D(c); res = c.local("result"); i = z3.SignExt(32, c.local("i"))
        return inv_common(c) + zeros(c, res, d) + sizes_done(c, d, res, i) + others_same(c) + alive(c, d, z3.BitVecVal(0, 64)) + pushed_upto(c, z3.BitVecVal(0, 64)) + [("index", z3.And(i >= 0, i <= d.n))]
    def l_push(c):
        d = D(c); res = c.local("result"); i = z3.SignExt(32, c.local("i"))
        return inv_common(c) + zeros(c, res, d) + sizes_done(c, d, res, d.n if multi else i - 1) + others_same(c) + alive(c, d, i - 1) + pushed_upto(c, i - 1) + built(c, d, i - 1) + [("index", z3.And(i >= 1, i <= d.n + 1))]
    def l_wait(c):
        d = D(c); res = c.local("result")
        return inv_common(c) + zeros(c, res, d) + sizes_done(c, d, res, d.n) + others_same(c) + alive(c, d, d.n) + pushed_upto(c, d.n) + built(c, d, d.n)
    def v_up(c): d = D(c); return d.n + 1 - z3.SignExt(32, c.local("i"))
    L = [l_sizes, l_push, l_wait] if multi else [l_push, l_wait]
    return Contract(fn, pre=pre, post=post, allocates=True, frees=True, modifies=["arr:i32", "arr:ptr", "cache.cache_size"] + STAT_MOD + [M + x for x in ("reader", "n_caches", "caches", "n_warmup_req", "warmup_reader", "warmup_sec", "result", "progress", "free_cache_when_finish")] + ["ghost:" + g for g in ("live", "cst", "pool", "pushed", "joined", "minit", "acnt")],
        loops={fn: {i: dict(inv=l, **({} if l is l_wait else {"variant": v_up})) for i, l in enumerate(L)}})
def x_lock(ex, S, args, rty, ins):
    ex.prove(S, S.g("lock") == NULL, "the lock is not held when it is taken", ins.line); S.ghost["lock"] = addr_term(args[0]); return [(S, None)]
def x_unlock(ex, S, args, rty, ins):
    ex.prove(S, S.g("lock") == addr_term(args[0]), "the lock is held when it is released", ins.line); S.ghost["lock"] = NULL; return [(S, None)]
def x_strncpy(ex, S, args, rty, ins):
    ex.prove(S, z3.ULE(args[2], z3.BitVecVal(64, 64)), "memory safety: the name stays within its array", ins.line)
    return [(S, args[0])]
def x_ceil(ex, S, args, rty, ins): return [(S, ex.uf("ceil", FltS, args[0]))]
def c_step():
    """the sizes are the multiples of the step up to the size of the cache"""
    fn = "simulate_at_multi_sizes_with_step_size"; SZK = ("arr", ((0, "i64"),), 0, "i64")
    def N(c, S): return c.ex.uf("fptosi32", BV32, c.ex.uf("ceil", FltS, c.ex.uf("fdiv", FltS, c.ex.uf("sitofp64", FltS, S.f(c[1], "cache.cache_size")), c.ex.uf("uitofp64", FltS, c[2]))))
    def size(c, j): return c.ex.uf("mul64", BV64, c[2], z3.SignExt(32, z3.Extract(31, 0, j) + 1))
    def pre(c):
        S, n = c.S, N(c, c.S)
        return [("assumed: between one and 2^30 sizes", z3.And(n > 0, n < 1 << 30)), ("arguments live", z3.And(c[0] != NULL, S.live(c[0]), c[1] != NULL, S.live(c[1]), c[0] != c[1], c[1] != c[3], z3.Implies(c[3] != NULL, S.live(c[3]))))]
    def post(c):
        S, n = c.S, z3.SignExt(32, N(c, c.S0)); T, TW = T_(c.S0, c[0]), T_(c.S0, c[3]); nw = nwarm(c.ex, T, c[4], None); has = c[3] != NULL
        inr = z3.And(JJ >= 0, JJ < n); st = CNEW(cst(c.S0, c[1]), size(c, JJ)); ws = z3.SignExt(32, c[5])
        r = [("a new result array", z3.And(c.ret != NULL, S.live(c.ret), z3.Not(c.S0.live(c.ret))))]
        for f in WF: r.append(("every multiple of the step is simulated on its own: " + f, z3.ForAll([JJ], z3.Implies(inr, R_(c.ex, S, c.ret, JJ, f) == SIMF[f](T, has, z3.If(has, TW, T), nw, ws, st)), patterns=[R_(c.ex, S, c.ret, JJ, f)])))
        return r + [("every result carries its multiple of the step", z3.ForAll([JJ], z3.Implies(inr, R_(c.ex, S, c.ret, JJ, "cache_size") == size(c, JJ)), patterns=[R_(c.ex, S, c.ret, JJ, "cache_size")]))]
    def inv(c):
        S = c.S; a, i, n = c.local("cache_sizes"), z3.SignExt(32, c.local("i")), c.local("num_of_sizes"); e = z3.Select(z3.Select(S.map(SZK), a), JJ)
        return [("number of sizes", n == N(c, c.S0)), ("index", z3.And(i >= 0, i <= z3.SignExt(32, n))), ("own array", z3.And(S.live(a), a != NULL, z3.Not(c.S0.live(a)), z3.Select(S.g("acnt"), a) == z3.SignExt(32, n))),
                ("sizes so far", z3.ForAll([JJ], z3.Implies(z3.And(JJ >= 0, JJ < i), e == size(c, JJ)), patterns=[e])), ("states", S.g("cst") == c.S0.g("cst")), ("traces", S.g("tr") == c.S0.g("tr")),
                ("other objects", z3.ForAll([X_], S.live(X_) == z3.Or(c.S0.live(X_), X_ == a), patterns=[S.live(X_)]))]
    def var(c): return z3.SignExt(32, c.local("num_of_sizes")) - z3.SignExt(32, c.local("i"))
    base = c_driver("simulate_at_multi_sizes")
    return Contract(fn, pre=pre, post=post, allocates=True, frees=True, modifies=base.modifies + ["arr:i64"], loops={fn: {0: {"inv": inv, "variant": var}}})
EXT = {"llvm.ceil.f64": x_ceil, "g_mutex_lock": x_lock, "g_mutex_unlock": x_unlock, "strncpy": x_strncpy, "g_thread_pool_new": x_pool_new, "g_thread_pool_push": x_pool_push, "g_thread_pool_free": x_pool_free,
       "g_mutex_init": x_minit, "g_mutex_clear": x_mclear, "calloc": x_calloc, "llvm.memset.p0.i64": x_memset, "print_progress": x_progress}
def contracts():
    cs = [c_read(), c_clone(), c_newreq(), c_del("close_reader"), c_del("free_request"), c_seed(), c_get(), c_cfree(), c_simulate(), c_numreq(), c_newsize(), c_tostr(), c_driver("simulate_with_multi_caches"), c_driver("simulate_at_multi_sizes"), c_step()]
    return {c.fn: c for c in cs}
