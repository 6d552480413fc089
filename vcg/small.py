"""Contracts of the admission policies (C11), the trace samplers (C12) and the
approximate filters (C19)."""
import z3
from vcg.vcg import *
from vcg.ht import H
from vcg.lfu import _key, MAPS

BV32 = z3.BitVecSort(32)
B1 = z3.ArraySort(BV64, z3.BoolSort())
KeyS = z3.DeclareSort("Key")
GH = {"gmap": z3.ArraySort(PtrS, MAPS), "seen": z3.ArraySort(PtrS, B1), "keys": z3.ArraySort(PtrS, z3.ArraySort(KeyS, z3.BoolSort())),
      "cnt": z3.ArraySort(PtrS, z3.ArraySort(KeyS, BV32)), "alen": z3.ArraySort(PtrS, BV64), "gap": z3.ArraySort(PtrS, BV32)}
K64 = z3.Const("k", BV64); KK = z3.Const("kk", KeyS); IX = z3.Const("ix", BV32); XX = z3.Const("xx", BV32)
CONF = z3.Function("CONF", PtrS, PtrS)                 # text a string pointer refers to (by value)

def uf(name, *a): return z3.Function(name, *([x.sort() for x in a] + [a[0].sort()]))(*a)
def urem_axioms(w):
    a, b = z3.Consts("ua ub", z3.BitVecSort(w)); f = uf("urem%d" % w, a, b)
    return [z3.ForAll([a, b], z3.Implies(b != 0, z3.ULT(f, b)), patterns=[f])]

# ------------------------------------------------------------------ admission
def params(c): return c.S.f(c[0], "admissioner.params")
def adm_pre(c): return [("policy and request live", z3.And(c.S.live(c[0]), c.S.live(c[1]), c.S.live(params(c)), params(c) != c[0]))]

def c_size_admit():
    def post(c): return [("admits exactly the sizes below the threshold", c.ret == (c.S0.f(c[1], "request.obj_size") < c.S0.f(c.S0.f(c[0], "admissioner.params"), "size_admissioner.size_threshold")))]
    return Contract("size_admit", pre=adm_pre, post=post)

def c_prob_admit():
    def post(c):
        n = z3.SignExt(32, c.S0.f(c.S0.f(c[0], "admissioner.params"), "prob_admissioner.admission_probability_int"))
        d = z3.Const("the_draw", BV64); m = uf("urem64", d, z3.BitVecVal(10000000, 64))
        return [("admits exactly if the draw is below the share", z3.Implies(n >= 0, c.ret == z3.ULT(m, n))),
                ("probability one always admits", z3.Implies(n == 10000000, c.ret)), ("share zero never admits", z3.Implies(n == 0, z3.Not(c.ret)))]
    return Contract("prob_admit", pre=adm_pre, post=post)
def x_rand(ex, S, args, rty, ins): return [(S, z3.Const("the_draw", BV64))]

def bf_table(S, a): return S.f(S.f(a, "admissioner.params"), "bloomfilter_admission.seen_times")
def bf_inv(S, a):
    t = bf_table(S, a); m = z3.Select(S.g("gmap"), t); sn = z3.Select(S.g("seen"), t); v = z3.Select(m, K64)
    return [("the table holds a positive count for exactly the ids requested before", z3.ForAll([K64], z3.And((v != NULL) == z3.Select(sn, K64), z3.Implies(v != NULL, p2i(v) > 0)), patterns=[v, z3.Select(sn, K64)])),
            ("table live", z3.And(t != NULL, S.live(t)))]
def c_bf_admit():
    def few(c):
        v = z3.Select(z3.Select(c.S.g("gmap"), bf_table(c.S, c[0])), K64)
        return [("assumed: fewer than 2^31 - 1 requests for one object", z3.ForAll([K64], z3.And(p2i(v) >= 0, p2i(v) < (1 << 31) - 1), patterns=[v]))]
    def post(c):
        t = bf_table(c.S0, c[0]); i = c.S0.f(c[1], "request.obj_id")
        return [("admits exactly if the id was requested before", c.ret == z3.Select(z3.Select(c.S0.g("seen"), t), i))] + bf_inv(c.S, c[0])
    def g(c):
        t = bf_table(c.S0, c[0]); s = z3.Select(c.S0.g("seen"), t)
        return z3.Store(c.S0.g("seen"), t, z3.Store(s, c.S0.f(c[1], "request.obj_id"), True))
    return Contract("bloomfilter_admit", pre=lambda c: adm_pre(c) + bf_inv(c.S, c[0]), post=post, ghost_post={"seen": g}, modifies=["ghost:gmap"], extra_assume=few)
def x_lookup(ex, S, args, rty, ins):
    return [(S, Ptr(z3.Select(z3.Select(S.g("gmap"), addr_term(args[0])), _key(args[1]))))]
def x_insert(ex, S, args, rty, ins):
    t = addr_term(args[0]); m = z3.Select(S.g("gmap"), t)
    S.ghost["gmap"] = ex.named(S, "gmap", z3.Store(S.g("gmap"), t, z3.Store(m, _key(args[1]), addr_term(args[2]))))
    return [(S, fresh("inserted", BV32))]
def x_hnew(ex, S, args, rty, ins):
    for i, f in enumerate(("g_direct_hash", "g_direct_equal")):
        ex.prove(S, addr_term(args[i]) == S.fn(f), "the id table compares ids by value", ins.line)
    p = ex.alloc(S, "htab")
    S.ghost["gmap"] = z3.Store(S.g("gmap"), p, z3.K(BV64, NULL)); S.ghost["seen"] = z3.Store(S.g("seen"), p, z3.K(BV64, z3.BoolVal(False)))
    return [(S, Ptr(p))]
def x_strdup(ex, S, args, rty, ins):
    p = ex.alloc(S, "strdup"); S.assume(CONF(p) == CONF(args[0].base)); return [(S, Ptr(p))]

# value the parameter text denotes (parsing of the text: trusted, exercised by the executable contracts)
P_SIZE = z3.Function("PARSED_size", PtrS, BV64); P_PROB = z3.Function("PARSED_prob", PtrS, BV32)
CONFN = lambda p: z3.If(p == NULL, NULL, CONF(p))
def c_parse(fn, field, F):
    def post(c): return [("configured value", c.S.f(c[1], field) == F(CONFN(c[0])))]
    con = Contract(fn, pre=lambda c: [("parameters live", c.S.live(c[1]))], post=post, trusted=True, note="parsing of the parameter text")
    def effect(c):
        k = c.ex.key(field); c.S.setmap(k, z3.Store(c.S.map(k), c[1], fresh("parsed", c.S.map(k).sort().range())))
        if field.startswith("prob"):
            k = c.ex.key("prob_admissioner.admission_probability"); c.S.setmap(k, z3.Store(c.S.map(k), c[1], fresh("parsed", FltS)))
    con.effect = effect
    return con
OPS = lambda n: {"admit": "%s_admit" % n, "free": "free_%s_admissioner" % n, "clone": "clone_%s_admissioner" % n}
def adm_made(c, n, a, conf):
    S = c.S; p = S.f(a, "admissioner.params"); r = [("fresh policy", z3.And(a != NULL, z3.Not(c.S0.live(a)), S.live(a), p != NULL, S.live(p), z3.Not(c.S0.live(p)), p != a)),
        ("operations", z3.And(*[S.f(a, "admissioner." + k) == S.fn(v) for k, v in OPS(n).items()]))]
    if n == "size": r.append(("configured as told", S.f(p, "size_admissioner.size_threshold") == P_SIZE(conf)))
    if n == "prob": r.append(("configured as told", S.f(p, "prob_admissioner.admission_probability_int") == P_PROB(conf)))
    if n == "bloomfilter":
        t = bf_table(S, a)
        r += bf_inv(S, a) + [("starts empty and shares nothing", z3.And(z3.Not(c.S0.live(t)), z3.Select(S.g("seen"), t) == z3.K(BV64, z3.BoolVal(False))))]
    else:
        q = S.f(a, "admissioner.init_params")
        r.append(("keeps its configuration", CONFN(q) == conf))
    return r
AMODS = {"size": ["size_admissioner.size_threshold"], "prob": ["prob_admissioner.admission_probability", "prob_admissioner.admission_probability_int"], "bloomfilter": ["ghost:gmap", "ghost:seen"]}
def c_adm_create(n):
    def pre(c): return [("no parameters for the bloom filter policy", c[0] == NULL)] if n == "bloomfilter" else []
    con = Contract("create_%s_admissioner" % n, pre=pre, post=lambda c: adm_made(c, n, c.ret, CONFN(c[0])), allocates=True,
                   modifies=AMODS[n] + ["ghost:live"] + ["admissioner." + f for f in ("params", "admit", "free", "clone", "init_params")] + (["bloomfilter_admission.seen_times"] if n == "bloomfilter" else []))
    return con
def c_adm_clone(n):
    def conf(c): return CONFN(c.S0.f(c[0], "admissioner.init_params"))
    def pre(c):
        r = [("policy live", c.S.live(c[0]))]
        if n == "bloomfilter": r.append(("no parameters for the bloom filter policy", c.S.f(c[0], "admissioner.init_params") == NULL))
        return r
    con = c_adm_create(n)
    return Contract("clone_%s_admissioner" % n, pre=pre, post=lambda c: adm_made(c, n, c.ret, conf(c)), allocates=True, modifies=con.modifies)

# ------------------------------------------------------------------ samplers
SF = ("sample", "sampling_ratio_inv", "sampling_ratio", "other_params", "clone", "free", "type")
def c_spatial():
    def pre(c):
        S = c.S; hv = S.f(c[1], "request.hv")
        return [("sampler and request live", z3.And(S.live(c[0]), S.live(c[1]))), ("interval of the ratio", S.f(c[0], "sampler.sampling_ratio_inv") > 0),
                ("a cached hash is the hash of this id", z3.Or(hv == 0, hv == H(S.f(c[1], "request.obj_id"))))]
    def post(c):
        h = H(c.S0.f(c[1], "request.obj_id")); k = z3.SignExt(32, c.S0.f(c[0], "sampler.sampling_ratio_inv"))
        hv = c.S.f(c[1], "request.hv")
        return [("keeps exactly the ids whose hash is a multiple of the interval", c.ret == (uf("urem64", h, k) == 0)),
                ("a cached hash is the hash of this id", z3.Or(hv == 0, hv == h)), ("only the cached hash of this request is written", c.S.m("request.hv") == z3.Store(c.S0.m("request.hv"), c[1], hv))]
    return Contract("spatial_sample", pre=pre, post=post, modifies=["request.hv"])
def x_hash(ex, S, args, rty, ins):
    from vcg.ht import Ty_i64
    v = ex.load(S, args[0], Ty_i64(), line=ins.line); ex.prove(S, args[1] == 8, "the hash covers the 8 bytes of the id", ins.line)
    return [(S, H(v))]
NSAMP = "temporal_sampler_params.n_samples"
def t_inv(S, s):
    p = S.f(s, "sampler.other_params"); k = S.f(s, "sampler.sampling_ratio_inv"); g = z3.Select(S.g("gap"), s)
    return [("sampler state", z3.And(S.live(s), S.live(p), p != s)), ("requests since the last kept one", z3.And(k > 0, S.f(p, NSAMP) == g, g >= 0, g < k))]
def c_temporal():
    def post(c):
        k = c.S0.f(c[0], "sampler.sampling_ratio_inv"); g = z3.Select(c.S0.g("gap"), c[0]); p = c.S0.f(c[0], "sampler.other_params")
        return [("keeps exactly the k-th request after the last kept one", c.ret == (g + 1 == k))] + t_inv(c.S, c[0]) + [
            ("only this sampler's count changes", c.S.m(NSAMP) == z3.Store(c.S0.m(NSAMP), p, c.S.f(p, NSAMP)))]
    def gp(c):
        g = z3.Select(c.S0.g("gap"), c[0]); return z3.Store(c.S0.g("gap"), c[0], z3.If(c.ret, z3.BitVecVal(0, 32), g + 1))
    return Contract("temporal_sample", pre=lambda c: t_inv(c.S, c[0]) + [("request live", c.S.live(c[1]))], post=post, modifies=[NSAMP], ghost_post={"gap": gp})
def same_sampler(c, but=()):
    return [("the clone is fresh and has the same configuration", z3.And(c.ret != NULL, z3.Not(c.S0.live(c.ret)), c.S.live(c.ret), *[c.S.f(c.ret, "sampler." + f) == c.S0.f(c[0], "sampler." + f) for f in SF if f not in but]))]
def c_clone_spatial():
    return Contract("clone_spatial_sampler", pre=lambda c: [("live", c.S.live(c[0]))], post=same_sampler, allocates=True)
def c_clone_temporal():
    def post(c):
        p = c.S.f(c.ret, "sampler.other_params")
        return same_sampler(c, ("other_params",)) + [("the clone counts on its own", z3.And(c.S.live(p), z3.Not(c.S0.live(p)), p != c.ret))] + t_inv(c.S, c.ret)
    return Contract("clone_temporal_sampler", pre=lambda c: t_inv(c.S, c[0]), post=post, allocates=True, ghost_post={"gap": lambda c: z3.Store(c.S0.g("gap"), c.ret, z3.BitVecVal(0, 32))})
def c_create(kind):
    fn = "create_%s_sampler" % kind
    def pre(c): return [("ratio in (0, 0.5]", z3.And(z3.Not(FNAN(c[0])), FVAL(c[0]) > 0, FVAL(c[0]) <= z3.Q(1, 2)))]
    def post(c):
        S = c.S; one = c.ex.fconst("1.000000e+00"); inv = z3.Function("fptosi32", FltS, BV32)(z3.Function("fdiv", FltS, FltS, FltS)(one, c[0]))
        r = [("fresh sampler", z3.And(c.ret != NULL, z3.Not(c.S0.live(c.ret)), S.live(c.ret))), ("interval is the integer part of 1/ratio", S.f(c.ret, "sampler.sampling_ratio_inv") == inv),
             ("operations", z3.And(S.f(c.ret, "sampler.sample") == S.fn(kind + "_sample"), S.f(c.ret, "sampler.clone") == S.fn("clone_%s_sampler" % kind), S.f(c.ret, "sampler.free") == S.fn("free_%s_sampler" % kind))),
             ("ratio kept", S.f(c.ret, "sampler.sampling_ratio") == c[0])]
        if kind == "temporal":
            p = S.f(c.ret, "sampler.other_params")
            r.append(("counts from zero", z3.And(S.live(p), z3.Not(c.S0.live(p)), p != c.ret, S.f(p, NSAMP) == 0)))
        return r
    return Contract(fn, pre=pre, post=post, allocates=True)

# ------------------------------------------------------------------ filters
HX = z3.Function("XXH64", KeyS, BV64, BV64)
KEYF = z3.Function("BYTES", PtrS, BV64, KeyS)
IDXF = z3.Function("IDX", KeyS, BV32, BV32, BV32)      # i-th position of a key among n
MARKI = z3.Function("MARKI", BV32, z3.BoolSort())      # always true; names a term for the triggers
S0v, S1v = z3.BitVecVal(305419896, 64), z3.BitVecVal(305414945, 64)
def idx_raw(k, i, n):
    a, b = z3.Extract(31, 0, HX(k, S0v)), z3.Extract(31, 0, HX(k, S1v))
    return uf("urem32", a + uf("mul32", i, b), n)
def filter_axioms():
    n = z3.Const("nn", BV32); a, b = z3.Consts("ma mb", BV32)
    return urem_axioms(32) + [z3.ForAll([n], MARKI(n), patterns=[MARKI(n)]), z3.ForAll([KK, IX, n], IDXF(KK, IX, n) == idx_raw(KK, IX, n), patterns=[IDXF(KK, IX, n)]),
            z3.ForAll([a, b], uf("mul32", a, b) == uf("mul32", b, a), patterns=[uf("mul32", a, b)])]
def x_xxh(ex, S, args, rty, ins):
    ex.deref_check(S, args[0], "hashed bytes", ins.line)
    return [(S, HX(KEYF(addr_term(args[0]), args[1]), args[2]))]
def key_of(c): return KEYF(c[1], z3.SignExt(32, c[2]))

class BV:
    def __init__(s, S, b):
        s.S, s.b = S, b; s.bf = S.f(b, "bloom.bf"); s.bits = S.f(b, "bloom.bits"); s.hashes = S.f(b, "bloom.hashes"); s.row = z3.Select(S.m("arr:i8"), s.bf)
        s.set = z3.Select(S.g("keys"), b)
    def bit(s, x):
        return z3.Extract(0, 0, z3.LShR(z3.Select(s.row, z3.ZeroExt(32, z3.LShR(x, 3))), z3.ZeroExt(5, z3.Extract(2, 0, x)))) == 1
    def idx(s, k, i): return IDXF(k, i, s.bits)
def b_shape(V):
    S = V.S
    return [("filter live", z3.And(V.b != NULL, S.live(V.b), S.f(V.b, "bloom.ready") != 0)), ("array holds all bits", z3.And(V.bf != NULL, S.live(V.bf), V.bf != V.b, V.bits > 0, V.hashes > 0,
             z3.ULE(z3.ZeroExt(32, V.bits), 8 * z3.Select(S.g("alen"), V.bf)), z3.ULT(z3.Select(S.g("alen"), V.bf), 1 << 32)))]
def b_keys(V): return [("every bit of every added key is set", z3.ForAll([KK, IX], z3.Implies(z3.And(z3.Select(V.set, KK), z3.ULT(IX, V.hashes)), V.bit(V.idx(KK, IX))), patterns=[z3.MultiPattern(z3.Select(V.set, KK), V.idx(KK, IX))]))]
def b_inv(S, b): V = BV(S, b); return b_shape(V) + b_keys(V)
def mono(V0, V1): return ("no bit is cleared", z3.ForAll([XX], z3.Implies(V0.bit(XX), V1.bit(XX))))
def c_bloom():
    fn = "bloom_check_add"
    def pre(c): return b_inv(c.S, c[0]) + [("key live, not the filter's memory", z3.And(c.S.live(c[1]), c[1] != c[0], c[1] != BV(c.S, c[0]).bf))]
    def inv(c):
        V0, V = BV(c.S0, c[0]), BV(c.S, c[0]); i = c.local("i"); h = c.local("hits"); k = key_of(c); add = c[3]
        raw = V0.row; now = V.row; J = z3.Const("by", BV64)
        return b_shape(V) + b_keys(V) + [("cursor", z3.And(z3.ULE(i, V.hashes), z3.ULE(h, i), z3.Implies(z3.Or(add == 0, z3.Select(V0.set, k)), h == i), MARKI(V.idx(k, i)))),
            ("hashes of this key", z3.And(c.local("a") == z3.Extract(31, 0, HX(k, S0v)), c.local("b") == z3.Extract(31, 0, HX(k, S1v)))),
            ("the key's bits so far are set", z3.ForAll([IX], z3.Implies(z3.And(z3.ULT(IX, i), z3.Or(add != 0, h == i)), V.bit(V.idx(k, IX))), patterns=[V.idx(k, IX)])),
            ("no bit is cleared", z3.ForAll([J], (z3.Select(raw, J) & ~z3.Select(now, J)) == 0, patterns=[z3.Select(now, J)])),
            ("other arrays unchanged", c.S.m("arr:i8") == z3.Store(c.S0.m("arr:i8"), V0.bf, now)),
            ("checking changes nothing", z3.Implies(add == 0, now == raw))]
    def post(c):
        V0, V = BV(c.S0, c[0]), BV(c.S, c[0]); k = key_of(c)
        return b_inv(c.S, c[0]) + [("a key added before is reported present", z3.Implies(z3.Select(V0.set, k), c.ret == 1)), ("answer is yes or no", z3.Or(c.ret == 0, c.ret == 1)),
            ("checking changes nothing", z3.Implies(c[3] == 0, V.row == V0.row)), ("other arrays unchanged", c.S.m("arr:i8") == z3.Store(c.S0.m("arr:i8"), V0.bf, V.row))]
    def gp(c):
        V0 = BV(c.S0, c[0]); return z3.If(c[3] != 0, z3.Store(c.S0.g("keys"), c[0], z3.Store(V0.set, key_of(c), True)), c.S0.g("keys"))
    return Contract(fn, pre=pre, post=post, modifies=["arr:i8"], ghost_post={"keys": gp}, loops={fn: {0: {"inv": inv, "variant": lambda c: BV(c.S, c[0]).hashes - c.local("i")}}})
def c_bloom_api(name, add):
    base = c_bloom()
    def post(c):
        V0, V = BV(c.S0, c[0]), BV(c.S, c[0]); k = key_of(c)
        r = b_inv(c.S, c[0]) + [("a key added before is reported present", z3.Implies(z3.Select(V0.set, k), c.ret == 1)), ("answer is yes or no", z3.Or(c.ret == 0, c.ret == 1))]
        return r
    gp = {"keys": lambda c: z3.Store(c.S0.g("keys"), c[0], z3.Store(BV(c.S0, c[0]).set, key_of(c), True))} if add else {}
    return Contract(name, pre=base.pre, post=post, modifies=["arr:i8"] , ghost_post=gp)
def c_bloom_init():
    def post(c):
        V = BV(c.S, c[0]); ok = c.ret == 0
        return [("usable and empty", z3.Implies(z3.And(ok, V.bits > 0, V.hashes > 0), z3.And(*[f for _, f in b_inv(c.S, c[0])], V.set == z3.K(KeyS, z3.BoolVal(False))))),
                ("too small or exact filters are refused", z3.Implies(c[1] < 1000, z3.Not(ok)))]
    return Contract("bloom_init", pre=lambda c: [("filter live", c.S.live(c[0]))], post=post, allocates=True,
        modifies=["bloom." + f for f in ("entries", "error", "bits", "bytes", "hashes", "bpe", "bf", "ready")] + ["ghost:alen"], ghost_post={"keys": lambda c: z3.Store(c.S0.g("keys"), c[0], z3.K(KeyS, z3.BoolVal(False)))})
def x_calloc(ex, S, args, rty, ins):
    p = ex.alloc(S, "calloc", zero=True); n = args[0]
    for a in args:
        if z3.is_bv_value(a) and a.as_long() in (1, 4): n = [b for b in args if b is not a][0]
    S.ghost["alen"] = z3.Store(S.g("alen"), p, n)
    return [(S, Ptr(p))]
def x_fl1(nm): return lambda ex, S, args, rty, ins: [(S, ex.uf(nm, FltS, *args))]
def bounds(ex, S, p, line):
    if p.root == "arr" and p.dims in (((0, "i8"),), ((0, "i32"),)):
        ex.prove(S, z3.ULT(p.idx[0], z3.Select(S.g("alen"), p.base)), "memory safety: filter index within the array", line)

F = "minimalIncrementCBF."
class CB:
    def __init__(s, S, b):
        s.S, s.b = S, b; s.bf = S.f(b, F + "bf"); s.n = S.f(b, F + "counter_num"); s.hashes = S.f(b, F + "hashes"); s.row = z3.Select(S.m("arr:i32"), s.bf); s.cnt = z3.Select(S.g("cnt"), b)
    def at(s, x): return z3.Select(s.row, z3.ZeroExt(32, x))
    def idx(s, k, i): return IDXF(k, i, s.n)
LIMC = (1 << 31) - 4096
def cb_shape(V):
    S = V.S
    return [("filter live", z3.And(V.b != NULL, S.live(V.b), S.f(V.b, F + "ready") != 0)), ("array of counters", z3.And(V.bf != NULL, S.live(V.bf), V.bf != V.b, V.n > 0, V.hashes > 0, V.hashes <= 2048, z3.Select(S.g("alen"), V.bf) == z3.ZeroExt(32, V.n)))]
def cb_cnt(V, cnt=None):
    cnt = V.cnt if cnt is None else cnt
    return [("no counter of a key is below its number of additions", z3.ForAll([KK, IX], z3.Implies(z3.ULT(IX, V.hashes), z3.ULE(z3.Select(cnt, KK), V.at(V.idx(KK, IX)))), patterns=[V.idx(KK, IX)]))]
def cb_inv(S, b): V = CB(S, b); return cb_shape(V) + cb_cnt(V)
def small_counters(c):
    V = CB(c.S, c[0]); J = z3.Const("cj", BV64)
    return [("assumed: all counters are below 2^31 - 4096", z3.ForAll([J], z3.ULT(z3.Select(V.row, J), LIMC), patterns=[z3.Select(V.row, J)]))]
def c_cbf():
    fn = "minimalIncrementCBF_check_add"; J = z3.Const("cj", BV64)
    def pre(c): return cb_inv(c.S, c[0]) + [("key live, not the filter's memory", z3.And(c.S.live(c[1]), c[1] != c[0], c[1] != CB(c.S, c[0]).bf)), ("mode", z3.Or(c[3] == 0, c[3] == 1) if len(c.args) > 3 else z3.BoolVal(True))]
    def common(c):
        V0, V = CB(c.S0, c[0]), CB(c.S, c[0]); i = c.local("i"); k = key_of(c); m = c.local("min_count")
        return V0, V, i, k, m, cb_shape(V) + [("cursor", z3.And(z3.ULE(i, V.hashes), MARKI(V.idx(k, i)))),
            ("hashes of this key", z3.And(c.local("a") == z3.Extract(31, 0, HX(k, S0v)), c.local("b") == z3.Extract(31, 0, HX(k, S1v))))]
    def inv1(c):
        V0, V, i, k, m, r = common(c)
        return r + [("minimum so far", z3.And(z3.UGE(m, z3.Select(V0.cnt, k)), z3.Or(i == 0, z3.ULT(m, LIMC)), z3.Implies(i == 0, m == 0xffffffff))),
                    ("nothing written yet", V.row == V0.row)]
    def inv2(c):
        V0, V, i, k, m, r = common(c)
        return r + [("minimum is not below the count", z3.And(z3.UGE(m, z3.Select(V0.cnt, k)), z3.ULT(m, LIMC))),
            ("the key's counters so far have grown", z3.ForAll([IX], z3.Implies(z3.ULT(IX, i), z3.ULT(V0.at(V.idx(k, IX)), V.at(V.idx(k, IX)))), patterns=[V.idx(k, IX)])),
            ("counters only grow, by at most one per step", z3.ForAll([J], z3.And(z3.ULE(z3.Select(V0.row, J), z3.Select(V.row, J)), z3.ULE(z3.Select(V.row, J) - z3.Select(V0.row, J), i)), patterns=[z3.Select(V.row, J)])),
            ("other arrays unchanged", c.S.m("arr:i32") == z3.Store(c.S0.m("arr:i32"), V0.bf, V.row))]
    def post(c):
        V0, V = CB(c.S0, c[0]), CB(c.S, c[0]); k = key_of(c)
        return cb_inv(c.S, c[0]) + [("the estimate is not below the number of additions", c.ret >= z3.Select(V.cnt, k)), ("checking changes nothing", z3.Implies(c[3] == 0, V.row == V0.row)),
            ("other arrays unchanged", c.S.m("arr:i32") == z3.Store(c.S0.m("arr:i32"), V0.bf, V.row))]
    def gp(c):
        V0 = CB(c.S0, c[0]); k = key_of(c); return z3.If(c[3] == 1, z3.Store(c.S0.g("cnt"), c[0], z3.Store(V0.cnt, k, z3.Select(V0.cnt, k) + 1)), c.S0.g("cnt"))
    var = lambda c: CB(c.S, c[0]).hashes - c.local("i")
    return Contract(fn, pre=pre, post=post, modifies=["arr:i32"], ghost_post={"cnt": gp}, extra_assume=small_counters, loops={fn: {0: {"inv": inv1, "variant": var}, 1: {"inv": inv2, "variant": var}}})
def c_cbf_api(name, add):
    base = c_cbf()
    def post(c):
        V = CB(c.S, c[0]); return cb_inv(c.S, c[0]) + [("the estimate is not below the number of additions", c.ret >= z3.Select(V.cnt, key_of(c)))]
    def gp(c):
        V0 = CB(c.S0, c[0]); k = key_of(c); return z3.Store(c.S0.g("cnt"), c[0], z3.Store(V0.cnt, k, z3.Select(V0.cnt, k) + 1))
    return Contract(name, pre=base.pre, post=post, modifies=["arr:i32"], ghost_post={"cnt": gp} if add else {})
def c_decay():
    fn = "minimalIncrementCBF_decay"; J = z3.Const("cj", BV64)
    b = z3.Const("arg_CBF", PtrS)
    def inv(c):
        V0, V = CB(c.S0, b), CB(c.S, b); i = c.local("i")
        return cb_shape(V) + [("cursor", z3.And(i >= 0, i <= V.n)), ("counters before the cursor are halved, the others unchanged", z3.ForAll([J], z3.Select(V.row, J) == z3.If(z3.ULT(J, z3.ZeroExt(32, i)), z3.LShR(z3.Select(V0.row, J), 1), z3.Select(V0.row, J)), patterns=[z3.Select(V.row, J)])),
            ("other arrays unchanged", c.S.m("arr:i32") == z3.Store(c.S0.m("arr:i32"), V0.bf, V.row))]
    def post(c): return cb_inv(c.S, c[0]) + [("success", c.ret == 0)]
    def halved(c):
        n = fresh("g_half", z3.ArraySort(KeyS, BV32)); V0 = CB(c.S0, c[0])
        c.S.assume(z3.ForAll([KK], z3.ULE(z3.Select(n, KK), z3.LShR(z3.Select(V0.cnt, KK), 1)), patterns=[z3.Select(n, KK)]))
        c.S.assume(z3.ForAll([KK], z3.UGE(z3.Select(n, KK), z3.LShR(z3.Select(V0.cnt, KK), 1)), patterns=[z3.Select(n, KK)]))
        return z3.Store(c.S0.g("cnt"), c[0], n)
    return Contract(fn, pre=lambda c: cb_inv(c.S, c[0]), post=post, modifies=["arr:i32"], ghost_post={"cnt": halved}, loops={fn: {0: {"inv": inv, "variant": lambda c: CB(c.S, b).n - c.local("i")}}})

EXT = {"next_rand": x_rand, "g_hash_table_lookup": x_lookup, "g_hash_table_insert": x_insert, "g_hash_table_new": x_hnew, "strdup": x_strdup, "XXH_INLINE_XXH3_64bits": x_hash,
       "XXH_INLINE_XXH64": x_xxh, "calloc": x_calloc, "log": x_fl1("log"), "ceil": x_fl1("ceil"), "fmin": x_fl1("fmin"), "llvm.ceil.f64": x_fl1("ceil"), "llvm.fmin.f64": x_fl1("fmin")}
def axioms(): return urem_axioms(64) + filter_axioms() + [p2i(i2p(z3.BitVecVal(1, 64))) == 1]
A, T = "cache/admission/", "traceReader/sampling/"
BL, CBF = "dataStructure/bloom.c", "dataStructure/minimalIncrementCBF.c"
def table():
    t = [("C11", A + "size.c", c_size_admit()), ("C11", A + "prob.c", c_prob_admit()), ("C11", A + "bloomfilter.c", c_bf_admit())]
    for n in ("size", "prob", "bloomfilter"):
        t += [("C11", A + n + ".c", c_adm_create(n)), ("C11", A + n + ".c", c_adm_clone(n))]
    t += [("C12", T + "spatial.c", c_spatial()), ("C12", T + "temporal.c", c_temporal()), ("C12", T + "spatial.c", c_clone_spatial()), ("C12", T + "temporal.c", c_clone_temporal()),
          ("C12", T + "spatial.c", c_create("spatial")), ("C12", T + "temporal.c", c_create("temporal"))]
    t += [("C19", BL, c_bloom()), ("C19", BL, c_bloom_api("bloom_check", 0)), ("C19", BL, c_bloom_api("bloom_add", 1)), ("C19", BL, c_bloom_init()),
          ("C19", CBF, c_cbf()), ("C19", CBF, c_cbf_api("minimalIncrementCBF_estimate", 0)), ("C19", CBF, c_cbf_api("minimalIncrementCBF_add", 1)), ("C19", CBF, c_decay())]
    return t
def contracts():
    d = {c.fn: c for _, _, c in table()}
    d["size_admissioner_parse_params"] = c_parse("size_admissioner_parse_params", "size_admissioner.size_threshold", P_SIZE)
    d["prob_admissioner_parse_params"] = c_parse("prob_admissioner_parse_params", "prob_admissioner.admission_probability_int", P_PROB)
    return d
