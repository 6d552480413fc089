"""The chained hash table: representation invariant behind the abstract map of
core.py and contracts of the functions of chainedHashTableV2.c.

Per table array A there are two ghosts: ch[A], the objects chained from A, and
ck[A], a rank per object that decreases along hash_next.  bucket(x) is
XXH3(id(x)) & (2^hashpower-1) with XXH3 an uninterpreted function, so every
collision pattern is covered."""
import z3
from vcg.vcg import *
from vcg import core
from vcg.lists import X, Y
from vcg.core import HV, ID, SZ, CARD, NUM, HTMODS

H = z3.Function("XXH3_of_id", BV64, BV64)
I = z3.Const("bi", BV64)
ARR = "arr:ptr"; HN = "cache_obj.hash_next"
GH = {"ch": z3.ArraySort(PtrS, SetS), "ck": z3.ArraySort(PtrS, z3.ArraySort(PtrS, z3.IntSort())), "alen": z3.ArraySort(PtrS, BV64)}
MAXHP = 30
SWIT = z3.Function("SUBSETWIT", SetS, SetS, PtrS)

def axioms():
    a, b = z3.Const("sA", SetS), z3.Const("sB", SetS)
    w = SWIT(a, b)
    return [z3.ForAll([a, b], z3.Implies(z3.Implies(z3.Select(a, w), z3.Select(b, w)), NUM(a) <= NUM(b)), patterns=[SWIT(a, b)])]

class TV:
    """concrete view of table h; set/rank/array may be overridden"""
    def __init__(s, S, h, A=None, hp=None):
        s.S, s.h = S, h
        s.A = S.f(h, "hashtable.ptr_table") if A is None else A
        s.hp = S.f(h, "hashtable.hashpower") if hp is None else hp
        s.mask = (z3.BitVecVal(1, 64) << z3.ZeroExt(48, s.hp)) - 1
        s.ch = z3.Select(S.g("ch"), s.A); s.ck = z3.Select(S.g("ck"), s.A)
        s.row = z3.Select(S.m(ARR), s.A); s.nx = S.m(HN); s.idm = S.m(ID)
    def has(s, x): return z3.Select(s.ch, x)
    def rank(s, x): return z3.Select(s.ck, x)
    def T(s, i): return z3.Select(s.row, i)
    def next(s, x): return z3.Select(s.nx, x)
    def id(s, x): return z3.Select(s.idm, x)
    def bkt(s, x): return H(s.id(x)) & s.mask
    def b(s, i): return H(i) & s.mask

def chain(V, nm="chains"):
    pt = [V.has(X)]; S = V.S
    F = lambda b: z3.ForAll([X], z3.Implies(V.has(X), b), patterns=pt)
    F2 = lambda b: z3.ForAll([X, Y], z3.Implies(z3.And(V.has(X), V.has(Y), V.bkt(X) == V.bkt(Y)), b), patterns=[z3.MultiPattern(V.has(X), V.has(Y))])
    return [(nm + ": members are live objects", F(z3.And(X != NULL, S.live(X), V.rank(X) >= 0))),
            (nm + ": next stays in the bucket", F(z3.Or(V.next(X) == NULL, z3.And(V.has(V.next(X)), V.bkt(V.next(X)) == V.bkt(X), V.rank(V.next(X)) < V.rank(X))))),
            (nm + ": heads", z3.ForAll([I], z3.Implies(z3.ULE(I, V.mask), z3.Or(V.T(I) == NULL, z3.And(V.has(V.T(I)), V.bkt(V.T(I)) == I))), patterns=[V.T(I)])),
            (nm + ": every member hangs below its bucket's head", F(z3.And(V.T(V.bkt(X)) != NULL, V.rank(X) <= V.rank(V.T(V.bkt(X)))))),
            (nm + ": nothing between neighbours", F2(z3.Implies(V.rank(Y) < V.rank(X), z3.And(V.next(X) != NULL, V.rank(Y) <= V.rank(V.next(X)))))),
            (nm + ": ranks distinct in a bucket", F2(z3.Implies(V.rank(X) == V.rank(Y), X == Y)))]

def shape(S, h, A=None, hp=None):
    V = TV(S, h, A, hp)
    return [("table array live and large enough", z3.And(V.A != NULL, S.live(V.A), V.A != h, z3.Select(S.g("alen"), V.A) == V.mask + 1, z3.Not(V.has(V.A)), z3.Not(V.has(h)))),
            ("hash power in range", z3.ULE(V.hp, MAXHP))]

def rep(S, h):
    V = TV(S, h)
    return core.ht_inv(S, h) + shape(S, h) + chain(V) + [("chained objects are exactly the entries", V.ch == HV(S, h).ht),
        ("entry count is exact", S.f(h, "hashtable.n_obj") == CARD(HV(S, h).ht))]

def frames(c, extra=(), newarr=False):
    """other tables are untouched"""
    if c.caller: return []
    S, S0 = c.S, c.S0; h = c[0]; V0 = TV(S0, h); V1 = TV(S, h)
    x = X
    r = [("hash links of objects outside the table unchanged", z3.ForAll([x], z3.Implies(z3.And(S0.live(x), z3.Not(V0.has(x)), S.live(x), *[x != e for e in extra]), V1.next(x) == V0.next(x)), patterns=[V1.next(x)]))]
    m0, m1 = S0.m(ARR), S.m(ARR)
    r += [("arrays of other tables unchanged", z3.ForAll([x], z3.Implies(z3.And(S0.live(x), x != V0.A), z3.Select(m1, x) == z3.Select(m0, x)), patterns=[z3.Select(m1, x)]))]
    for f in ("ptr_table", "hashpower", "n_obj", "external_obj"):
        k0, k1 = S0.m("hashtable." + f), S.m("hashtable." + f)
        r += [("other tables unchanged: " + f, z3.ForAll([x], z3.Implies(z3.And(S0.live(x), x != h), z3.Select(k1, x) == z3.Select(k0, x)), patterns=[z3.Select(k1, x)]))]
    return r

ALLM = [HN, ARR, "hashtable.n_obj"]
def live_req(c): return [("request live", z3.And(c.S.live(c[1]), c[1] != TV(c.S, c[0]).A))]

def find_loop():
    def inv(c):
        V = TV(c.S, z3.Const("arg_hashtable", PtrS)); i = z3.Const("arg_obj_id", BV64) if c.frame["fn"].endswith("find_obj_id_v2") and c.frame["depth"] == 0 else c.args[1]
        Hh = HV(c.S, V.h); cur = c.local("cache_obj")
        return [("cursor in the bucket", z3.Or(cur == NULL, z3.And(V.has(cur), V.bkt(cur) == V.b(i)))),
                ("target not yet passed", z3.Implies(Hh.found(i), z3.And(cur != NULL, V.rank(Hh.at(i)) <= V.rank(cur))))]
    def var(c):
        V = TV(c.S, z3.Const("arg_hashtable", PtrS)); cur = c.local("cache_obj")
        return z3.If(cur == NULL, z3.IntVal(0), V.rank(cur) + 1)
    return {0: {"inv": inv, "variant": var}}

def strengthen(base, pre=None, post=None, mods=ALLM, loops=None, ghosts=None, **kw):
    """the abstract contract plus the hidden representation"""
    gp = dict(base.ghost_post)
    for k, v in (ghosts or {}).items(): gp[k] = v
    con = Contract(base.fn, pre=lambda c: base.pre(c) + (pre(c) if pre else rep(c.S, c[0])), post=lambda c: base.post(c) + (post(c) if post else rep(c.S, c[0])),
                   modifies=list(base.modifies) + list(mods), ghost_post=gp, allocates=base.allocates, frees=base.frees, loops=loops, **kw)
    return con

def upd(g, A, f): return z3.Store(g, A, f(z3.Select(g, A)))

def c_add():
    """add_to_bucket(h, o): o becomes the head of its bucket"""
    def pre(c):
        V = TV(c.S, c[0]); o = c[1]
        return [("table live", c.S.live(c[0]))] + shape(c.S, c[0]) + chain(V) + [("new object", z3.And(o != NULL, c.S.live(o), z3.Not(V.has(o)), o != V.A, o != c[0]))]
    def g_ch(c): V = TV(c.S0, c[0]); return upd(c.S0.g("ch"), V.A, lambda s: z3.Store(s, c[1], True))
    def g_ck(c):
        V = TV(c.S0, c[0]); hd = V.T(V.bkt(c[1]))
        return upd(c.S0.g("ck"), V.A, lambda s: z3.Store(s, c[1], z3.If(hd == NULL, z3.IntVal(0), z3.Select(s, hd) + 1)))
    def post(c):
        V0, V1 = TV(c.S0, c[0]), TV(c.S, c[0]); o = c[1]
        return shape(c.S, c[0]) + chain(V1) + [
            ("only the new object's link changes", c.S.m(HN) == z3.Store(c.S0.m(HN), o, V0.T(V0.bkt(o)))),
            ("only its bucket changes", c.S.m(ARR) == z3.Store(c.S0.m(ARR), V0.A, z3.Store(V0.row, V0.bkt(o), o)))]
    return Contract("add_to_bucket", pre=pre, post=post, modifies=[HN, ARR], ghost_post={"ch": g_ch, "ck": g_ck})

def c_find_id():
    return strengthen(core.c_find_id(), mods=[], loops={"chained_hashtable_find_obj_id_v2": find_loop()}, post=lambda c: rep(c.S, c[0]))
def c_find_req():
    return strengthen(core.c_find_req(), mods=[], pre=lambda c: rep(c.S, c[0]))
def c_find_obj():
    def post(c):
        Hh = HV(c.S, c[0]); i = c.S.f(c[1], ID)
        return [("lookup is exact", c.ret == z3.If(Hh.found(i), Hh.at(i), NULL))]
    return Contract("chained_hashtable_find_obj_v2", pre=lambda c: rep(c.S, c[0]) + [("object live", c.S.live(c[1]))], post=post)

def c_create_obj():
    def effect(c):
        o = c.ret; S, S0 = c.S, c.S0
        S.event(("zero", o))
        for path, val in ((ID, S0.f(c[0], "request.obj_id")), (SZ, z3.Extract(31, 0, S0.f(c[0], "request.obj_size")))):
            k = c.ex.key(path); S.setmap(k, z3.Store(S.map(k), o, val))
    def post(c):
        o, S, S0 = c.ret, c.S, c.S0
        r = [("new object is fresh", z3.And(o != NULL, z3.Not(S0.live(o)), z3.Not(z3.Select(S0.g("ever"), o)), S.live(o))),
             ("id and size copied from the request", z3.And(S.f(o, ID) == S0.f(c[0], "request.obj_id"), S.f(o, SZ) == z3.Extract(31, 0, S0.f(c[0], "request.obj_size")))) ]
        if not c.caller:
            r += core.zeroed(c, o, ("obj_id", "obj_size"))
        return r
    con = Contract("create_cache_obj_from_request", pre=lambda c: [("request live", c.S.live(c[0]))], post=post, allocates=True,
                   ghost_post={"ever": core.EVER, "live": core.LIVE1})
    con.effect = effect
    return con
def c_free_obj():
    return Contract("free_cache_obj", pre=lambda c: [("object live", c.S.live(c[0]))], frees=True,
                    ghost_post={"live": lambda c: z3.Store(c.S0.g("live"), c[0], False)})

def small(c): return [("assumed: fewer than 2^29 entries", z3.ULT(c.S.f(c[0], "hashtable.n_obj"), 1 << 29))]

def c_insert():
    b = core.c_insert()
    def g_ch(c):
        V = TV(c.S, c[0]); return upd(c.S.g("ch"), V.A, lambda s: z3.Store(s, c.ret, True))
    def g_ck(c):
        V = TV(c.S, c[0]); n = V.next(c.ret)
        return upd(c.S.g("ck"), V.A, lambda s: z3.Store(s, c.ret, z3.If(n == NULL, z3.IntVal(0), z3.Select(s, n) + 1)))
    con = strengthen(b, pre=lambda c: rep(c.S, c[0]) + live_req(c), post=lambda c: rep(c.S, c[0]) + frames(c, [c.ret]),
                     mods=ALLM + ["hashtable.ptr_table", "hashtable.hashpower", "ghost:alen", "ghost:ch", "ghost:ck"], extra_assume=small)
    return con

def del_ghosts(obj):
    return {"ch": lambda c: upd(c.S0.g("ch"), TV(c.S0, c[0]).A, lambda s: z3.Store(s, obj(c), False))}
def del_loop(curname, objf, strict=True):
    def inv(c):
        V = TV(c.S, z3.Const("arg_hashtable", PtrS)); o = objf(c); cur = c.local(curname)
        S0 = c.S0
        V0 = TV(S0, V.h); r = [("cursor in the bucket", z3.Or(cur == NULL, z3.And(V.has(cur), V.bkt(cur) == V0.bkt(o)))),
                ("object not yet passed", z3.Implies(V0.has(o), z3.And(cur != NULL, V.rank(o) < V.rank(cur))))]
        return r
    def var(c):
        V = TV(c.S, z3.Const("arg_hashtable", PtrS)); cur = c.local(curname)
        return z3.If(cur == NULL, z3.IntVal(0), V.rank(cur) + 1)
    return {0: {"inv": inv, "variant": var}}

def c_delete():
    b = core.c_delete()
    obj = lambda c: z3.Const("arg_cache_obj", PtrS)
    return strengthen(b, post=lambda c: rep(c.S, c[0]) + frames(c), loops={b.fn: del_loop("cur_obj", obj)}, ghosts=del_ghosts(lambda c: c[1]))

def c_try_delete():
    obj = lambda c: z3.Const("arg_cache_obj", PtrS)
    fn = "chained_hashtable_try_delete_v2"
    def pre(c): return rep(c.S, c[0]) + [("object live, not part of the table structure", z3.And(c.S.live(c[1]), c[1] != c[0], c[1] != TV(c.S, c[0]).A, c[1] != NULL))]
    def post(c):
        H0 = HV(c.S0, c[0])
        return [("reports whether the object was present", c.ret == H0.has(c[1]))] + rep(c.S, c[0]) + frames(c)
    gp = {"ht": lambda c: z3.Store(c.S0.g("ht"), c[0], z3.Store(HV(c.S0, c[0]).ht, c[1], False)),
          "live": lambda c: c.S0.g("live") if core.EXTV[0] else z3.If(HV(c.S0, c[0]).has(c[1]), z3.Store(c.S0.g("live"), c[1], False), c.S0.g("live"))}
    gp.update(del_ghosts(lambda c: c[1]))
    return Contract(fn, pre=pre, post=post, modifies=ALLM, frees=True, ghost_post=gp, loops={fn: del_loop("cur_obj", obj)})

def c_delete_id():
    fn = "chained_hashtable_delete_obj_id_v2"
    T = lambda c: z3.If(HV(c.S0, c[0]).found(c[1]), HV(c.S0, c[0]).at(c[1]), NULL)
    def post(c):
        H0 = HV(c.S0, c[0])
        return [("reports whether the id was present", c.ret == H0.found(c[1]))] + rep(c.S, c[0]) + frames(c)
    gp = {"ht": lambda c: z3.If(HV(c.S0, c[0]).found(c[1]), z3.Store(c.S0.g("ht"), c[0], z3.Store(HV(c.S0, c[0]).ht, T(c), False)), c.S0.g("ht")),
          "live": lambda c: c.S0.g("live") if core.EXTV[0] else z3.If(HV(c.S0, c[0]).found(c[1]), z3.Store(c.S0.g("live"), T(c), False), c.S0.g("live")),
          "ch": lambda c: z3.If(HV(c.S0, c[0]).found(c[1]), upd(c.S0.g("ch"), TV(c.S0, c[0]).A, lambda s: z3.Store(s, T(c), False)), c.S0.g("ch"))}
    def inv(c):
        V = TV(c.S, c[0]); Hh = HV(c.S, c[0]); cur = c.local("cur_obj"); i = c[1]
        return [("cursor in the bucket", z3.And(cur != NULL, V.has(cur), V.bkt(cur) == V.b(i), V.id(cur) != i)),
                ("id not yet passed", z3.Implies(Hh.found(i), V.rank(Hh.at(i)) < V.rank(cur)))]
    def var(c): return TV(c.S, c[0]).rank(c.local("cur_obj"))
    return Contract(fn, pre=lambda c: rep(c.S, c[0]), post=post, modifies=ALLM, frees=True, ghost_post=gp, loops={fn: {0: {"inv": inv, "variant": var}}})

def c_rand():
    fn = "chained_hashtable_rand_obj_v2"
    def inv(c): return [("position in range", z3.ULE(c.local("pos"), TV(c.S, c[0]).mask))]
    return Contract(fn, pre=lambda c: rep(c.S, c[0]), post=lambda c: [("a present object", HV(c.S, c[0]).has(c.ret))], loops={fn: {0: {"inv": inv}}})

def c_print():
    """the diagnostic printed on long chains only reads"""
    fn = "print_hashbucket_item_distribution"
    h = z3.Const("arg_hashtable", PtrS)
    def outer(c):
        i = c.local("i")
        return [("bucket index in range", z3.And(i >= 0, i <= (1 << MAXHP)))]
    def ovar(c): return z3.BitVecVal(1 << MAXHP, 32) - c.local("i")
    def cnt(c):
        V = TV(c.S, h); cur = c.local("curr_obj"); p = c.local("first_obj")
        return [("cursor in the table", z3.Or(cur == NULL, z3.And(V.has(cur), p != NULL, V.has(p), V.bkt(p) == V.bkt(cur), V.rank(cur) <= V.rank(p))))]
    def cvar(c):
        V = TV(c.S, h); cur = c.local("curr_obj"); return z3.If(cur == NULL, z3.IntVal(0), V.rank(cur) + 1)
    def inn(c):
        V = TV(c.S, h); cur = c.local("curr_obj"); q = c.local("prev_obj")
        return [("scanning the part before the cursor", z3.And(cur != NULL, q != NULL, V.has(q), V.has(cur), V.bkt(q) == V.bkt(cur), V.rank(q) >= V.rank(cur)))]
    def ivar(c): return TV(c.S, h).rank(c.local("prev_obj")) + 1
    return Contract(fn, pre=lambda c: rep(c.S, c[0])[:-1], loops={fn: {0: {"inv": outer, "variant": ovar}}, "count_n_obj_in_bucket": {0: {"inv": cnt, "variant": cvar}, 1: {"inv": inn, "variant": ivar}}})

def c_expand():
    fn = "_chained_hashtable_expand_v2"
    h = z3.Const("arg_hashtable", PtrS)
    def newA(c): return TV(c.S, c[0]).A
    def pre(c): return rep(c.S, c[0]) + [("room to grow", z3.ULT(c.S.f(c[0], "hashtable.hashpower"), MAXHP))]
    def state(c):
        """common to both loops: what the new array holds"""
        V0 = TV(c.S0, h); V1 = TV(c.S, h)
        return V0, V1, shape(c.S, h) + chain(V1, "new chains") + [
            ("old array intact", z3.And(z3.Select(c.S.m(ARR), V0.A) == V0.row, c.S.live(V0.A), V0.A != V1.A, z3.Not(V0.has(V1.A)))),
            ("fresh array", z3.Not(z3.Select(c.S0.g("ever"), V1.A))),
            ("capacity doubled", V1.hp == V0.hp + 1), 
            ("moved objects are table objects", z3.ForAll([X], z3.Implies(V1.has(X), V0.has(X)), patterns=[V1.has(X)])),
            ("entries stay live", z3.ForAll([X], z3.Implies(V0.has(X), c.S.live(X)), patterns=[V0.has(X)])),
            ("links outside unchanged", z3.ForAll([X], z3.Implies(z3.And(z3.Not(V1.has(X)), c.S0.live(X)), V1.next(X) == V0.next(X)), patterns=[V1.next(X)])),
            ("other arrays unchanged", z3.ForAll([X], z3.Implies(z3.And(c.S0.live(X), X != V0.A), z3.Select(c.S.m(ARR), X) == z3.Select(c.S0.m(ARR), X)), patterns=[z3.Select(c.S.m(ARR), X)])),
            ("chain data of other arrays unchanged", z3.ForAll([X], z3.Implies(X != V1.A, z3.And(z3.Select(c.S.g("ch"), X) == z3.Select(c.S0.g("ch"), X), z3.Select(c.S.g("ck"), X) == z3.Select(c.S0.g("ck"), X))), patterns=[z3.Select(c.S.g("ch"), X)])),
        ]
    def outer(c):
        V0, V1, r = state(c); i = c.local("i")
        return r + [("index in range", z3.ULE(i, V0.mask + 1)), ("old table", c.local("old_table") == V0.A),
            ("exactly the buckets before i are moved", z3.ForAll([X], z3.Implies(V0.has(X), V1.has(X) == z3.ULT(V0.bkt(X), i)), patterns=[V0.has(X)]))]
    def ovar(c): return TV(c.S0, h).mask + 1 - c.local("i")
    def inner(c):
        V0, V1, r = state(c); i = c.local("i"); cur = c.local("cur_obj")
        return r + [("index in range", z3.ULE(i, V0.mask)), ("old table", c.local("old_table") == V0.A),
            ("cursor unmoved, in bucket i", z3.Or(cur == NULL, z3.And(V0.has(cur), V0.bkt(cur) == i, z3.Not(V1.has(cur))))),
            ("moved: earlier buckets and what precedes the cursor", z3.ForAll([X], z3.Implies(V0.has(X), V1.has(X) == z3.Or(z3.ULT(V0.bkt(X), i),
                 z3.And(V0.bkt(X) == i, z3.Or(cur == NULL, V0.rank(X) > V0.rank(cur))))), patterns=[V0.has(X)]))]
    def ivar(c):
        V0 = TV(c.S0, h); cur = c.local("cur_obj"); return z3.If(cur == NULL, z3.IntVal(0), V0.rank(cur) + 1)
    def post(c):
        V0, V1 = TV(c.S0, c[0]), TV(c.S, c[0])
        r = rep(c.S, c[0]) + frames(c)
        r += [("capacity doubled", V1.hp == V0.hp + 1), ("array replaced by a fresh one", z3.And(z3.Not(z3.Select(c.S0.g("ever"), V1.A)), c.S.live(V1.A), z3.Not(c.S.live(V0.A)))),
              ("same objects", V1.ch == V0.ch)]
        x = X
        r += [("only the table array is replaced in the live set", z3.ForAll([x], z3.Implies(z3.And(x != V0.A, x != V1.A), c.S.live(x) == c.S0.live(x)), patterns=[c.S.live(x)]))]
        m0, m1 = c.S0.m(HN), c.S.m(HN)
        if c.caller:
            r += [("hash links of objects outside the table unchanged", z3.ForAll([x], z3.Implies(z3.And(z3.Not(V0.has(x)), c.S0.live(x)), z3.Select(m1, x) == z3.Select(m0, x)), patterns=[z3.Select(m1, x)]))]
            a0, a1 = c.S0.m(ARR), c.S.m(ARR)
            r += [("arrays", z3.ForAll([x], z3.Implies(z3.And(c.S0.live(x), x != V0.A), z3.Select(a1, x) == z3.Select(a0, x)), patterns=[z3.Select(a1, x)]))]
            for f in ("ptr_table", "hashpower"):
                k0, k1 = c.S0.m("hashtable." + f), c.S.m("hashtable." + f)
                r += [("other tables unchanged: " + f, k1 == z3.Store(k0, c[0], z3.Select(k1, c[0])))]
        return r
    return Contract(fn, pre=pre, post=post, allocates=True, frees=True, modifies=[HN, ARR, "hashtable.ptr_table", "hashtable.hashpower", "ghost:alen", "ghost:ch", "ghost:ck", "ghost:live"],
                    loops={fn: {0: {"inv": outer, "variant": ovar}, 1: {"inv": inner, "variant": ivar}}})

def c_new():
    b = core.c_new_table()
    def pre(c): return [("hash power in range", z3.ULE(c[0], MAXHP))]
    con = Contract(b.fn, pre=pre, post=lambda c: b.post(c) + rep(c.S, c.ret), allocates=True, 
        modifies=["ghost:alen", "ghost:ch", "ghost:ck"],
        ghost_post={"ht": b.ghost_post["ht"]})
    return con

# ---- externals
def x_hash(ex, S, args, rty, ins):
    v = ex.load(S, args[0], Ty_i64(), line=ins.line)
    ex.prove(S, args[1] == 8, "the hash covers the 8 bytes of the id", ins.line)
    return [(S, H(v))]
def Ty_i64():
    from vcg.ir import Ty
    return Ty("int", w=64)
def x_calloc(ex, S, args, rty, ins):
    p = ex.alloc(S, "calloc", zero=True)
    if z3.is_bv_value(args[0]) and args[0].as_long() == 8:
        S.ghost["alen"] = z3.Store(S.g("alen"), p, args[1])
        S.ghost["ch"] = z3.Store(S.g("ch"), p, z3.K(PtrS, z3.BoolVal(False)))
        S.ghost["ck"] = z3.Store(S.g("ck"), p, z3.K(PtrS, z3.IntVal(0)))
    return [(S, Ptr(p))]
def x_madvise(ex, S, args, rty, ins): return [(S, fresh("madvise", z3.BitVecSort(32)))]
def x_rand(ex, S, args, rty, ins): return [(S, fresh("rand", BV64))]
EXT = {"XXH_INLINE_XXH3_64bits": x_hash, "calloc": x_calloc, "madvise": x_madvise, "next_rand": x_rand}

def bounds(ex, S, p, line):
    if p.root == "arr" and p.dims == ((0, "ptr"),):
        ex.prove(S, z3.ULT(p.idx[0], z3.Select(S.g("alen"), p.base)), "memory safety: table index within the array", line)

def contracts():
    cs = [c_find_id(), c_find_req(), c_find_obj(), c_insert(), c_delete(), c_try_delete(), c_delete_id(), c_rand(), c_print(), c_expand(), c_new(), c_add(), c_create_obj(), c_free_obj()]
    return {c.fn: c for c in cs}
FILES = ["dataStructure/hashtable/chainedHashTableV2.c", "cache/cacheObj.c"]

def c_free():
    """every entry, the array and the table are freed exactly once; nothing else is"""
    fn = "free_chained_hashtable_v2"
    h = z3.Const("arg_hashtable", PtrS)
    def pre(c): return rep(c.S, c[0])
    def L(c, cond):
        V = TV(c.S0, h)
        return z3.ForAll([X], c.S.live(X) == z3.And(c.S0.live(X), z3.Not(z3.And(V.has(X), cond(V, X)))), patterns=[c.S.live(X)])
    def outer(c):
        i = c.local("i"); V = TV(c.S0, h)
        return [("index in range", z3.ULE(i, V.mask + 1)), ("freed: exactly the buckets before i", L(c, lambda V, x: z3.ULT(V.bkt(x), i)))]
    def ovar(c): return TV(c.S0, h).mask + 1 - c.local("i")
    def inner(c):
        i = c.local("i"); V = TV(c.S0, h); cur = c.local("cur_obj")
        return [("index in range", z3.ULE(i, V.mask)), ("cursor in bucket i", z3.Or(cur == NULL, z3.And(V.has(cur), V.bkt(cur) == i))),
                ("freed: earlier buckets and what precedes the cursor", L(c, lambda V, x: z3.Or(z3.ULT(V.bkt(x), i), z3.And(V.bkt(x) == i, z3.Or(cur == NULL, V.rank(x) > V.rank(cur))))))]
    def ivar(c):
        V = TV(c.S0, h); cur = c.local("cur_obj"); return z3.If(cur == NULL, z3.IntVal(0), V.rank(cur) + 1)
    def post(c):
        V = TV(c.S0, c[0])
        return [("exactly the entries, the array and the table are freed", z3.ForAll([X], c.S.live(X) == z3.And(c.S0.live(X), z3.Not(V.has(X)) if not core.EXTV[0] else True, X != V.A, X != c[0]), patterns=[c.S.live(X)]))]
    return Contract(fn, pre=pre, post=post, frees=True, modifies=["ghost:live"],
                    loops={"chained_hashtable_foreach_v2": {0: {"inv": outer, "variant": ovar}, 1: {"inv": inner, "variant": ivar}}})
def c_insert_obj():
    """tables of caller-owned objects"""
    fn = "chained_hashtable_insert_obj_v2"
    def pre(c):
        V = TV(c.S, c[0]); Hh = HV(c.S, c[0]); o = c[1]
        return rep(c.S, c[0]) + [("a live object outside the table", z3.And(o != NULL, c.S.live(o), z3.Not(V.has(o)), o != V.A, o != c[0])), ("id not present", z3.Not(Hh.found(V.id(o))))]
    def g_ch(c): V = TV(c.S, c[0]); return upd(c.S.g("ch"), V.A, lambda s: z3.Store(s, c[1], True))
    def g_ck(c):
        V = TV(c.S, c[0]); n = V.next(c[1])
        return upd(c.S.g("ck"), V.A, lambda s: z3.Store(s, c[1], z3.If(n == NULL, z3.IntVal(0), z3.Select(s, n) + 1)))
    return Contract(fn, pre=pre, post=lambda c: [("returns the object", c.ret == c[1])] + rep(c.S, c[0]) + frames(c, [c[1]]), allocates=True, frees=True, extra_assume=small,
        modifies=ALLM + ["hashtable.ptr_table", "hashtable.hashpower", "ghost:alen", "ghost:ch", "ghost:ck", "ghost:live"],
        ghost_post={"ht": lambda c: z3.Store(c.S0.g("ht"), c[0], z3.Store(HV(c.S0, c[0]).ht, c[1], True)),
                    "byid": lambda c: z3.Store(c.S0.g("byid"), c[0], z3.Store(HV(c.S0, c[0]).by, z3.Select(c.S0.m(ID), c[1]), c[1]))})
_c0 = contracts
def contracts():
    d = _c0()
    for f in (c_free(), c_insert_obj()): d[f.fn] = f
    return d
# ownership of the objects under which each function is verified: 0 the table's, 1 the caller's, None either
OWN = {"chained_hashtable_insert_v2": [0], "create_chained_hashtable_v2": [0], "chained_hashtable_insert_obj_v2": [1],
       "chained_hashtable_delete_v2": [0, 1], "chained_hashtable_try_delete_v2": [0, 1], "chained_hashtable_delete_obj_id_v2": [0, 1], "free_chained_hashtable_v2": [0, 1]}
