"""The priority queue (pqueue.c): a binary heap over an array of elements that
remember their position.  Ghost pqs[q] is the set of queued elements; the order
is the real callback cmp_pri (IEEE < on the priorities)."""
import z3
from vcg.vcg import *

X, Y = z3.Consts("x y", PtrS)
I, J = z3.Const("pi", BV64), z3.Const("pj", BV64)
ARR = "arr:ptr"; POS = "node_t.pos"; PRI = "node_t.pri.pri"
GH = {"pqs": z3.ArraySort(PtrS, SetS), "alen": z3.ArraySort(PtrS, BV64)}
BIG = 1 << 40
CB = {"cmppri": "cmp_pri", "getpri": "get_pri", "setpri": "set_pri", "getpos": "get_pos", "setpos": "set_pos"}
ROLES = {"pqueue_t." + k: v for k, v in CB.items()}
def bv(n): return z3.BitVecVal(n, 64)
def le(a, b): return z3.And(bv(a) if isinstance(a, int) else True, True) if False else z3.ULE(bv(a) if isinstance(a, int) else a, b)

class PV:
    """abstract view of queue q"""
    def __init__(s, S, q):
        s.S, s.q = S, q
        s.d = S.f(q, "pqueue_t.d"); s.size = S.f(q, "pqueue_t.size"); s.avail = S.f(q, "pqueue_t.avail"); s.step = S.f(q, "pqueue_t.step")
        s.row = z3.Select(S.m(ARR), s.d); s.posm = S.m(POS); s.prim = S.m(PRI)
        s.set = z3.Select(S.g("pqs"), q)
    def el(s, i): return z3.Select(s.row, i)
    def pos(s, x): return z3.Select(s.posm, x)
    def v(s, x): return FVAL(z3.Select(s.prim, x))
    def nan(s, x): return FNAN(z3.Select(s.prim, x))
    def has(s, x): return z3.Select(s.set, x)
    def inr(s, i): return z3.And(z3.ULE(1, i), z3.ULT(i, s.size))

def shape(V):
    S = V.S; q = V.q
    r = [("queue and array live", z3.And(q != NULL, S.live(q), V.d != NULL, S.live(V.d), V.d != q, z3.Select(S.g("alen"), V.d) == V.avail)),
         ("sizes", z3.And(z3.ULE(1, V.size), z3.ULE(V.size, V.avail), z3.ULE(V.avail, BIG), z3.ULE(1, V.step), z3.ULE(V.step, BIG))),
         ("callbacks", z3.And(*[S.f(q, "pqueue_t." + k) == S.fn(v) for k, v in CB.items()])),
         ("queue and array are not elements", z3.And(z3.Not(V.has(q)), z3.Not(V.has(V.d))))]
    return r

def members(V, hole=None, moving=None):
    """elements and positions agree (outside the hole, whose element is `moving`)"""
    S = V.S
    nh = lambda i: z3.BoolVal(True) if hole is None else i != hole
    nm = lambda x: z3.BoolVal(True) if moving is None else x != moving
    r = [("members are live and ordered", z3.ForAll([X], z3.Implies(V.has(X), z3.And(X != NULL, S.live(X), z3.Not(V.nan(X)))), patterns=[V.has(X)])),
         ("slots hold members that know their slot", z3.ForAll([I], z3.Implies(z3.And(V.inr(I), nh(I)), z3.And(V.has(V.el(I)), nm(V.el(I)), V.pos(V.el(I)) == I)), patterns=[V.el(I)])),
         ("members sit in their slot", z3.ForAll([X], z3.Implies(z3.And(V.has(X), nm(X)), z3.And(V.inr(V.pos(X)), nh(V.pos(X)), V.el(V.pos(X)) == X)), patterns=[V.has(X)]))]
    return r

def heap(V, hole=None):
    ok = z3.BoolVal(True) if hole is None else z3.And(I != hole, J != hole)
    return [("no element is larger than its parent", z3.ForAll([I, J], z3.Implies(z3.And(I == z3.LShR(J, 1), z3.ULE(2, J), z3.ULT(J, V.size), ok), V.v(V.el(I)) >= V.v(V.el(J))),
             patterns=[z3.MultiPattern(V.el(I), V.el(J))]))]
def children(V, i, bound, lab):
    return (lab, z3.ForAll([J], z3.Implies(z3.And(z3.LShR(J, 1) == i, z3.ULE(2, J), z3.ULT(J, V.size)), bound >= V.v(V.el(J))), patterns=[V.el(J)]))

def inv(S, q):
    V = PV(S, q); return shape(V) + members(V) + heap(V)
Q = z3.Const("arg_q", PtrS)

def frames(c):
    S, S0 = c.S, c.S0; V0 = PV(S0, c[0])
    p0, p1 = S0.m(POS), S.m(POS); a0, a1 = S0.m(ARR), S.m(ARR); d1 = S.f(c[0], "pqueue_t.d")
    return [("positions of non-members unchanged", z3.ForAll([X], z3.Implies(z3.And(z3.Not(V0.has(X)), z3.Not(PV(S, c[0]).has(X)), *([] if c.caller else [S0.live(X)])), z3.Select(p1, X) == z3.Select(p0, X)), patterns=[z3.Select(p1, X)])),
            ("other arrays unchanged", z3.ForAll([X], z3.Implies(z3.And(X != V0.d, X != d1, *([] if c.caller else [S0.live(X)])), z3.Select(a1, X) == z3.Select(a0, X)), patterns=[z3.Select(a1, X)]))]

def settle(c):
    """ghost: the queued elements are those sitting in their slot, and the one being placed"""
    V = PV(c.S, c[0]); i = c[1]
    n = fresh("g_set", SetS)
    b = z3.Or(z3.And(V.has(X), V.inr(V.pos(X)), V.el(V.pos(X)) == X), z3.And(z3.ULT(i, V.size), X == V.el(i)))
    for f in (z3.Implies(z3.Select(n, X), b), z3.Implies(b, z3.Select(n, X))):
        c.S.assume(z3.ForAll([X], f, patterns=[z3.Select(n, X), V.has(X)]))
    return z3.Store(c.S.g("pqs"), c[0], n)

def hole_pre(V, i):
    """element at i may be out of order with its parent only / its children only"""
    m = V.el(i)
    return [("position in range", V.inr(i)),
            ("all other elements in place", z3.And(*[f for _, f in members(V, i, m)])), ("moving element is a member", V.has(m)),
            ("heap outside the hole", heap(V, i)[0][1]),
            children(V, i, z3.If(z3.ULT(1, i), V.v(V.el(z3.LShR(i, 1))), V.v(m)), "children below their grandparent")]

def c_bubble():
    fn = "bubble_up"
    def pre(c):
        V = PV(c.S, c[0]); i = c[1]
        return shape(V) + hole_pre(V, i) + [children(V, i, V.v(V.el(i)), "children below the moving element")]
    def linv(c):
        V = PV(c.S, c[0]); V0 = PV(c.S0, c[0]); i = c.local("i"); p = c.local("parent_node"); m = c.local("moving_node")
        return shape(V) + members(V, i, m) + heap(V, i) + [
            ("cursor", z3.And(z3.ULE(1, i), z3.ULT(i, V.size), p == z3.LShR(i, 1))), ("moving element", z3.And(V.has(m), c.local("moving_pri") == z3.Select(V.prim, m), m == V0.el(c[1]))),
            children(V, i, V.v(m), "children below the moving element"),
            children(V, i, z3.If(z3.ULT(1, i), V.v(V.el(z3.LShR(i, 1))), V.v(m)), "children below their grandparent")] + frames(c)
    con = Contract(fn, pre=pre, post=lambda c: inv(c.S, c[0]) + frames(c), modifies=[POS, ARR], roles=ROLES, loops={fn: {0: {"inv": linv, "variant": lambda c: c.local("i")}}})
    con.ghost_before = {"pqs": settle}
    return con

def c_percolate():
    fn = "percolate_down"
    def mem(V, i, m): return [(l, f) for l, f in members(V, i, m)]
    def pre(c):
        V = PV(c.S, c[0]); i = c[1]; m = V.el(i); S = c.S
        return shape(V) + [("position in range or just past the end", z3.And(z3.ULE(1, i), z3.ULE(i, V.size), z3.ULT(i, V.avail))),
            ("moving element", z3.And(m != NULL, S.live(m), m != c[0], m != V.d, V.has(m) == z3.ULT(i, V.size), z3.Implies(V.has(m), z3.Not(V.nan(m))))),
            ] + mem(V, i, m) + heap(V, i) + [
            ("not above its parent", z3.Implies(z3.And(z3.ULT(1, i), z3.ULT(i, V.size)), V.v(V.el(z3.LShR(i, 1))) >= V.v(m))),
            ("past the end it keeps its slot", z3.Implies(i == V.size, z3.Or(V.pos(m) == i, True))),
            ("children below their grandparent", z3.ForAll([J], z3.Implies(z3.And(z3.ULT(1, i), z3.LShR(J, 1) == i, z3.ULE(2, J), z3.ULT(J, V.size)), V.v(V.el(z3.LShR(i, 1))) >= V.v(V.el(J))), patterns=[V.el(J)]))]
    def linv(c):
        V = PV(c.S, c[0]); V0 = PV(c.S0, c[0]); i = c.local("i"); m = c.local("moving_node"); i0 = c[1]
        return shape(V) + mem(V, i, m) + heap(V, i) + [
            ("cursor", z3.And(z3.ULE(1, i), z3.Or(z3.And(z3.ULT(i, V.size), z3.ULT(i0, V.size)), z3.And(i == i0, i0 == V.size)), z3.ULT(i, V.avail))),
            ("moving element", z3.And(m != NULL, c.S.live(m), m != c[0], m != V.d, V.has(m) == z3.ULT(i, V.size), c.local("moving_pri") == z3.Select(V.prim, m), m == V0.el(i0), z3.Implies(V.has(m), z3.Not(V.nan(m))))),
            ("not above its parent", z3.Implies(z3.And(z3.ULT(1, i), z3.ULT(i, V.size)), V.v(V.el(z3.LShR(i, 1))) >= V.v(m))),
            ("children below their grandparent", z3.ForAll([J], z3.Implies(z3.And(z3.ULT(1, i), z3.LShR(J, 1) == i, z3.ULE(2, J), z3.ULT(J, V.size)), V.v(V.el(z3.LShR(i, 1))) >= V.v(V.el(J))), patterns=[V.el(J)]))] + frames2(c)
    def frames2(c):
        r = frames(c); V0 = PV(c.S0, c[0]); m = V0.el(c[1]); p0, p1 = c.S0.m(POS), c.S.m(POS)
        return [("positions of non-members unchanged", z3.ForAll([X], z3.Implies(z3.And(z3.Not(V0.has(X)), X != m), z3.Select(p1, X) == z3.Select(p0, X)), patterns=[z3.Select(p1, X)]))] + r[1:]
    con = Contract(fn, pre=pre, post=lambda c: inv(c.S, c[0]) + frames2(c), modifies=[POS, ARR], roles=ROLES,
                    loops={fn: {0: {"inv": linv, "variant": lambda c: PV(c.S, c[0]).size - c.local("i")}}})
    con.ghost_before = {"pqs": settle}
    return con

SAME = lambda c: c.S0.g("pqs")
def root(V):
    return ("the root is the largest", z3.ForAll([X], z3.Implies(V.has(X), V.v(V.el(bv(1))) >= V.v(X)), patterns=[V.has(X)]))
def root_lemma(ex):
    """induction over positions: [(label, hypotheses, goal)]"""
    S = State(ex); V = PV(S, Q); k = z3.Const("k0", BV64); x = z3.Const("x0", PtrS)
    P = lambda i: V.v(V.el(bv(1))) >= V.v(V.el(i))
    hyp = [f for _, f in inv(S, Q)]
    IH = z3.ForAll([I], z3.Implies(z3.And(V.inr(I), z3.ULT(I, k)), P(I)), patterns=[V.el(I)])
    ALL = z3.ForAll([I], z3.Implies(V.inr(I), P(I)), patterns=[V.el(I)])
    par = z3.LShR(k, 1)
    return [("root lemma: induction step", hyp + [V.inr(k), IH, V.el(par) == V.el(par), z3.Implies(z3.ULE(2, k), V.v(V.el(par)) >= V.v(V.el(k)))], P(k)),
            ("root lemma: heap order of a parent", hyp + [V.inr(k), z3.ULE(2, k)], z3.And(z3.ULT(par, k), z3.ULE(1, par), V.v(V.el(par)) >= V.v(V.el(k)))),
            ("root lemma: conclusion", hyp + [ALL], root(V)[1])]

def c_insert():
    fn = "pqueue_insert"
    def pre(c):
        V = PV(c.S, c[0]); d = c[1]
        return inv(c.S, c[0]) + [("element", z3.And(d != NULL, c.S.live(d), d != c[0], d != V.d, z3.Not(V.has(d)), z3.Not(V.nan(d)))),
               ("assumed: fewer than 2^39 elements", z3.And(z3.ULT(V.avail, BIG >> 1), z3.ULT(V.step, BIG >> 1)))]
    def post(c):
        ok = c.ret == 0; V0, V1 = PV(c.S0, c[0]), PV(c.S, c[0])
        r = inv(c.S, c[0]) + frames(c) + [("the element is queued unless memory ran out", V1.set == z3.If(ok, z3.Store(V0.set, c[1], True), V0.set)),
              ("size grows by one", V1.size == z3.If(ok, V0.size + 1, V0.size)),
              ("other queues unchanged", c.S.g("pqs") == z3.Store(c.S0.g("pqs"), c[0], V1.set)),
              ("only the array may be replaced", z3.And(z3.Or(V1.d == V0.d, z3.And(z3.Not(z3.Select(c.S0.g("ever"), V1.d)), z3.Not(c.S.live(V0.d)))), 
                   z3.ForAll([X], z3.Implies(z3.And(X != V0.d, X != V1.d), c.S.live(X) == c.S0.live(X)), patterns=[c.S.live(X)])))]
        for f in ("size", "avail", "d"):
            k0, k1 = c.S0.m("pqueue_t." + f), c.S.m("pqueue_t." + f)
            r.append(("other queues unchanged: " + f, k1 == z3.Store(k0, c[0], z3.Select(k1, c[0])) if c.caller else
                      z3.ForAll([X], z3.Implies(z3.And(c.S0.live(X), X != c[0]), z3.Select(k1, X) == z3.Select(k0, X)))))
        return r
    return Contract(fn, pre=pre, post=post, modifies=[POS, ARR, "pqueue_t.size", "pqueue_t.avail", "pqueue_t.d", "ghost:alen", "ghost:live", "ghost:pqs"], allocates=True, frees=True, roles=ROLES,
        ghost_post={"pqs": lambda c: z3.If(c.ret == 0, z3.Store(c.S0.g("pqs"), c[0], z3.Store(PV(c.S0, c[0]).set, c[1], True)), c.S0.g("pqs"))})

def c_pop():
    fn = "pqueue_pop"
    def pre(c): return inv(c.S, c[0])
    def post(c):
        V0, V1 = PV(c.S0, c[0]), PV(c.S, c[0]); e = V0.size == 1; r = c.ret
        return inv(c.S, c[0]) + frames(c) + [("empty iff NULL", (r == NULL) == e),
            ("a queued element with the largest priority", z3.Implies(z3.Not(e), z3.And(V0.has(r), z3.ForAll([X], z3.Implies(V0.has(X), V0.v(r) >= V0.v(X)), patterns=[V0.has(X)])))),
            ("size shrinks by one", V1.size == z3.If(e, V0.size, V0.size - 1)),
            ("other queues unchanged", c.S.m("pqueue_t.size") == z3.Store(c.S0.m("pqueue_t.size"), c[0], V1.size))]
    return Contract(fn, pre=pre, post=post, modifies=[POS, ARR, "pqueue_t.size"], roles=ROLES, lemmas=lambda c: [root(PV(c.S0, c[0]))],
        ghost_post={"pqs": lambda c: z3.If(c.ret == NULL, c.S0.g("pqs"), z3.Store(c.S0.g("pqs"), c[0], z3.Store(PV(c.S0, c[0]).set, c.ret, False)))})

def c_peek():
    def post(c):
        V0 = PV(c.S0, c[0]); e = V0.size == 1; r = c.ret
        return [("empty iff NULL", (r == NULL) == e),
            ("a queued element with the largest priority", z3.Implies(z3.Not(e), z3.And(V0.has(r), z3.ForAll([X], z3.Implies(V0.has(X), V0.v(r) >= V0.v(X)), patterns=[V0.has(X)]))))]
    return Contract("pqueue_peek", pre=lambda c: inv(c.S, c[0]), post=post, roles=ROLES, lemmas=lambda c: [root(PV(c.S0, c[0]))])

def c_size():
    return Contract("pqueue_size", pre=lambda c: inv(c.S, c[0]), post=lambda c: [("number of queued elements", c.ret == PV(c.S, c[0]).size - 1)])

def c_change():
    fn = "pqueue_change_priority"
    def pre(c): return inv(c.S, c[0]) + [("queued element, ordered priority", z3.And(PV(c.S, c[0]).has(c[2]), z3.Not(FNAN(c[1]))))]
    def post(c):
        V1 = PV(c.S, c[0])
        return inv(c.S, c[0]) + frames(c) + [("only this priority changes", c.S.m(PRI) == z3.Store(c.S0.m(PRI), c[2], c[1]))]
    return Contract(fn, pre=pre, post=post, modifies=[POS, ARR, PRI], roles=ROLES)

def c_remove():
    fn = "pqueue_remove"
    def pre(c): return inv(c.S, c[0]) + [("queued element", PV(c.S, c[0]).has(c[1]))]
    def post(c):
        V0, V1 = PV(c.S0, c[0]), PV(c.S, c[0])
        return inv(c.S, c[0]) + frames(c) + [("size shrinks by one", V1.size == V0.size - 1),
            ("other queues unchanged", c.S.m("pqueue_t.size") == z3.Store(c.S0.m("pqueue_t.size"), c[0], V1.size))]
    return Contract(fn, pre=pre, post=post, modifies=[POS, ARR, "pqueue_t.size"], roles=ROLES,
        ghost_post={"pqs": lambda c: z3.Store(c.S0.g("pqs"), c[0], z3.Store(PV(c.S0, c[0]).set, c[1], False))})

# ---- externals
def x_malloc(ex, S, args, rty, ins):
    p = ex.alloc(S, "malloc"); n = args[0]
    S.ghost["alen"] = z3.Store(S.g("alen"), p, z3.LShR(n, 3)); S.ghost["pqs"] = z3.Store(S.g("pqs"), p, z3.K(PtrS, z3.BoolVal(False)))
    T = S.copy(); T.ghost = dict(S.ghost)
    return [(S, Ptr(p))]
def x_realloc(ex, S, args, rty, ins):
    """the block moves (or stays); on failure NULL and nothing changes"""
    old = args[0].base; n = args[1]
    F = S.copy()
    ex.prove(S, z3.And(old != NULL, S.live(old)), "memory safety: realloc of a live block", ins.line)
    row = z3.Select(S.m(ARR), old); ol = z3.Select(S.g("alen"), old); nl = z3.LShR(n, 3)
    p = ex.alloc(S, "realloc")
    S.ghost["live"] = z3.Store(S.g("live"), old, False); S.ghost["_safe"] = (p,)
    k = ex.key(ARR); nr = fresh("row", row.sort())
    S.assume(z3.ForAll([I], z3.Implies(z3.And(z3.ULT(I, ol), z3.ULT(I, nl)), z3.Select(nr, I) == z3.Select(row, I)), patterns=[z3.Select(nr, I)]))
    S.setmap(k, z3.Store(S.map(k), p, nr))
    S.ghost["alen"] = z3.Store(S.g("alen"), p, nl); S.ghost["pqs"] = z3.Store(S.g("pqs"), p, z3.K(PtrS, z3.BoolVal(False)))
    return [(S, Ptr(p)), (F, Ptr(NULL))]
EXT = {"malloc": x_malloc, "realloc": x_realloc}
def bounds(ex, S, p, line):
    if p.root == "arr" and p.dims == ((0, "ptr"),):
        ex.prove(S, z3.ULT(p.idx[0], z3.Select(S.g("alen"), p.base)), "memory safety: heap index within the array", line)

def c_init():
    fn = "pqueue_init"
    def post(c):
        V = PV(c.S, c.ret)
        return inv(c.S, c.ret) + [("empty", z3.And(V.size == 1, V.set == z3.K(PtrS, z3.BoolVal(False)))), ("fresh", z3.Not(c.S0.live(c.ret)))]
    return Contract(fn, pre=lambda c: [("assumed: initial size below 2^39", z3.ULT(c[0], BIG >> 1))], post=post, allocates=True, modifies=["ghost:alen", "ghost:pqs"])

def contracts():
    cs = [c_bubble(), c_percolate(), c_insert(), c_pop(), c_peek(), c_size(), c_change(), c_remove(), c_init()]
    return {c.fn: c for c in cs}
FILES = ["dataStructure/pqueue.c"]
