"""The splay tree of dataStructure/splay.c.  The logical tree is a set of nodes
(ghost sD) with in-order positions (ghost spos): a node covers an interval of
positions, its children the parts left and right of it, and `value` is the
length of the interval.  A splay keeps the positions, moves the key's
neighbourhood to the root and touches nothing outside the root's interval;
insert and splay_delete add and remove exactly one key."""
import re
import z3
from vcg.vcg import *

FILES = ["dataStructure/splay.c"]
X, Y = z3.Consts("tx ty", PtrS)
PosS = z3.ArraySort(PtrS, z3.IntSort())
GH = {"sD": SetS, "spos": PosS, "spL": SetS, "spR": SetS}
L, R, K, V = "sTree.left", "sTree.right", "sTree.key", "sTree.value"
BIG = 1 << 40
KB = 1 << 61
EMPTY = z3.K(PtrS, z3.BoolVal(False))
def le(a, b): return a <= b
def lt(a, b): return a < b
def bv(n): return z3.BitVecVal(n, 64)
def nv(S, p): return z3.If(p == NULL, 0, IVAL(S.f(p, V)))
def kok(k): return z3.And(-KB < k, k < KB)
def sel(a, x): return z3.Select(a, x)
def FA(vs, body, *pats): return z3.ForAll(vs, body, patterns=list(pats), qid="q" + re.sub(r"\W+", "_", str(pats[0]))[:30])
def ACT(S, x):
    """always true: marks the nodes whose children matter (one marker per loop, so that facts about earlier states stay quiet)"""
    return z3.Function("act%d" % S.ghost.get("_epoch", 0), PtrS, z3.BoolSort())(x)
def FG(S, vs, body, *pats, kids=None):
    """quantified fact whose instance in a goal marks its nodes"""
    marks = [ACT(S, v) for v in vs] + ([ACT(S, f(v)) for v in vs for f in kids] if kids else [])
    return Dual(FA(vs, body, *pats), z3.ForAll(vs, z3.Implies(z3.And(*marks), body)))
def imp(g, f): return Dual(z3.Implies(g, f.hyp), z3.Implies(g, f.goal)) if isinstance(f, Dual) else z3.Implies(g, f)

class View:
    """the intervals of all nodes, derived from the links and sizes of state S.
    In the middle of a splay the nodes of the left (right) tree's spine reach up to a (start at b)."""
    cache = {}
    def __init__(s, S, spL=None, spR=None, a=None, b=None):
        s.S = S; s.D, s.pos = S.g("sD"), S.g("spos"); s.spL, s.spR, s.a, s.b = spL, spR, a, b
        s.l, s.r, s.v, s.k = S.m(L), S.m(R), S.m(V), S.m(K)
        key = (S.ghost.get("_epoch", 0),) + tuple(None if t is None else t.get_id() for t in (s.pos, s.l, s.r, s.v, spL, spR, a, b))
        ent = View.cache.get(key)
        if ent is None:
            n = len(View.cache); lo, hi = z3.Function("slo%d" % n, PtrS, z3.IntSort()), z3.Function("shi%d" % n, PtrS, z3.IntSort())
            dl = sel(s.pos, X) - z3.If(sel(s.l, X) == NULL, 0, IVAL(sel(s.v, sel(s.l, X))))
            dh = sel(s.pos, X) + 1 + z3.If(sel(s.r, X) == NULL, 0, IVAL(sel(s.v, sel(s.r, X))))
            if spL is not None: dl, dh = z3.If(sel(spR, X), b, dl), z3.If(sel(spL, X), a, dh)
            ax = [FA([X], lo(X) == dl, lo(X), ACT(S, X)), FA([X], hi(X) == dh, hi(X), ACT(S, X))]
            ent = View.cache[key] = (lo, hi, ax, (s.pos, s.l, s.r, s.v, spL, spR, a, b))
        s.lo_, s.hi_ = ent[0], ent[1]
        have = {f.get_id() for f in S.pc}
        for f in ent[2]:
            if f.get_id() not in have: S.assume(f)
    def lo(s, x): return s.lo_(x)
    def hi(s, x): return s.hi_(x)
    def p(s, x): return sel(s.pos, x)
    def key(s, x): return IVAL(sel(s.k, x))
    def val(s, x): return IVAL(sel(s.v, x))
    def left(s, x): return sel(s.l, x)
    def right(s, x): return sel(s.r, x)
    def inL(s, x): return sel(s.spL, x) if s.spL is not None else z3.BoolVal(False)
    def inR(s, x): return sel(s.spR, x) if s.spR is not None else z3.BoolVal(False)

class Range:
    def __init__(s, V, lo0, hi0): s.V, s.lo0, s.hi0 = V, lo0, hi0
    def has(s, x): return z3.And(sel(s.V.D, x), le(s.lo0, s.V.p(x)), lt(s.V.p(x), s.hi0))

def lam(v, x, y):
    """two intervals are disjoint, or one lies on one side of the other's node"""
    lx, hx, px, ly, hy, py = v.lo(x), v.hi(x), v.p(x), v.lo(y), v.hi(y), v.p(y)
    return z3.Or(le(hx, ly), le(hy, lx), z3.And(le(lx, ly), le(hy, px)), z3.And(lt(px, ly), le(hy, hx)),
                 z3.And(le(ly, lx), le(hx, py)), z3.And(lt(py, lx), le(hx, hy)))

def tree(rg, t=None):
    """well-formedness of the nodes in a range; t: the root whose own size is not settled yet"""
    v = rg.V; S = v.S
    nt = (lambda x: z3.BoolVal(True)) if t is None else (lambda x: x != t)
    P = lambda x: z3.Or(v.inL(x), v.inR(x), *([x == t] if t is not None else []))
    dom = rg.has(X)
    def child(c, ok, lo, hi):
        return z3.Implies(z3.And(dom, ok, c != NULL), z3.And(rg.has(c), z3.Not(P(c)), v.lo(c) == lo, v.hi(c) == hi))
    kids = (v.left, v.right)
    r = [("nodes are live", FG(S, [X], z3.Implies(dom, z3.And(X != NULL, S.live(X), kok(v.key(X)))), v.p(X))),
         ("intervals lie in the range", FG(S, [X], z3.Implies(dom, z3.And(le(rg.lo0, v.lo(X)), le(v.lo(X), v.p(X)), lt(v.p(X), v.hi(X)), le(v.hi(X), rg.hi0))), v.lo(X), kids=kids)),
         ("sizes", FG(S, [X], z3.Implies(z3.And(dom, z3.Not(P(X))), z3.And(v.val(X) == v.hi(X) - v.lo(X), 1 <= v.val(X), v.val(X) <= BIG)), v.lo(X), kids=kids)),
         ("left children", FG(S, [X], child(v.left(X), z3.Not(v.inR(X)), v.lo(X), v.p(X)), ACT(S, X), kids=kids)),
         ("right children", FG(S, [X], child(v.right(X), z3.Not(v.inL(X)), v.p(X) + 1, v.hi(X)), ACT(S, X), kids=kids)),
         ("intervals are nested", FG(S, [X, Y], z3.Implies(z3.And(dom, rg.has(Y), X != Y), lam(v, X, Y)), z3.MultiPattern(ACT(S, X), ACT(S, Y)))),
         ("keys increase with the position", FG(S, [X, Y], z3.Implies(z3.And(dom, rg.has(Y), lt(v.p(X), v.p(Y))), v.key(X) < v.key(Y)), z3.MultiPattern(ACT(S, X), ACT(S, Y))))]
    return r

def bounds_(lo0, hi0): return ("size of the tree", z3.And(le(lo0, hi0), 0 <= lo0, hi0 <= BIG))

def c_splay():
    fn = "splay"
    def rng(c):
        v = View(c.S0); t = c[1]
        return v, z3.If(t == NULL, 0, v.lo(t)), z3.If(t == NULL, 0, v.hi(t))
    def rng0(c):
        v = View(c.S0); c.S0.assume(ACT(c.S0, c[1])); return v, v.lo(c[1]), v.hi(c[1])
    def pre(c):
        v, lo0, hi0 = rng0(c); t = c[1]; rg = Range(v, lo0, hi0)
        return [("key bounds", kok(IVAL(c[0]))), ("root is a node", z3.Implies(t != NULL, z3.And(rg.has(t), bounds_(lo0, hi0)[1])))] + \
               [(l, imp(t != NULL, f)) for l, f in tree(rg)]
    def frame(c, rg):
        S, S0 = c.S, c.S0; out = []
        for f in (L, R, V):
            m, m0 = S.m(f), S0.m(f)
            if m.eq(m0): continue
            out.append(("nodes outside the range keep %s" % f, FG(S, [X], z3.Implies(z3.And(S0.live(X), z3.Not(rg.has(X))), sel(m, X) == sel(m0, X)), ACT(S, X))))
        return out
    def obj(c):
        n = [p for p in c.S.ghost.get("_new", ()) if str(p).startswith("local_")]
        return n[0]
    def cur(c):
        t = c.local("t"); S = c.S; p = sel(S.g("spos"), t)
        a, b = p - nv(S, S.f(t, L)), p + 1 + nv(S, S.f(t, R))
        v0, lo0, hi0 = rng0(c)
        v = View(S, S.g("spL"), S.g("spR"), a, b)
        for x in (t, v.left(t), v.right(t)): S.assume(ACT(S, x))
        return v, Range(v, lo0, hi0), t, a, b
    def spine(c, v, rg, t, a, b, nulls):
        N = obj(c); l, r = c.local("l"), c.local("r"); S = c.S; i = IVAL(c[0])
        hl, hr = S.f(N, R), S.f(N, L)
        for x in (l, r, hl, hr): S.assume(ACT(S, x))
        return [
            ("root of the middle tree", z3.And(rg.has(t), z3.Not(v.inL(t)), z3.Not(v.inR(t)), v.lo(t) == a, v.hi(t) == b)),
            ("left spine", FG(S, [X], z3.Implies(v.inL(X), z3.And(rg.has(X), lt(v.p(X), a), z3.Not(v.inR(X)))), v.inL(X), kids=(v.left, v.right))),
            ("right spine", FG(S, [X], z3.Implies(v.inR(X), z3.And(rg.has(X), le(b, v.p(X)), z3.Not(v.inL(X)))), v.inR(X), kids=(v.left, v.right))),
            ("left spine links", FG(S, [X], z3.Implies(v.inL(X), z3.If(X == l, a == v.p(X) + 1, z3.And(v.inL(v.right(X)), v.lo(v.right(X)) == v.p(X) + 1))), ACT(S, X), kids=(v.left, v.right))),
            ("right spine links", FG(S, [X], z3.Implies(v.inR(X), z3.If(X == r, b == v.p(X), z3.And(v.inR(v.left(X)), v.hi(v.left(X)) == v.p(X)))), ACT(S, X), kids=(v.left, v.right))),
            ("end of the left spine", z3.If(l == N, z3.And(FA([X], z3.Not(v.inL(X)), v.inL(X)), a == rg.lo0), z3.And(v.inL(l), v.key(l) < i, v.inL(hl), v.lo(hl) == rg.lo0))),
            ("end of the right spine", z3.If(r == N, z3.And(FA([X], z3.Not(v.inR(X)), v.inR(X)), b == rg.hi0), z3.And(v.inR(r), i < v.key(r), v.inR(hr), v.hi(hr) == rg.hi0))),
            ("the dummy node is not in the tree", z3.And(N != NULL, z3.Not(z3.Select(c.S0.g("live"), N)))),
        ] + ([("spines are cut off", z3.And(S.f(l, R) == NULL, S.f(r, L) == NULL))] if nulls else [])
    def inv(c):
        v, rg, t, a, b = cur(c)
        return spine(c, v, rg, t, a, b, False) + tree(rg, t) + frame(c, rg) + [
            ("sizes of the trees split off", z3.And(IVAL(c.local("l_size")) == a - rg.lo0, IVAL(c.local("r_size")) == rg.hi0 - b))]
    def ghost(c):
        ol, nl = c.ex.local(c.frame, c.SI, "l"), c.local("l"); orr, nr = c.ex.local(c.frame, c.SI, "r"), c.local("r"); S = c.S
        return {"spL": z3.If(ol == nl, S.g("spL"), z3.Store(S.g("spL"), nl, True)), "spR": z3.If(orr == nr, S.g("spR"), z3.Store(S.g("spR"), nr, True))}
    def final(c):
        """what the search loop established about t"""
        v, rg, t, a, b = cur(c); i = IVAL(c[0])
        return [("t is the key or its neighbour", z3.And(z3.Or(v.key(t) <= i, a == v.p(t)), z3.Or(i <= v.key(t), b == v.p(t) + 1))),
                ("size of the root", v.val(t) == rg.hi0 - rg.lo0)]
    def inv2(c):
        v, rg, t, a, b = cur(c); S = c.S; y = c.local("y"); S.assume(ACT(S, y))
        return spine(c, v, rg, t, a, b, True) + tree(rg, t) + frame(c, rg) + final(c) + [
            ("cursor", z3.Or(y == NULL, z3.And(v.inL(y), IVAL(c.local("l_size")) == v.p(t) - v.lo(y)))),
            ("right tree size", IVAL(c.local("r_size")) == rg.hi0 - v.p(t) - 1),
            ("left spine sizes so far", FG(S, [X], z3.Implies(z3.And(v.inL(X), z3.Or(y == NULL, lt(v.lo(X), v.lo(y)))), v.val(X) == v.p(t) - v.lo(X)), v.inL(X)))]
    def inv3(c):
        v, rg, t, a, b = cur(c); S = c.S; y = c.local("y"); S.assume(ACT(S, y))
        return spine(c, v, rg, t, a, b, True) + tree(rg, t) + frame(c, rg) + final(c) + [
            ("cursor", z3.Or(y == NULL, z3.And(v.inR(y), IVAL(c.local("r_size")) == v.hi(y) - v.p(t) - 1))),
            ("left spine sizes", FG(S, [X], z3.Implies(v.inL(X), v.val(X) == v.p(t) - v.lo(X)), v.inL(X))),
            ("right spine sizes so far", FG(S, [X], z3.Implies(z3.And(v.inR(X), z3.Or(y == NULL, lt(v.hi(y), v.hi(X)))), v.val(X) == v.hi(X) - v.p(t) - 1), v.inR(X)))]
    def same(c):
        v, rg, t, a, b = cur(c); o, _, _, _, _ = cur(Ctx(c.ex, c.S0, c.SI, c.args, frame=c.frame)); S = c.S
        return [("the step keeps all intervals", FG(S, [X], z3.Implies(rg.has(X), z3.And(v.lo(X) == o.lo(X), v.hi(X) == o.hi(X))), v.lo(X), v.hi(X), kids=(v.left, v.right)))]
    def var1(c):
        v, rg, t, a, b = cur(c); return b - a
    def var2(c):
        v, rg, t, a, b = cur(c); S = c.S; y = c.local("y"); return z3.If(y == NULL, 0, rg.hi0 - v.lo(y))
    def var3(c):
        v, rg, t, a, b = cur(c); S = c.S; y = c.local("y"); return z3.If(y == NULL, 0, v.hi(y) - rg.lo0)
    def post(c):
        v0, lo0, hi0 = rng0(c); v = View(c.S); rg = Range(v, lo0, hi0); i = IVAL(c[0]); r = c.ret; t = c[1]
        nn = lambda l, f: (l, imp(t != NULL, f))
        return [("a root unless the tree was empty", (r == NULL) == (t == NULL)),
                nn("the root covers the same range", z3.And(rg.has(r), v.lo(r) == lo0, v.hi(r) == hi0))] + \
               [nn(l, f) for l, f in tree(rg)] + [
                nn("smaller positions have smaller keys", FA([X], z3.Implies(z3.And(rg.has(X), lt(v.p(X), v.p(r))), v.key(X) < i), v.p(X))),
                nn("larger positions have larger keys", FA([X], z3.Implies(z3.And(rg.has(X), lt(v.p(r), v.p(X))), i < v.key(X)), v.p(X))),
                ] + [(l, Dual(z3.If(t == NULL, c.S.m(f) == c.S0.m(f), g.hyp), z3.If(t == NULL, c.S.m(f) == c.S0.m(f), g.goal))) for f, (l, g) in zip((L, R, V), framepost(c, rg))]
    def framepost(c, rg):
        S, S0 = c.S, c.S0
        ext = [] if c.caller else [S0.live(X)]
        return [("nodes outside the range keep %s" % f, FG(S, [X], z3.Implies(z3.And(z3.Not(rg.has(X)), *ext), sel(S.m(f), X) == sel(S0.m(f), X)), ACT(S, X))) for f in (L, R, V)]
    con = Contract(fn, pre=pre, post=post, modifies=[L, R, V, "ghost:spL", "ghost:spR"],
                   loops={fn: {0: {"inv": inv, "variant": var1, "ghost": ghost, "ghost_init": lambda c: {"spL": EMPTY, "spR": EMPTY}},
                               1: {"inv": inv2, "variant": var2, "hints": same}, 2: {"inv": inv3, "variant": var3, "hints": same}}})
    return con

def axioms(): return [IVAL(bv(n)) == n for n in (0, 1, -1)]
def contracts():
    return {"splay": c_splay()}
