"""Abstract view of the intrusive doubly linked lists (cacheObj.c) and contracts
for the list primitives.  A list is the set of its members plus a rank for each;
the sequence from head to tail is the members by decreasing rank."""
import z3
from vcg.vcg import *

GHOSTS = {"in": z3.ArraySort(PtrS, SetS), "rk": z3.ArraySort(PtrS, z3.ArraySort(PtrS, z3.IntSort())),
          "at": z3.ArraySort(PtrS, z3.ArraySort(z3.IntSort(), PtrS)),
          "live": SetS}
P, N = "cache_obj.queue.prev", "cache_obj.queue.next"
X = z3.Const("x", PtrS); Y = z3.Const("y", PtrS)

def lid(head):
    if head.dims: raise Unsupported("list head inside an array")
    return "%s+%d" % (head.root, head.off)

class LV:
    """view of one list in one state"""
    def __init__(s, ex, S, head, tail, b=None):
        s.ex, s.S = ex, S
        s.id = lid(head); s.owner = head.base
        s.hd = ex.load(S, head, PTR, check=False).base
        s.tl = ex.load(S, tail, PTR, check=False).base
        s.IN = S.g("in@" + s.id); s.RK = S.g("rk@" + s.id); 
        s.inn = z3.Select(s.IN, s.owner); s.rk = z3.Select(s.RK, s.owner)
        s.nx = S.m(N); s.pv = S.m(P)
    def has(s, x): return z3.Select(s.inn, x)
    def rank(s, x): return z3.Select(s.rk, x)
    def next(s, x): return z3.Select(s.nx, x)
    def prev(s, x): return z3.Select(s.pv, x)
    def setin(s, x, v): return z3.Store(s.IN, s.owner, z3.Store(s.inn, x, v))
    def setrk(s, x, r): return z3.Store(s.RK, s.owner, z3.Store(s.rk, x, r))

def dll(L, nm="list"):
    """representation invariant: the pointers realise the sequence"""
    h, t, S = L.hd, L.tl, L.S
    pt = [L.has(X)]
    F = lambda b, pat=pt: z3.ForAll([X], z3.Implies(L.has(X), b), patterns=pat)
    return [
        (nm + " head/tail null together", (h == NULL) == (t == NULL)),
        (nm + " empty iff head null", z3.ForAll([X], z3.Implies(h == NULL, z3.Not(L.has(X))), patterns=pt)),
        (nm + " head is a member", z3.Implies(h != NULL, z3.And(L.has(h), L.prev(h) == NULL))),
        (nm + " tail is a member", z3.Implies(t != NULL, z3.And(L.has(t), L.next(t) == NULL))),
        (nm + " members are live objects", F(z3.And(X != NULL, S.live(X)))),
        (nm + " next link", F(z3.If(L.next(X) == NULL, X == t,
             z3.And(L.has(L.next(X)), L.prev(L.next(X)) == X, L.rank(L.next(X)) < L.rank(X))))),
        (nm + " prev link", F(z3.If(L.prev(X) == NULL, X == h,
             z3.And(L.has(L.prev(X)), L.next(L.prev(X)) == X, L.rank(L.prev(X)) > L.rank(X))))),
        (nm + " head first, tail last", F(z3.And(L.rank(X) <= L.rank(h), L.rank(X) >= L.rank(t)))),
        (nm + " adjacency (nothing between neighbours)", z3.ForAll([X, Y], z3.Implies(z3.And(L.has(X), L.has(Y), L.rank(Y) < L.rank(X)),
             z3.And(L.rank(Y) <= L.rank(L.next(X)), L.rank(X) >= L.rank(L.prev(Y)))), patterns=[z3.MultiPattern(L.has(X), L.has(Y))])),
        (nm + " ranks distinct", z3.ForAll([X, Y], z3.Implies(z3.And(L.has(X), L.has(Y), L.rank(X) == L.rank(Y)), X == Y),
             patterns=[z3.MultiPattern(L.has(X), L.has(Y))])),
    ]

def cell(root):
    def mk(ex, S, nm):
        b = z3.Const("cell_" + root, PtrS)
        S.assume(S.live(b))
        return Ptr(b, root)
    return mk

def frame_links(c, extra=()):
    """prev/next of objects outside the list are untouched"""
    L0 = LV(c.ex, c.S0, c.raw(0), c.raw(1))
    o = c[2]
    n1, p1 = c.S.m(N), c.S.m(P); n0, p0 = c.S0.m(N), c.S0.m(P)
    return [("links of objects outside the list unchanged",
             z3.ForAll([X], z3.Implies(z3.And(z3.Not(L0.has(X)), X != o), z3.And(z3.Select(n1, X) == z3.Select(n0, X), z3.Select(p1, X) == z3.Select(p0, X))),
                       patterns=[z3.Select(n1, X), z3.Select(p1, X)]))]

def L0(c): return LV(c.ex, c.S0, c.raw(0), c.raw(1))
def L1(c): return LV(c.ex, c.S, c.raw(0), c.raw(1))
def gin(c): return "in@" + lid(c.raw(0))
def grk(c): return "rk@" + lid(c.raw(0))

MODS = [("arg", 0), ("arg", 1), N, P]
SH = {0: cell("cellH"), 1: cell("cellT")}

def _cells_ok(c):
    h, t = c.raw(0), c.raw(1)
    return [("head and tail cells valid", z3.And(c.S.live(h.base) if not isinstance(h, Loc) else z3.BoolVal(True)))]

def insert_pre(c):
    L = L0(c)
    return _cells_ok(c) + dll(L) + [("object is live and not in the list", z3.And(c[2] != NULL, c.S.live(c[2]), z3.Not(L.has(c[2]))))]

def member_pre(c):
    L = L0(c)
    return _cells_ok(c) + dll(L) + [("object is in the list", L.has(c[2]))]

def rk_front(c):
    L = L0(c)
    return L.setrk(c[2], z3.If(L.hd == NULL, z3.IntVal(0), L.rank(L.hd) + 1))
def rk_back(c):
    L = L0(c)
    return L.setrk(c[2], z3.If(L.hd == NULL, z3.IntVal(0), L.rank(L.tl) - 1))

def prepend():
    return Contract("prepend_obj_to_head", shapes=SH, pre=insert_pre, modifies=MODS,
        ghost_post={gin: lambda c: L0(c).setin(c[2], True), grk: rk_front},
        post=lambda c: dll(L1(c)) + frame_links(c) + [("new head", L1(c).hd == c[2]), ("tail kept unless empty", z3.Implies(L0(c).tl != NULL, L1(c).tl == L0(c).tl))])
def append():
    return Contract("append_obj_to_tail", shapes=SH, pre=insert_pre, modifies=MODS,
        ghost_post={gin: lambda c: L0(c).setin(c[2], True), grk: rk_back},
        post=lambda c: dll(L1(c)) + frame_links(c) + [("new tail", L1(c).tl == c[2]), ("head kept unless empty", z3.Implies(L0(c).hd != NULL, L1(c).hd == L0(c).hd))])
def move_head():
    return Contract("move_obj_to_head", shapes=SH, pre=member_pre, modifies=MODS,
        ghost_post={grk: lambda c: z3.If(c[2] == L0(c).hd, L0(c).RK, rk_front(c))},
        post=lambda c: dll(L1(c)) + frame_links(c) + [("object is head", L1(c).hd == c[2])])
def move_tail():
    return Contract("move_obj_to_tail", shapes=SH, pre=member_pre, modifies=MODS,
        ghost_post={grk: lambda c: z3.If(c[2] == L0(c).tl, L0(c).RK, rk_back(c))},
        post=lambda c: dll(L1(c)) + frame_links(c) + [("object is tail", L1(c).tl == c[2])])
def remove():
    return Contract("remove_obj_from_list", shapes=SH, pre=member_pre, modifies=MODS,
        ghost_post={gin: lambda c: L0(c).setin(c[2], False)},
        post=lambda c: dll(L1(c)) + frame_links(c) + [
            ("removed object unlinked", z3.And(L1(c).next(c[2]) == NULL, L1(c).prev(c[2]) == NULL)),
            ("head moves only if removed", z3.Implies(L0(c).hd != c[2], L1(c).hd == L0(c).hd)),
            ("tail moves only if removed", z3.Implies(L0(c).tl != c[2], L1(c).tl == L0(c).tl))])

def contracts():
    return {c.fn: c for c in (prepend(), append(), move_head(), move_tail(), remove())}
