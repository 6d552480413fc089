"""Cache sizes on the command line (bin/cachesim/cli_parser.c)."""
import re
import z3
from vcg.vcg import *

FILE = "bin/cachesim/cli_parser.c"
I64 = Ty("int", w=64)
BV8 = z3.BitVecSort(8)
ROW = z3.ArraySort(BV64, BV8)
DEC = z3.Function("strtoul_value", ROW, z3.IntSort(), BV64)      # value of the leading number of a text, per base
GH = {"slen": z3.ArraySort(PtrS, BV64)}
I = z3.Const("si", BV64)
def bv(n, w=64): return z3.BitVecVal(n, w)
def row(S, s): return z3.Select(S.m("arr:i8"), s)
def ch(r, i): return z3.Select(r, i)
def isin(b, chars): return z3.Or(*[b == bv(ord(x), 8) for x in chars])
def lower(b): return z3.If(z3.And(z3.UGE(b, bv(65, 8)), z3.ULE(b, bv(90, 8))), b + 32, b)

def literal(ex, p):
    """the text of a string constant of the program"""
    t = addr_term(p)
    nm = t.decl().name() if z3.is_app(t) else ""
    g = ex.curmod.globals.get(nm.lstrip("@"))
    m = re.search(r'c"((?:[^"\\]|\\[0-9A-Fa-f]{2})*)\\00"', g or "")
    if not m: raise Unsupported("text of %s" % t)
    return re.sub(r"\\([0-9A-Fa-f]{2})", lambda x: chr(int(x.group(1), 16)), m.group(1))
def pos(p):
    """(base, index) of a char pointer"""
    if p.plain(): return p.base, bv(0)
    if p.root == "arr" and len(p.idx) == 1 and p.off == 0: return p.base, p.idx[0]
    raise Unsupported("char pointer %s" % p)
def whole(S, p):
    b, i = pos(p)
    if not (z3.is_bv_value(i) and i.as_long() == 0): raise Unsupported("string function in the middle of a text")
    return b
def x_strlen(ex, S, a, rty, ins): return [(S, z3.Select(S.g("slen"), whole(S, a[0])))]
def match(r, n, i, lit): return z3.And(z3.ULE(i, n), z3.ULE(bv(len(lit)), n - i), *[lower(ch(r, i + k)) == bv(ord(x), 8) for k, x in enumerate(lit.lower())])
def x_strcasestr(ex, S, a, rty, ins):
    s = whole(S, a[0]); lit = literal(ex, a[1]); r = row(S, s); n = z3.Select(S.g("slen"), s)
    S1, S2 = S.copy(), S.copy(); k = fresh("found", BV64)
    S1.assume(match(r, n, k, lit))
    S2.assume(z3.ForAll([I], z3.Not(match(r, n, I, lit)), patterns=[ch(r, I)]))
    return [(S1, Ptr(s, "arr", ((0, "i8"),), 0, (k,))), (S2, Ptr(NULL))]
def eq(r, n, lit): return z3.And(n == len(lit), *[lower(ch(r, bv(k))) == bv(ord(x), 8) for k, x in enumerate(lit.lower())])
def x_strcasecmp(ex, S, a, rty, ins):
    s = whole(S, a[0]); lit = literal(ex, a[1]); e = eq(row(S, s), z3.Select(S.g("slen"), s), lit); d = fresh("cmp", z3.BitVecSort(32))
    S.assume((d == 0) == e); return [(S, d)]
def x_strto(ex, S, a, rty, ins):
    if not (a[1].plain() and z3.is_app(a[1].base) and a[1].base.eq(NULL)): raise Unsupported("strto* with an end pointer")
    b = z3.simplify(z3.BV2Int(a[2]))
    return [(S, DEC(row(S, whole(S, a[0])), b))]
EXT = {"strlen": x_strlen, "strcasestr": x_strcasestr, "strcasecmp": x_strcasecmp}
for _f in ("strtoul", "strtol", "strtoull", "strtoll"): EXT[_f] = EXT["__isoc23_" + _f] = x_strto

UNITS = [("", 0), ("kK", 10), ("mM", 20), ("gG", 30), ("tT", 40)]
def c_conv():
    fn = "conv_size_str_to_byte_ul"
    m, w, n = z3.Const("the_digits_end", BV64), z3.Const("the_digits_start", BV64), None
    def unit(c):
        r = row(c.S0, c[0]); n = z3.Select(c.S0.g("slen"), c[0]); return r, n
    def pre(c):
        r, n = unit(c); d = DEC(r, z3.IntVal(10)); u = ch(r, m)
        return [("text", z3.And(c[0] != NULL, c.S.live(c[0]), z3.ULE(1, n), z3.ULT(n, bv(1 << 20)), ch(r, n) == 0)),
                ("blanks, then digits, then an optional unit", z3.And(z3.ULT(w, m), z3.Or(m == n, z3.And(isin(u, "kKmMgGtT"), z3.Or(n == m + 1, z3.And(n == m + 2, isin(ch(r, m + 1), "bB"))))))),
                ("blanks", z3.ForAll([I], z3.Implies(z3.ULT(I, w), ch(r, I) == 32), patterns=[ch(r, I)])),
                ("digits", z3.ForAll([I], z3.Implies(z3.And(z3.ULE(w, I), z3.ULT(I, m)), z3.And(z3.ULE(bv(48, 8), ch(r, I)), z3.ULE(ch(r, I), bv(57, 8)))), patterns=[ch(r, I)])),
                ("something is there", z3.And(ch(r, w) == ch(r, w), ch(r, n - 1) == ch(r, n - 1), z3.ULT(m, n + 1))),
                ("the number and the size fit 63 bits", z3.And(*[z3.Implies(z3.And(m != n, isin(u, cs)) if cs else m == n, z3.ULE(d, bv((1 << 63 - k) - 1))) for cs, k in UNITS]))]
    def post(c):
        r, n = unit(c); d = DEC(r, z3.IntVal(10)); u = ch(r, m)
        return [("the size is the number times the unit%s" % (" " + cs[1] if cs else ""), z3.Implies(z3.And(m != n, isin(u, cs)) if cs else m == n, c.ret == d << k)) for cs, k in UNITS]
    return Contract(fn, pre=pre, post=post)

# the comma-separated list: the k-th part is the text PART(s, k), there are NPART(s) of them
PART = z3.Function("part", PtrS, BV64, PtrS); NPART = z3.Function("nparts", PtrS, BV64)
DOT = z3.Function("has_dot", PtrS, z3.BoolSort()); CONV = z3.Function("size_of_text", PtrS, BV64); ATOF = z3.Function("atof_value", PtrS, FltS)
WSSO, WSSB = z3.Function("wss_objects", PtrS, BV64), z3.Function("wss_bytes", PtrS, BV64)
SIZES = "arguments.cache_sizes:[i64]"
GH.update({"tokof": PtrS, "tokix": BV64})
def x_strtok(ex, S, a, rty, ins):
    if literal(ex, a[1]) != ",": raise Unsupported("strtok with other delimiters")
    p = a[0]
    null = p.plain() and z3.is_app(p.base) and p.base.eq(NULL)
    s = S.g("tokof") if null else whole(S, p); i = S.g("tokix") if null else bv(0)
    S.ghost["tokof"] = s; S.ghost["tokix"] = ex.named(S, "tokix", i + 1)
    r = fresh("part", PtrS)
    S.assume(r == z3.If(z3.ULT(i, NPART(s)), PART(s, i), NULL))
    return [(S, Ptr(r))]
def x_strchr(ex, S, a, rty, ins):
    c = z3.simplify(a[1])
    if not (z3.is_bv_value(c) and c.as_long() == 46): raise Unsupported("strchr for another character")
    r = fresh("dot", PtrS); S.assume((r != NULL) == DOT(whole(S, a[0]))); return [(S, Ptr(r))]
def x_atof(ex, S, a, rty, ins): return [(S, ATOF(whole(S, a[0])))]
EXT.update({"strtok": x_strtok, "strchr": x_strchr, "atof": x_atof})

def share(ex, w, t):
    f = ex.uf("sitofp64", FltS, w); m = ex.uf("fmul", FltS, f, ATOF(t))
    return ex.uf("fptoui64", BV64, m)
def size_of(c, S, s, k):
    """what the k-th part of the list stands for"""
    a = c[1]; rd = S.f(a, "arguments.reader"); t = PART(s, k); w = z3.If((S.f(a, "arguments.ignore_obj_size") & 1) == 1, WSSO(rd), WSSB(rd))
    return z3.If(DOT(t), share(c.ex, w, t), CONV(t))
def c_sizes():
    fn = "conv_cache_sizes"
    N = "arguments.n_cache_size"
    K = z3.Const("sk", BV64)
    def arr(S, a): return z3.Select(S.m(SIZES), a)
    def pre(c):
        s, n = c[0], NPART(c[0]); rd = c.S.f(c[1], "arguments.reader")
        return [("text and arguments", z3.And(s != NULL, c[1] != NULL, c.S.live(s), c.S.live(c[1]), c.S.live(rd), s != c[1])), ("between 1 and 128 parts", z3.And(z3.ULE(1, n), z3.ULE(n, 128))),
                ("parts", z3.ForAll([K], PART(s, K) != NULL, patterns=[PART(s, K)])), ("working set", z3.And(WSSO(rd) > 0, WSSB(rd) > 0)),
                ("the sizes are set, or there are several", z3.Or(n != 1, size_of(c, c.S, s, bv(0)) != 0))]
    def sofar(c, k):
        a = c[1]; return [("sizes so far", z3.ForAll([K], z3.Implies(z3.ULT(K, k), z3.Select(arr(c.S, a), K) == size_of(c, c.S0, c[0], K)), patterns=[z3.Select(arr(c.S, a), K)])),
                ("number of sizes", z3.SignExt(32, c.S.f(a, N)) == k), ("other settings unchanged", z3.And(c.S.f(a, "arguments.ignore_obj_size") == c.S0.f(a, "arguments.ignore_obj_size"), c.S.f(a, "arguments.reader") == c.S0.f(a, "arguments.reader"))),
                ("other arguments unchanged", z3.ForAll([X], z3.Implies(X != a, z3.And(z3.Select(c.S.m(SIZES), X) == z3.Select(c.S0.m(SIZES), X), c.S.f(X, N) == c.S0.f(X, N))), patterns=[z3.Select(c.S.m(SIZES), X), c.S.f(X, N)]))]
    X = z3.Const("sx", PtrS)
    def inv(c):
        s = c[0]; k = c.S.g("tokix") - 1; rd = c.S0.f(c[1], "arguments.reader"); w = c.local("wss"); t = c.local("token")
        return [("cursor", z3.And(c.S.g("tokof") == s, z3.ULE(k, NPART(s)), t == z3.If(z3.ULT(k, NPART(s)), PART(s, k), NULL))),
                ("working set size", z3.Or(w == 0, w == z3.If((c.S0.f(c[1], "arguments.ignore_obj_size") & 1) == 1, WSSO(rd), WSSB(rd))))] + sofar(c, k)
    def post(c): return sofar(c, NPART(c[0])) + [("returns the number of sizes", z3.SignExt(32, c.ret) == NPART(c[0]))]
    return Contract(fn, pre=pre, post=post, modifies=[SIZES, N, "ghost:tokof", "ghost:tokix"],
                    loops={fn: {0: {"inv": inv, "variant": lambda c: NPART(c[0]) + 1 - c.S.g("tokix")}}})
def callees():
    """what conv_cache_sizes relies on"""
    conv = Contract("conv_size_str_to_byte_ul", post=lambda c: [("value", c.ret == CONV(c[0]))]); conv.name = "conv_size_str_to_byte_ul"
    wss = Contract("cal_working_set_size", pre=lambda c: [("reader", c.S.live(c[0]))],
                   post=lambda c: [("working set", z3.And(c.load(c.S, 1, I64) == WSSO(c[0]), c.load(c.S, 2, I64) == WSSB(c[0])))], modifies=[("arg", 1, I64), ("arg", 2, I64)], trusted=True)
    auto = Contract("set_cache_size", pre=lambda c: [("only for the automatic sizes", z3.BoolVal(False))], trusted=True)
    return {"conv_size_str_to_byte_ul": conv, "cal_working_set_size": wss, "set_cache_size": auto}
def contracts(): return {"conv_size_str_to_byte_ul": c_conv(), "conv_cache_sizes": c_sizes()}
