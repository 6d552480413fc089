"""Contracts of the binary trace readers (C13) and of reader navigation (C14).

A trace is the byte array a reader has mapped (ghost `alen`: its length).  Positions are
byte offsets; REC(o) are the bytes of the record at o.  NEXT(o) is the first record
at or after o that the format delivers (records of size zero may be skipped)."""
import z3
from vcg.vcg import *
from vcg.small import uf

BV32 = z3.BitVecSort(32)
ROW = z3.ArraySort(BV64, z3.BitVecSort(8))
NONE = z3.BitVecVal(-1, 64)
LIM = 1 << 48                      # assumed: traces are smaller than 2^48 bytes
GH = {"alen": z3.ArraySort(PtrS, BV64)}
ALN = z3.Function("ALN", BV64, BV64, BV64, z3.BoolSort())       # ALN(start, item, o): o is start + a multiple of item
def bv(n, w=64): return z3.BitVecVal(n, w)

def enumval(prog, name):
    for d in prog.di:
        for r in d.nodes.values():
            if "DIEnumerator(" in r and '"%s"' % name in r:
                import re
                return int(re.search(r"value: (-?\d+)", r).group(1))
    raise SpecMismatch("enumerator %s not found" % name)

class R:
    """what a state says about a reader"""
    def __init__(s, S, r):
        g = lambda f: S.f(r, "reader." + f)
        s.S, s.r = S, r; s.off = g("mmap_offset"); s.fs = g("file_size"); s.item = g("item_size"); s.mapped = g("mapped_file")
        s.start = z3.SignExt(32, g("trace_start_offset")); s.type = g("trace_type"); s.fmt = g("trace_format"); s.nread = g("n_read_req"); s.total = g("n_total_req")
        s.left = g("n_req_left"); s.cap = g("cap_at_n_req"); s.sampler = g("sampler"); s.skip0 = g("ignore_size_zero_req"); s.dir = g("read_direction"); s.nosize = g("ignore_obj_size")
        s.row = z3.Select(S.m("arr:i8"), s.mapped); s.zstd = g("is_zstd_file"); s.params = g("reader_params")
def bytes_at(row, o, n): return le_bytes(row, o, n)
def ext(v, signed, w=64):
    d = w - v.size()
    return v if d == 0 else (z3.SignExt if signed else z3.ZeroExt)(d, v)
MAXR = bv((1 << 63) - 1)
def next_of(v): return z3.If(z3.Or(v == -1, v == MAXR), MAXR, v)

class Fmt:
    """layout of a fixed-size record, as documented at the top of the format's header file"""
    def __init__(s, name, fn, item, time=None, id=(4, 8), size=(12, 4), next=None, skip=None, typ=None, setup=None, kv=None, notime=False):
        s.name, s.fn, s.item, s.time, s.id, s.size, s.next, s.skip, s.typ, s.setup, s.kv, s.notime = name, fn, item, time, id, size, next, skip, typ, setup, kv, notime
    def rec_time(s, row, o): return bv(0) if s.time is None else ext(bytes_at(row, o + s.time, 4), False)
    def rec_id(s, row, o): return ext(bytes_at(row, o + s.id[0], s.id[1]), False)
    def val(s, row, o):
        """value size of the key/value formats"""
        if s.kv == "packed": return ext(z3.Extract(21, 0, bytes_at(row, o + 12, 4)), False)
        return ext(bytes_at(row, o + 14, 4), False)
    def rec_size(s, row, o):
        if s.kv == "packed":
            w = bytes_at(row, o + 12, 4); return ext(z3.ZeroExt(22, z3.Extract(31, 22, w)) + z3.ZeroExt(10, z3.Extract(21, 0, w)), False)
        if s.kv == "sys": return ext(bytes_at(row, o + 12, 2), False) + ext(bytes_at(row, o + 14, 4), False)
        if s.size is None: return bv(1)
        return ext(bytes_at(row, o + s.size[0], s.size[1]), False)
    def rec_op(s, row, o):
        if s.kv == "packed": return ext(z3.Extract(31, 24, bytes_at(row, o + 16, 4)), False, 32)
        return ext(bytes_at(row, o + 18, 2), False, 32)
    def rec_next(s, row, o): return next_of(bytes_at(row, o + s.next, 8))
    def parts(s): return (["time"] if not s.notime else []) + ["id", "size"] + (["next"] if s.next is not None else [])
    def rec(s, part, row, o): return z3.Function("REC_%s_%s" % (s.name, part), ROW, BV64, BV64)(row, o)
    def rec_def(s, row, o):
        """definition of the decoded record, at the ground position o"""
        return [s.rec(p, row, o) == getattr(s, "rec_" + p)(row, o) for p in s.parts()]
    def skips(s, V, row, o):
        """is the record at o one the reader passes over?"""
        fwd = V.dir == 0; ig = on(V.skip0)
        if s.skip is None: return z3.BoolVal(False)
        if s.skip == "kv": return z3.And(ig, fwd, s.val(row, o) == 0, z3.Or(s.rec_op(row, o) == 1, s.rec_op(row, o) == 2))
        z = s.rec_size(row, o) == 0
        return z3.And(ig, z) if s.skip == "always" else z3.And(ig, fwd, z)
    def NEXT(s, V, o):
        if s.skip is None: return z3.If(z3.UGT(o + s.item, V.fs), NONE, o)
        f = z3.Function("NEXT_" + s.name, ROW, BV64, z3.BoolSort(), z3.BoolSort(), BV64, BV64)
        return f(V.row, V.fs, on(V.skip0), V.dir == 0, o)
    def unfold(s, V, o):
        """definition of NEXT, at the ground position o"""
        if s.skip is None: return z3.BoolVal(True)
        return s.NEXT(V, o) == z3.If(z3.UGT(o + s.item, V.fs), NONE, z3.If(s.skips(V, V.row, o), s.NEXT(V, o + s.item), o))

G = dict(time=0, next=None, skip="fwd")
FORMATS = [
    Fmt("general", "oracleGeneralBin", 24, time=0, next=16, skip="fwd", typ="ORACLE_GENERAL_TRACE", setup="oracleGeneralBin_setup"),
    Fmt("generalNS", "oracleGeneralOpNS", 27, time=0, next=19, skip="fwd", typ="ORACLE_GENERALOPNS_TRACE", setup="oracleGeneralOpNS_setup"),
    Fmt("III", "standardBinIII", 12, time=0, id=(4, 4), size=(8, 4), typ="STANDARD_III_TRACE", setup="standardBinIII_setup"),
    Fmt("IQI", "standardBinIQI", 16, time=0, typ="STANDARD_IQI_TRACE", setup="standardBinIQI_setup"),
    Fmt("IQQ", "standardBinIQQ", 20, time=0, size=(12, 8), typ="STANDARD_IQQ_TRACE", setup="standardBinIQQ_setup"),
    Fmt("IQIBH", "standardBinIQIBH", 19, time=0, typ="STANDARD_IQIBH_TRACE", setup="standardBinIQIBH_setup"),
    Fmt("twr", "twr", 20, time=0, kv="packed", skip="kv", typ="TWR_TRACE", setup="twrReader_setup"),
    Fmt("twrNS", "twrNS", 22, time=0, kv="packed", skip="kv", typ="TWRNS_TRACE", setup="twrNSReader_setup"),
    Fmt("sysTwrNS", "oracleSysTwrNSBin", 34, time=0, kv="sys", next=26, skip="kv", typ="ORACLE_SYS_TWRNS_TRACE", setup="oracleSysTwrNSBin_setup"),
    Fmt("simTwrNS", "oracleSimTwrNSBin", 30, time=0, next=22, skip="fwd", typ="ORACLE_SIM_TWRNS_TRACE", setup="oracleSimTwrNSBin_setup"),
    Fmt("oCF1", "oracleCF1", 49, time=0, size=(12, 8), next=32, skip="fwd", typ="ORACLE_CF1_TRACE", setup="oracleCF1_setup"),
    Fmt("cf1", "cf1", 41, time=0, size=(12, 8), skip="fwd", typ="CF1_TRACE", setup="cf1Reader_setup"),
    Fmt("akamai", "akamai", 22, time=0, skip="fwd", typ="AKAMAI_TRACE", setup="akamaiReader_setup"),
    Fmt("oakamai", "oracleAkamai", 30, time=0, next=22, skip="fwd", typ="ORACLE_AKAMAI_TRACE", setup="oracleAkamai_setup"),
    Fmt("wiki16u", "wiki2016u", 14, id=(0, 8), size=(8, 4), skip="always", typ="WIKI16u_TRACE", setup="wiki2016uReader_setup"),
    Fmt("wiki19u", "wiki2019u", 18, time=0, skip="always", typ="WIKI19u_TRACE", setup="wiki2019uReader_setup"),
    Fmt("wiki19t", "wiki2019t", 16, time=0, skip="fwd", typ="WIKI19t_TRACE", setup="wiki2019tReader_setup"),
    Fmt("owiki16u", "oracleWiki2016u", 22, id=(0, 8), size=(8, 4), next=14, skip="fwd", typ="ORACLE_WIKI16u_TRACE", setup="oracleWiki2016uReader_setup"),
    Fmt("owiki19u", "oracleWiki2019u", 26, time=0, next=18, skip="fwd", typ="ORACLE_WIKI19u_TRACE", setup="oracleWiki2019uReader_setup"),
    Fmt("valpin", "valpin", 8, id=(0, 8), size=None, notime=True, typ="VALPIN_TRACE", setup="valpinReader_setup"),
]
BY = {f.name: f for f in FORMATS}

RF = ["mmap_offset"]
REQ = ["clock_time", "hv", "obj_id", "obj_size", "ttl", "op", "next_access_vtime", "ns", "content_type", "tenant_id", "bucket_id", "age", "hostname", "extension", "colo", "n_level", "n_param", "method", "valid", "key_size:i64"]
def on(b): return z3.Extract(0, 0, b) == 1          # a bool field is set
def reqmods(prog): return ["request." + f for f in REQ]
def binmods(con_prog):
    return ["reader.mmap_offset"] + reqmods(con_prog)

def shape(S, r, item=None):
    V = R(S, r)
    k = [("reader live, trace mapped", z3.And(r != NULL, S.live(r), V.mapped != NULL, S.live(V.mapped), V.mapped != r)),
         ("the mapping covers the file", z3.And(z3.Select(S.g("alen"), V.mapped) == V.fs, z3.ULT(V.fs, LIM))),
         ("start of the records", z3.And(S.f(r, "reader.trace_start_offset") >= 0, z3.ULE(V.start, V.fs))),
         ("position within the file", z3.And(z3.UGE(V.off, V.start), z3.ULE(V.off, V.fs))),
         ("uncompressed", V.zstd == 0)]
    if item is not None: k.append(("record size", V.item == item))
    else: k.append(("record size", z3.And(V.item > 0, V.item < (1 << 20))))
    return k
def aligned(V): return [("position is a record boundary", ALN(V.start, V.item, V.off))]
def aln_facts(start, item, o):
    """true facts about multiples, at ground positions (all below 2^49, so nothing wraps)"""
    return [ALN(start, item, start),
            z3.Implies(z3.And(ALN(start, item, o), z3.ULT(o, 2 * LIM)), ALN(start, item, o + item)),
            z3.Implies(z3.And(ALN(start, item, o), o != start), z3.And(z3.UGE(o, start + item), ALN(start, item, o - item))),
            z3.Implies(ALN(start, item, o), z3.UGE(o, start))]
def only_req(c, req): 
    """requests other than this one are untouched"""
    x = z3.Const("xr", PtrS); r = []
    for f in REQ:
        k = c.ex.key("request." + f)
        if k in c.S.heap and k in c.S0.heap and c.S.heap[k].eq(c.S0.heap[k]): continue
        r.append(c.S.m("request." + f) == z3.Store(c.S0.m("request." + f), req, c.S.f(req, "request." + f)))
    return [("only this request is written", z3.And(*r))] if r else []

LABEL = {"time": "time", "id": "object id", "size": "size", "next": "next access"}
FIELD = {"time": "clock_time", "id": "obj_id", "size": "obj_size", "next": "next_access_vtime"}
def decoded(F, c, V, n, size_one=False):
    q = lambda f: c.S.f(c[1], "request." + f); row = V.row
    r = []
    for p in F.parts():
        v = F.rec(p, row, n)
        if p == "size" and size_one: v = z3.If(on(V.nosize), bv(1), v)
        r.append((LABEL[p], q(FIELD[p]) == v))
    return r

# ------------------------------------------------------------------ vscsi
def x_true(*a): return z3.BoolVal(True)
class Vscsi(Fmt):
    def __init__(s, ver):
        v1 = ver == 1
        Fmt.__init__(s, "vscsi%d" % ver, "vscsi", 32 if v1 else 40, time=24, id=(16, 8), size=(4 if v1 else 8, 4), typ="VSCSI_TRACE"); s.ver = ver
    def rec_time(s, row, o): return uf("udiv64", bytes_at(row, o + s.time, 8), bv(1000000))       # microseconds to seconds
VSCSI = [Vscsi(1), Vscsi(2)]
def vscsi_extra(F):
    """what vscsiReader_setup leaves behind: version, record count"""
    def f(S, r):
        V = R(S, r)
        return [("version", z3.And(V.params != NULL, S.live(V.params), V.params != r, V.params != V.mapped, S.f(V.params, "vscsi_params_t.vscsi_ver") == F.ver)), ("records start at 0", V.start == 0),
                ("number of records", z3.And(z3.ULT(V.total, LIM), z3.ULE(V.total * F.item, V.fs), z3.UGT(V.total * F.item + F.item, V.fs)))]
    def facts(V):
        T = V.total * F.item
        return [uf("mul64", V.total, V.item) == T, z3.Implies(V.start == 0, ALN(V.start, V.item, T)),
                z3.Implies(z3.And(ALN(V.start, V.item, V.off), ALN(V.start, V.item, T), z3.ULT(V.off, T)), z3.ULE(V.off + V.item, T))]
    return f, facts

# ------------------------------------------------------------------ generic binary format
BP = "binary_params_t."
SIZES = {**{ord(ch): 1 for ch in "cbB"}, **{ord(ch): 2 for ch in "hH"}, **{ord(ch): 4 for ch in "iIlLf"}, **{ord(ch): 8 for ch in "qQd"}}
def fsize(f):
    """size of a field of format f (Python struct module, little endian)"""
    r = bv(0)
    for ch, n in SIZES.items(): r = z3.If(f == ch, bv(n), r)
    return r
def known(f): return z3.Or(*[f == ch for ch in SIZES])
def value(row, o, f):
    r = bv(0)
    for ch, n in SIZES.items():
        b = bytes_at(row, o, n); k = chr(ch)
        v = uf2("fptosi64", BV64, uf2("fbits%d" % (8 * n), FltS, b)) if k in "fd" else ext(b, k in "bchil")
        r = z3.If(f == ch, v, r)
    return r
def uf2(name, rs, *a): return z3.Function(name, *([x.sort() for x in a] + [rs]))(*a)
BVAL = z3.Function("FIELD_VALUE", ROW, BV64, z3.BitVecSort(8), BV64)
def src_of(c): p = c.raw(0); return p.base, z3.simplify(p.idx[0] + p.off)
def c_read_data():
    def shp(ex, S, nm): return Ptr(z3.Const("arg_src", PtrS), "arr", ((0, "i8"),), 0, (z3.Const("arg_pos", BV64),))
    def pre(c):
        if c.raw(0).root != "arr": raise SpecMismatch("read_data source")
        b, o = src_of(c); n = z3.Select(c.S.g("alen"), b)
        return [("known format", known(c[1])), ("the field lies within the trace", z3.And(c.S.live(b), z3.ULT(n, LIM), z3.ULE(o, n), z3.ULE(o + fsize(c[1]), n)))]
    def facts(c):
        b, o = src_of(c); row = z3.Select(c.S.m("arr:i8"), b)
        return [("definition of a field's value", BVAL(row, o, c[1]) == value(row, o, c[1]))]
    def post(c):
        b, o = src_of(c); return [("value of the field by its format", c.ret == BVAL(z3.Select(c.S0.m("arr:i8"), b), o, c[1]))]
    return Contract("read_data", pre=pre, post=post, shapes={0: shp}, extra_assume=facts)
FIELDS = [("obj_id", "obj_id", 64), ("time", "clock_time", 64), ("obj_size", "obj_size", 64), ("op", "op", 32), ("next_access_vtime", "next_access_vtime", 64)]
def bin_fields(S, V):
    r = []
    for f, _, _ in FIELDS:
        g = lambda x: S.f(V.params, BP + f + x)
        used = z3.BoolVal(True) if f == "obj_id" else g("_field_idx") > 0
        o = z3.SignExt(32, g("_offset"))
        r.append(("field %s lies within the record" % f, z3.Implies(used, z3.And(o >= 0, o < (1 << 20), known(g("_format")), o + fsize(g("_format")) <= V.item))))
    return r
def bin_inv(S, r):
    V = R(S, r)
    return [("parameters live", z3.And(V.params != NULL, S.live(V.params), V.params != r, V.params != V.mapped))] + bin_fields(S, V)
def bin_decoded(c, V, n, size_one=False):
    r = []; S = c.S0
    for f, q, w in FIELDS:
        used = z3.BoolVal(True) if f == "obj_id" else S.f(V.params, BP + f + "_field_idx") > 0
        v = BVAL(V.row, n + z3.SignExt(32, S.f(V.params, BP + f + "_offset")), S.f(V.params, BP + f + "_format"))
        if w == 32: v = z3.Extract(31, 0, v)
        new, old = c.S.f(c[1], "request." + q), c.S0.f(c[1], "request." + q)
        x = z3.If(used, v, old)
        if f == "obj_size" and size_one: x = z3.If(on(V.nosize), bv(1), x)
        r.append(("field %s" % f, new == x))
    return r
class Generic(Fmt):
    def __init__(s, typ): Fmt.__init__(s, "generic" if typ == "BIN_TRACE" else "lcs", "binary", None, typ=typ)
    def NEXT(s, V, o): return z3.If(z3.UGT(o + V.item, V.fs), NONE, o)
    def rec_def(s, row, o): return []
GENERIC = [Generic("BIN_TRACE"), Generic("LCS_TRACE")]

# ------------------------------------------------------------------ one contract per format
def fmt_extra(F, S, r):
    if isinstance(F, Vscsi): return vscsi_extra(F)[0](S, r)
    if isinstance(F, Generic): return bin_inv(S, r)
    return []
def fmt_pre(F, c):
    V = R(c.S, c[0])
    r = shape(c.S, c[0], F.item) + [("request live", z3.And(c.S.live(c[1]), c[1] != c[0], c[1] != V.mapped))] + aligned(V) + fmt_extra(F, c.S, c[0])
    if isinstance(F, (Vscsi, Generic)): r.append(("parameters are not the request", c[1] != V.params))
    return r
def fmt_facts(F, c):
    V = R(c.S, c[0])
    r = [F.unfold(V, V.off)] + aln_facts(V.start, V.item, V.off) + F.rec_def(V.row, V.off)
    if isinstance(F, Vscsi): r += vscsi_extra(F)[1](V)
    return [("definitions and true facts at the current position", f) for f in r]
def fmt_decoded(F, c, V, n, size_one=False):
    return (bin_decoded if isinstance(F, Generic) else lambda *a: decoded(F, *a))(c, V, n, size_one)
def item_of(F, V): return V.item if F.item is None else bv(F.item)
def moved(F, c, V0, V, n):
    has = n != NONE; it = item_of(F, V0)
    return [("end of trace exactly when no record is left", c.ret == z3.If(has, bv(0, 32), bv(1, 32))),
            ("the position moves behind the record read", z3.Implies(has, z3.And(V.off == n + it, z3.UGE(n, V0.off)))),
            ("at the end of the trace the request is marked invalid", z3.Implies(z3.Not(has), c.S.f(c[1], "request.valid") == 0)),
            ("at the end of the trace no record is left", z3.Implies(z3.Not(has), z3.UGT(V.off + it, V.fs))),
            ("only this reader moves", c.S.m("reader.mmap_offset") == z3.Store(c.S0.m("reader.mmap_offset"), c[0], V.off)),
            ("position within the file", z3.And(z3.UGE(V.off, V0.off), z3.ULE(V.off, V.fs)))] + aligned(V)
def c_fmt(F):
    """contract of a format's own read function"""
    def post(c):
        V0, V = R(c.S0, c[0]), R(c.S, c[0]); n = F.NEXT(V0, V0.off); has = n != NONE
        r = moved(F, c, V0, V, n) + [("a delivered request stays valid", z3.Implies(has, c.S.f(c[1], "request.valid") == c.S0.f(c[1], "request.valid"))),
             ("hash unchanged", c.S.f(c[1], "request.hv") == c.S0.f(c[1], "request.hv"))]
        return r + [(l, z3.Implies(has, f)) for l, f in fmt_decoded(F, c, V0, n)] + only_req(c, c[1])
    con = Contract(F.fn + "_read_one_req", pre=lambda c: fmt_pre(F, c), post=post, modifies=binmods(None), extra_assume=lambda c: fmt_facts(F, c), name="%s_read_one_req[%s]" % (F.fn, F.name))
    con.recursive = True; con.decr = lambda c: R(c.S, c[0]).fs - R(c.S, c[0]).off
    return con
def nav_pre(F, c):
    """a reader in the mode the navigation contracts are about"""
    V = R(c.S, c[0])
    return [("type", V.type == enumval(c.ex.prog, F.typ)), ("binary records", V.fmt == enumval(c.ex.prog, "BINARY_TRACE_FORMAT")),
            ("no pending repetitions, no sampler, no cap", z3.And(V.left == 0, V.sampler == NULL, V.cap <= 0))]
READMODS = ["reader.n_read_req", "reader.n_req_left", "reader.sampler"]
def keeps_mode(c):
    V0, V = R(c.S0, c[0]), R(c.S, c[0])
    return [("pending repetitions and sampler unchanged", z3.And(c.S.m("reader.n_req_left") == z3.Store(c.S0.m("reader.n_req_left"), c[0], V.left), V.left == 0, c.S.m("reader.sampler") == z3.Store(c.S0.m("reader.sampler"), c[0], V.sampler), V.sampler == V0.sampler,
                     c.S.m("reader.n_read_req") == z3.Store(c.S0.m("reader.n_read_req"), c[0], V.nread)))]
def c_read_one(F):
    def pre(c): return fmt_pre(F, c) + nav_pre(F, c)
    def post(c):
        V0, V = R(c.S0, c[0]), R(c.S, c[0]); n = F.NEXT(V0, V0.off); has = n != NONE
        r = moved(F, c, V0, V, n) + [("a delivered request is valid, its hash is not computed yet", z3.Implies(has, z3.And(c.S.f(c[1], "request.valid") == 1, c.S.f(c[1], "request.hv") == 0)))]
        return r + [(l, z3.Implies(has, f)) for l, f in fmt_decoded(F, c, V0, n, True)] + keeps_mode(c) + only_req(c, c[1])
    con = Contract("read_one_req", pre=pre, post=post, modifies=binmods(None) + READMODS, extra_assume=lambda c: fmt_facts(F, c), name="read_one_req[%s]" % F.name)
    return con

# ------------------------------------------------------------------ navigation of binary traces
def nav_shape(c):
    V = R(c.S, c[0])
    return shape(c.S, c[0]) + aligned(V) + [("binary records", V.fmt == enumval(c.ex.prog, "BINARY_TRACE_FORMAT"))]
def nav_facts(c):
    V = R(c.S, c[0]); r = []
    for o in (V.off, V.off - V.item): r += aln_facts(V.start, V.item, o)
    return [("true facts at the current position", f) for f in r]
def only_moves(c): return [("only this reader moves", c.S.m("reader.mmap_offset") == z3.Store(c.S0.m("reader.mmap_offset"), c[0], R(c.S, c[0]).off))]
def c_go_back():
    def post(c):
        V0, V = R(c.S0, c[0]), R(c.S, c[0]); can = V0.off != V0.start
        return [("goes back exactly one record, or fails at the first one", z3.And(c.ret == z3.If(can, bv(0, 32), bv(1, 32)), V.off == z3.If(can, V0.off - V0.item, V0.off)))] + aligned(V) + only_moves(c)
    return Contract("go_back_one_req", pre=nav_shape, post=post, modifies=["reader.mmap_offset"], extra_assume=nav_facts, name="go_back_one_req[binary]")
def c_go_back2():
    def post(c):
        V0, V = R(c.S0, c[0]), R(c.S, c[0]); two = z3.And(V0.off != V0.start, V0.off - V0.item != V0.start)
        return [("goes back exactly two records, or fails", z3.And(c.ret == z3.If(two, bv(0, 32), bv(1, 32)), V.off == z3.If(two, V0.off - 2 * V0.item, V0.start)))] + aligned(V) + only_moves(c)
    return Contract("go_back_two_req", pre=nav_shape, post=post, modifies=["reader.mmap_offset"], extra_assume=nav_facts, name="go_back_two_req[binary]")
def c_above(F):
    """reading backwards: the record before the one read last"""
    def pre(c): return fmt_pre(F, c) + nav_pre(F, c)
    def post(c):
        V0, V = R(c.S0, c[0]), R(c.S, c[0]); it = item_of(F, V0); o = V0.off - 2 * it
        two = z3.And(V0.off != V0.start, V0.off - it != V0.start); n = F.NEXT(V0, o); ok = z3.And(two, n != NONE)
        r = [("succeeds exactly if a record precedes the last one", c.ret == z3.If(ok, bv(0, 32), bv(1, 32))), ("the position is behind the record delivered", z3.Implies(ok, V.off == n + it)),
             ("otherwise the request is marked invalid", z3.Implies(z3.Not(ok), c.S.f(c[1], "request.valid") == 0)),
             ("without skipping it is the record before the last one", z3.Implies(z3.And(two, z3.Not(F.skips(V0, V0.row, o))), z3.And(n == o, V.off == V0.off - it))),
             ("only this reader moves", c.S.m("reader.mmap_offset") == z3.Store(c.S0.m("reader.mmap_offset"), c[0], V.off))]
        return r + [(l, z3.Implies(ok, f)) for l, f in fmt_decoded(F, c, V0, n, True)] + aligned(V) + keeps_mode(c)
    def facts(c):
        V = R(c.S, c[0]); o = V.off - 2 * item_of(F, V)
        return [("true facts at the current position", f) for f in [F.unfold(V, o)] + aln_facts(V.start, V.item, V.off) + aln_facts(V.start, V.item, V.off - V.item)]
    con = Contract("read_one_req_above", pre=pre, post=post, modifies=binmods(None) + READMODS, extra_assume=facts, name="read_one_req_above[%s]" % F.name)
    return con
def c_reset(F):
    def pre(c):
        V = R(c.S, c[0])
        return shape(c.S, c[0]) + [("type", V.type == enumval(c.ex.prog, F.typ)), ("binary records", V.fmt == enumval(c.ex.prog, "BINARY_TRACE_FORMAT"))]
    def post(c):
        V = R(c.S, c[0])
        return [("back at the first record", z3.And(V.off == V.start, V.left == 0, V.nread == 0))] + aligned(V) + [
            ("only this reader is reset", z3.And(*[c.S.m("reader." + f) == z3.Store(c.S0.m("reader." + f), c[0], c.S.f(c[0], "reader." + f)) for f in ("mmap_offset", "n_req_left", "n_read_req")]))]
    return Contract("reset_reader", pre=pre, post=post, modifies=["reader.mmap_offset", "reader.n_req_left", "reader.n_read_req"], extra_assume=nav_facts, name="reset_reader[%s]" % F.name)
def c_skip():
    def facts(c):
        V = R(c.S, c[0]); n = z3.SignExt(32, c[1]); m = uf("mul64", n, V.item); left = V.fs - V.off; q = uf("udiv64", left, V.item); mq = uf("mul64", q, V.item)
        small = z3.And(V.item > 0, V.item < (1 << 20))
        r = nav_facts(c) + [("product of a small count", z3.Implies(z3.And(n >= 0, small), z3.ULT(m, 1 << 51))), ("multiples", z3.Implies(z3.And(ALN(V.start, V.item, V.off), n >= 0), ALN(V.start, V.item, V.off + m))),
            ("quotient", z3.Implies(small, z3.And(z3.ULE(mq, left), z3.UGT(mq + V.item, left), z3.ULE(q, left), z3.Implies(z3.And(n >= 0, z3.ULE(n, q)), z3.ULE(m, mq))))),
            ("fewer than asked for are left", z3.Implies(z3.And(n >= 0, small, z3.UGT(m, left)), z3.And(z3.UGT(n, q), z3.ULT(q, 1 << 31)))),
             ("whole records left", z3.Implies(z3.And(small, z3.ULE(V.off, V.fs), z3.ULT(V.fs, LIM)), z3.And(z3.UGT(V.off + mq + V.item, V.fs), z3.ULE(V.off + mq, V.fs), z3.UGE(V.off + mq, V.off)))),
             ("narrowing of a small number", z3.Implies(z3.ULT(q, 1 << 31), z3.SignExt(32, z3.Extract(31, 0, q)) == q)),
            ("multiples", z3.Implies(z3.And(ALN(V.start, V.item, V.off), z3.ULE(q, left)), ALN(V.start, V.item, V.off + mq)))]
        return r
    def pre(c): return nav_shape(c) + [("a number of requests", c[1] >= 0)]
    def post(c):
        V0, V = R(c.S0, c[0]), R(c.S, c[0]); n = z3.SignExt(32, c[1]); fits = z3.ULE(V0.off + uf("mul64", n, V0.item), V0.fs)
        return [("skips all of them if that many are left", z3.Implies(fits, z3.And(c.ret == c[1], V.off == V0.off + uf("mul64", n, V0.item)))),
                ("otherwise it skips fewer", z3.Implies(z3.Not(fits), z3.And(c.ret >= 0, c.ret < c[1]))),
                ("otherwise it moves by the number it reports", z3.Implies(z3.Not(fits), V.off == V0.off + uf("mul64", z3.SignExt(32, c.ret), V0.item))),
                ("otherwise nothing is left", z3.Implies(z3.Not(fits), z3.And(z3.UGT(V.off + V.item, V.fs), z3.ULE(V.off, V.fs))))] + aligned(V) + only_moves(c)
    return Contract("skip_n_req", pre=pre, post=post, modifies=["reader.mmap_offset"], extra_assume=facts, name="skip_n_req[binary]")
def c_count():
    def pre(c): return nav_shape(c)
    def post(c):
        return [("the number of records between the start and the end of the file", c.ret == R(c.S0, c[0]).total)]
    return Contract("get_num_of_req", pre=pre, post=post, name="get_num_of_req[binary]")

def bounds(ex, S, p, line):
    if p.root == "arr" and p.dims == ((0, "i8"),):
        ex.prove(S, z3.ULT(p.idx[0] + p.off, z3.Select(S.g("alen"), p.base)), "memory safety: the access lies within the trace", line)
EXT = {}
FILE = "traceReader/reader.c"; BFILE = "traceReader/generalReader/binary.c"
ALL = FORMATS + VSCSI + GENERIC
def table():
    """[(contract, properties, contracts of callees)]"""
    t = []
    for F in ALL:
        if F.typ != "LCS_TRACE": t.append((c_fmt(F), ["C13"], {"read_data": c_read_data()} if isinstance(F, Generic) else {}))
        t.append((c_read_one(F), ["C13", "C14"], {F.fn + "_read_one_req": c_fmt(F)}))
        t.append((c_above(F), ["C14"], {"go_back_two_req": c_go_back2(), "read_one_req": c_read_one(F)}))
        t.append((c_reset(F), ["C14"], {}))
    t += [(c_read_data(), ["C13"], {}), (c_go_back(), ["C14"], {}), (c_go_back2(), ["C14"], {"go_back_one_req": c_go_back()}), (c_skip(), ["C14"], {}), (c_count(), ["C14"], {})]
    return t
