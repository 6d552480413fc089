"""A deductive verifier for the LLVM IR that clang produces from /repo's real C
sources: path-wise symbolic execution per function, calls to functions under
contract replaced by their contract, loops cut by invariants, obligations
discharged by Z3 (fallback: cvc5).  Machine integers are bit-vectors (exact),
pointers an uninterpreted sort, the heap a map per (struct, byte offset, type).
"""
import re, os, sys, time, subprocess, json, itertools
import z3
from vcg.ir import Module, Func, loops, succs, parse_type, split_top, strip_attrs, Ty, PTR, IRError

PtrS = z3.DeclareSort("Ptr")
FltS = z3.DeclareSort("Flt")
NULL = z3.Const("NULL", PtrS)
p2i = z3.Function("p2i", PtrS, z3.BitVecSort(64))
i2p = z3.Function("i2p", z3.BitVecSort(64), PtrS)
SetS = z3.ArraySort(PtrS, z3.BoolSort())
BV64 = z3.BitVecSort(64)

class Unsupported(Exception):
    """the source left the fragment the verifier handles (tool limit, not a violation)"""

class SpecMismatch(Unsupported):
    """the contract names something (field, function, local) that no longer exists"""

def sort_of(ty):
    if ty.k == "ptr": return PtrS
    if ty.k == "int": return z3.BitVecSort(ty.w)
    if ty.k == "fp": return FltS
    raise Unsupported("sort of %r" % ty)

_fresh = itertools.count()
def fresh(name, sort):
    return z3.Const("%s!%d" % (name, next(_fresh)), sort)

class Ptr:
    """symbolic pointer: base object + static path (root struct, dims, byte offset) + index terms"""
    __slots__ = ("base", "root", "dims", "off", "idx", "src")
    def __init__(s, base, root=None, dims=(), off=0, idx=(), src=None):
        s.base, s.root, s.dims, s.off, s.idx, s.src = base, root, dims, off, idx, src
    def plain(s): return s.root is None or (s.off == 0 and not s.dims)
    def __repr__(s): return "Ptr(%s,%s,%s,%s,%s)" % (s.base, s.root, s.dims, s.off, s.idx)

class Loc:
    """address of a scalar local variable"""
    __slots__ = ("vid", "ty")
    def __init__(s, vid, ty): s.vid, s.ty = vid, ty

class Agg:
    """first-class aggregate value (rare)"""
    __slots__ = ("vals",)
    def __init__(s, vals): s.vals = vals

def lt_size(lt):
    return 8 if lt in ("ptr", "double") else 4 if lt == "float" else (int(lt[1:]) + 7) // 8

_addr_tab = {}
def addr_term(p):
    """encode a pointer with a path as a term (so that it can be stored in memory)"""
    if isinstance(p, Loc): raise Unsupported("address of a local escapes to memory")
    if p.plain(): return p.base
    k = (p.root, p.dims, p.off)
    nm = "addr<%s|%s|%d>" % k
    f = z3.Function(nm, *([PtrS] + [BV64] * len(p.idx) + [PtrS]))
    _addr_tab[nm] = k
    return f(p.base, *p.idx)

def ptr_of_term(t, src=None):
    if z3.is_app(t) and t.decl().name() in _addr_tab:
        root, dims, off = _addr_tab[t.decl().name()]
        return Ptr(t.arg(0), root, dims, off, tuple(t.arg(i) for i in range(1, t.num_args())))
    return Ptr(t, src=src)

# ---------------------------------------------------------------- program
class DebugInfo:
    """field names of the structs, from the DWARF metadata of the module"""
    def __init__(self, path):
        self.nodes = {}
        for l in open(path):
            if l.startswith("!") and " = " in l:
                n, r = l.split(" = ", 1)
                if n[1:].isdigit(): self.nodes[n] = r.rstrip()
        self.structs = {}
        names = {}
        for n, r in self.nodes.items():
            if "DW_TAG_structure_type" in r or "DW_TAG_union_type" in r or "DW_TAG_class_type" in r:
                m = re.search(r'name: "([^"]+)"', r)
                if m and "elements:" in r: names.setdefault(m.group(1), n)
        for n, r in self.nodes.items():
            if "DW_TAG_typedef" in r:
                m = re.search(r'name: "([^"]+)"', r); b = re.search(r"baseType: (!\d+)", r)
                if m and b and b.group(1) in self.nodes:
                    rb = self.nodes[b.group(1)]
                    if ("DW_TAG_structure_type" in rb or "DW_TAG_union_type" in rb) and "elements:" in rb:
                        names.setdefault(m.group(1), b.group(1))
        self.names = names

    def strip(self, n):
        while n and ("DW_TAG_typedef" in self.nodes[n] or "DW_TAG_const_type" in self.nodes[n] or "DW_TAG_volatile_type" in self.nodes[n]):
            m = re.search(r"baseType: (!\d+)", self.nodes[n])
            if not m: return None
            n = m.group(1)
        return n

    def fields(self, name):
        """{dotted name: (byte offset, lltype string or None)}"""
        if name in self.structs: return self.structs[name]
        if name not in self.names: raise SpecMismatch("struct %s not found" % name)
        out = {}
        self._walk(self.names[name], "", 0, out)
        self.structs[name] = out
        return out

    def _walk(self, n, pre, base, out):
        r = self.nodes[n]
        m = re.search(r"elements: (!\d+)", r)
        if not m: return
        for e in re.findall(r"!\d+", self.nodes[m.group(1)]):
            er = self.nodes[e]
            if "DW_TAG_member" not in er: continue
            nm = re.search(r'name: "([^"]*)"', er)
            off = re.search(r"offset: (\d+)", er); off = int(off.group(1)) if off else 0
            size = re.search(r"\bsize: (\d+)", er)
            bt = re.search(r"baseType: (!\d+)", er)
            b = self.strip(bt.group(1)) if bt else None
            br = self.nodes[b] if b else ""
            name = nm.group(1) if nm else ""
            full = (pre + "." + name).strip(".") if name else pre
            bit = "DIFlagBitField" in er
            if "DW_TAG_structure_type" in br or "DW_TAG_union_type" in br:
                out[full + "._"] = (base + off // 8, None)
                self._walk(b, full, base + off // 8, out)
                continue
            if bit: lt = None
            elif "DW_TAG_pointer_type" in br: lt = "ptr"
            elif "DW_TAG_array_type" in br: lt = "arr"
            elif "DW_ATE_float" in br: lt = {"32": "float", "64": "double"}.get(size.group(1))
            else: lt = "i" + size.group(1) if size else None
            out[full] = (base + off // 8, lt)

class Program:
    def __init__(self, lls):
        self.mods = [Module(p) for p in lls]
        self.di = [DebugInfo(p) for p in lls]
        self.types = {}
        self.funcs = {}
        for m in self.mods:
            for t, d in m.types.items():
                self.types.setdefault(t, (m, d))
            for f in m.funcs.values():
                self.funcs.setdefault(f.name, f)
    def lookup(self, name, mod=None):
        if mod is not None and name in mod.funcs: return mod.funcs[name]
        return self.funcs.get(name)
    def field(self, struct, fname):
        for d in self.di:
            if struct in d.names:
                fs = d.fields(struct)
                if fname not in fs: raise SpecMismatch("%s has no field %s" % (struct, fname))
                return fs[fname]
        raise SpecMismatch("struct %s not found" % struct)
    def all_fields(self, struct):
        """one name per distinct (offset, type)"""
        for d in self.di:
            if struct in d.names:
                seen = {}
                for k, (o, lt) in d.fields(struct).items():
                    if lt and lt != "arr": seen.setdefault((o, lt), k)
                return sorted(seen.values())
        raise SpecMismatch("struct %s not found" % struct)
    def field_name(self, struct, off):
        for d in self.di:
            if struct in d.names:
                for k, v in d.fields(struct).items():
                    if v[0] == off and v[1]: return k
        return str(off)

def norm_struct(name):
    n = re.sub(r"^(struct|union|class)\.", "", name)
    n = re.sub(r"\.\d+$", "", n)
    return n

# ---------------------------------------------------------------- state
class State:
    def __init__(s, ex):
        s.ex = ex; s.heap = {}; s.vars = {}; s.ghost = {}; s.pc = []; s.events = []; s.trace = []; s.epoch = 0
        s.lem = []
    def copy(s):
        n = State(s.ex); n.heap = dict(s.heap); n.vars = dict(s.vars); n.ghost = dict(s.ghost)
        n.pc = list(s.pc); n.events = list(s.events); n.trace = list(s.trace); n.epoch = s.epoch; n.lem = list(s.lem)
        return n
    def assume(s, f):
        if isinstance(f, Dual): f = f.hyp
        if z3.is_true(f): return
        s.pc.append(f)
    # heap maps
    def map(s, key):
        t = s.heap.get(key)
        if t is None:
            t = s.ex.init_map(key)
            for ev in s.events:
                t = s.ex.apply_event(ev, key, t, s)
            s.heap[key] = t
        return t
    def setmap(s, key, t): s.map(key); s.heap[key] = t
    def g(s, name):
        if name not in s.ghost:
            s.ghost[name] = s.ex.init_ghost(name)
        return s.ghost[name]
    # spec-side access by names
    def f(s, obj, path):
        """field by dotted name, e.g. S.f(p,'cache_obj.queue.prev')"""
        b = obj.base if isinstance(obj, Ptr) else obj
        return z3.Select(s.map(s.ex.key(path)), b)
    def m(s, path): return s.map(s.ex.key(path))
    def fn(s, name): return s.ex.global_ptr(name)
    def event(s, ev):
        # ev = ("zero", base) | ("copy", dst, src) | ("havocobj", base, n)
        for k in list(s.heap):
            s.heap[k] = s.ex.apply_event(ev, k, s.heap[k], s)
        s.events.append(ev)
    def live(s, p): return z3.Select(s.g("live"), p)

IVAL = z3.Function("ival", BV64, z3.IntSort())       # the signed value of a 64-bit word
class Dual:
    """one formula in two equivalent shapes: as a hypothesis and, with extra (vacuously true) marker atoms, as a goal"""
    def __init__(s, hyp, goal): s.hyp, s.goal = hyp, goal

class Contract:
    """pre/post: functions of a Ctx returning list of (label, formula).
    modifies: list of 'Struct.field' keys and 'ghost:name' entries."""
    def __init__(s, fn, pre=None, post=None, modifies=(), ghost_post=None, shapes=None,
                 prop=(), trusted=False, note="", loops=None, inline=(), mayabort=False,
                 extra_assume=None, lemmas=None, allocates=False, roles=None, ret=None, frees=False, nolive=False, name=None):
        s.fn = fn; s.pre = pre or (lambda c: []); s.post = post or (lambda c: [])
        s.modifies = list(modifies); s.ghost_post = ghost_post or {}
        s.shapes = shapes or {}; s.prop = prop; s.trusted = trusted; s.note = note
        s.loops = loops or {}; s.mayabort = mayabort; s.extra_assume = extra_assume
        s.lemmas = lemmas; s.allocates = allocates; s.roles = roles or {}; s.frees = frees
        s.name = name or fn; s.effect = None; s.effmods = []; s.hints = None; s.ghost_before = {}

class Ctx:
    """what a contract's formulas see"""
    def __init__(s, ex, S0, S, args, ret=None, names=None, frame=None, SE=None, caller=False, SI=None):
        s.SI = SI
        s.ex, s.S0, s.S, s.args, s.ret, s.frame, s.SE, s.caller = ex, S0, S, args, ret, frame, SE, caller
        s.names = names
    def __getitem__(s, i):
        v = s.args[i] if isinstance(i, int) else s.args[s.names.index(i)]
        if isinstance(v, Ptr): return addr_term(v)
        return v
    def raw(s, i): return s.args[i]
    def load(s, S, i, ty=PTR):
        v = s.ex.load(S, s.args[i], ty, check=False)
        return v.base if isinstance(v, Ptr) else v
    def local(s, name):
        return s.ex.local(s.frame, s.S, name)
    def local_entry(s, name):
        return s.ex.local(s.frame, s.SE, name)

class Oblig:
    def __init__(s, fn, label, status, t, rl, backend, detail=None, line=None):
        s.fn, s.label, s.status, s.t, s.rl, s.backend, s.detail, s.line = fn, label, status, t, rl, backend, detail, line

IGNORED = {"pthread_mutex_lock", "pthread_mutex_unlock", "pthread_self", "localtime", "strftime", "printf", "fprintf", "puts", "putchar", "fflush", "fputs", "fputc", "putc", "perror", "fwrite", "vprintf", "vfprintf",
           "__assert_fail_ignored", "log_header", "gettimeofday", "print_stack_trace", "llvm.va_start", "llvm.va_end"}
NORETURN = {"abort", "exit", "__assert_fail", "_exit", "g_assertion_message_expr"}

FVAL = z3.Function("fval", FltS, z3.RealSort())      # order embedding of the non-NaN values
FNAN = z3.Function("fnan", FltS, z3.BoolSort())
def fcmp(pred, a, b):
    """IEEE comparison: ordered/unordered predicates over a total order of the non-NaN values"""
    if pred in ("true", "false"): return z3.BoolVal(pred == "true")
    un = z3.Or(FNAN(a), FNAN(b)); x, y = FVAL(a), FVAL(b)
    if pred == "ord": return z3.Not(un)
    if pred == "uno": return un
    r = {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pred[1:]]
    return z3.And(z3.Not(un), r) if pred[0] == "o" else z3.Or(un, r)

def le_bytes(row, i0, n):
    b = [z3.Select(row, z3.simplify(i0 + j)) for j in range(n)]
    return z3.Concat(*reversed(b)) if n > 1 else b[0]
def fp_value(txt):
    import struct, math
    from fractions import Fraction
    try:
        d = struct.unpack(">d", bytes.fromhex(txt[2:].rjust(16, "0")))[0] if txt.startswith("0x") else float(txt)
        return Fraction(d) if math.isfinite(d) else None
    except ValueError: return None

class Exec:
    def __init__(self, prog, contracts, ghosts, axioms=(), rlimit=40000000, on_write=None, verbose=False, externals=None,
                 global_vals=None, bounds=None, private=(), intmode=False, simple=False):
        self.intmode = intmode; self.simple = simple
        self.bounds = bounds; self.private = set(); self.private_paths = private
        self.prog = prog; self.contracts = contracts; self.ghost_sorts = ghosts
        self.axioms = list(axioms); self.rlimit = rlimit
        self.maps0 = {}; self.ghost0 = {}; self.globals = {}
        self.on_write = on_write; self.verbose = verbose
        self.obligs = []; self.record = True
        self.frame_id = itertools.count()
        self.externals = externals or {}
        self.accesses = {}      # struct -> {(off): ty} for the type-punning check
        self.inlined = set(); self.used_contracts = set(); self.ext_used = set()
        self.cur = None; self.unroll_max = 40; self.allocs = []
        self.time_z3 = 0.0
        self.stats = {}
        self.max_paths = 4000; self.npaths = 0
        self.float_consts = {}

    def set_private(self):
        self.private = {self.key(p) for p in self.private_paths}
    # ---- names, maps
    def key(self, path):
        struct, _, fname = path.partition(".")
        if struct.startswith("arr:"):      # arr:T or arr:Struct.field
            t = struct[4:]
            if fname:
                off, lt = self.prog.field(t, fname)
                return (("arr"), ((0, t),), off, lt)
            return ("arr", ((0, t),), 0, t)
        if struct == "raw": return (None, (), 0, fname)        # a bare object of a scalar type
        if struct == "global":
            nm, lt = fname.rsplit(":", 1)
            return ("@" + nm, (), 0, lt)
        fname, _, unit = fname.partition(":")      # Struct.bitfield:i64 is the storage unit of a bit field
        off, lt = self.prog.field(struct, fname)
        if unit.startswith("["): return (struct, ((off, unit[1:-1]),), 0, unit[1:-1])      # Struct.array:[i64]
        if unit: lt = unit
        if lt is None: raise SpecMismatch("field %s is not a scalar" % path)
        return (struct, (), off, lt)
    def key_sort(self, key):
        lt = key[3]
        s = PtrS if lt == "ptr" else (FltS if lt in ("float", "double") else z3.BitVecSort(int(lt[1:])))
        for _ in key[1]: s = z3.ArraySort(BV64, s)
        return z3.ArraySort(PtrS, s)
    def init_map(self, key):
        if key not in self.maps0:
            self.maps0[key] = z3.Const("%s%s+%s:%s" % (key[0], "".join("[%d:%s]" % d for d in key[1]), key[2], key[3]), self.key_sort(key))
        return self.maps0[key]
    def init_ghost(self, name):
        if name not in self.ghost0:
            srt = self.ghost_sorts.get(name)
            if srt is None: srt = self.ghost_sorts.get(name.split("@")[0])
            if srt is None and name in ("ever", "live"): srt = SetS
            if srt is None: raise SpecMismatch("ghost " + name)
            self.ghost0[name] = z3.Const("g_" + name, srt)
        return self.ghost0[name]
    def zero_of(self, key):
        lt = key[3]
        if lt == "ptr": v = NULL
        elif lt in ("float", "double"): v = self.fconst("0.000000e+00", lt)
        else: v = z3.BitVecVal(0, int(lt[1:]))
        for _ in key[1]: v = z3.K(BV64, v)
        return v
    def apply_event(self, ev, key, t, S):
        if ev[0] == "zero" and len(ev) > 2 and key[0] != ev[2]: return t
        if ev[0] == "zero": return z3.Store(t, ev[1], self.zero_of(key))
        if key[0].startswith("@") and ev[0] in ("zeron", "copyn") and not ev[1].decl().name().startswith("@"): return t
        if ev[0] == "zeron" and not key[1] and key[0] != "arr":      # the first n bytes
            return z3.Store(t, ev[1], self.zero_of(key)) if key[2] + lt_size(key[3]) <= ev[2] else t
        if ev[0] in ("zerolen", "zeron"):    # the first n bytes of an array
            if key[0].startswith("@") and not ev[1].decl().name().startswith("@"): return t
            if not key[1] and key[0] != "arr":
                return z3.Store(t, ev[1], z3.Const("z!%d!%s" % (ev[3], "/".join(map(str, key))), t.sort().range()))
            n = ev[2] if ev[0] == "zerolen" else z3.BitVecVal(ev[2], 64)
            nm = "z!%d!%s" % (ev[3], "/".join(map(str, key)))
            new = z3.Const(nm, t.sort().range()); sz = lt_size(key[3])
            if len(key[1]) == 1 and key[1][0][1] == key[3] and key[2] == 0 and sz & (sz - 1) == 0:
                i = z3.Const("zi", BV64); old = z3.Select(t, ev[1]); lg = sz.bit_length() - 1
                S.assume(z3.ForAll([i], z3.And(z3.Implies(z3.ULT(i, z3.LShR(n, lg)), z3.Select(new, i) == self.zero_of((key[0], (), 0, key[3]))),
                                               z3.Implies(z3.UGE(i, z3.LShR(n + (sz - 1), lg)), z3.Select(new, i) == z3.Select(old, i))), patterns=[z3.Select(new, i)]))
            return z3.Store(t, ev[1], new)
        if ev[0] == "copyn":
            if key[1] or key[0] == "arr": raise Unsupported("memcpy over an array")
            return z3.Store(t, ev[1], z3.Select(t, ev[2])) if key[2] + lt_size(key[3]) <= ev[3] else t
        if ev[0] == "copy": return z3.Store(t, ev[1], z3.Select(t, ev[2]))
        if ev[0] == "junk":
            return z3.Store(t, ev[1], z3.Const("junk!%d!%s" % (ev[2], "/".join(map(str, key))), t.sort().range()))
        if ev[0] == "havockey":
            return ev[2] if ev[1] == key else t
        raise Unsupported("event")
    def global_ptr(self, name):
        if name not in self.globals:
            self.globals[name] = z3.Const("@" + name, PtrS)
        return self.globals[name]
    def fconst(self, txt, ty="double"):
        k = (txt)
        if k not in self.float_consts: self.float_consts[k] = z3.Const("flt:" + txt, FltS)
        return self.float_consts[k]

    # ---- solver
    def base_axioms(self, extra=()):
        ax = list(self.axioms)
        gl = list(self.globals.values())
        if gl: ax.append(z3.Distinct(NULL, *gl))
        for k, v in self.float_consts.items():
            q = fp_value(k)
            if q is not None: ax += [z3.Not(FNAN(v)), FVAL(v) == z3.Q(q.numerator, q.denominator)]
        ax.append(p2i(NULL) == 0)
        ax.append(i2p(z3.BitVecVal(0, 64)) == NULL)
        x = z3.Const("xp", PtrS)
        ax.append(z3.ForAll([x], i2p(p2i(x)) == x, patterns=[p2i(x)]))
        return ax
    shard = None; _grp = False; _seq = 0; _gseq = 0
    def mine(self):
        """group of obligations (one path end): is it this process' share?"""
        if not self.shard: return True
        self._gseq += 1
        return self._gseq % self.shard[1] == self.shard[0]
    nfail = 0; rl_seen = 0; deadline = None
    def solver(self, rl, seed=1):
        s = z3.SimpleSolver() if self.simple else z3.Solver()
        s.set("auto_config", False); s.set("smt.mbqi", False); s.set("rlimit", rl)
        s.set("smt.random_seed", seed)
        return s
    def quick_feasible(self, S):
        t0 = time.time()
        s = self.solver(200000)
        s.add(*self.base_axioms()); s.add(*S.pc)
        r = s.check()
        self.time_z3 += time.time() - t0
        return r != z3.unsat
    def prove(self, S, goal, label, line=None, rl=None):
        """discharge one obligation"""
        if not self.record: return True
        if isinstance(goal, Dual): goal = goal.goal
        if self.shard and not self._grp:      # another process of the same unit proves it
            self._seq += 1
            if self._seq % self.shard[1] != self.shard[0]: return True
        goal = z3.simplify(goal) if not z3.is_quantifier(goal) else goal
        fnn = self.cur
        if z3.is_true(goal):
            self.obligs.append(Oblig(fnn, label, "discharged", 0.0, 0, "simplifier", line=line)); return True
        t0 = time.time()
        many = self.nfail >= 6          # enough to report: spend little on the rest
        if self.deadline and time.time() > self.deadline:
            self.nfail += 1
            self.obligs.append(Oblig(fnn, label, "failed", 0.0, 0, "z3", {"result": "unknown", "reason": "timeout of the unit", "trace": list(S.trace)}, line)); return False
        plans = [(S.pc + S.lem, rl or self.rlimit, 1)]
        if rl is None and not many:
            if S.lem: plans = [(S.pc + S.lem, self.rlimit // 4, 1), (S.pc, self.rlimit // 2, 1), (S.pc + S.lem, self.rlimit, 7)]
            else: plans = [(S.pc, self.rlimit // 2, 1), (S.pc, self.rlimit // 2, 7), (S.pc, self.rlimit, 23)]
        elif many: plans = [(S.pc + S.lem, (rl or self.rlimit) // 8, 1)]
        used = 0; r = None
        for facts, lim, seed in plans:
            s = self.solver(lim, seed)
            s.add(*self.base_axioms()); s.add(*facts); s.add(z3.Not(goal))
            r = s.check()
            try: u1 = s.statistics().get_key_value("rlimit count")
            except Exception: u1 = 0
            used += u1 - self.rl_seen if u1 >= self.rl_seen else u1
            self.rl_seen = u1
            if r == z3.unsat: break
        dt = time.time() - t0
        self.time_z3 += dt
        if r == z3.unsat:
            self.obligs.append(Oblig(fnn, label, "discharged", dt, used, "z3", line=line)); return True
        self.nfail += 1
        det = {"result": str(r), "reason": s.reason_unknown() if r == z3.unknown else "", "trace": list(S.trace), "goal": str(goal)[:2000]}
        if r == z3.sat: det["model"] = str(s.model())[:4000]
        if os.environ.get("VCG_DUMP"):
            open(os.environ["VCG_DUMP"] + "/%s_%s.smt2" % (fnn, re.sub(r"\W+", "_", label)), "w").write(s.to_smt2())
        self.obligs.append(Oblig(fnn, label, "failed", dt, used, "z3", det, line))
        if self.verbose: print("  FAIL %s: %s [%s %s] path %s" % (fnn, label, r, det["reason"], S.trace))
        return False

    def lemma(self, S, f, label):
        """an intermediate step: used only if it can be proved; never a verdict of its own"""
        if not self.record: return
        n = len(self.obligs); nf = self.nfail
        if self.prove(S, f, label, rl=8000000): S.lem.append(f.hyp if isinstance(f, Dual) else f)
        else:
            if self.verbose: print("  (lemma not proved: %s)" % label)
            del self.obligs[n:]; self.nfail = nf

    # ---- memory
    def mkkey(self, p, ty, S=None):
        lt = ty.name if ty.k == "fp" else repr(ty)
        if p.root is None: return ("arr", ((0, lt),), 0, lt)      # *p is p[0]
        return (p.root, p.dims, p.off, lt)
    def cell(self, p, ty):
        if p.root is not None or ty.k not in ("int", "ptr", "fp"): return p
        lt = ty.name if ty.k == "fp" else repr(ty)
        return Ptr(p.base, "arr", ((0, lt),), 0, (z3.BitVecVal(0, 64),), p.src)
    def note_access(self, key):
        self.accesses.setdefault((key[0], key[1]), {}).setdefault(key[2], set()).add(key[3])
    def deref_check(self, S, p, what, line):
        if isinstance(p, Loc): return
        if p.root and p.root.startswith("@"): return
        b = p.base
        if any(b is x or b.eq(x) for x in S.ghost.get("_safe", ())): return
        self.prove(S, z3.Select(S.g("live"), b), "memory safety: %s through a live pointer" % what, line)
        S.ghost["_safe"] = S.ghost.get("_safe", ()) + (b,)
    def load(self, S, p, ty, check=True, line=None):
        if isinstance(p, Loc):
            v = S.vars.get(p.vid)
            if v is None:
                v = self.fresh_val("uninit", ty); S.vars[p.vid] = v
            return self.coerce(v, ty)
        if not isinstance(p, Ptr): raise Unsupported("load through non-pointer")
        if ty.k not in ("int", "ptr", "fp"): raise Unsupported("load of %r" % ty)
        if p.root is None and z3.is_app(p.base) and p.base.decl().name().startswith("@"):
            p = Ptr(p.base, "@" + p.base.decl().name()[1:])
        p = self.cell(p, ty)
        if p.root == "arr" and p.dims == ((0, "i8"),) and (p.off or repr(ty) != "i8"):      # several bytes of a byte array, little endian
            if ty.k not in ("int", "fp") or ty.k == "int" and ty.w % 8: raise Unsupported("load of %r from a byte array" % ty)
            n = ty.w // 8 if ty.k == "int" else lt_size(ty.name); i0 = p.idx[0] + p.off
            if check: self.deref_check(S, p, "read", line)
            if check and self.bounds: 
                for j in {0, n - 1}: self.bounds(self, S, Ptr(p.base, "arr", ((0, "i8"),), 0, (i0 + j,)), line)
                if n > 1: self.prove(S, z3.ULE(i0, i0 + (n - 1)), "memory safety: access does not wrap", line)
            row = z3.Select(S.map(("arr", ((0, "i8"),), 0, "i8")), p.base)
            v = le_bytes(row, i0, n)
            return v if ty.k == "int" else self.uf("fbits%d" % (8 * n), FltS, v)
        k = self.mkkey(p, ty)
        self.note_access(k)
        if check: self.deref_check(S, p, "read", line)
        if check and self.bounds: self.bounds(self, S, p, line)
        t = z3.Select(S.map(k), p.base)
        for i in p.idx: t = z3.Select(t, i)
        if ty.k == "ptr": return ptr_of_term(t, src=(k, p.base)) 
        if ty.k == "int" and ty.w == 1: return t == 1
        return t
    def store(self, S, p, v, ty, check=True, line=None):
        if isinstance(p, Loc):
            S.vars[p.vid] = v; return
        if not isinstance(p, Ptr): raise Unsupported("store through non-pointer")
        if p.root is None and z3.is_app(p.base) and p.base.decl().name().startswith("@"):
            p = Ptr(p.base, "@" + p.base.decl().name()[1:])
        p = self.cell(p, ty)
        if ty.k not in ("int", "ptr", "fp"): raise Unsupported("store of %r" % ty)
        if p.root == "arr" and p.dims == ((0, "i8"),) and (p.off or repr(ty) != "i8"): raise Unsupported("multi-byte store into a byte array")
        k = self.mkkey(p, ty)
        self.note_access(k)
        if check: self.deref_check(S, p, "write", line)
        if check and self.bounds: self.bounds(self, S, p, line)
        if check and k in self.private: self.prove(S, z3.BoolVal(False), "encapsulation: %s is written only by its own module" % (k,), line)
        t = self.term(v, ty)
        m = S.map(k)
        new = self.upd(m, [p.base] + list(p.idx), t)
        old = S.copy() if self.on_write else None
        S.setmap(k, new)
        if self.on_write: self.on_write(self, old, S, k, p, t)
    def upd(self, m, idx, v):
        if len(idx) == 1: return z3.Store(m, idx[0], v)
        return z3.Store(m, idx[0], self.upd(z3.Select(m, idx[0]), idx[1:], v))
    def term(self, v, ty):
        if isinstance(v, (Ptr, Loc)): 
            if ty.k != "ptr": raise Unsupported("pointer stored as %r" % ty)
            return addr_term(v)
        if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, ty.w), z3.BitVecVal(0, ty.w))
        return v
    def coerce(self, v, ty):
        if ty.k == "ptr" and not isinstance(v, (Ptr, Loc)): raise Unsupported("type-punned local")
        if ty.k == "int" and ty.w > 1 and z3.is_bv(v) and v.size() != ty.w: raise Unsupported("type-punned local")
        return v
    def fresh_val(self, name, ty):
        if ty.k == "ptr": return Ptr(fresh(name, PtrS))
        if ty.k == "int" and ty.w == 1: return fresh(name, z3.BoolSort())
        if ty.k == "int": return fresh(name, z3.BitVecSort(ty.w))
        if ty.k == "fp": return fresh(name, FltS)
        if ty.k == "void": return None
        raise Unsupported("value of type %r" % ty)
    def alloc(self, S, name="new", zero=False):
        p = fresh(name, PtrS)
        S.assume(p != NULL)
        S.assume(z3.Not(z3.Select(S.g("live"), p)))
        S.assume(z3.Not(z3.Select(S.g("ever"), p)))
        S.ghost["ever"] = z3.Store(S.g("ever"), p, True)
        for q in self.globals.values(): S.assume(p != q)
        S.ghost["live"] = z3.Store(S.g("live"), p, True)
        S.ghost["_safe"] = S.ghost.get("_safe", ()) + (p,)
        S.ghost["_new"] = S.ghost.get("_new", ()) + (p,)
        S.event(("zero", p) if zero else ("junk", p, next(_fresh)))
        return p

    # ---- operands
    def operand(self, txt, ty, env, S):
        txt = txt.strip()
        if txt.startswith("%"):
            if txt not in env: raise Unsupported("undefined " + txt)
            return env[txt]
        if ty.k == "int":
            if txt == "true": return z3.BoolVal(True) if ty.w == 1 else None
            if txt == "false": return z3.BoolVal(False)
            if txt in ("undef", "poison"): return self.fresh_val("undef", ty)
            if re.match(r"^-?\d+$", txt): return z3.BitVecVal(int(txt), ty.w) if ty.w > 1 else z3.BoolVal(txt != "0")
            raise Unsupported("const " + txt)
        if ty.k == "ptr":
            if txt == "null": return Ptr(NULL)
            if txt in ("undef", "poison"): return self.fresh_val("undef", ty)
            if txt.startswith("@"): return Ptr(self.global_ptr(txt[1:].strip('"')))
            m = re.match(r"inttoptr \(i64 (-?\d+) to ptr\)", txt)
            if m: return Ptr(i2p(z3.BitVecVal(int(m.group(1)), 64)))
            m = re.match(r"getelementptr (?:inbounds )?\((.*)\)$", txt)
            if m: return self.gep(m.group(1), env, S)
            raise Unsupported("const " + txt)
        if ty.k == "fp": return self.fconst(txt)
        raise Unsupported("operand %r %s" % (ty, txt))

    def gep(self, text, env, S):
        text = re.sub(r"^(inbounds|nuw|nusw)\s+", "", text)
        parts = split_top(text)
        ty, _ = parse_type(parts[0])
        pt, r = parse_type(parts[1]); p = self.operand(strip_attrs(r)[0], pt, env, S)
        idx = []
        for q in parts[2:]:
            t, r = parse_type(q)
            v = self.operand(r, t, env, S)
            if z3.is_bv(v):
                v = z3.simplify(v)
                if v.size() < 64: v = z3.simplify(z3.SignExt(64 - v.size(), v))
            idx.append(v)
        if isinstance(p, Loc):
            if all(z3.is_bv_value(v) and v.as_long() == 0 for v in idx): return p
            raise Unsupported("gep on scalar local")
        mod = self.curmod
        def cval(v):
            if z3.is_bv_value(v): return v.as_signed_long()
            return None
        base, root, dims, off, ix = p.base, p.root, p.dims, p.off, p.idx
        if root is None and z3.is_app(base) and base.decl().name().startswith("@"):
            root = base.decl().name()
        i0 = cval(idx[0])
        rt = mod.resolve(ty)
        tname = norm_struct(ty.name) if ty.k == "named" else repr(ty)
        if root is None and i0 == 0 and tname in self.array_structs: root, dims, off, ix = "arr", ((0, tname),), 0, (z3.BitVecVal(0, 64),)      # p->f is p[0].f
        if len(idx) == 1 or i0 != 0:
            # pointer arithmetic over elements of type ty
            if i0 == 0 and not (root is None and rt.k in ("int", "ptr", "fp")): pass
            elif root is None or (root == "arr" and dims == ((0, tname),) and off == 0):
                j = ix[0] if ix else z3.BitVecVal(0, 64)
                root, dims, off, ix = "arr", ((0, tname),), 0, (z3.simplify(j + idx[0]),)
            elif root == "arr" and dims == ((0, "i8"),) and tname == "i8":
                off, ix = 0, (z3.simplify(ix[0] + off + idx[0]),)
            elif dims and dims[-1][1] == tname and off == 0:
                ix = ix[:-1] + (z3.simplify(ix[-1] + idx[0]),)
            elif i0 is not None and root is not None:
                off += i0 * mod.size(ty)
            else: raise Unsupported("pointer arithmetic into %s" % root)
        elif rt.k in ("int", "ptr", "fp"):
            pass
        if len(idx) > 1:
            if root is None:
                root = tname if rt.k != "arr" else None
                if rt.k == "arr": root, dims, off = "arr0", (), 0
            cur = ty
            for v in idx[1:]:
                rc = mod.resolve(cur)
                if rc.k == "struct":
                    i = cval(v)
                    o, cur = mod.field(rc, i); off += o
                elif rc.k == "arr":
                    i = cval(v)
                    en = norm_struct(rc.elem.name) if rc.elem.k == "named" else repr(rc.elem)
                    dims = dims + ((off, en),); ix = ix + (v,); off = 0
                    cur = rc.elem
                else: raise Unsupported("gep into %r" % rc)
        elif root is None and False: pass
        return Ptr(base, root, dims, off, ix)

    # ---- instructions
    intmode = False          # 64-bit additions, subtractions and signed comparisons through their integer values
    def ival(self, S, a):
        if z3.is_bv_value(a):
            S.assume(IVAL(a) == z3.IntVal(a.as_signed_long()))
        return IVAL(a)
    def icmp(self, pred, a, b, ty, S=None):
        if ty.k == "ptr":
            if pred not in ("eq", "ne"): raise Unsupported("pointer order")
            if isinstance(a, Loc) or isinstance(b, Loc):
                if isinstance(a, Loc) and isinstance(b, Loc): r = z3.BoolVal(a.vid == b.vid)
                else: r = z3.BoolVal(False)
            else: 
                if not a.plain() and b.plain() and z3.is_app(b.base) and b.base.eq(NULL): r = z3.BoolVal(False)
                elif not b.plain() and a.plain() and a.base.eq(NULL): r = z3.BoolVal(False)
                else: r = addr_term(a) == addr_term(b)
            return r if pred == "eq" else z3.Not(r)
        if z3.is_bool(a) or z3.is_bool(b):
            r = {"eq": a == b, "ne": a != b}.get(pred)
            if r is None: raise Unsupported("icmp on i1")
            return r
        if self.intmode and ty.w == 64 and pred[0] in "sen":
            ia, ib = self.ival(S, a), self.ival(S, b)
            if pred in ("eq", "ne"):
                S.assume((a == b) == (ia == ib)); return a == b if pred == "eq" else a != b
            return {"slt": ia < ib, "sle": ia <= ib, "sgt": ia > ib, "sge": ia >= ib}[pred]
        return {"eq": lambda: a == b, "ne": lambda: a != b, "slt": lambda: a < b, "sle": lambda: a <= b, "sgt": lambda: a > b,
                "sge": lambda: a >= b, "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b), "ugt": lambda: z3.UGT(a, b),
                "uge": lambda: z3.UGE(a, b)}[pred]()

    def tobv(self, v, w):
        if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        return v
    def uf(self, name, rs, *args):
        f = z3.Function(name, *([a.sort() for a in args] + [rs])); return f(*args)

    def binop(self, op, text, env, S):
        text = re.sub(r"^(nuw|nsw|exact|disjoint|fast|\s)+", "", text)
        ty, r = parse_type(text)
        a, b = split_top(r)
        a = self.operand(a, ty, env, S); b = self.operand(b, ty, env, S)
        if ty.k == "fp":
            return self.uf(op, FltS, a, b)
        if ty.w == 1:
            return {"and": z3.And, "or": z3.Or, "xor": z3.Xor}[op](a, b)
        if self.intmode and ty.w == 64 and op in ("add", "sub"):
            r = fresh("n", BV64); ia, ib = self.ival(S, a), self.ival(S, b); e = ia + ib if op == "add" else ia - ib; lim = z3.IntVal(1 << 62)
            S.assume(z3.Implies(z3.And(-lim < e, e < lim), IVAL(r) == e))
            return r
        if op in ("mul", "udiv", "urem", "sdiv", "srem"):
            ca, cb = z3.is_bv_value(a), z3.is_bv_value(b)
            if not (cb or (ca and op == "mul")):
                if ty.w > 16: return self.uf("%s%d" % (op, ty.w), z3.BitVecSort(ty.w), a, b)
            elif op != "mul" or True:
                c = (b if cb else a).as_long()
                if c == 0 or (c & (c - 1)) != 0:
                    if op == "mul" and c < 256: return a * b
                    if ty.w > 32: return self.uf("%s%d" % (op, ty.w), z3.BitVecSort(ty.w), a, b)
        return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b, "or": lambda: a | b,
                "xor": lambda: a ^ b, "shl": lambda: a << b, "lshr": lambda: z3.LShR(a, b), "ashr": lambda: a >> b,
                "udiv": lambda: z3.UDiv(a, b), "urem": lambda: z3.URem(a, b), "sdiv": lambda: a / b, "srem": lambda: z3.SRem(a, b)}[op]()

    def cast(self, op, text, env, S):
        m = re.match(r"^(?:nneg |nuw |nsw )*(.*) to (.+)$", text)
        ty, r = parse_type(m.group(1)); v = self.operand(r, ty, env, S)
        to, _ = parse_type(m.group(2))
        if op == "zext": return self.tobv(v, to.w) if z3.is_bool(v) else z3.ZeroExt(to.w - ty.w, v)
        if op == "sext":
            if z3.is_bool(v): return z3.If(v, z3.BitVecVal(-1, to.w), z3.BitVecVal(0, to.w))
            return z3.SignExt(to.w - ty.w, v)
        if op == "trunc":
            if to.w == 1: return z3.Extract(0, 0, v) == 1
            return z3.Extract(to.w - 1, 0, v)
        if op == "ptrtoint":
            if to.w != 64: raise Unsupported("ptrtoint")
            t = addr_term(v)
            if z3.is_app(t) and t.decl().eq(i2p): 
                return t.arg(0)
            return p2i(t)
        if op == "inttoptr":
            if z3.is_app(v) and v.decl().eq(p2i): return ptr_of_term(v.arg(0))
            r = i2p(v); S.assume(p2i(r) == v); return Ptr(r)
        if op == "bitcast": return v
        if op in ("sitofp", "uitofp"): return self.uf("%s%d" % (op, ty.w), FltS, self.tobv(v, 1) if z3.is_bool(v) else v)
        if op in ("fptosi", "fptoui"): return self.uf("%s%d" % (op, to.w), z3.BitVecSort(to.w), v)
        if op in ("fpext", "fptrunc"): return self.uf(op, FltS, v) 
        raise Unsupported(op)

    # ---- locals for invariants
    def local(self, frame, S, name):
        for cand in ("%" + name, "%" + name + ".addr"):
            vid = (frame["id"], cand)
            if vid in frame["allocas"]:
                ty = frame["allocas"][vid]
                if vid not in S.vars: S.vars[vid] = self.fresh_val("uninit", ty)
                v = S.vars[vid]
                return addr_term(v) if isinstance(v, (Ptr,)) else v
        # renamed local: let the candidate search decide (see verify())
        alias = self.aliases.get((frame["fn"], name))
        if alias:
            vid = (frame["id"], alias)
            if vid in frame["allocas"]:
                v = S.vars.get(vid) 
                if v is None: v = S.vars[vid] = self.fresh_val("uninit", frame["allocas"][vid])
                return addr_term(v) if isinstance(v, (Ptr,)) else v
        raise MissingLocal(frame["fn"], name, [k[1] for k in frame["allocas"]], {k[1]: repr(v) for k, v in frame["allocas"].items()})

    aliases = {}
    array_structs = frozenset(["cache_stat_t"])      # structs that live in arrays

    # ---- functions
    def run_function(self, fn, args, S, depth=0):
        """symbolically execute fn; returns list of (state, ret)"""
        if depth > 12: raise Unsupported("inlining too deep at " + fn.name)
        frame = {"id": next(self.frame_id), "fn": fn.name, "allocas": {}, "args": args, "S0": S.copy(), "depth": depth}
        env = {}
        for (ty, nm, at), a in zip(fn.params, args): env[nm] = a
        out = []
        loopmap = loops(fn)
        work = [(fn.order[0], 0, None, env, S, ())]
        while work:
            label, idx, prev, env, S, active = work.pop()
            self.curmod = fn.module
            self._run_block(fn, frame, loopmap, label, idx, prev, env, S, active, work, out)
        return out

    def _goto(self, fn, frame, loopmap, src, dst, env, S, active, work):
        # leave loops
        active = tuple(a for a in active if dst in loopmap[a[0]])
        if dst in loopmap:
            hit = [a for a in active if a[0] == dst]
            if hit:
                kind = hit[0][1]
                if kind == "unroll":
                    n = hit[0][2] + 1
                    if n > self.unroll_max: raise Unsupported("loop without invariant in %s (not a small constant trip count)" % fn.name)
                    active = tuple(a for a in active if a[0] != dst) + ((dst, "unroll", n),)
                    if not self.quick_feasible(S): return
                    work.append((dst, 0, src, env, S, active)); return
                if kind == "collect":
                    lst, gspec, SI = hit[0][2]
                    self.loop_ghosts(gspec, "ghost", S, frame, None, SI)
                    lst.append(S); return
                # invariant must be re-established
                spec, SE, vstart, SI = hit[0][2]
                self.loop_ghosts(spec, "ghost", S, frame, SE, SI)
                c = Ctx(self, frame["S0"], S, frame["args"], frame=frame, SE=SE, SI=SI)
                if not self.mine(): return
                self._grp = True
                for h in (spec["hints"](c) if spec.get("hints") else ()):     # intermediate lemmas: proved, then used
                    self.lemma(S, h[1], "loop lemma: %s" % h[0])
                for lab, f in spec["inv"](c):
                    self.prove(S, f, "loop invariant preserved: %s" % lab, None)
                if vstart is not None:
                    v = spec["variant"](c)
                    self.prove(S, decreases(v, vstart), "loop terminates (variant decreases)")
                self._grp = False
                return
            spec = self.loop_spec(fn, frame, list(loopmap).index(dst))
            if spec is None:
                if not self.quick_feasible(S): return
                work.append((dst, 0, src, env, S, active + ((dst, "unroll", 0),))); return
            self.loop_ghosts(spec, "ghost_init", S, frame, None, None)
            SE = S.copy()
            c = Ctx(self, frame["S0"], S, frame["args"], frame=frame, SE=SE)
            for h in (spec["hints_entry"](c) if spec.get("hints_entry") else ()):
                self.lemma(S, h[1], "loop lemma: %s" % h[0])
            for lab, f in spec["inv"](c):
                self.prove(S, f, "loop invariant on entry: %s" % lab)
            mods_v, mods_k, mods_g = set(), set(), set()
            rec = self.record; self.record = False
            for _ in range(6):
                T = self.havoc(SE.copy(), mods_v, mods_k, mods_g, frame)
                for lab, f in spec["inv"](Ctx(self, frame["S0"], T, frame["args"], frame=frame, SE=SE)): T.assume(f)
                snap_v, snap_k, snap_g = dict(T.vars), dict(T.heap), dict(T.ghost); nev = len(T.events)
                back = []
                w2 = [(dst, 0, src, dict(env), T, active + ((dst, "collect", (back, spec, T.copy())),))]
                o2 = []
                while w2:
                    l2, i2, p2, e2, S2, a2 = w2.pop()
                    self.curmod = fn.module
                    if l2 not in loopmap[dst]: continue
                    self._run_block(fn, frame, loopmap, l2, i2, p2, e2, S2, a2, w2, o2)
                ch = False
                for B in back:
                    for k, v in B.vars.items():
                        if k[0] != frame["id"] and k not in SE.vars: continue      # local of a function inlined in the body
                        if k not in mods_v and not same(v, snap_v.get(k)) : mods_v.add(k); ch = True
                    for k, v in B.heap.items():
                        o = snap_k.get(k)
                        if o is None: o = T.copy().map(k)
                        if k not in mods_k and not v.eq(o): mods_k.add(k); ch = True
                    for k, v in B.ghost.items():
                        if k.startswith("_"): continue
                        o = snap_g.get(k)
                        if o is None: o = self.init_ghost(k)
                        if k not in mods_g and not v.eq(o): mods_g.add(k); ch = True
                if not ch: break
            self.record = rec
            self.curmod = fn.module
            T = self.havoc(SE.copy(), mods_v, mods_k, mods_g, frame)
            c2 = Ctx(self, frame["S0"], T, frame["args"], frame=frame, SE=SE)
            for lab, f in spec["inv"](c2): T.assume(f)
            vstart = None
            if spec.get("variant"): 
                vv = spec["variant"](c2); vstart = []
                for e in (vv if isinstance(vv, (list, tuple)) else [vv]):
                    w = fresh("variant", e.sort()); T.assume(w == e); vstart.append(w)
            T.trace.append("%s:loop" % dst)
            work.append((dst, 0, src, env, T, active + ((dst, "cut", (spec, SE, vstart, T.copy())),)))
            return
        work.append((dst, 0, src, env, S, active))

    def loop_ghosts(self, spec, key, S, frame, SE, SI):
        """ghost assignments of a loop: before its first iteration, after each iteration"""
        if not spec.get(key): return
        new = spec[key](Ctx(self, frame["S0"], S, frame["args"], frame=frame, SE=SE, SI=SI))
        for k, v in new.items(): S.ghost[k] = self.named(S, k, v)

    epochs = itertools.count(1)
    def havoc(self, T, mv, mk, mg, frame):
        T.ghost["_epoch"] = next(self.epochs)
        for k in mv:
            ty = frame["allocas"].get(k)
            if ty is None: 
                # a local of a caller, changed through its address
                v = T.vars.get(k)
                T.vars[k] = Ptr(fresh("h", PtrS)) if isinstance(v, Ptr) else fresh("h", v.sort())
                continue
            v = T.vars.get(k)
            if isinstance(v, Ptr) and not v.plain(): raise Unsupported("interior pointer modified in a loop (%s)" % k[1])
            T.vars[k] = self.fresh_val("l_" + k[1].strip("%"), ty)
        for k in mk: T.map(k); T.heap[k] = fresh("h_%s+%s" % (k[0], k[2]), self.key_sort(k))
        for k in mg: T.g(k); T.ghost[k] = fresh("g_" + k, T.ghost[k].sort())
        if "live" in mg: T.ghost["_safe"] = ()
        xl = z3.Const("xl", PtrS)
        if "ever" in mg or "live" in mg:
            T.assume(z3.ForAll([xl], z3.Implies(z3.Select(T.g("live"), xl), z3.Select(T.g("ever"), xl)), patterns=[z3.Select(T.g("live"), xl)]))
        if "ever" in mg:
            e0 = frame["S0"].g("ever")
            T.assume(z3.ForAll([xl], z3.Implies(z3.Select(e0, xl), z3.Select(T.g("ever"), xl)), patterns=[z3.Select(e0, xl)]))
        return T

    def loop_spec(self, fn, frame, ordinal):
        sp = self.loopspecs.get(fn.name)
        if sp is None: return None
        if len(loops(fn)) != len(sp) and not any(k == "any" for k in sp):
            pass
        return sp.get(ordinal, sp.get("any"))
    loopspecs = {}

    def _run_block(self, fn, frame, loopmap, label, idx, prev, env, S, active, work, out):
        blk = fn.blocks[label]
        if idx == 0 and len(S.trace) < 400: S.trace.append(label)
        # phis first
        i = idx
        if i == 0:
            upd = {}
            while i < len(blk) and blk[i].op == "phi":
                ins = blk[i]
                ty, r = parse_type(re.sub(r"^(fast )", "", ins.text))
                for m in re.finditer(r'\[ (.+?), %("[^"]+"|[\w.$-]+) \]', r):
                    if m.group(2).strip('"') == prev:
                        upd[ins.dst] = self.operand(m.group(1), ty, env, S); break
                else: raise Unsupported("phi")
                i += 1
            if upd: env = dict(env); env.update(upd)
        while i < len(blk):
            ins = blk[i]; op = ins.op; t = ins.text; ln = ins.line
            if op == "alloca":
                ty, r = parse_type(t)
                rt = fn.module.resolve(ty)
                vid = (frame["id"], ins.dst)
                if rt.k == "struct":      # a struct that wraps one scalar is that scalar
                    lf = list(fn.module.leaf_fields(rt))
                    if len(lf) == 1 and lf[0][0] == 0 and fn.module.size(rt) == fn.module.size(lf[0][1]): ty = rt = lf[0][1]
                if rt.k == "int" and any(x.op == "store" and re.search(r"\bptr (noundef )?%s, ptr " % re.escape(ins.dst), x.text) for b in fn.blocks.values() for x in b):
                    env[ins.dst] = Ptr(self.alloc(S, "local_" + ins.dst.strip("%")))      # its address is kept in memory
                elif rt.k in ("int", "ptr", "fp") and not re.match(r"\s*,\s*i\d+ ", r):
                    frame["allocas"][vid] = ty
                    env[ins.dst] = Loc(vid, ty)
                    S.vars.pop(vid, None)
                else:
                    env[ins.dst] = Ptr(self.alloc(S, "local_" + ins.dst.strip("%")))
            elif op == "load":
                t2 = re.sub(r"^volatile ", "", t)
                ty, r = parse_type(t2); _, a = split_top(r.lstrip(", "))[0].split(None, 1) if False else (None, split_top(r.lstrip(", "))[0])
                pt, a = parse_type(a)
                env[ins.dst] = self.load(S, self.operand(a, pt, env, S), ty, line=ln)
            elif op == "store":
                t2 = re.sub(r"^volatile ", "", t)
                parts = split_top(t2)
                ty, a = parse_type(parts[0]); pt, b = parse_type(parts[1])
                self.store(S, self.operand(b, pt, env, S), self.operand(a, ty, env, S), ty, line=ln)
            elif op == "getelementptr":
                env[ins.dst] = self.gep(t, env, S)
            elif op == "icmp":
                m = re.match(r"(\w+) (.*)$", t)
                ty, r = parse_type(m.group(2)); a, b = split_top(r)
                env[ins.dst] = self.icmp(m.group(1), self.operand(a, ty, env, S), self.operand(b, ty, env, S), ty, S)
            elif op == "fcmp":
                m = re.match(r"(?:fast )?(\w+) (.*)$", t)
                ty, r = parse_type(m.group(2)); a, b = split_top(r)
                env[ins.dst] = fcmp(m.group(1), self.operand(a, ty, env, S), self.operand(b, ty, env, S))
            elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem", "fadd", "fsub", "fmul", "fdiv", "frem"):
                env[ins.dst] = self.binop(op, t, env, S)
            elif op == "fneg":
                ty, r = parse_type(t); env[ins.dst] = self.uf("fneg", FltS, self.operand(r, ty, env, S))
            elif op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
                env[ins.dst] = self.cast(op, t, env, S)
            elif op == "select":
                parts = split_top(t)
                _, c = parse_type(parts[0]); c = self.operand(c, Ty("int", w=1), env, S)
                ty, a = parse_type(parts[1]); _, b = parse_type(parts[2])
                a = self.operand(a, ty, env, S); b = self.operand(b, ty, env, S)
                if ty.k == "ptr": env[ins.dst] = Ptr(z3.If(c, addr_term(a), addr_term(b)))
                else: env[ins.dst] = z3.If(c, a, b)
            elif op == "extractvalue":
                raise Unsupported("extractvalue")
            elif op == "freeze":
                ty, r = parse_type(t); env[ins.dst] = self.operand(r, ty, env, S)
            elif op == "call":
                outs = self.call(fn, frame, ins, env, S)
                self.curmod = fn.module
                if len(outs) != 1 or outs[0][0] is not S:
                    for (S2, rv) in outs:
                        e2 = dict(env)
                        if ins.dst: e2[ins.dst] = rv
                        work.append((label, i + 1, prev, e2, S2, active))
                    return
                if ins.dst: env[ins.dst] = outs[0][1]
            elif op == "ret":
                self.npaths += 1
                if self.npaths > self.max_paths: raise Unsupported("too many paths in %s" % fn.name)
                if t.strip() == "void": out.append((S, None))
                else:
                    ty, r = parse_type(t); out.append((S, self.operand(r, ty, env, S)))
                return
            elif op == "unreachable":
                return
            elif op == "br":
                m = re.match(r'label %("[^"]+"|[\w.$-]+)', t)
                if m:
                    self._goto(fn, frame, loopmap, label, m.group(1).strip('"'), env, S, active, work); return
                m = re.match(r'i1 (\S+), label %("[^"]+"|[\w.$-]+), label %("[^"]+"|[\w.$-]+)', t)
                c = self.operand(m.group(1), Ty("int", w=1), env, S)
                c = z3.simplify(c)
                for cc, l in ((c, m.group(2).strip('"')), (z3.simplify(z3.Not(c)), m.group(3).strip('"'))):
                    if z3.is_false(cc): continue
                    S2 = S.copy(); S2.assume(cc)
                    if not z3.is_true(cc) and not self.quick_feasible(S2): continue
                    self._goto(fn, frame, loopmap, label, l, dict(env), S2, active, work)
                return
            elif op == "switch":
                m = re.match(r'(.+?), label %("[^"]+"|[\w.$-]+) \[(.*)\]', t)
                ty, r = parse_type(m.group(1)); v = self.operand(r, ty, env, S)
                rest = []
                for mm in re.finditer(r'i\d+ (-?\d+), label %("[^"]+"|[\w.$-]+)', m.group(3)):
                    cc = v == z3.BitVecVal(int(mm.group(1)), ty.w)
                    rest.append(z3.Not(cc))
                    S2 = S.copy(); S2.assume(cc)
                    if self.quick_feasible(S2):
                        self._goto(fn, frame, loopmap, label, mm.group(2).strip('"'), dict(env), S2, active, work)
                S2 = S.copy()
                for q in rest: S2.assume(q)
                if self.quick_feasible(S2):
                    self._goto(fn, frame, loopmap, label, m.group(2).strip('"'), dict(env), S2, active, work)
                return
            else:
                raise Unsupported("instruction %s in %s" % (op, fn.name))
            i += 1
        raise Unsupported("block without terminator")

    # ---- calls
    def call(self, fn, frame, ins, env, S):
        t = ins.text
        t = re.sub(r"^(fastcc |ccc |fast )", "", t)
        t, _ = strip_attrs(t)
        rty, r = parse_type(t)
        r = r.strip()
        if r.startswith("("):      # explicit function type (variadic)
            d = 0
            for j, ch in enumerate(r):
                if ch == "(": d += 1
                elif ch == ")":
                    d -= 1
                    if d == 0: break
            r = r[j+1:].strip()
        m = re.match(r'(@"[^"]+"|@[\w.$-]+|%"[^"]+"|%[\w.$-]+)\(', r)
        if not m: raise Unsupported("call " + ins.text[:80])
        callee = m.group(1)
        i = m.end(); d = 1; j = i
        while d:
            if r[j] == "(": d += 1
            elif r[j] == ")": d -= 1
            j += 1
        argtxt = r[i:j-1]
        args = []
        if callee.startswith("@llvm.dbg") or callee.startswith("@llvm.lifetime"): return [(S, None)]
        name = callee[1:].strip('"')
        for a in split_top(argtxt):
            if a.startswith("metadata"): return [(S, None)]
            ty, rr = parse_type(a); rr, at = strip_attrs(rr)
            v = self.operand(rr, ty, env, S)
            if any(x.startswith("byval") for x in at):
                q = self.alloc(S, "byval"); S.event(("copy", q, v.base)); v = Ptr(q)
            args.append(v)
        if callee.startswith("%"):
            return self.indirect(fn, frame, env[callee], args, rty, S, ins)
        return self.call_named(name, args, rty, S, ins, fn, frame)

    def call_named(self, name, args, rty, S, ins, fn, frame):
        if name in self.contracts and self.contracts[name] is not None:
            return self.call_contract(self.contracts[name], name, args, rty, S, ins)
        if name in self.externals:
            r = self.externals[name](self, S, args, rty, ins)
            self.ext_used.add(name)
            if r is not NotImplemented: return r
        b = self.builtin(name, args, rty, S, ins)
        if b is not None: return b
        target = self.prog.lookup(name, fn.module)
        if target is None: raise Unsupported("call to external function %s without a contract" % name)
        self.inlined.add(name)
        return self.run_function(target, args, S, frame["depth"] + 1)

    def builtin(self, name, args, rty, S, ins):
        if name in ("malloc", "g_malloc", "operator_new", "_Znwm"): self.ext_used.add(name); return [(S, Ptr(self.alloc(S, "malloc")))]
        if name in ("calloc", "g_malloc0", "g_malloc0_n"): self.ext_used.add(name); return [(S, Ptr(self.alloc(S, "calloc", zero=True)))]
        if name in ("posix_memalign", "aligned_alloc"): raise Unsupported(name)
        if name in ("free", "g_free"):
            self.ext_used.add(name)
            p = args[0]
            if not p.plain(): raise Unsupported("free of an interior pointer")
            self.prove(S, z3.Or(p.base == NULL, S.live(p.base)), "memory safety: free of a live object (no double free)", ins.line)
            S.ghost["live"] = z3.Store(S.g("live"), p.base, False)
            S.ghost["_safe"] = ()
            return [(S, None)]
        if name.startswith("llvm.memset"):
            p, v, n = args[0], args[1], args[2]
            if z3.is_bv_value(v) and v.as_long() == 0 and isinstance(p, Ptr) and p.plain():
                if not any(p.base.eq(x) for x in S.ghost.get("_safe", ())):
                    self.deref_check(S, p, "memset", ins.line)
                if not z3.is_bv_value(n): S.event(("zerolen", p.base, n, next(_fresh))); return [(S, None)]
                S.event(("zeron", p.base, n.as_long(), next(_fresh))); return [(S, None)]
            raise Unsupported("memset")
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            d, s_, n = args[0], args[1], args[2]
            lt = [x.ty for x in (d, s_) if isinstance(x, Loc)]
            if lt and z3.is_bv_value(n) and n.as_long() == self.curmod.size(lt[0]):      # a scalar copied as bytes
                self.store(S, d, self.load(S, s_, lt[0], line=ins.line), lt[0], line=ins.line); return [(S, None)]
            if isinstance(d, Ptr) and d.plain() and isinstance(s_, Ptr) and s_.plain():
                if z3.is_app(s_.base) and s_.base.decl().name().startswith("@"):
                    # initialiser constant copied into a local
                    S.event(("copy", d.base, s_.base)); return [(S, None)]
                self.deref_check(S, s_, "memcpy read", ins.line)
                self.deref_check(S, d, "memcpy write", ins.line)
                if not z3.is_bv_value(n): raise Unsupported("memcpy of symbolic length")
                S.event(("copyn", d.base, s_.base, n.as_long())); return [(S, None)]
            raise Unsupported("memcpy")
        if name.startswith("llvm.expect"): return [(S, args[0])]
        if name.startswith("llvm.stacksave"): return [(S, Ptr(fresh("stk", PtrS)))]
        if name.startswith("llvm.stackrestore"): return [(S, None)]
        if name.startswith("llvm.umax") or name.startswith("llvm.umin"):
            a, b = args; return [(S, z3.If(z3.UGT(a, b) if "umax" in name else z3.ULT(a, b), a, b))]
        if name.startswith("llvm.smax") or name.startswith("llvm.smin"):
            a, b = args; return [(S, z3.If(a > b if "smax" in name else a < b, a, b))]
        if name.startswith("llvm.abs"): return [(S, z3.If(args[0] < 0, -args[0], args[0]))]
        if name in IGNORED or name.startswith("llvm.va_"):
            return [(S, self.fresh_val("ign", rty) if rty.k != "void" else None)]
        if name in NORETURN:
            if not self.mayabort:
                self.prove(S, z3.BoolVal(False), "no abnormal termination: call of %s is unreachable" % name, ins.line)
            return []
        return None
    mayabort = False

    def indirect(self, fn, frame, v, args, rty, S, ins):
        if z3.is_app(v.base) and v.base.decl().name().startswith("@"):
            return self.call_named(v.base.decl().name()[1:], args, rty, S, ins, fn, frame)
        cands = []
        if v.src:
            k, b = v.src
            cands = self.roles.get(k, [])
            if isinstance(cands, str): cands = [cands]
        else: 
            for l in self.roles.values(): cands = cands + ([l] if isinstance(l, str) else list(l))
        for c in cands:
            if c.startswith("virtual:"):
                self.virtual_used.add(c)
                return self.call_contract(self.contracts[c], c, args, rty, S, ins)
            s = self.solver(self.rlimit); s.add(*self.base_axioms()); s.add(*S.pc)
            g = self.global_ptr(c)
            s.add(v.base != g)
            if s.check() == z3.unsat:
                return self.call_named(c, args, rty, S, ins, fn, frame)
        raise Unsupported("indirect call in %s cannot be resolved (%s)" % (fn.name, v.src[0] if v.src else v))
    roles = {}
    virtual_used = set()

    def call_contract(self, con, name, args, rty, S, ins):
        self.used_contracts.add(name)
        c0 = Ctx(self, S, S, args, caller=True)
        if getattr(con, "decr", None) and self.entry_decr is not None and con.name == self.cur:
            self.prove(S, decreases(con.decr(c0), [self.entry_decr]), "recursion terminates (variant decreases)", ins.line)
        for gname, gf in con.ghost_before.items(): S.ghost[gname] = self.named(S, gname, gf(c0))      # ghost assignment by the caller
        for lab, f in con.pre(c0):
            self.prove(S, f, "precondition of %s: %s" % (con.name, lab), ins.line)
        S0 = S.copy()
        S1 = S.copy()
        for mname in con.modifies:
            self.havoc_mod(S1, S0, mname, args)
        rv = None
        if rty.k != "void":
            rv = self.fresh_val("ret_" + con.name, rty)
        c = Ctx(self, S0, S1, args, ret=addr_term(rv) if isinstance(rv, Ptr) else rv, caller=True)
        if con.frees or con.allocates: S1.ghost["_safe"] = () if con.frees else S1.ghost.get("_safe", ())
        if con.allocates and "ever" not in con.ghost_post:
            e0 = self.named(S1, "ever", S1.g("ever")); S1.ghost["ever"] = fresh("g_ever", SetS); xl = z3.Const("xl", PtrS)
            S1.assume(z3.ForAll([xl], z3.Implies(z3.Select(e0, xl), z3.Select(S1.g("ever"), xl)), patterns=[z3.Select(e0, xl), z3.Select(S1.g("ever"), xl)]))
        for gname, gf in con.ghost_post.items():
            gn = gname(c) if callable(gname) else gname
            S1.ghost[gn] = self.named(S1, gn, gf(c))
        if con.effect: con.effect(c)
        for lab, f in con.post(c): S1.assume(f)
        if con.lemmas:
            for lab, f in con.lemmas(c): S1.assume(f)
        # write back in place so that callers holding S see it
        S.heap, S.ghost, S.vars, S.pc, S.events = S1.heap, S1.ghost, S1.vars, S1.pc, S1.events
        return [(S, rv)]

    def named(self, S, gn, t):
        """give a ghost term a name (keeps quantifier patterns simple)"""
        if z3.is_const(t): return t
        k = fresh("g_" + gn, t.sort()); S.assume(k == t)
        return k

    def havoc_mod(self, S1, S0, mname, args):
        if callable(mname): mname = mname(args)
        if isinstance(mname, tuple) and mname[0] == "arg":
            # the cell the i-th argument points to
            p = args[mname[1]]
            if isinstance(p, Loc): S1.vars[p.vid] = self.fresh_val("h", p.ty); return
            if p.plain() and z3.is_app(p.base) and p.base.eq(NULL): return
            ty = mname[2] if len(mname) > 2 else PTR
            self.store(S1, p, self.fresh_val("hv", ty), ty, check=False)
            return
        if mname.startswith("ghost:"):
            g = mname[6:]; S1.g(g); S1.ghost[g] = fresh("g_" + g, S1.ghost[g].sort()); 
            if g == "live": S1.ghost["_safe"] = ()
            return
        k = self.key(mname)
        S1.map(k)
        S1.heap[k] = fresh("c_%s+%s" % (k[0], k[2]), self.key_sort(k))

    def prove_lemmas(self, name, items):
        """pure lemmas (inductions) over the logical state: [(label, hypotheses, goal)]"""
        self.cur = name; n0 = len(self.obligs)
        for lab, hyp, goal in items:
            S = State(self)
            for h in hyp: S.assume(h)
            if not z3.is_true(goal) and not self.quick_feasible(S): raise Unsupported("VACUOUS lemma " + lab)
            self.prove(S, goal, lab)
        return self.obligs[n0:]

    # ---- verification of one function against its contract
    def verify(self, con, fname=None):
        fname = fname or con.fn
        fn = self.prog.lookup(fname)
        if fn is None: raise SpecMismatch("function %s not found" % fname)
        self.cur = con.name; self.npaths = 0
        self.loopspecs = con.loops if isinstance(con.loops, dict) else {}
        self.roles = {(self.key(k) if isinstance(k, str) else k): v for k, v in con.roles.items()}
        self.mayabort = con.mayabort
        S = State(self)
        args = []
        for i, (ty, nm, at) in enumerate(fn.params):
            sh = con.shapes.get(i)
            if sh is not None: args.append(sh(self, S, nm))
            elif ty.k == "ptr": args.append(Ptr(z3.Const("arg_" + nm.strip("%"), PtrS)))
            elif ty.k == "int" and ty.w == 1: args.append(z3.Const("arg_" + nm.strip("%"), z3.BoolSort()))
            else: args.append(z3.Const("arg_" + nm.strip("%"), sort_of(ty)))
        S.assume(z3.Not(z3.Select(S.g("live"), NULL)))
        xl = z3.Const("xl", PtrS)
        S.assume(z3.ForAll([xl], z3.Implies(S.live(xl), z3.Select(S.g("ever"), xl)), patterns=[S.live(xl)]))
        c = Ctx(self, S, S, args)
        self.entry_decr = con.decr(c) if getattr(con, "decr", None) else None
        for lab, f in con.pre(c): S.assume(f)
        if con.extra_assume:
            self.assumed_labels = []
            for lab, f in con.extra_assume(c): S.assume(f); self.assumed_labels.append(lab)
        # vacuity: the precondition must not be refutable
        s = self.solver(self.rlimit); s.add(*self.base_axioms()); s.add(*S.pc)
        if s.check() == z3.unsat: raise Unsupported("VACUOUS precondition of " + con.name)
        S0 = S.copy()
        con_saved = self.contracts.get(fname)
        self.contracts = dict(self.contracts)
        if con.fn == fname and fname in self.contracts and not con.__dict__.get("recursive"): self.contracts[fname] = None
        n0 = len(self.obligs)
        try:
            outs = self.run_function(fn, args, S)
        finally:
            self.contracts[fname] = con_saved
            if con_saved is None: del self.contracts[fname]
        if not outs and not con.mayabort: raise Unsupported("no path of %s returns" % fname)
        reach = False
        for (S1, rv) in outs:
            c = Ctx(self, S0, S1, args, ret=addr_term(rv) if isinstance(rv, Ptr) else rv)
            for gname, gf in con.ghost_post.items():
                gn = gname(c) if callable(gname) else gname
                S1.ghost["_tmp_" + gn] = self.named(S1, gn, gf(c))
            for k in [k for k in S1.ghost if k.startswith("_tmp_")]:
                S1.ghost[k[5:]] = S1.ghost.pop(k)
            c = Ctx(self, S0, S1, args, ret=addr_term(rv) if isinstance(rv, Ptr) else rv)
            if con.lemmas:
                for lab, f in con.lemmas(c): S1.assume(f)
            if not reach and self.quick_feasible(S1): reach = True
            if not self.mine(): continue
            self._grp = True
            for lab, f in (con.hints(c) if con.hints else ()):
                self.lemma(S1, f, "lemma: %s" % lab)
            for lab, f in con.post(c):
                self.prove(S1, f, "postcondition: %s" % lab)
            # frame
            mod = set()
            argcells = []
            for mname in list(con.modifies) + list(con.effmods):
                if callable(mname): mname = mname(args)
                if isinstance(mname, tuple): argcells.append((args[mname[1]], mname[2] if len(mname) > 2 else PTR))
                elif mname.startswith("ghost:"): mod.add(mname)
                else: mod.add(self.key(mname))
            for k, t in S1.heap.items():
                if k in mod or (k[0] and k[0].startswith("@") and "." in k[0]): continue   # static locals
                t0 = S0.map(k)
                if t.eq(t0): continue
                exc = [p.base for p, ty in argcells if isinstance(p, Ptr) and self.mkkey(p, ty) == k]
                x = z3.Const("fr", PtrS)
                fml = z3.ForAll([x], z3.Implies(z3.And(z3.Select(S0.g("live"), x), z3.Select(S1.g("live"), x), *[x != e for e in exc]),
                                                 z3.Select(t, x) == z3.Select(t0, x)), patterns=[z3.Select(t, x)] if z3.is_const(t) else [])
                self.prove(S1, fml, "frame: %s.%s unchanged" % (k[0], self.prog.field_name(k[0], k[2])))
            for gname, t in S1.ghost.items():
                if gname.startswith("_") or "ghost:" + gname in mod or gname in con.ghost_post: continue
                if any(callable(q) and q(c) == gname for q in con.ghost_post): continue
                t0 = S0.g(gname)
                if t.eq(t0): continue
                if gname == "ever":
                    x = z3.Const("fr", PtrS)
                    self.prove(S1, z3.ForAll([x], z3.Implies(z3.Select(t0, x), z3.Select(t, x))), "frame: allocation history grows")
                    continue
                if gname == "live":
                    x = z3.Const("fr", PtrS)
                    if con.allocates:
                        fml = z3.ForAll([x], z3.Implies(z3.Select(t0, x), z3.Select(t, x)))
                    else:
                        # local aggregates die at return
                        tt = t
                        for p in S1.ghost.get("_new", ()): 
                            if str(p).startswith("local_") or str(p).startswith("byval"): tt = z3.Store(tt, p, False)
                        fml = z3.ForAll([x], z3.Implies(z3.Select(t0, x), z3.Select(tt, x))) 
                        fml = z3.And(fml, z3.ForAll([x], z3.Implies(z3.Select(tt, x), z3.Select(t0, x))))
                    self.prove(S1, fml, "frame: no object freed%s" % ("" if con.allocates else " or leaked"))
                else:
                    self.prove(S1, t == t0, "frame: ghost %s unchanged" % gname)
            self._grp = False
        if not reach and not con.mayabort: raise Unsupported("VACUOUS: no feasible return path of " + fname)
        return self.obligs[n0:]

def decreases(v, old):
    """well-founded decrease, lexicographic for tuples"""
    v = list(v) if isinstance(v, (list, tuple)) else [v]
    alts = []; eqs = []
    for a, b in zip(v, old):
        alts.append(z3.And(*eqs, z3.ULT(a, b) if z3.is_bv(a) else z3.And(a < b, b >= 0))); eqs.append(a == b)
    return z3.Or(*alts)

class MissingLocal(SpecMismatch):
    def __init__(s, fn, name, names, types):
        SpecMismatch.__init__(s, "local %s of %s not found" % (name, fn)); s.fn, s.name, s.names, s.types = fn, name, names, types

def same(a, b):
    if a is b: return True
    if a is None or b is None: return False
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.base.eq(b.base) and a.root == b.root and a.off == b.off and a.dims == b.dims and len(a.idx) == len(b.idx) and all(x.eq(y) for x, y in zip(a.idx, b.idx))
    if isinstance(a, (Ptr, Loc)) or isinstance(b, (Ptr, Loc)): return isinstance(a, Loc) and isinstance(b, Loc) and a.vid == b.vid
    return a.eq(b)
