"""Parser for the textual LLVM IR that clang -O0 emits for /repo's sources."""
import re

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "w", "elems", "n", "elem", "packed", "name")
    def __init__(s, k, **kw):
        s.k = k
        for a in ("w", "elems", "n", "elem", "packed", "name"):
            setattr(s, a, kw.get(a))
    def __repr__(s):
        if s.k == "int": return "i%d" % s.w
        if s.k == "named": return "%" + s.name
        if s.k == "arr": return "[%d x %r]" % (s.n, s.elem)
        return s.k
    def is_int(s, w=None): return s.k == "int" and (w is None or s.w == w)

PTR = Ty("ptr"); VOID = Ty("void")
def INT(w): return Ty("int", w=w)

def split_top(s, sep=","):
    out, depth, cur, q = [], 0, [], False
    for c in s:
        if c == '"': q = not q
        if not q:
            if c in "([{<": depth += 1
            elif c in ")]}>": depth -= 1
            if c == sep and depth == 0:
                out.append("".join(cur).strip()); cur = []; continue
        cur.append(c)
    t = "".join(cur).strip()
    if t: out.append(t)
    return out

def parse_type(s):
    """parse a type prefix of s; return (Ty, rest)"""
    s = s.lstrip()
    m = re.match(r"i(\d+)\b", s)
    if m: return INT(int(m.group(1))), s[m.end():]
    m = re.match(r"ptr\b", s)
    if m: return PTR, s[m.end():]
    m = re.match(r"void\b", s)
    if m: return VOID, s[m.end():]
    m = re.match(r"(float|double|half|x86_fp80|fp128)\b", s)
    if m: return Ty("fp", name=m.group(1)), s[m.end():]
    m = re.match(r"(metadata|label|token)\b", s)
    if m: return Ty(m.group(1)), s[m.end():]
    m = re.match(r'%("[^"]+"|[\w.$-]+)', s)
    if m: return Ty("named", name=m.group(1).strip('"')), s[m.end():]
    m = re.match(r"\[\s*(\d+)\s+x\s+", s)
    if m:
        e, r = parse_type(s[m.end():])
        r = r.lstrip(); assert r[0] == "]"
        return Ty("arr", n=int(m.group(1)), elem=e), r[1:]
    m = re.match(r"<\s*(\d+)\s+x\s+", s)
    if m:
        e, r = parse_type(s[m.end():])
        r = r.lstrip(); assert r[0] == ">"
        return Ty("vec", n=int(m.group(1)), elem=e), r[1:]
    packed = False
    if s.startswith("<{"):
        packed = True; close = "}>"; body = s[2:]
    elif s.startswith("{"):
        close = "}"; body = s[1:]
    else:
        raise IRError("type? " + s[:60])
    elems = []
    body = body.lstrip()
    while not body.startswith(close):
        t, body = parse_type(body)
        elems.append(t)
        body = body.lstrip()
        if body.startswith(","): body = body[1:].lstrip()
    return Ty("struct", elems=elems, packed=packed), body[len(close):]

class Func:
    def __init__(s):
        s.blocks = {}; s.order = []; s.params = []; s.ret = None; s.name = None
        s.variadic = False; s.module = None; s._loops = None

class Instr:
    __slots__ = ("dst", "op", "text", "c", "line")
    def __init__(s, dst, op, text, line=None):
        s.dst, s.op, s.text, s.c, s.line = dst, op, text, None, line
    def __repr__(s): return (s.dst + " = " if s.dst else "") + s.op + " " + s.text

ATTR = re.compile(r"^(noundef|nonnull|signext|zeroext|noalias|nocapture|readonly|writeonly|readnone|returned|immarg|inreg|align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|byval\([^()]*\)|sret\([^()]*\)|noreturn|allocalign|allocptr|swiftself|nest|captures\([^)]*\))\s*")

def strip_attrs(s):
    attrs = []
    s = s.lstrip()
    while True:
        m = ATTR.match(s)
        if not m: return s, attrs
        attrs.append(m.group(1)); s = s[m.end():]

class Module:
    def __init__(s, path):
        s.path = path; s.types = {}; s.funcs = {}; s.decls = {}; s.globals = {}
        s._layout = {}
        s.parse(open(path).read())

    def parse(s, text):
        cur = None; blk = None
        pend = ""
        for ln, line in enumerate(text.split("\n")):
            if cur is None:
                if line.startswith("%") or line.startswith('%"'):
                    m = re.match(r'%("[^"]+"|[\w.$-]+) = type (.*)$', line)
                    if m:
                        if m.group(2).strip() == "opaque":
                            s.types[m.group(1).strip('"')] = Ty("opaque")
                        else:
                            s.types[m.group(1).strip('"')] = parse_type(m.group(2))[0]
                elif line.startswith("@"):
                    m = re.match(r'@("[^"]+"|[\w.$-]+) = (.*)$', line)
                    if m: s.globals[m.group(1).strip('"')] = m.group(2)
                elif line.startswith("declare"):
                    m = re.search(r'@("[^"]+"|[\w.$-]+)\(', line)
                    if m: s.decls[m.group(1).strip('"')] = line
                elif line.startswith("define"):
                    cur = Func(); cur.module = s
                    m = re.search(r'@("[^"]+"|[\w.$-]+)\(', line)
                    cur.name = m.group(1).strip('"')
                    head = line[len("define"):m.start()].strip()
                    # the return type is the last type in head
                    toks = head
                    toks = re.sub(r"\b(dso_local|internal|linkonce_odr|weak_odr|available_externally|hidden|unnamed_addr|local_unnamed_addr|fastcc|private|weak|linkonce|extern_weak)\b", "", toks).strip()
                    toks, _ = strip_attrs(toks)
                    cur.ret = parse_type(toks)[0]
                    # params
                    i = m.end(); d = 1; j = i
                    while d:
                        if line[j] == "(": d += 1
                        elif line[j] == ")": d -= 1
                        j += 1
                    for k, p in enumerate(split_top(line[i:j-1])):
                        if p == "...":
                            cur.variadic = True; continue
                        t, r = parse_type(p)
                        r, at = strip_attrs(r)
                        cur.params.append((t, r.strip() or "%%%d" % k, at))
                    blk = None
                continue
            if line.startswith("}"):
                s.funcs[cur.name] = cur; cur = None; continue
            l = line.split(" ; ")[0] if " ; preds" in line or " ; " in line else line
            if not l.strip(): continue
            m = re.match(r'^("[^"]+"|[\w.$-]+):', l)
            if m:
                blk = m.group(1).strip('"'); cur.blocks[blk] = []; cur.order.append(blk); continue
            if blk is None:
                blk = "entry0"; cur.blocks[blk] = []; cur.order.append(blk)
            l = re.sub(r", ![\w.]+ !\d+", "", l.strip())
            if pend:
                pend += " " + l
                if l.endswith("]"):
                    l = pend; pend = ""
                else: continue
            elif re.match(r"(switch|.*= switch)", l) and not l.rstrip().endswith("]") and "[" in l and not re.search(r"\]", l):
                pend = l; continue
            l = re.sub(r", ![\w.]+ !\d+", "", l)
            l = re.sub(r"\s#\d+$", "", l)
            m = re.match(r'(%(?:"[^"]+"|[\w.$-]+)) = ([a-z_]+) ?(.*)$', l)
            if m: ins = Instr(m.group(1), m.group(2), m.group(3), ln)
            else:
                m = re.match(r"([a-z_]+) ?(.*)$", l)
                ins = Instr(None, m.group(1), m.group(2), ln)
            if ins.op in ("tail", "notail", "musttail"):
                m = re.match(r"(call) (.*)$", ins.text); ins.op = "call"; ins.text = m.group(2)
            cur.blocks[blk].append(ins)

    # ---- layout
    def resolve(s, t):
        while t.k == "named":
            t = s.types[t.name]
        return t

    def align(s, t):
        t = s.resolve(t)
        if t.k == "int": return max(1, min(16, (t.w + 7) // 8)) if t.w <= 64 else 16
        if t.k == "ptr": return 8
        if t.k == "fp": return {"float": 4, "double": 8, "half": 2}.get(t.name, 16)
        if t.k == "arr": return s.align(t.elem)
        if t.k == "vec": return s.size(t)
        if t.k == "struct":
            if t.packed or not t.elems: return 1
            return max(s.align(e) for e in t.elems)
        raise IRError("align %r" % t)

    def size(s, t):
        t = s.resolve(t)
        if t.k == "int":
            n = (t.w + 7) // 8
            a = s.align(t)
            return (n + a - 1) // a * a
        if t.k == "ptr": return 8
        if t.k == "fp": return {"float": 4, "double": 8, "half": 2}.get(t.name, 16)
        if t.k == "arr": return t.n * s.size(t.elem)
        if t.k == "vec": return t.n * s.size(t.elem)
        if t.k == "struct":
            off = 0
            for e in t.elems:
                if not t.packed:
                    a = s.align(e); off = (off + a - 1) // a * a
                off += s.size(e)
            a = s.align(t)
            return (off + a - 1) // a * a
        raise IRError("size %r" % t)

    def field(s, t, i):
        t = s.resolve(t)
        off = 0
        for k, e in enumerate(t.elems):
            if not t.packed:
                a = s.align(e); off = (off + a - 1) // a * a
            if k == i: return off, e
            off += s.size(e)
        raise IRError("field")

    def leaf_fields(s, t, off=0):
        """all scalar leaves of t: list of (offset, Ty)"""
        r = s.resolve(t)
        if r.k == "struct":
            o = 0
            for e in r.elems:
                if not r.packed:
                    a = s.align(e); o = (o + a - 1) // a * a
                yield from s.leaf_fields(e, off + o)
                o += s.size(e)
        elif r.k == "arr":
            if r.n <= 64:
                for i in range(r.n):
                    yield from s.leaf_fields(r.elem, off + i * s.size(r.elem))
        else:
            yield off, r

# ---------------------------------------------------------------- CFG
def succs(block):
    last = block[-1]
    if last.op == "br" or last.op == "switch" or last.op == "indirectbr" or last.op == "invoke":
        return [x.strip('"') for x in re.findall(r'label %("[^"]+"|[\w.$-]+)', last.text)]
    return []

def loops(fn):
    """natural loops: {header: set(blocks)}; order = order of headers in the function"""
    if fn._loops is not None: return fn._loops
    order = fn.order; blocks = fn.blocks
    color = {}; back = []
    st = [(order[0], iter(succs(blocks[order[0]])))]
    color[order[0]] = 1
    while st:
        b, it = st[-1]
        for n in it:
            if color.get(n, 0) == 0:
                color[n] = 1; st.append((n, iter(succs(blocks[n])))); break
            elif color[n] == 1:
                back.append((b, n))
        else:
            color[b] = 2; st.pop()
    preds = {}
    for b in order:
        for n in succs(blocks[b]): preds.setdefault(n, []).append(b)
    res = {}
    for b, h in back:
        body = res.setdefault(h, {h})
        w = [b]
        while w:
            x = w.pop()
            if x in body: continue
            body.add(x); w.extend(preds.get(x, []))
    fn._loops = {h: res[h] for h in order if h in res}
    return fn._loops
