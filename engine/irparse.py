"""Parser for textual LLVM IR (LLVM 18, opaque pointers). Function bodies are parsed lazily."""
import re, subprocess

class Ty:
    __slots__ = ("k", "n", "sub", "packed", "_size", "_align", "_offs", "name")
    def __init__(s, k, n=0, sub=None, packed=False, name=None):
        s.k = k; s.n = n; s.sub = sub; s.packed = packed; s.name = name
        s._size = None; s._align = None; s._offs = None
    def __repr__(s):
        if s.k == "int": return "i%d" % s.n
        if s.k == "arr": return "[%d x %r]" % (s.n, s.sub)
        if s.k == "vec": return "<%d x %r>" % (s.n, s.sub)
        if s.k == "struct": return s.name or ("{%s}" % ",".join(map(repr, s.sub or [])))
        return s.k

VOID = Ty("void"); PTR = Ty("ptr"); FLOAT = Ty("float"); DOUBLE = Ty("double"); LABEL = Ty("label"); META = Ty("metadata")
X86FP = Ty("x86_fp80"); TOKEN = Ty("token"); OPAQUE = Ty("opaque")
_INTS = {}
def INT(n):
    if n not in _INTS: _INTS[n] = Ty("int", n)
    return _INTS[n]

TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<gid>@(?:"[^"]*"|[-\w$.]+))
 |(?P<lid>%(?:"[^"]*"|[-\w$.]+))
 |(?P<meta>![\w."-]*)
 |(?P<attr>\#\d+)
 |(?P<num>-?0x[KLMHR]?[0-9A-Fa-f]+|-?\d+\.\d+(?:[eE][+-]?\d+)?|-?\d+)
 |(?P<word>[A-Za-z_$.][-\w$.]*)
 |(?P<dots>\.\.\.)
 |(?P<p>[()\[\]{}<>,=*|:])
)''', re.X)

class ParseError(Exception): pass

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == "" : break
            if s[i:].lstrip().startswith(";"): break
            raise ParseError("tok: " + s[i:i+60])
        i = m.end()
        k = m.lastgroup; v = m.group(k)
        if k == "p" or k == "dots": out.append((v, v))
        else:
            if k in ("gid", "lid"):
                v = v[1:]
                if v[0] == '"': v = v[1:-1]
            out.append((k, v))
    return out

class Const:
    """k: int, null, undef, zero, gref, struct, arr, str, expr, float, md"""
    __slots__ = ("k", "v", "ty", "x")
    def __init__(s, k, v=None, ty=None, x=None): s.k = k; s.v = v; s.ty = ty; s.x = x
    def __repr__(s): return "C(%s,%r)" % (s.k, s.v)

class Local:
    __slots__ = ("name",)
    def __init__(s, n): s.name = n
    def __repr__(s): return "%" + s.name

class Inst:
    __slots__ = ("op", "res", "ty", "a", "x", "line")
    def __init__(s, op, res, ty, a, x, line): s.op = op; s.res = res; s.ty = ty; s.a = a; s.x = x; s.line = line
    def __repr__(s): return s.line.strip()

class Func:
    def __init__(s, name): s.name = name; s.params = []; s.retty = None; s.lines = None; s.blocks = None; s.order = None; s.vararg = False; s.byval = {}; s.sret = None; s.decl = True

class P:
    """token cursor"""
    def __init__(s, toks, mod): s.t = toks; s.i = 0; s.m = mod
    def peek(s, o=0): return s.t[s.i + o] if s.i + o < len(s.t) else (None, None)
    def next(s): r = s.t[s.i]; s.i += 1; return r
    def acc(s, v):
        if s.i < len(s.t) and s.t[s.i][1] == v and s.t[s.i][0] in ("word", v):
            s.i += 1; return True
        return False
    def exp(s, v):
        if not s.acc(v): raise ParseError("expected %s at %r" % (v, s.t[s.i:s.i+8]))
    def type(s):
        k, v = s.next()
        if k == "word":
            if v == "ptr": t = PTR
            elif v == "void": t = VOID
            elif re.fullmatch(r"i\d+", v): t = INT(int(v[1:]))
            elif v == "float": t = FLOAT
            elif v == "double": t = DOUBLE
            elif v == "label": t = LABEL
            elif v == "metadata": t = META
            elif v == "x86_fp80": t = X86FP
            elif v == "token": t = TOKEN
            elif v == "opaque": t = OPAQUE
            else: raise ParseError("type word " + v)
        elif k == "lid": t = s.m.named(v)
        elif v == "[":
            n = int(s.next()[1]); s.exp("x"); e = s.type(); s.exp("]"); t = Ty("arr", n, e)
        elif v == "{":
            t = Ty("struct", 0, s.typelist("}"))
        elif v == "<":
            if s.peek()[1] == "{":
                s.next(); t = Ty("struct", 0, s.typelist("}"), True); s.exp(">")
            else:
                n = int(s.next()[1]); s.exp("x"); e = s.type(); s.exp(">"); t = Ty("vec", n, e)
        else: raise ParseError("type %r" % ((k, v),))
        while True:
            if s.peek()[1] == "addrspace": s.next(); s.exp("("); s.next(); s.exp(")"); continue
            if s.peek()[1] == "(" and s.peek()[0] == "(":
                # function type: ret (args)
                j = s.i; depth = 0
                s.next(); 
                va = False
                args = []
                if not s.acc(")"):
                    while True:
                        if s.acc("..."): va = True
                        else: args.append(s.type())
                        if s.acc(")"): break
                        s.exp(",")
                t = Ty("fn", 0, [t] + args); t.packed = va
                continue
            break
        return t
    def typelist(s, end):
        r = []
        if s.acc(end): return r
        while True:
            r.append(s.type())
            if s.acc(end): return r
            s.exp(",")
    ATTRW = {"noundef","nonnull","signext","zeroext","inreg","noalias","nocapture","readonly","writeonly","returned","immarg","nofree","swiftself","nest","readnone","allocalign","allocptr","dead_on_unwind","writable","swifterror","allockind"}
    def attrs(s):
        out = {}
        while True:
            k, v = s.peek()
            if k == "word" and v in P.ATTRW: s.next(); out[v] = True
            elif k == "word" and v in ("dereferenceable", "dereferenceable_or_null"):
                s.next(); s.exp("("); s.next(); s.exp(")")
            elif k == "word" and v == "align":
                s.next()
                if s.acc("("): s.next(); s.exp(")")
                else: s.next()
            elif k == "word" and v in ("byval", "sret", "byref", "inalloca", "elementtype", "preallocated"):
                s.next(); s.exp("("); out[v] = s.type(); s.exp(")")
            elif k == "word" and v in ("range", "nofpclass", "memory", "initializes"):
                s.next(); d = 0
                while True:
                    x = s.next()[1]
                    if x == "(": d += 1
                    elif x == ")":
                        d -= 1
                        if d == 0: break
            elif k == "str":  s.next()
            else: return out
    def const(s, ty):
        k, v = s.next()
        if k == "num":
            if ty.k == "int": return Const("int", int(v) & ((1 << ty.n) - 1), ty)
            import struct as st
            if ty.k in ("double", "float"):
                if v.startswith("0x"): bits = int(v, 16)
                else: bits = st.unpack("<Q", st.pack("<d", float(v)))[0]
                if ty.k == "float":
                    f = st.unpack("<d", st.pack("<Q", bits))[0]
                    try: bits = st.unpack("<I", st.pack("<f", f))[0]
                    except OverflowError: bits = 0x7f800000 if f > 0 else 0xff800000
                return Const("int", bits, ty)
            return Const("undef", None, ty)
        if k == "word":
            if v == "null": return Const("int", 0, ty)
            if v == "true": return Const("int", 1, ty)
            if v == "false": return Const("int", 0, ty)
            if v in ("undef", "poison"): return Const("undef", None, ty)
            if v == "zeroinitializer": return Const("zero", None, ty)
            if v == "none": return Const("undef", None, ty)
            if v == "getelementptr":
                s.acc("inbounds")
                while s.peek()[1] in ("nuw", "nusw", "inrange"): s.next()
                s.exp("("); bt = s.type(); s.exp(",")
                s.acc("inrange")
                ops = [s.tv()]
                while s.acc(","):
                    s.acc("inrange")
                    if s.peek()[1] == "inrange": s.next()
                    ops.append(s.tv())
                s.exp(")")
                return Const("expr", "gep", ty, (bt, ops))
            if v in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
                s.exp("("); a = s.tv(); s.exp("to"); t = s.type(); s.exp(")")
                return Const("expr", "cast", t, (v, a))
            if v in ("add", "sub", "mul", "xor", "and", "or", "shl", "lshr", "ashr"):
                while s.peek()[1] in ("nuw", "nsw"): s.next()
                s.exp("("); a = s.tv(); s.exp(","); b = s.tv(); s.exp(")")
                return Const("expr", "bin", ty, (v, a, b))
            if v == "icmp":
                pr = s.next()[1]; s.exp("("); a = s.tv(); s.exp(","); b = s.tv(); s.exp(")")
                return Const("expr", "icmp", ty, (pr, a, b))
            if v in ("dso_local_equivalent", "no_cfi"): return s.const(ty)
            raise ParseError("const word " + v)
        if k == "gid": return Const("gref", v, PTR)
        if k == "lid": return Local(v)
        if k == "str":
            b = v[2:-1] if v[0] == "c" else v[1:-1]
            out = bytearray(); i = 0
            while i < len(b):
                if b[i] == "\\":
                    if b[i+1] == "\\": out.append(92); i += 2
                    else: out.append(int(b[i+1:i+3], 16)); i += 3
                else: out.append(ord(b[i])); i += 1
            return Const("str", bytes(out), ty)
        if v in ("{", "["):
            end = "}" if v == "{" else "]"
            el = []
            if not s.acc(end):
                while True:
                    el.append(s.tv())
                    if s.acc(end): break
                    s.exp(",")
            return Const("agg", el, ty)
        if v == "<":
            if s.acc("{"):
                el = []
                if not s.acc("}"):
                    while True:
                        el.append(s.tv())
                        if s.acc("}"): break
                        s.exp(",")
                s.exp(">")
                return Const("agg", el, ty)
            el = []
            while True:
                el.append(s.tv())
                if s.acc(">"): break
                s.exp(",")
            return Const("agg", el, ty)
        if k == "meta":
            # metadata operand: skip rest
            d = 0
            while s.i < len(s.t):
                x = s.peek()[1]
                if x == "(": d += 1
                if x == ")":
                    if d == 0: break
                    d -= 1
                if x == "," and d == 0: break
                s.next()
            return Const("md", None, META)
        raise ParseError("const %r" % ((k, v),))
    def tv(s):
        t = s.type()
        if t is META:
            # metadata typed operand
            d = 0
            while s.i < len(s.t):
                x = s.peek()[1]
                if x == "(": d += 1
                if x == ")":
                    if d == 0: break
                    d -= 1
                if x == "," and d == 0: break
                s.next()
            return (t, Const("md", None, META))
        a = s.attrs()
        return (t, s.const(t))

LINKAGE = {"private","internal","available_externally","linkonce","weak","common","appending","extern_weak","linkonce_odr","weak_odr","external","dso_local","dso_preemptable","default","hidden","protected","dllimport","dllexport","thread_local","unnamed_addr","local_unnamed_addr","externally_initialized","noundef"}

class Global:
    __slots__ = ("name", "ty", "init_toks", "const", "alias", "external")
    def __init__(s, name): s.name = name; s.ty = None; s.init_toks = None; s.const = False; s.alias = None; s.external = False

class Module:
    def __init__(s, path):
        s.types = {}; s.tyToks = {}; s.globals = {}; s.funcs = {}; s.aliases = {}
        s.load(path)
        s._dem = {}
    def named(s, n):
        t = s.types.get(n)
        if t is None:
            t = Ty("struct", 0, None, False, n); s.types[n] = t
            raw = s.tyToks.get(n)
            if raw is not None:
                toks = tokenize(raw)
                if not (len(toks) == 1 and toks[0][1] == "opaque"):
                    b = P(toks, s).type()
                    if b.k == "struct" and b.name is None:
                        t.sub = b.sub; t.packed = b.packed
                    else: t.k = b.k; t.n = b.n; t.sub = b.sub
        return t
    def load(s, path):
        cur = None; body = None
        for line in open(path):
            if body is not None:
                if line.startswith("}"):
                    cur.lines = body; body = None; continue
                body.append(line); continue
            if line.startswith("%"):
                m = re.match(r'%("[^"]*"|[-\w$.]+) = type (.*)$', line)
                if m: s.tyToks[m.group(1).strip('"')] = m.group(2)
            elif line.startswith("define"):
                cur = s.sig(line, True); body = []
            elif line.startswith("declare"):
                s.sig(line, False)
            elif line.startswith("@"):
                s.glob(line)
    def sig(s, line, define):
        toks = tokenize(re.sub(r'\{\s*$', '', line.rstrip()))
        p = P(toks, s); p.next()
        while p.peek()[0] == "word" and (p.peek()[1] in LINKAGE or p.peek()[1] in ("fastcc","ccc","coldcc") or p.peek()[1] in P.ATTRW) : p.next()
        p.attrs()
        rt = p.type_nofn() if hasattr(p, "type_nofn") else None
        return None
    def glob(s, line):
        m = re.match(r'@("[^"]*"|[-\w$.]+) = (.*)$', line)
        name = m.group(1).strip('"'); rest = m.group(2)
        g = Global(name)
        words = rest.split(None, 1)
        al = re.match(r'(?:[\w_]+\s+)*alias\s+', rest)
        if al and " alias " in " " + rest:
            mm = re.search(r'alias .*?, ptr @("[^"]*"|[-\w$.]+)', rest)
            if mm: s.aliases[name] = mm.group(1).strip('"')
            return
        mm = re.match(r'((?:[\w_]+(?:\([^)]*\))?\s+)*?)(global|constant)\s+(.*)$', rest)
        if not mm: return
        g.const = mm.group(2) == "constant"
        g.external = bool(re.search(r'\bexternal\b|\bextern_weak\b', mm.group(1)))
        g.init_toks = mm.group(3)
        s.globals[name] = g
    def ginit(s, g):
        """-> (type, Const or None)"""
        p = P(tokenize(g.init_toks), s)
        t = p.type(); g.ty = t
        if p.i >= len(p.t) or p.peek()[1] == ",": return t, None
        return t, p.const(t)

def _sig(s, line, define):
    txt = line.rstrip()
    if txt.endswith("{"): txt = txt[:-1]
    toks = tokenize(txt)
    p = P(toks, s); p.next()
    while p.peek()[0] == "word" and (p.peek()[1] in LINKAGE or p.peek()[1] in ("fastcc", "ccc", "coldcc")): p.next()
    p.attrs()
    # return type: must not swallow the parameter list (no function types as return)
    save = p.i
    rt = _type_nofn(p)
    k, name = p.next()
    if k != "gid": raise ParseError("sig: " + txt[:120])
    f = Func(name); f.retty = rt
    p.exp("(")
    if not p.acc(")"):
        n = 0
        while True:
            if p.acc("..."):
                f.vararg = True
            else:
                t = p.type(); a = p.attrs()
                nm = None
                if p.peek()[0] == "lid": nm = p.next()[1]
                f.params.append((t, nm if nm is not None else str(n)))
                if "byval" in a: f.byval[n] = a["byval"]
                if "sret" in a: f.sret = a["sret"]
                n += 1
            if p.acc(")"): break
            p.exp(",")
    f.decl = not define
    if name not in s.funcs or define: s.funcs[name] = f
    return f
Module.sig = _sig

def _type_nofn(p):
    # parse a type but leave a following '(' alone: temporarily hide it by checking tokens
    # return types are never function types in IR signatures/calls with opaque pointers unless vararg calls
    k, v = p.peek()
    save = p.i
    # parse scalar/aggregate by custom: call type() on a truncated token list
    depth = 0; j = p.i
    while True:
        kk, vv = p.t[j]
        if vv in ("[", "{", "<") and kk == vv: depth += 1
        elif vv in ("]", "}", ">") and kk == vv: depth -= 1
        j += 1
        if depth == 0: break
    q = P(p.t[p.i:j], p.m)
    t = q.type()
    p.i = j
    return t

BIN = {"add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","fadd","fsub","fmul","fdiv","frem"}
CAST = {"zext","sext","trunc","bitcast","ptrtoint","inttoptr","fptoui","fptosi","uitofp","sitofp","fpext","fptrunc","addrspacecast"}
FLAGS = {"nuw","nsw","exact","inbounds","fast","nnan","ninf","nsz","arcp","contract","afn","reassoc","nneg","disjoint","samesign","nusw"}

def parse_body(f, mod):
    if f.blocks is not None: return
    blocks = {}; order = []; cur = None; name = None
    lines = f.lines; i = 0; n = len(lines)
    first = True
    while i < n:
        ln = lines[i]; i += 1
        st = ln.strip()
        if not st or st.startswith(";"): continue
        m = re.match(r'^("[^"]*"|[-\w$.]+):', ln)
        if m:
            name = m.group(1).strip('"'); cur = []; blocks[name] = cur; order.append(name); continue
        if cur is None:
            name = "__entry"; cur = []; blocks[name] = cur; order.append(name)
        # join multi-line switch / invoke / landingpad
        if st.startswith("switch "):
            while not lines[i-1].strip().endswith("]") and "]" not in lines[i-1].split(", !")[0][-3:]:
                st += " " + lines[i].strip(); i += 1
                if lines[i-1].strip().startswith("]"): break
        elif " invoke " in " " + st:
            while i < n and lines[i].strip().startswith("to label"):
                st += " " + lines[i].strip(); i += 1
        elif " landingpad " in " " + st:
            while i < n and (lines[i].strip().startswith(("cleanup", "catch", "filter"))):
                st += " " + lines[i].strip(); i += 1
        try:
            cur.append(parse_inst(st, mod))
        except ParseError as e:
            cur.append(Inst("unsupported", None, None, str(e), None, st))
    f.blocks = blocks; f.order = order

def strip_meta(st):
    j = st.find(", !")
    if j >= 0 and '"' not in st[j:]: return st[:j]
    return st

def parse_inst(st, mod):
    st0 = st
    st = strip_meta(st)
    toks = tokenize(st)
    p = P(toks, mod)
    res = None
    if p.peek()[0] == "lid" and p.peek(1)[1] == "=":
        res = p.next()[1]; p.next()
    op = p.next()[1]
    while op in ("tail", "musttail", "notail"): op = p.next()[1]
    def I(ty, a, x=None): return Inst(op, res, ty, a, x, st0)
    if op == "alloca":
        p.acc("inalloca")
        t = p.type(); cnt = None
        while p.acc(","):
            if p.acc("align"): p.next()
            elif p.peek()[1] == "addrspace": break
            else: cnt = p.tv()
        return I(PTR, t, cnt)
    if op == "load":
        at = p.acc("atomic"); p.acc("volatile")
        t = p.type(); p.exp(","); a = p.tv()
        return I(t, a[1])
    if op == "store":
        p.acc("atomic"); p.acc("volatile")
        v = p.tv(); p.exp(","); a = p.tv()
        return I(VOID, (v, a[1]))
    if op == "getelementptr":
        while p.peek()[1] in FLAGS: p.next()
        bt = p.type(); p.exp(","); base = p.tv(); idx = []
        while p.acc(","): idx.append(p.tv())
        return I(PTR, (bt, base[1], idx))
    if op in BIN:
        fl = set()
        while p.peek()[1] in FLAGS: fl.add(p.next()[1])
        t = p.type(); a = p.const(t); p.exp(","); b = p.const(t)
        return I(t, (a, b), fl)
    if op == "fneg":
        while p.peek()[1] in FLAGS: p.next()
        t = p.type(); return I(t, p.const(t))
    if op in ("icmp", "fcmp"):
        while p.peek()[1] in FLAGS: p.next()
        pr = p.next()[1]; t = p.type(); a = p.const(t); p.exp(","); b = p.const(t)
        return I(INT(1), (a, b), (pr, t))
    if op in CAST:
        while p.peek()[1] in FLAGS: p.next()
        a = p.tv(); p.exp("to"); t = p.type()
        return I(t, a[1], a[0])
    if op == "select":
        while p.peek()[1] in FLAGS: p.next()
        c = p.tv(); p.exp(","); a = p.tv(); p.exp(","); b = p.tv()
        return I(a[0], (c[1], a[1], b[1]))
    if op == "br":
        if p.acc("label"): return I(VOID, None, [p.next()[1]])
        p.type(); c = p.const(INT(1)); p.exp(","); p.exp("label"); a = p.next()[1]; p.exp(","); p.exp("label"); b = p.next()[1]
        return I(VOID, c, [a, b])
    if op == "switch":
        t = p.type(); v = p.const(t); p.exp(","); p.exp("label"); d = p.next()[1]; p.exp("[")
        cases = []
        while not p.acc("]"):
            tt = p.type(); c = p.const(tt); p.exp(","); p.exp("label"); cases.append((c.v, p.next()[1]))
        return I(t, v, (d, cases))
    if op == "ret":
        t = p.type()
        if t is VOID: return I(VOID, None)
        return I(t, p.const(t))
    if op == "unreachable": return I(VOID, None)
    if op == "phi":
        t = p.type(); inc = []
        while True:
            p.exp("["); v = p.const(t); p.exp(","); b = p.next()[1]; p.exp("]")
            inc.append((v, b))
            if not p.acc(","): break
        return I(t, inc)
    if op in ("call", "invoke"):
        while p.peek()[1] in FLAGS or p.peek()[1] in ("fastcc", "ccc", "coldcc"): p.next()
        p.attrs()
        rt = _type_nofn(p)
        if p.peek()[1] == "(" :  # explicit function type (varargs)
            d = 0
            while True:
                x = p.next()[1]
                if x == "(": d += 1
                if x == ")":
                    d -= 1
                    if d == 0: break
        if p.peek()[1] == "asm": return Inst("asm", res, rt, None, None, st0)
        k, callee = p.next()
        if k == "gid": cal = Const("gref", callee, PTR)
        elif k == "lid": cal = Local(callee)
        else: raise ParseError("callee " + st)
        p.exp("("); args = []
        if not p.acc(")"):
            while True:
                t = p.type()
                if t is META:
                    d = 0
                    while not (d == 0 and p.peek()[1] in (",", ")")):
                        x = p.next()[1]
                        if x == "(": d += 1
                        if x == ")": d -= 1
                    args.append((t, Const("md"), {}))
                else:
                    at = p.attrs(); args.append((t, p.const(t), at))
                if p.acc(")"): break
                p.exp(",")
        dest = None
        if op == "invoke":
            while p.peek()[1] != "to": p.next()
            p.exp("to"); p.exp("label"); a = p.next()[1]; p.exp("unwind"); p.exp("label"); dest = (a, p.next()[1])
        return Inst(op, res, rt, (cal, args), dest, st0)
    if op == "landingpad":
        t = p.type(); cl = []; cleanup = False
        while p.i < len(p.t):
            w = p.next()[1]
            if w == "cleanup": cleanup = True
            elif w in ("catch", "filter"): cl.append((w, p.tv()))
        return I(t, cl, cleanup)
    if op == "resume":
        v = p.tv(); return I(VOID, v)
    if op == "extractvalue":
        v = p.tv(); ix = []
        while p.acc(","): ix.append(int(p.next()[1]))
        return I(v[0], v, ix)
    if op == "insertvalue":
        v = p.tv(); p.exp(","); e = p.tv(); ix = []
        while p.acc(","): ix.append(int(p.next()[1]))
        return I(v[0], (v, e), ix)
    if op == "freeze":
        v = p.tv(); return I(v[0], v[1])
    if op == "atomicrmw":
        p.acc("volatile"); o = p.next()[1]; a = p.tv(); p.exp(","); v = p.tv()
        return I(v[0], (a[1], v), o)
    if op == "cmpxchg":
        p.acc("weak"); p.acc("volatile"); a = p.tv(); p.exp(","); c = p.tv(); p.exp(","); n = p.tv()
        return I(Ty("struct", 0, [c[0], INT(1)]), (a[1], c, n))
    if op == "fence": return I(VOID, None)
    raise ParseError("inst " + op)

# ---- layout
def align(t):
    if t._align is None:
        k = t.k
        if k == "int":
            b = max(1, (t.n + 7) // 8); a = 1
            while a < b: a *= 2
            t._align = min(a, 16)
        elif k in ("ptr", "double", "fn"): t._align = 8
        elif k == "float": t._align = 4
        elif k == "x86_fp80": t._align = 16
        elif k == "arr": t._align = align(t.sub)
        elif k == "vec":
            t._align = max(1, size(t))
        elif k == "struct": t._align = 1 if t.packed or not t.sub else max(align(x) for x in t.sub)
        else: t._align = 1
    return t._align
def size(t):
    if t._size is None:
        k = t.k
        if k == "int":
            b = max(1, (t.n + 7) // 8); a = align(t); t._size = (b + a - 1) // a * a
        elif k in ("ptr", "double", "fn"): t._size = 8
        elif k == "float": t._size = 4
        elif k == "x86_fp80": t._size = 16
        elif k == "arr": t._size = t.n * size(t.sub)
        elif k == "vec": t._size = t.n * size(t.sub)
        elif k == "struct": offsets(t)
        else: t._size = 1
    return t._size
def offsets(t):
    if t._offs is None:
        if t.sub is None: raise ParseError("opaque type " + str(t.name))
        o = 0; out = []
        for x in t.sub:
            a = 1 if t.packed else align(x)
            o = (o + a - 1) // a * a
            out.append(o); o += size(x)
        a = align(t)
        t._size = (o + a - 1) // a * a
        t._offs = out
    return t._offs

_dem = {}
def demangle_all(names):
    todo = [n for n in names if n not in _dem and n.startswith("_Z")]
    if todo:
        r = subprocess.run(["c++filt"], input="\n".join(todo), capture_output=True, text=True).stdout.split("\n")
        for a, b in zip(todo, r): _dem[a] = b
def demangle(n):
    if not n.startswith("_Z"): return n
    if n not in _dem: demangle_all([n])
    return _dem[n]
