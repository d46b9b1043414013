"""Symbolic executor / verification condition generator over LLVM IR.

The verified text is the IR that clang emits from /repo's current sources (plus the contract harnesses).
Every function without a contract is inlined at IR level; a callee under contract is replaced by its contract
stub; loops are cut at their invariants (havoc of exactly what the body writes) or unrolled completely.
"""
import sys, struct, bisect, time, re
import z3
import irparse as ir
from irparse import Const, Local, INT, PTR, demangle

sys.setrecursionlimit(200000)

class ToolLimit(Exception):
    """The tool cannot handle the code (never a violation)."""

class PathEnd(Exception): pass

M64 = (1 << 64) - 1

# ------------------------------------------------------------------ values
class PtrE:
    """pointer into a symbolic region: element idx (BV64 or int), constant byte offset inside the element"""
    __slots__ = ("r", "idx", "c")
    def __init__(s, r, idx, c=0): s.r = r; s.idx = idx; s.c = c
    def __repr__(s): return "PtrE(%s,%s,+%d)" % (s.r, s.idx, s.c)
class PtrO:
    """pointer into a concrete block with a symbolic byte offset"""
    __slots__ = ("b", "off")
    def __init__(s, b, off): s.b = b; s.off = off
    def __repr__(s): return "PtrO(%s,%s)" % (s.b, s.off)
class FnSlot:
    """virtual function number byteoff/8 of the symbolic object obj"""
    __slots__ = ("obj", "off")
    def __init__(s, o, f): s.obj = o; s.off = f
class VPtr:
    __slots__ = ("obj", "off")
    def __init__(s, o, f): s.obj = o; s.off = f
class PDiff:
    """(idx difference) * esz bytes"""
    __slots__ = ("d", "esz")
    def __init__(s, d, e): s.d = d; s.esz = e

def is_sym(v): return isinstance(v, z3.ExprRef)
F80 = z3.FPSort(15, 64)     # x87 extended precision, kept as a 79-bit IEEE pattern (without the explicit integer bit)
def bv(v, n):
    if isinstance(v, int): return z3.BitVecVal(v, n)
    if isinstance(v, z3.BoolRef): return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
    return v
def b1(v):
    if isinstance(v, int): return z3.BoolVal(bool(v & 1))
    if isinstance(v, z3.BitVecRef): return v == 1
    return v
def simp(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e): return e.as_long()
    if z3.is_true(e): return 1
    if z3.is_false(e): return 0
    return e
def tos(v, n): return v - (1 << n) if v >> (n - 1) else v

def split_add(e):
    """BV64 expr -> (base expr or None, const)"""
    e = z3.simplify(e)
    if z3.is_bv_value(e): return None, e.as_long()
    if z3.is_app_of(e, z3.Z3_OP_BADD):
        ch = e.children()
        c = 0; rest = []
        for x in ch:
            if z3.is_bv_value(x): c += x.as_long()
            else: rest.append(x)
        if len(rest) == 1: return rest[0], c & M64
        r = rest[0]
        for x in rest[1:]: r = r + x
        return r, c & M64
    return e, 0

def has_quant(e, memo={}):
    k = e.get_id()
    v = memo.get(k)
    if v is not None and v[0].eq(e): return v[1]
    if z3.is_quantifier(e): r = not e.is_lambda() or True
    else: r = any(has_quant(c) for c in e.children())
    memo[k] = (e, r)
    return r

# ------------------------------------------------------------------ memory objects
class Block:
    __slots__ = ("id", "addr", "size", "name", "kind", "lazy", "ginit")
    def __init__(s, id, addr, size, name, kind, lazy=None, ginit=None):
        s.id = id; s.addr = addr; s.size = size; s.name = name; s.kind = kind; s.lazy = lazy; s.ginit = ginit

class Region:
    """symbolic-length sequence; immutable record"""
    __slots__ = ("id", "name", "esz", "bytes", "cap", "arrs", "ety", "freed", "base", "gen")
    def __init__(s, id, name, esz, cap, nbytes=None):
        s.id = id; s.name = name; s.esz = esz; s.cap = cap; s.bytes = nbytes; s.arrs = {}; s.ety = None; s.freed = False
        s.base = (1 << 47) + (id << 41); s.gen = ""
    def copy(s):
        r = Region(s.id, s.name, s.esz, s.cap, s.bytes); r.arrs = dict(s.arrs); r.ety = s.ety; r.freed = s.freed; r.base = s.base; r.gen = s.gen
        return r

class State:
    __slots__ = ("pc", "mem", "own", "regs", "heap", "ghost", "freed", "wlog", "esc", "exc", "notes", "heapgen", "extra")
    def __init__(s):
        s.pc = []; s.mem = {}; s.own = set(); s.regs = {}; s.heap = {}; s.ghost = {}; s.freed = frozenset()
        s.wlog = None; s.esc = frozenset(); s.exc = (); s.notes = (); s.heapgen = 0; s.extra = {}
    def fork(s):
        t = State()
        t.pc = list(s.pc); t.mem = dict(s.mem); t.own = set(); s.own = set()
        t.regs = dict(s.regs); t.heap = dict(s.heap); t.ghost = dict(s.ghost); t.freed = s.freed
        t.wlog = None if s.wlog is None else dict(s.wlog); t.esc = s.esc; t.exc = s.exc; t.notes = s.notes; t.heapgen = s.heapgen
        t.extra = dict(s.extra)
        return t
    def cells(s, bid):
        if bid not in s.own:
            s.mem[bid] = dict(s.mem.get(bid, ()))
            s.own.add(bid)
        return s.mem[bid]

class Outcome:
    __slots__ = ("st", "kind", "val")
    def __init__(s, st, kind, val): s.st = st; s.kind = kind; s.val = val

class Obl:
    __slots__ = ("label", "pc", "goal", "res", "time", "backend", "model", "reason", "where")

# ------------------------------------------------------------------ solver
HARD = ABSTRACT = None       # set by check.py: which terms are worth abstracting, and how
class Solver:
    def __init__(s, ex):
        s.s = z3.Solver(); s.s.set("timeout", 3000); s.stack = []; s.ex = ex; s.n = 0; s.t = 0.0; s.cache = {}
    def sync(s, pc):
        pc = [c for c in pc if not has_quant(c)]
        i = 0
        while i < len(pc) and i < len(s.stack) and s.stack[i].eq(pc[i]): i += 1
        if i < len(s.stack):
            s.s.pop(len(s.stack) - i); del s.stack[i:]
        for c in pc[i:]:
            s.s.push(); s.s.add(c); s.stack.append(c)
    def hard(s, f):
        k = f.get_id()
        if k not in s.cache: s.cache[k] = (HARD(f), f)      # keeps f alive, so the id stays its own
        return s.cache[k][0]
    def feasible(s, pc, extra=None):
        if extra is not None and has_quant(extra): return True
        t = time.time()
        s.n += 1
        fs = [c for c in pc if not has_quant(c)] + ([extra] if extra is not None else [])
        if HARD is not None and any(s.hard(f) for f in fs):
            # division and products: over-approximate first, then a short exact attempt; undecided counts as feasible
            q = z3.Solver(); q.set("timeout", 2000); q.add(*(ABSTRACT(fs) or fs)); r = q.check()
            if r != z3.unsat:
                q = z3.Solver(); q.set("timeout", 400); q.add(*fs); r = q.check()
            s.t += time.time() - t
            return r != z3.unsat
        s.sync(pc)
        if extra is None: r = s.s.check()
        else:
            s.s.push(); s.s.add(extra); r = s.s.check(); s.s.pop()
        s.t += time.time() - t
        return r != z3.unsat

# ------------------------------------------------------------------ CFG helpers
def succs(f, b):
    t = f.blocks[b][-1]
    if t.op == "br": return list(t.x)
    if t.op == "switch": return [t.x[0]] + [l for _, l in t.x[1]]
    if t.op == "invoke": return [t.x[0], t.x[1]]
    return []

def cfg(f):
    if hasattr(f, "cfg_"): return f.cfg_
    order = f.order; sc = {b: succs(f, b) for b in order}
    pr = {b: [] for b in order}
    for b in order:
        for x in sc[b]: pr[x].append(b)
    # post-dominators (iterative on sets of indexes; functions are small)
    EXIT = None
    # normal control flow only: edges to landing pads are ignored, blocks ending in unreachable/resume are not exits
    def nsucc(b):
        t = f.blocks[b][-1]
        if t.op == "invoke": return [t.x[0]]
        return sc[b]
    rev = {b: [] for b in order}; exits = []
    for b in order:
        ns = nsucc(b)
        for x in ns: rev[x].append(b)
        if f.blocks[b][-1].op == "ret": exits.append(b)
    # ipdom by Cooper-Harvey-Kennedy on the reverse graph
    idom = {}
    post = []; seen = set()
    def dfs(b):
        stack = [(b, iter(rev[b]))]; seen.add(b)
        while stack:
            n, it = stack[-1]
            for x in it:
                if x not in seen:
                    seen.add(x); stack.append((x, iter(rev[x]))); break
            else:
                post.append(n); stack.pop()
    for e in exits:
        if e not in seen: dfs(e)
    num = {b: i for i, b in enumerate(post)}
    V = "__exit__"; num[V] = len(post)
    idom[V] = V
    for e in exits: idom[e] = V
    ch = True
    def inter(a, b):
        while a != b:
            while num[a] < num[b]: a = idom[a]
            while num[b] < num[a]: b = idom[b]
        return a
    while ch:
        ch = False
        for b in reversed(post):
            if f.blocks[b][-1].op == "ret": continue
            new = None
            for x in nsucc(b):
                if x in idom: new = x if new is None else inter(new, x)
            if new is not None and idom.get(b) != new:
                idom[b] = new; ch = True
    ipd = {b: (None if idom.get(b, V) == V else idom[b]) for b in order}
    # dominators for natural loops
    dom = {}
    po = []; seen2 = set()
    stack = [(order[0], iter(sc[order[0]]))]; seen2.add(order[0])
    while stack:
        n, it = stack[-1]
        for x in it:
            if x not in seen2:
                seen2.add(x); stack.append((x, iter(sc[x]))); break
        else:
            po.append(n); stack.pop()
    nm = {b: i for i, b in enumerate(po)}
    dom[order[0]] = order[0]
    ch = True
    def inter2(a, b):
        while a != b:
            while nm[a] < nm[b]: a = dom[a]
            while nm[b] < nm[a]: b = dom[b]
        return a
    while ch:
        ch = False
        for b in reversed(po):
            if b == order[0]: continue
            new = None
            for x in pr[b]:
                if x in dom: new = x if new is None else inter2(new, x)
            if new is not None and dom.get(b) != new: dom[b] = new; ch = True
    def dominates(a, b):
        while True:
            if a == b: return True
            if b == order[0]: return False
            b = dom[b]
    loops = {}
    for b in po:
        for h in sc[b]:
            if h in dom and dominates(h, b):
                L = loops.setdefault(h, {h}); wl = [b]
                while wl:
                    x = wl.pop()
                    if x not in L:
                        L.add(x); wl += [p for p in pr[x] if p in dom]
    f.cfg_ = (ipd, loops)
    return f.cfg_

def innermost_loop(f, b):
    best = None
    for h, L in cfg(f)[1].items():
        if b in L and (best is None or len(L) < len(best)): best = L
    return best

EXC_BASES = {}

class Ex:
    def __init__(s, mod, opts=None):
        s.m = mod; s.opts = opts or {}
        s.sol = Solver(s)
        s.blocks = []; s.addrs = []
        s.next = 0x100000
        s.fnaddr = {}; s.addrfn = {}
        s.gblocks = {}
        s.fresh_n = {}
        s.obls = []; s.covers = {}; s.nondets = []; s.anyobjs = []
        s.trial = 0
        s.contracts = {}; s.virt = {}
        s.rid = 0
        s.assumed = set(); s.fns_inlined = set(); s.fns_contract = set()
        s.stubs = {}
        s.merge = True
        s.max_unroll = s.opts.get("unroll", 80)
        s.uf = {}
        s.fp_exact = False
        s.keep = []
        s.intmode = False
        s.lazyinit = {}
        s.vt_slots = {}
        s.cur_fn = []
        s.steps = 0
        s.maxsteps = s.opts.get("maxsteps", 4000000)
        s.heaparr0 = {}; s.regarrs = set()
        s.bounded_notes = set()
        s.deadline = time.time() + s.opts.get("budget", 600)
        s.ghost_alloc = None
        s.cutnames = {}
        s.regspec = {}
        s.safety = True
        import models
        s.models = models
        models.install(s)

    # ---------------- misc
    def fresh(s, name, n):
        k = s.fresh_n.get(name, 0); s.fresh_n[name] = k + 1
        nm = "%s!%d" % (name, k)
        return z3.Bool(nm) if n == 1 else z3.BitVec(nm, n)
    def alloc(s, st, size, name, kind, lazy=None, ginit=None):
        a = (s.next + 63) & ~63
        s.next = a + max(size, 1) + 64
        b = Block(len(s.blocks), a, size, name, kind, lazy, ginit)
        s.blocks.append(b); s.addrs.append(a)
        if st is not None:
            st.mem[b.id] = {}; st.own.add(b.id)
        return b
    def block_at(s, addr):
        i = bisect.bisect_right(s.addrs, addr) - 1
        if i < 0: return None
        b = s.blocks[i]
        if addr - b.addr <= b.size or (b.size == 0 and addr == b.addr): return b
        return None
    def faddr(s, name):
        if name not in s.fnaddr:
            a = 0x1000 + 16 * len(s.fnaddr)
            s.fnaddr[name] = a; s.addrfn[a] = name
        return s.fnaddr[name]
    def gaddr(s, name):
        name = s.m.aliases.get(name, name)
        if name in s.m.funcs: return s.faddr(name)
        b = s.gblocks.get(name)
        if b is None:
            g = s.m.globals.get(name)
            if g is None: raise ToolLimit("unknown global @" + name)
            t, init = s.m.ginit(g)
            try: sz = ir.size(t)
            except ir.ParseError: sz = 8
            if init is None: b = s.alloc(None, sz, "@" + name, "global", lazy="ext@" + name)
            else: b = s.alloc(None, sz, "@" + name, "global", ginit=(t, init))
            s.gblocks[name] = b
        return b.addr
    def new_region(s, st, name, esz, cap, nbytes=None):
        s.rid += 1
        r = Region(s.rid, name, esz, cap, nbytes)
        st.regs[r.id] = r
        return r

    # ---------------- constants / operands
    def const(s, c, ty):
        k = c.k
        if k == "int": return c.v
        if k == "gref": return s.gaddr(c.v)
        if k in ("undef",):
            if ty.k == "struct" and ty.sub is not None: return [s.const(Const("undef", None, t), t) for t in ty.sub]
            if ty.k == "int": return s.fresh("undef", ty.n)
            if ty.k == "double": return s.fresh("undef", 64)
            if ty.k == "float": return s.fresh("undef", 32)
            if ty.k == "x86_fp80": return s.fresh("undef", 79)
            return 0
        if k == "zero":
            if ty.k == "struct": return [s.const(c, t) for t in ty.sub]
            if ty.k == "arr": return [s.const(c, ty.sub) for _ in range(ty.n)]
            return 0
        if k == "agg": return [s.const(v, t) for t, v in c.v]
        if k == "str": return list(c.v)
        if k == "md": return None
        if k == "expr":
            if c.v == "gep":
                bt, ops = c.x
                return s.gep(None, bt, s.const(ops[0][1], ops[0][0]), [(t, s.const(v, t)) for t, v in ops[1:]])
            if c.v == "cast":
                o, (t, v) = c.x
                x = s.const(v, t)
                if o in ("ptrtoint", "inttoptr", "bitcast"): return x if c.ty.k != "int" or c.ty.n == 64 else x & ((1 << c.ty.n) - 1)
                return s.cast(o, x, t, c.ty)
            if c.v == "bin":
                o, a, b = c.x
                return s.binop(o, s.const(a[1], a[0]), s.const(b[1], b[0]), ty)
            if c.v == "icmp":
                o, a, b = c.x
                return s.icmp(o, s.const(a[1], a[0]), s.const(b[1], b[0]), a[0])
        raise ToolLimit("const " + k)
    def val(s, env, o, ty):
        if o.__class__ is Local: return env[o.name]
        return s.const(o, ty)

    # ---------------- pointers
    def enc(s, st, p):
        """pointer -> numeric (int or BV64)"""
        if isinstance(p, int):
            return p
        if isinstance(p, PtrE):
            r = st.regs[p.r]
            if isinstance(p.idx, int): return (r.base + p.idx * r.esz + p.c) & M64
            return z3.BitVecVal(r.base + p.c, 64) + p.idx * z3.BitVecVal(r.esz, 64)
        if isinstance(p, PtrO): return z3.BitVecVal(s.blocks[p.b].addr, 64) + p.off
        if isinstance(p, (VPtr, FnSlot, PDiff)): 
            if isinstance(p, PDiff): return s.pd(p)
            raise ToolLimit("encode vptr")
        return p
    def pd(s, p):
        if isinstance(p.d, int): return (p.d * p.esz) & M64
        return p.d * z3.BitVecVal(p.esz, 64)
    def norm(s, st, p):
        """numeric pointer normalisation: a z3 pointer whose constant part lies in a block -> PtrO / int"""
        if is_sym(p):
            e = z3.simplify(p)
            if z3.is_bv_value(e): return e.as_long()
            base, c = split_add(e)
            if c >= 0x1000 and c < (1 << 47):
                b = s.block_at(c)
                if b is not None: return PtrO(b.id, z3.simplify(base + z3.BitVecVal(c - b.addr, 64)))
            return e
        return p
    def padd(s, st, p, delta):
        """p + constant byte delta"""
        if delta == 0: return p
        if isinstance(p, int): return (p + delta) & M64
        if isinstance(p, PtrE):
            r = st.regs[p.r]
            if r.esz is None: raise ToolLimit("region without element size")
            d = tos(delta & M64, 64) + p.c
            q, c = d // r.esz, d % r.esz
            if q == 0: return PtrE(p.r, p.idx, c)
            return PtrE(p.r, s.addi(p.idx, q), c)
        if isinstance(p, PtrO): return PtrO(p.b, z3.simplify(p.off + z3.BitVecVal(delta & M64, 64)))
        if isinstance(p, VPtr): return VPtr(p.obj, p.off + delta)
        return z3.simplify(p + z3.BitVecVal(delta & M64, 64))
    def addi(s, a, k):
        if isinstance(a, int) and isinstance(k, int): return (a + k) & M64
        return simp(bv(a, 64) + bv(k, 64))
    def gep(s, st, bt, p, idx, fname=None):
        if is_sym(p): p = s.norm(st, p)
        # first index scales by sizeof(bt)
        t = bt; first = True
        for (it, iv) in idx:
            if first:
                esz = ir.size(t); first = False
            elif t.k == "struct":
                p = s.padd(st, p, ir.offsets(t)[iv]); t = t.sub[iv]; continue
            else:
                esz = ir.size(t.sub); t = t.sub
            if isinstance(iv, PDiff): iv = s.pd(iv)
            if isinstance(iv, int):
                n = it.n if it.k == "int" else 64
                iv = tos(iv, n)
                if isinstance(p, PtrE) and st.regs[p.r].esz is None and iv != 0: s.set_esz(st, p.r, esz, bt)
                if isinstance(p, PtrE) and st.regs[p.r].esz is None: 
                    continue
                p = s.padd(st, p, iv * esz)
            else:
                if it.n < 64: iv = z3.SignExt(64 - it.n, iv)
                if isinstance(p, PtrE):
                    r = st.regs[p.r]
                    if r.esz is None: s.set_esz(st, p.r, esz, bt); r = st.regs[p.r]
                    if esz == r.esz: p = PtrE(p.r, s.addi(p.idx, iv), p.c)
                    elif esz % r.esz == 0: p = PtrE(p.r, s.addi(p.idx, iv * (esz // r.esz)), p.c)
                    else: raise ToolLimit("stride %d in region %s of esz %d" % (esz, r.name, r.esz))
                elif isinstance(p, int):
                    b = s.block_at(p)
                    if b is None: p = z3.simplify(z3.BitVecVal(p, 64) + iv * z3.BitVecVal(esz, 64))
                    else: p = PtrO(b.id, z3.simplify(iv * z3.BitVecVal(esz, 64) + z3.BitVecVal(p - b.addr, 64)))
                elif isinstance(p, PtrO): p = PtrO(p.b, z3.simplify(p.off + iv * z3.BitVecVal(esz, 64)))
                elif isinstance(p, VPtr): raise ToolLimit("symbolic vtable index")
                else: p = z3.simplify(p + iv * z3.BitVecVal(esz, 64))
        return p
    def set_esz(s, st, rid, esz, ety=None):
        r = st.regs[rid].copy(); r.esz = esz; r.ety = ety
        if r.cap is None and r.bytes is not None:
            e = r.bytes
            if isinstance(e, int): r.cap = e // esz
            else:
                e = z3.simplify(e)
                q = None
                if z3.is_app_of(e, z3.Z3_OP_BMUL) and z3.is_bv_value(e.arg(0)) and e.arg(0).as_long() == esz and e.num_args() == 2: q = e.arg(1)
                r.cap = q if q is not None else (e if esz == 1 else z3.UDiv(e, z3.BitVecVal(esz, 64)))
        st.regs[rid] = r

    # ---------------- memory
    def materialize(s, st, b):
        if b.id in st.mem: return
        cells = {}
        st.mem[b.id] = cells; st.own.add(b.id)
        if b.ginit is not None:
            t, c = b.ginit
            s.init_cells(st, cells, 0, t, c, b)
    def init_cells(s, st, cells, off, t, c, b):
        if c.k == "undef": return
        if c.k == "zero":
            if t.k == "struct":
                for o, x in zip(ir.offsets(t), t.sub): s.init_cells(st, cells, off + o, x, c, b)
            elif t.k == "arr":
                es = ir.size(t.sub)
                if t.n * 1 > 100000: raise ToolLimit("large global")
                for i in range(t.n): s.init_cells(st, cells, off + i * es, t.sub, c, b)
            else: cells[off] = (ir.size(t), 0)
            return
        if t.k == "struct":
            for o, (xt, x) in zip(ir.offsets(t), c.v): s.init_cells(st, cells, off + o, xt, x, b)
        elif t.k == "arr":
            es = ir.size(t.sub)
            if c.k == "str":
                for i, ch in enumerate(c.v): cells[off + i] = (1, ch)
            else:
                for i, (xt, x) in enumerate(c.v): s.init_cells(st, cells, off + i * es, xt, x, b)
        else: cells[off] = (ir.size(t), s.const(c, t))
    def safety_check(s, st, label, cond):
        """cond: python bool or z3 Bool that must hold"""
        if cond is True: return
        if cond is False: cond = z3.BoolVal(False)
        c = z3.simplify(cond)
        if z3.is_true(c): return
        if s.safety: s.oblige(st, "safety:" + label, c)
        st.pc.append(c)
        if z3.is_false(c): raise PathEnd()
    def where(s):
        for f in reversed(s.cur_fn):
            d = demangle(f)
            if not d.startswith(("std::", "__gnu")) : return re.sub(r"\(.*", "", d)
        return s.cur_fn[-1] if s.cur_fn else "?"
    def load(s, st, p, ty):
        k = ty.k
        if k == "struct":
            return [s.load(st, s.padd(st, p, o), t) for o, t in zip(ir.offsets(ty), ty.sub)]
        if k == "arr":
            es = ir.size(ty.sub)
            return [s.load(st, s.padd(st, p, i * es), ty.sub) for i in range(ty.n)]
        if k == "x86_fp80":      # 10 bytes; the explicit integer bit is that of a normal/denormal number
            v = bv(s.loadn(st, p, 10), 80)
            s.assumed.add("long double objects hold valid 80-bit encodings")
            return simp(z3.Concat(z3.Extract(79, 64, v), z3.Extract(62, 0, v)))
        sz = ir.size(ty)
        v = s.loadn(st, p, sz)
        if k == "int":
            if ty.n == 1:
                if isinstance(v, int): return v & 1
                if isinstance(v, z3.BoolRef): return v
                return simp(z3.Extract(0, 0, v) == 1)
            if isinstance(v, z3.BoolRef): v = bv(v, 8 * sz)
            if ty.n < 8 * sz:
                return v & ((1 << ty.n) - 1) if isinstance(v, int) else simp(z3.Extract(ty.n - 1, 0, v))
        elif isinstance(v, z3.BoolRef): v = bv(v, 8 * sz)
        return v
    def resolve(s, st, p):
        """-> list of (cond or None, pointer) for a symbolic pointer that may be a concrete escaped block"""
        p = s.norm(st, p)
        return p
    def loadn(s, st, p, sz):
        if is_sym(p): p = s.norm(st, p)
        if isinstance(p, int):
            b = s.block_at(p)
            if b is None:
                s.safety_check(st, "bad-pointer-load@" + s.where(), False)
            return s.bload(st, b, p - b.addr, sz)
        if isinstance(p, PtrE): return s.rload(st, p, sz)
        if isinstance(p, PtrO): return s.oload(st, p, sz)
        if isinstance(p, VPtr):
            return FnSlot(p.obj, p.off)
        # symbolic heap pointer
        p = s.split_alias(st, p)
        if not is_sym(p): return s.loadn(st, p, sz)
        base, c = split_add(p)
        s.nonnull(st, base, c)
        if sz == 8 and s.is_vptr_off(base, c): return VPtr(p, 0)
        a = s.heaparr(st, c, sz)
        return simp(z3.Select(a, base))
    def is_vptr_off(s, base, c):
        return c in s.vt_slots.get("offs", ())
    def nonnull(s, st, base, c):
        s.safety_check(st, "null-deref@" + s.where(), base != 0)
    def split_alias(s, st, p):
        """if p may equal a concrete block whose address escaped into symbolic storage, fork via path selection"""
        if not st.esc: return p
        base, c = split_add(p)
        for bid in sorted(st.esc):
            b = s.blocks[bid]
            # p inside block b ? compare base address: objects are accessed from their start
            eq = base == z3.BitVecVal(b.addr, 64)
            if s.sol.feasible(st.pc, eq):
                if not s.sol.feasible(st.pc, z3.Not(eq)):
                    return b.addr + c
                raise NeedFork(eq)
        return p
    def heaparr(s, st, c, sz):
        key = (c, sz)
        a = st.heap.get(key)
        if a is None:
            for (c2, s2) in st.heap:
                if c2 < c + sz and c < c2 + s2: raise ToolLimit("overlapping heap fields %s %s" % (key, (c2, s2)))
            a = z3.Array("H%s_%d_%d" % ("" if not st.heapgen else "g%d" % st.heapgen, c if c < 1 << 40 else c - (1 << 64), sz), z3.BitVecSort(64), z3.BitVecSort(8 * sz))
            st.heap[key] = a
            if not st.heapgen: s.heaparr0[key] = a
        return a
    def bload(s, st, b, off, sz):
        if b.id in st.freed: s.safety_check(st, "use-after-free@" + s.where(), False)
        if b.id not in st.mem: s.materialize(st, b)
        cells = st.mem[b.id]
        x = cells.get(off)
        if x is not None and x[0] == sz: return x[1]
        if off < 0 or off + sz > b.size:
            s.safety_check(st, "out-of-bounds-read(%s)@%s" % (b.name, s.where()), False)
        # overlapping cells?
        ov = [(o, c) for o, c in cells.items() if o < off + sz and off < o + c[0]]
        if not ov:
            v = s.initval(st, b, off, sz)
            st.cells(b.id)[off] = (sz, v)
            return v
        # compose bytes
        if len(ov) == 1 and ov[0][0] <= off and ov[0][0] + ov[0][1][0] >= off + sz:
            o, (cs, v) = ov[0]; sh = off - o
            v = s.numeric(st, v)
            if isinstance(v, int): return (v >> (8 * sh)) & ((1 << (8 * sz)) - 1)
            v = bv(v, 8 * cs)
            return simp(z3.Extract(8 * (sh + sz) - 1, 8 * sh, v))
        parts = []; o = off
        while o < off + sz:
            hit = None
            for oo, (cs, v) in ov:
                if oo <= o < oo + cs: hit = (oo, cs, v); break
            if hit is None:
                # gap: initialise a byte
                v = s.initval(st, b, o, 1); st.cells(b.id)[o] = (1, v)
                parts.append((1, v)); o += 1
            else:
                oo, cs, v = hit; v = s.numeric(st, v)
                n = min(oo + cs, off + sz) - o; sh = o - oo
                if isinstance(v, int): v = (v >> (8 * sh)) & ((1 << (8 * n)) - 1)
                else:
                    v = bv(v, 8 * cs)
                    if n != cs: v = z3.Extract(8 * (sh + n) - 1, 8 * sh, v)
                parts.append((n, v)); o += n
        if all(isinstance(v, int) for _, v in parts):
            r = 0; sh = 0
            for n, v in parts: r |= v << sh; sh += 8 * n
            return r
        return simp(z3.Concat(*[bv(v, 8 * n) for n, v in reversed(parts)])) if len(parts) > 1 else parts[0][1]
    def numeric(s, st, v):
        if isinstance(v, (PtrE, PtrO, PDiff)): return s.enc(st, v)
        if isinstance(v, (VPtr, FnSlot)): raise ToolLimit("numeric view of vtable pointer")
        return v
    def initval(s, st, b, off, sz):
        if b.ginit is not None: return 0
        nm = b.lazy
        key = (b.id, off, sz)
        v = s.lazyinit.get(key)
        if v is None:
            for (bi, o2, s2) in [k for k in s.lazyinit if k[0] == b.id]:
                if o2 < off + sz and off < o2 + s2 and (o2, s2) != (off, sz):
                    # differing granularity: derive from the covering one if possible
                    if o2 <= off and o2 + s2 >= off + sz:
                        v = simp(z3.Extract(8 * (off - o2 + sz) - 1, 8 * (off - o2), s.lazyinit[(bi, o2, s2)]))
                        return v
                    raise ToolLimit("mixed-size lazy init of " + b.name)
            v = z3.BitVec("%s+%d:%d" % (nm or (b.name + "~uninit%d" % b.id), off, sz), 8 * sz)
            s.lazyinit[key] = v
        return v
    def rbounds(s, st, p, sz, what):
        r = st.regs[p.r]
        if r.freed: s.safety_check(st, "use-after-free(%s)@%s" % (r.name, s.where()), False)
        if r.esz is None: s.set_esz(st, p.r, sz); r = st.regs[p.r]
        if r.cap is not None:
            if isinstance(p.idx, int) and isinstance(r.cap, int): ok = p.idx < r.cap
            else: ok = z3.ULT(bv(p.idx, 64), bv(r.cap, 64))
            s.safety_check(st, "out-of-bounds-%s(%s)@%s" % (what, r.name, s.where()), ok)
        return st.regs[p.r]
    def rarr(s, st, rid, c, sz):
        r = st.regs[rid]
        a = r.arrs.get((c, sz))
        if a is None:
            for (c2, s2) in r.arrs:
                if c2 < c + sz and c < c2 + s2: raise ToolLimit("overlapping region fields in %s: %s vs %s" % (r.name, (c, sz), (c2, s2)))
            a = z3.Array("%s%s_%d_%d" % (r.name, r.gen, c, sz), z3.BitVecSort(64), z3.BitVecSort(8 * sz))
            r = r.copy(); r.arrs[(c, sz)] = a; st.regs[rid] = r
            if not r.gen: s.regarrs.add((r.name, c, sz))
        return a
    def rload(s, st, p, sz):
        r = s.rbounds(st, p, sz, "read")
        if p.c + sz > r.esz:
            if r.esz == 1:
                return simp(z3.Concat(*[z3.Select(s.rarr(st, p.r, 0, 1), bv(s.addi(p.idx, i), 64)) for i in reversed(range(sz))]))
            raise ToolLimit("access spans elements of " + r.name)
        # covering larger field?
        for (c2, s2), a in r.arrs.items():
            if c2 <= p.c and c2 + s2 >= p.c + sz and (c2, s2) != (p.c, sz):
                return simp(z3.Extract(8 * (p.c - c2 + sz) - 1, 8 * (p.c - c2), z3.Select(a, bv(p.idx, 64))))
        a = s.rarr(st, p.r, p.c, sz)
        return simp(z3.Select(a, bv(p.idx, 64)))
    def oload(s, st, p, sz):
        b = s.blocks[p.b]
        if b.id not in st.mem: s.materialize(st, b)
        off = p.off
        cands = s.offcands(st, b, off, sz)
        s.safety_check(st, "out-of-bounds-read(%s)@%s" % (b.name, s.where()), z3.Or(*[off == c for c in cands]) if len(cands) < 3 else s.inrange(off, cands, sz))
        v = None
        for c in reversed(cands):
            x = s.numeric(st, s.bload(st, b, c, sz)); x = bv(x, 8 * sz)
            v = x if v is None else z3.If(off == z3.BitVecVal(c, 64), x, v)
        if v is None: raise PathEnd()
        return simp(v)
    def inrange(s, off, cands, sz):
        lo, hi = cands[0], cands[-1]
        st = cands[1] - cands[0]
        e = z3.And(z3.UGE(off, z3.BitVecVal(lo, 64)), z3.ULE(off, z3.BitVecVal(hi, 64)))
        if st > 1: e = z3.And(e, z3.URem(off - z3.BitVecVal(lo, 64), z3.BitVecVal(st, 64)) == 0)
        return e
    def offcands(s, st, b, off, sz):
        # offsets congruent modulo the stride of the symbolic part
        base, c = split_add(off)
        stride = sz
        if base is not None:
            stride = s.stride_of(base)
        c0 = c % stride if stride else 0
        if b.size // max(stride, 1) > 5000: raise ToolLimit("symbolic offset in large block")
        return [o for o in range(c0, b.size - sz + 1, max(stride, 1))]
    def stride_of(s, e):
        if z3.is_app_of(e, z3.Z3_OP_BMUL):
            for ch in e.children():
                if z3.is_bv_value(ch): return ch.as_long()
        if z3.is_app_of(e, z3.Z3_OP_BADD):
            import math
            g = 0
            for ch in e.children():
                g = math.gcd(g, ch.as_long() if z3.is_bv_value(ch) else s.stride_of(ch))
            return g
        if z3.is_app_of(e, z3.Z3_OP_CONCAT):
            l = e.children()[-1]
            if z3.is_bv_value(l) and l.as_long() == 0: return 1 << l.size()
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            import math
            return math.gcd(s.stride_of2(e.arg(1)), s.stride_of2(e.arg(2))) or 1
        return 1
    def stride_of2(s, e):
        if z3.is_bv_value(e): return e.as_long()
        return s.stride_of(e)
    def store(s, st, p, v, ty):
        k = ty.k
        if k == "struct":
            for o, t, x in zip(ir.offsets(ty), ty.sub, v): s.store(st, s.padd(st, p, o), x, t)
            return
        if k == "arr":
            es = ir.size(ty.sub)
            for i, x in enumerate(v): s.store(st, s.padd(st, p, i * es), x, ty.sub)
            return
        if k == "x86_fp80":
            v = bv(v, 79); e = z3.Extract(77, 63, v)
            s.storen(st, p, simp(z3.Concat(z3.Extract(78, 63, v), z3.If(e != 0, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), z3.Extract(62, 0, v))), 10)
            return
        if k == "int" and ty.n == 1: v = (v & 1) if isinstance(v, int) else v
        elif k == "int" and ty.n < 8 * ir.size(ty): v = v if isinstance(v, int) else z3.ZeroExt(8 * ir.size(ty) - ty.n, v)
        s.storen(st, p, v, ir.size(ty))
    def storen(s, st, p, v, sz):
        if is_sym(p): p = s.norm(st, p)
        if isinstance(p, int):
            b = s.block_at(p)
            if b is None: s.safety_check(st, "bad-pointer-store@" + s.where(), False)
            return s.bstore(st, b, p - b.addr, sz, v)
        if isinstance(p, PtrE):
            r = s.rbounds(st, p, sz, "write")
            if p.c + sz > r.esz:
                if r.esz == 1:
                    v = bv(s.numeric(st, v), 8 * sz)
                    for i in range(sz): s.storen(st, PtrE(p.r, s.addi(p.idx, i), 0), simp(z3.Extract(8 * i + 7, 8 * i, v)), 1)
                    return
                raise ToolLimit("store spans elements")
            v = s.escval(st, v, sz)
            a = s.rarr(st, p.r, p.c, sz)
            r = st.regs[p.r].copy()
            r.arrs[(p.c, sz)] = z3.Store(a, bv(p.idx, 64), bv(v, 8 * sz))
            st.regs[p.r] = r
            if st.wlog is not None: st.wlog[("r", p.r, p.c, sz)] = 1
            return
        if isinstance(p, PtrO):
            b = s.blocks[p.b]; off = p.off
            if b.id not in st.mem: s.materialize(st, b)
            cands = s.offcands(st, b, off, sz)
            s.safety_check(st, "out-of-bounds-write(%s)@%s" % (b.name, s.where()), s.inrange(off, cands, sz) if len(cands) > 2 else z3.Or(*[off == c for c in cands]))
            v = bv(s.numeric(st, v), 8 * sz)
            for c in cands:
                old = bv(s.numeric(st, s.bload(st, b, c, sz)), 8 * sz)
                s.bstore(st, b, c, sz, simp(z3.If(off == z3.BitVecVal(c, 64), v, old)))
            return
        if isinstance(p, (VPtr, FnSlot)): raise ToolLimit("store to vtable")
        p = s.split_alias(st, p)
        if not is_sym(p): return s.storen(st, p, v, sz)
        base, c = split_add(p)
        s.nonnull(st, base, c)
        if sz == 8 and s.is_vptr_off(base, c): return
        v = s.escval(st, v, sz)
        a = s.heaparr(st, c, sz)
        st.heap[(c, sz)] = z3.Store(a, base, bv(v, 8 * sz))
        if st.wlog is not None: st.wlog[("h", c, sz)] = 1
    def escval(s, st, v, sz):
        if isinstance(v, int):
            if sz == 8 and v >= 0x100000:
                b = s.block_at(v)
                if b is not None and b.kind != "global": st.esc = st.esc | {b.id}
            return v
        if isinstance(v, (PtrE, PtrO, PDiff)): return s.enc(st, v)
        if isinstance(v, (VPtr, FnSlot)): raise ToolLimit("escape vptr")
        return v
    def bstore(s, st, b, off, sz, v):
        if b.id in st.freed: s.safety_check(st, "use-after-free@" + s.where(), False)
        if off < 0 or off + sz > b.size:
            s.safety_check(st, "out-of-bounds-write(%s)@%s" % (b.name, s.where()), False)
        if b.id not in st.mem: s.materialize(st, b)
        cells = st.cells(b.id)
        x = cells.get(off)
        if x is None or x[0] != sz:
            for o in [o for o, c in cells.items() if o < off + sz and off < o + c[0]]:
                cs, w = cells.pop(o)
                if o >= off and o + cs <= off + sz: continue
                w = s.numeric(st, w)
                lo = off - o  # bytes kept below
                if lo > 0: cells[o] = (lo, (w & ((1 << 8 * lo) - 1)) if isinstance(w, int) else simp(z3.Extract(8 * lo - 1, 0, bv(w, 8 * cs))))
                hi = o + cs - (off + sz)
                if hi > 0: cells[off + sz] = (hi, (w >> 8 * (cs - hi)) if isinstance(w, int) else simp(z3.Extract(8 * cs - 1, 8 * (cs - hi), bv(w, 8 * cs))))
        cells[off] = (sz, v)
        if st.wlog is not None: st.wlog[("b", b.id, off, sz)] = ("E", v.r, v.c) if isinstance(v, PtrE) else 1

    # ---------------- scalar ops
    def binop(s, op, a, b, ty, flags=None, st=None):
        if ty.k in ("double", "float"): return s.fpop(op, a, b, ty)
        if ty.k == "x86_fp80": raise ToolLimit("x86_fp80 arithmetic")
        n = ty.n
        if isinstance(a, PDiff) or isinstance(b, PDiff):
            if op == "sdiv" and isinstance(b, int) and b == a.esz: return a.d
            if op == "ashr" and isinstance(b, int) and (1 << b) == a.esz: return a.d
            if op in ("sdiv", "ashr") and isinstance(b, int):
                dv = b if op == "sdiv" else (1 << b)
                if a.esz % dv == 0: return PDiff(a.d, a.esz // dv) if a.esz != dv else a.d
            if op == "mul" and isinstance(b, int): pass
            if isinstance(a, PDiff): a = s.pd(a)
            if isinstance(b, PDiff): b = s.pd(b)
        if op == "sub" and (isinstance(a, (PtrE, PtrO)) or isinstance(b, (PtrE, PtrO))):
            return s.ptrsub(st, a, b)
        if isinstance(a, (PtrE, PtrO)): 
            if op == "and" and isinstance(b, int) and b < 64: return 0   # alignment test
            a = s.enc(st, a)
        if isinstance(b, (PtrE, PtrO)): b = s.enc(st, b)
        if isinstance(a, int) and isinstance(b, int):
            mask = (1 << n) - 1
            if op == "add": return (a + b) & mask
            if op == "sub": return (a - b) & mask
            if op == "mul": return (a * b) & mask
            if op == "and": return a & b
            if op == "or": return a | b
            if op == "xor": return a ^ b
            if op == "shl": return (a << b) & mask if b < n else 0
            if op == "lshr": return a >> b if b < n else 0
            if op == "ashr": return (tos(a, n) >> min(b, n - 1)) & mask
            if op in ("udiv", "urem", "sdiv", "srem"):
                if b == 0: s.safety_check(st, "div-by-zero@" + s.where(), False)
                if op == "udiv": return a // b
                if op == "urem": return a % b
                x, y = tos(a, n), tos(b, n)
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return q & mask if op == "sdiv" else (x - q * y) & mask
        if n == 1:
            A, B = b1(a), b1(b)
            if op == "and": return simp(z3.And(A, B))
            if op == "or": return simp(z3.Or(A, B))
            if op in ("xor", "add", "sub"): return simp(z3.Xor(A, B))
            raise ToolLimit("i1 op " + op)
        A, B = bv(a, n), bv(b, n)
        if op == "add": r = A + B
        elif op == "sub": r = A - B
        elif op == "mul": r = A * B
        elif op == "and": r = A & B
        elif op == "or": r = A | B
        elif op == "xor": r = A ^ B
        elif op == "shl": r = A << B
        elif op == "lshr": r = z3.LShR(A, B)
        elif op == "ashr": r = A >> B
        elif op in ("udiv", "urem", "sdiv", "srem"):
            s.safety_check(st, "div-by-zero@" + s.where(), B != 0)
            r = {"udiv": z3.UDiv, "urem": z3.URem, "sdiv": lambda x, y: x / y, "srem": z3.SRem}[op](A, B)
        else: raise ToolLimit("binop " + op)
        return simp(r)
    def ptrsub(s, st, a, b):
        if isinstance(a, PtrE) and isinstance(b, PtrE) and a.r == b.r:
            r = st.regs[a.r]
            d = s.addi(a.idx, simp(-bv(b.idx, 64)) if is_sym(b.idx) else -b.idx)
            if a.c == b.c: return PDiff(d, r.esz) if (r.esz or 1) > 1 else d
        if isinstance(a, PtrO) or isinstance(b, PtrO) or isinstance(a, PtrE) or isinstance(b, PtrE):
            return simp(bv(s.enc(st, a), 64) - bv(s.enc(st, b), 64))
        raise ToolLimit("ptrsub")
    def ufn(s, name, *sorts):
        k = (name,) + tuple(str(x) for x in sorts)
        if k not in s.uf: s.uf[k] = z3.Function(name, *sorts)
        return s.uf[k]
    def fpop(s, op, a, b, ty):
        n = 64 if ty.k == "double" else 32
        if isinstance(a, int) and isinstance(b, int):
            r = fpconc(op, a, b, n)
            if r is not None: return r
        A, B = bv(a, n), bv(b, n)
        if op == "fadd":
            for p, q in ((a, B), (b, A)):      # +0 + x is x, except that +0 + -0 is +0
                if isinstance(p, int) and p == 0: return simp(z3.If(q == z3.BitVecVal(1 << (n - 1), n), z3.BitVecVal(0, n), q))
        if op == "fmul":
            one = 0x3ff0000000000000 if n == 64 else 0x3f800000
            for p, q in ((a, b), (b, a)):          # 1 * x is x
                if isinstance(p, int) and p == one: return q
        if s.fp_exact:
            so = z3.Float64() if n == 64 else z3.Float32()
            x, y = z3.fpBVToFP(A, so), z3.fpBVToFP(B, so)
            R = z3.RNE()
            r = {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}.get(op)
            if r is None: raise ToolLimit(op)
            return z3.simplify(z3.fpToIEEEBV(r(R, x, y)))
        s.keep.append((A, B))        # ids are only stable while the terms live
        if op in ("fadd", "fmul") and (A.get_id() > B.get_id()): A, B = B, A
        s.assumed.add("floating-point %s on symbolic operands is an uninterpreted (commutative for + and *) function" % op)
        S = z3.BitVecSort(n)
        return s.ufn("%s%d" % (op, n), S, S, S)(A, B)
    def cast(s, op, v, st_, dt, st=None):
        if op in ("bitcast", "addrspacecast", "inttoptr"):
            if st_.k == "int" and st_.n == 64 or dt.k != "ptr": return v
            return v
        if op == "ptrtoint":
            return v
        if op in ("zext", "sext", "trunc"):
            a, b = st_.n, dt.n
            if isinstance(v, PDiff): v = s.pd(v)
            if isinstance(v, (PtrE, PtrO)): v = s.enc(st, v)
            if isinstance(v, int):
                if op == "zext": return v
                if op == "sext": return tos(v, a) & ((1 << b) - 1)
                return v & ((1 << b) - 1)
            if op == "trunc":
                if b == 1: return simp(z3.Extract(0, 0, bv(v, a)) == 1)
                return simp(z3.Extract(b - 1, 0, bv(v, a)))
            if isinstance(v, z3.BoolRef):
                if op == "zext": return z3.If(v, z3.BitVecVal(1, b), z3.BitVecVal(0, b))
                return z3.If(v, z3.BitVecVal((1 << b) - 1, b), z3.BitVecVal(0, b))
            return simp(z3.ZeroExt(b - a, v) if op == "zext" else z3.SignExt(b - a, v))
        # floats
        dn = {"double": 64, "float": 32}.get(dt.k); sn = {"double": 64, "float": 32}.get(st_.k)
        if isinstance(v, int) and st_.k != "x86_fp80" and dt.k != "x86_fp80":
            r = fpcast(op, v, st_, dt)
            if r is not None: return r
        if st_.k == "x86_fp80" or dt.k == "x86_fp80":
            S = {"double": z3.Float64(), "float": z3.Float32(), "x86_fp80": F80}
            if op in ("uitofp", "sitofp"):
                if isinstance(v, z3.BoolRef): v = bv(v, 1)
                x = bv(v, st_.n)
                return simp(z3.fpToIEEEBV(z3.fpToFPUnsigned(z3.RNE(), x, F80) if op == "uitofp" else z3.fpSignedToFP(z3.RNE(), x, F80)))
            w = {"double": 64, "float": 32, "x86_fp80": 79}
            x = z3.fpBVToFP(bv(v, w[st_.k]), S[st_.k])
            if op in ("fpext", "fptrunc"): return simp(z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), x, S[dt.k])))
            if op in ("fptoui", "fptosi"):
                return simp(z3.fpToUBV(z3.RTZ(), x, z3.BitVecSort(dt.n)) if op == "fptoui" else z3.fpToSBV(z3.RTZ(), x, z3.BitVecSort(dt.n)))
            raise ToolLimit("x86_fp80 " + op)
        if s.fp_exact:
            F = lambda n: z3.Float64() if n == 64 else z3.Float32()
            if op in ("uitofp", "sitofp"):
                x = bv(v, st_.n)
                f = z3.fpToFPUnsigned(z3.RNE(), x, F(dn)) if op == "uitofp" else z3.fpSignedToFP(z3.RNE(), x, F(dn))
                return z3.simplify(z3.fpToIEEEBV(f))
            if op in ("fptoui", "fptosi"):
                f = z3.fpBVToFP(bv(v, sn), F(sn))
                return z3.simplify(z3.fpToUBV(z3.RTZ(), f, z3.BitVecSort(dt.n)) if op == "fptoui" else z3.fpToSBV(z3.RTZ(), f, z3.BitVecSort(dt.n)))
            if op in ("fpext", "fptrunc"):
                return z3.simplify(z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), z3.fpBVToFP(bv(v, sn), F(sn)), F(dn))))
        a = sn or st_.n; b = dn or dt.n
        s.assumed.add("floating-point conversion %s on symbolic operands is an uninterpreted function" % op)
        if a == 1: v = bv(v, 8); a = 8
        return s.ufn("%s_%d_%d" % (op, a, b), z3.BitVecSort(a), z3.BitVecSort(b))(bv(v, a))
    def icmp(s, pr, a, b, ty, st=None):
        if ty.k == "ptr": return s.pcmp(pr, a, b, st)
        n = ty.n
        if isinstance(a, PDiff) and isinstance(b, PDiff) and a.esz == b.esz and pr in ("eq", "ne"): a, b = a.d, b.d
        if isinstance(a, PDiff): a = s.pd(a)
        if isinstance(b, PDiff): b = s.pd(b)
        if isinstance(a, (PtrE, PtrO)) or isinstance(b, (PtrE, PtrO)): return s.pcmp(pr, a, b, st)
        if isinstance(a, int) and isinstance(b, int):
            if pr[0] == "s": a, b = tos(a, n), tos(b, n)
            q = pr[-2:]
            return int({"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[q])
        if n == 1:
            A, B = b1(a), b1(b)
            if pr == "eq": return simp(A == B)
            if pr == "ne": return simp(A != B)
            A, B = bv(A, 1), bv(B, 1)
        else: A, B = bv(a, n), bv(b, n)
        r = {"eq": lambda: A == B, "ne": lambda: A != B, "ugt": lambda: z3.UGT(A, B), "uge": lambda: z3.UGE(A, B), "ult": lambda: z3.ULT(A, B),
             "ule": lambda: z3.ULE(A, B), "sgt": lambda: A > B, "sge": lambda: A >= B, "slt": lambda: A < B, "sle": lambda: A <= B}[pr]()
        return simp(r)
    def pcmp(s, pr, a, b, st):
        if isinstance(a, PtrE) and isinstance(b, PtrE) and a.r == b.r:
            if a.c == b.c:
                A, B = a.idx, b.idx
                if pr == "eq": return simp(bv(A, 64) == bv(B, 64))
                if pr == "ne": return simp(bv(A, 64) != bv(B, 64))
                # pointers into one array: order of indexes (end pointers are < 2^47, compare unsigned)
                return s.icmp(pr, A, B, INT(64), st)
            if pr == "eq": return simp(z3.BoolVal(False))
            if pr == "ne": return simp(z3.BoolVal(True))
        if isinstance(a, PtrO) and isinstance(b, PtrO) and a.b == b.b:
            return s.icmp(pr, a.off, b.off, INT(64), st)
        ea, eb = isinstance(a, (PtrE,)), isinstance(b, (PtrE,))
        if pr in ("eq", "ne"):
            if (ea and isinstance(b, int)) or (eb and isinstance(a, int)) or (ea and eb): return 0 if pr == "eq" else 1
            if isinstance(a, (VPtr, FnSlot)) or isinstance(b, (VPtr, FnSlot)):
                if b == 0 or a == 0: return 0 if pr == "eq" else 1
                raise ToolLimit("vptr compare")
        A, B = s.enc(st, a), s.enc(st, b)
        return s.icmp(pr, A, B, INT(64), st)
    def fcmp(s, pr, a, b, ty):
        n = 64 if ty.k == "double" else 79 if ty.k == "x86_fp80" else 32
        if pr == "true": return 1
        if pr == "false": return 0
        if isinstance(a, int) and isinstance(b, int) and n != 79:
            x, y = tofloat(a, n), tofloat(b, n)
            un = x != x or y != y
            q = pr[1:]
            if pr == "ord": return int(not un)
            if pr == "uno": return int(un)
            r = {"eq": x == y, "ne": x != y, "gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[q]
            return int((not un and r) if pr[0] == "o" else (un or r))
        so = z3.Float64() if n == 64 else F80 if n == 79 else z3.Float32()
        x, y = z3.fpBVToFP(bv(a, n), so), z3.fpBVToFP(bv(b, n), so)
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        if pr == "ord": return simp(z3.Not(un))
        if pr == "uno": return simp(un)
        q = pr[1:]
        r = {"eq": z3.fpEQ, "ne": z3.fpNEQ, "gt": z3.fpGT, "ge": z3.fpGEQ, "lt": z3.fpLT, "le": z3.fpLEQ}[q](x, y)
        if q == "ne": r = z3.And(z3.Not(un), z3.Not(z3.fpEQ(x, y)))
        return simp(r if pr[0] == "o" else z3.Or(un, r))

    # ---------------- obligations
    def oblige(s, st, label, cond):
        if s.trial: return
        o = Obl(); o.label = label; o.pc = list(st.pc); o.goal = cond if is_sym(cond) else z3.BoolVal(bool(cond))
        o.res = None; o.time = 0; o.backend = ""; o.model = None; o.reason = ""; o.where = s.where()
        s.obls.append(o)
    def assume(s, st, c):
        if isinstance(c, int):
            if not c: raise PathEnd()
            return
        c = z3.simplify(c)
        if z3.is_true(c): return
        if z3.is_false(c): raise PathEnd()
        for x in (c.children() if z3.is_and(c) else [c]): st.pc.append(x)

    # ---------------- execution
    def call(s, st, name, args, argtys=None, retty=None):
        """-> list of Outcome"""
        name = s.m.aliases.get(name, name)
        name = s.contracts.get(name, name)
        h = s.models.lookup(s, name)
        if h is not None:
            return h(s, st, args)
        f = s.m.funcs.get(name)
        if f is None or f.decl:
            return s.models.external(s, st, name, args, retty)
        if len(s.cur_fn) > 400: raise ToolLimit("recursion depth at " + demangle(name))
        ir.parse_body(f, s.m)
        env = {}
        args = list(args)
        for i, bt in f.byval.items():
            b = s.alloc(st, ir.size(bt), "byval", "stack")
            s.memcpy(st, b.addr, args[i], ir.size(bt), bt)
            args[i] = b.addr
        for (t, n), a in zip(f.params, args): env[n] = a
        env["#va"] = args[len(f.params):]
        s.cur_fn.append(name)
        s.fns_inlined.add(name)
        try:
            at, done = s.run(f, st, env, f.order[0], None, None, 0)
        finally: s.cur_fn.pop()
        return s.merge_outcomes(done, f.retty)

    def run(s, f, st, env, blk, prev, stop, idx):
        """execute from (blk, idx) until stop is reached; -> (list of (st, env, prev) at stop, list of Outcome)"""
        at = []; done = []
        ipd, loops = cfg(f)
        while True:
            insts = f.blocks[blk]
            if idx == 0 and insts and insts[0].op == "phi":
                vals = env.pop("#phis", None)
                if vals is None: vals = s.phis(f, env, blk, prev)
                while insts[idx].op == "phi": idx += 1
                env.update(vals)
            n = len(insts)
            nxt = None
            while idx < n:
                ins = insts[idx]; op = ins.op
                s.steps += 1
                if s.steps & 1023 == 0 and time.time() > s.deadline: raise ToolLimit("time budget")
                if s.steps > s.maxsteps: raise ToolLimit("step budget")
                try:
                    if op == "load": env[ins.res] = s.load(st, s.val(env, ins.a, PTR), ins.ty)
                    elif op == "store":
                        (t, v), p = ins.a
                        s.store(st, s.val(env, p, PTR), s.val(env, v, t), t)
                    elif op == "getelementptr":
                        bt, p, ix = ins.a
                        env[ins.res] = s.gep(st, bt, s.val(env, p, PTR), [(t, s.val(env, v, t)) for t, v in ix])
                    elif op == "alloca":
                        sz = ir.size(ins.a)
                        if ins.x is not None:
                            c = s.val(env, ins.x[1], ins.x[0])
                            if not isinstance(c, int): raise ToolLimit("symbolic alloca")
                            sz *= c
                        env[ins.res] = s.alloc(st, sz, ins.res, "stack").addr
                    elif op in ir.BIN:
                        a, b = ins.a
                        env[ins.res] = s.binop(op, s.val(env, a, ins.ty), s.val(env, b, ins.ty), ins.ty, ins.x, st)
                    elif op == "icmp":
                        pr, t = ins.x; a, b = ins.a
                        env[ins.res] = s.icmp(pr, s.val(env, a, t), s.val(env, b, t), t, st)
                    elif op == "fcmp":
                        pr, t = ins.x; a, b = ins.a
                        env[ins.res] = s.fcmp(pr, s.val(env, a, t), s.val(env, b, t), t)
                    elif op in ir.CAST: env[ins.res] = s.cast(op, s.val(env, ins.a, ins.x), ins.x, ins.ty, st)
                    elif op == "select":
                        c, a, b = ins.a
                        c = s.val(env, c, INT(1)); x = s.val(env, a, ins.ty); y = s.val(env, b, ins.ty)
                        if isinstance(c, int): env[ins.res] = x if c & 1 else y
                        else:
                            r = s.ite_t(b1(c), x, y, ins.ty)
                            if r is None: raise NeedFork(b1(c))
                            env[ins.res] = r
                    elif op in ("call", "invoke"):
                        r = s.do_call(f, st, env, ins, blk, idx, stop, prev)
                        if r[0] == "one":
                            _, st, v = r
                            if ins.res is not None: env[ins.res] = v
                            if op == "invoke": nxt = ins.x[0]; break
                        elif r[0] == "dead": return at, done
                        elif r[0] == "jump":
                            _, st, jb, ji, jp = r
                            blk, idx, prev = jb, ji, jp
                            insts = f.blocks[blk]; n = len(insts)
                            continue
                        else:
                            for o in r[1]:
                                e2 = dict(env)
                                if o.kind == "ret":
                                    if ins.res is not None: e2[ins.res] = o.val
                                    if op == "invoke": a2, d2 = s.goto(f, o.st, e2, ins.x[0], blk, stop)
                                    else: a2, d2 = s.run(f, o.st, e2, blk, prev, stop, idx + 1)
                                else:
                                    if op == "invoke":
                                        o.st.extra = dict(o.st.extra); o.st.extra["exc"] = o.val
                                        a2, d2 = s.goto(f, o.st, e2, ins.x[1], blk, stop)
                                    else: a2, d2 = [], [o]
                                at += a2; done += d2
                            return at, done
                    elif op == "br":
                        if ins.a is None: nxt = ins.x[0]; break
                        c = s.val(env, ins.a, INT(1))
                        if isinstance(c, int): nxt = ins.x[0] if c & 1 else ins.x[1]; break
                        a2, d2, nx = s.branch(f, st, env, blk, [(b1(c), ins.x[0]), (z3.Not(b1(c)), ins.x[1])], stop, ipd)
                        if nx is not None: nxt = nx; break
                        at += a2; done += d2
                        return at, done
                    elif op == "switch":
                        v = s.val(env, ins.a, ins.ty if ins.ty is not ir.VOID else INT(32))
                        d, cases = ins.x
                        if isinstance(v, int):
                            nxt = d
                            for c, l in cases:
                                if c == v: nxt = l; break
                            break
                        if isinstance(v, z3.BoolRef): v = bv(v, 8)
                        alts = {}
                        neg = []
                        for c, l in cases:
                            e = v == z3.BitVecVal(c, v.size()); alts.setdefault(l, []).append(e); neg.append(e)
                        alts.setdefault(d, []).append(z3.Not(z3.Or(*neg)) if neg else z3.BoolVal(True))
                        a2, d2, nx = s.branch(f, st, env, blk, [(z3.Or(*es) if len(es) > 1 else es[0], l) for l, es in alts.items()], stop, ipd)
                        if nx is not None: nxt = nx; break
                        at += a2; done += d2
                        return at, done
                    elif op == "ret":
                        v = None if ins.a is None else s.val(env, ins.a, ins.ty)
                        done.append(Outcome(st, "ret", v)); return at, done
                    elif op == "unreachable": return at, done
                    elif op == "extractvalue":
                        (t, v) = ins.a; x = s.val(env, v, t)
                        for i in ins.x: x = x[i]
                        env[ins.res] = x
                    elif op == "insertvalue":
                        (t, v), (et, e) = ins.a
                        x = s.val(env, v, t); x = list(x)
                        if len(ins.x) != 1: raise ToolLimit("insertvalue")
                        x[ins.x[0]] = s.val(env, e, et); env[ins.res] = x
                    elif op == "landingpad":
                        exc = st.extra["exc"]; sel = None
                        for w, (t, v) in ins.a:
                            ti = s.val(env, v, t)
                            if w == "catch" and (ti == 0 or s.exc_match(exc[1], ti)): sel = s.typeid(ti); break
                        if sel is None and not ins.x:
                            # not for us: keep propagating
                            done.append(Outcome(st, "exc", exc)); return at, done
                        env[ins.res] = [exc[0], sel if sel is not None else 0]
                    elif op == "resume":
                        done.append(Outcome(st, "exc", st.extra["exc"])); return at, done
                    elif op == "freeze": env[ins.res] = s.val(env, ins.a, ins.ty)
                    elif op == "atomicrmw":
                        p, (t, v) = ins.a; p = s.val(env, p, PTR); v = s.val(env, v, t)
                        old = s.load(st, p, t); o = ins.x
                        nv = v if o == "xchg" else s.binop({"add": "add", "sub": "sub", "and": "and", "or": "or", "xor": "xor"}[o], old, v, t, None, st)
                        s.store(st, p, nv, t); env[ins.res] = old
                    elif op == "cmpxchg":
                        p, (t, c), (_, nv) = ins.a; p = s.val(env, p, PTR)
                        old = s.load(st, p, t); c = s.val(env, c, t); nv = s.val(env, nv, t)
                        eq = s.icmp("eq", old, c, t, st)
                        if isinstance(eq, int): s.store(st, p, nv if eq else old, t)
                        else:
                            w = s.ite_t(eq, nv, old, t)
                            if w is None: raise NeedFork(eq)
                            s.store(st, p, w, t)
                        env[ins.res] = [old, eq]
                    elif op == "fence": pass
                    elif op == "fneg":
                        v = s.val(env, ins.a, ins.ty); w = 64 if ins.ty.k == "double" else 79 if ins.ty.k == "x86_fp80" else 32
                        env[ins.res] = v ^ (1 << (w - 1)) if isinstance(v, int) else simp(v ^ z3.BitVecVal(1 << (w - 1), w))
                    elif op == "asm":
                        s.assumed.add("inline assembly ignored: " + ins.line[:80])
                        if ins.res is not None: env[ins.res] = s.fresh("asm", ins.ty.n if ins.ty.k == "int" else 64)
                    else: raise ToolLimit("instruction: " + ins.line)
                except PathEnd:
                    return at, done
                except NeedFork as nf:
                    # re-execute this instruction on both sides of the condition
                    for c in (nf.cond, z3.Not(nf.cond)):
                        if s.sol.feasible(st.pc, c):
                            s2 = st.fork(); s2.pc.append(z3.simplify(c))
                            a2, d2 = s.run(f, s2, dict(env), blk, prev, stop, idx)
                            at += a2; done += d2
                    return at, done
                idx += 1
            if nxt is None: raise ToolLimit("fell off block")
            s.leave_loops(f, env, blk, nxt)
            if nxt == stop:
                at.append((st, env, blk)); return at, done
            tl = env.get("#trial")
            if tl is not None and nxt not in tl: return at, done
            prev, blk, idx = blk, nxt, 0

    def phis(s, f, env, blk, prev):
        vals = {}
        for ins in f.blocks[blk]:
            if ins.op != "phi": break
            for v, b in ins.a:
                if b == prev: vals[ins.res] = s.val(env, v, ins.ty); break
            else: raise ToolLimit("phi")
        return vals
    def leave_loops(s, f, env, blk, nxt):
        for k in [k for k in env if k.startswith("#cut:")]:
            L = env[k][3]
            if nxt not in L and blk in L: del env[k]
        h = nxt
        if h in cfg(f)[1]:
            k = "#it:" + h
            if blk in cfg(f)[1][h]:
                env[k] = env.get(k, 0) + 1
                if not any(env[c][3] >= {h} for c in env if c.startswith("#cut:")):
                    lim = s.max_unroll if env.get("#symloop:" + h) else 70000
                    if env[k] > lim: raise ToolLimit("loop without invariant in %s (more than %d iterations)" % (demangle(f.name)[:100], lim))
            else: env[k] = 0; env.pop("#symloop:" + h, None)

    def goto(s, f, st, env, blk, prev, stop):
        s.leave_loops(f, env, prev, blk)
        if blk == stop: return [(st, env, prev)], []
        tl = env.get("#trial")
        if tl is not None and blk not in tl: return [], []
        return s.run(f, st, env, blk, prev, stop, 0)

    def branch(s, f, st, env, blk, alts, stop, ipd):
        feas = []
        for c, l in alts:
            c = z3.simplify(c)
            if z3.is_false(c): continue
            if z3.is_true(c) or s.sol.feasible(st.pc, c): feas.append((c, l))
        if not feas: return [], [], None
        if len(feas) == 1:
            c, l = feas[0]
            if not z3.is_true(c): st.pc.append(c)
            return None, None, l
        for h, L in cfg(f)[1].items():
            # a branch inside the body that rejoins before the next iteration does not make the trip count symbolic
            if blk in L and (ipd.get(blk) not in L or any(l not in L for _, l in feas)): env["#symloop:" + h] = 1
        m = ipd.get(blk)
        at = []; done = []
        npc = len(st.pc)
        if m is None or m == stop or not s.merge:
            for i, (c, l) in enumerate(feas):
                s2 = st.fork(); s2.pc.append(c)
                a2, d2 = s.goto(f, s2, dict(env), l, blk, stop)
                at += a2; done += d2
            return at, done, None
        mid = []
        for c, l in feas:
            s2 = st.fork(); s2.pc.append(c)
            a2, d2 = s.goto(f, s2, dict(env), l, blk, m)
            mid += a2; done += d2
        mid = s.merge_states(mid, npc, f, m)
        for (s3, e3, pv) in mid:
            if m == stop: at.append((s3, e3, pv)); continue
            tl = e3.get("#trial")
            if tl is not None and m not in tl: continue
            a2, d2 = s.run(f, s3, e3, m, pv, stop, 0)
            at += a2; done += d2
        return at, done, None

    # ---------------- merging
    def ite(s, st, c, a, b, sa, sb):
        if a is b: return a
        if isinstance(a, int) and isinstance(b, int):
            if a == b: return a
            return None
        if isinstance(a, PtrE) and isinstance(b, PtrE) and a.r == b.r and a.c == b.c:
            if isinstance(a.idx, int) and isinstance(b.idx, int) and a.idx == b.idx: return a
            return PtrE(a.r, simp(z3.If(c, bv(a.idx, 64), bv(b.idx, 64))), a.c)
        if is_sym(a) and is_sym(b):
            if a.eq(b): return a
            if a.sort() == b.sort(): return simp(z3.If(c, a, b))
            return None
        if is_sym(a) and isinstance(b, int):
            if isinstance(a, z3.BoolRef): return simp(z3.If(c, a, b1(b)))
            return simp(z3.If(c, a, z3.BitVecVal(b, a.size())))
        if is_sym(b) and isinstance(a, int):
            if isinstance(b, z3.BoolRef): return simp(z3.If(c, b1(a), b))
            return simp(z3.If(c, z3.BitVecVal(a, b.size()), b))
        return None
    def ite_n(s, c, a, b, sz):
        """merge two cell values of sz bytes (None: not mergeable)"""
        if isinstance(a, int) and isinstance(b, int):
            if a == b: return a
            if sz == 8 and (0x1000 <= a < (1 << 47) and s.known_addr(a) or 0x1000 <= b < (1 << 47) and s.known_addr(b)): return None
            return simp(z3.If(c, z3.BitVecVal(a, 8 * sz), z3.BitVecVal(b, 8 * sz)))
        if isinstance(a, z3.BoolRef) and isinstance(b, z3.BitVecRef): a = bv(a, b.size())
        if isinstance(b, z3.BoolRef) and isinstance(a, z3.BitVecRef): b = bv(b, a.size())
        if sz == 8 and isinstance(a, int) and a and s.known_addr(a): return None
        if sz == 8 and isinstance(b, int) and b and s.known_addr(b): return None
        return s.ite(None, c, a, b, None, None)
    def known_addr(s, a):
        return s.block_at(a) is not None or a in s.addrfn
    def try_merge(s, A, B, npc):
        """merge two states that share the first npc path conditions; returns merged state or None"""
        ca = A.pc[npc:]; cb = B.pc[npc:]
        if A.freed != B.freed or A.esc != B.esc or A.heapgen != B.heapgen: return None
        if set(A.ghost) != set(B.ghost): return None
        for k in A.extra:
            if A.extra.get(k) is not B.extra.get(k): return None
        if len(A.extra) != len(B.extra): return None
        pa = z3.And(*ca) if len(ca) != 1 else ca[0]
        pb = z3.And(*cb) if len(cb) != 1 else cb[0]
        if not ca or not cb: return None
        if has_quant(pa) or has_quant(pb): 
            # keep quantified facts as implications
            pass
        # condition distinguishing A from B: the quantifier-free part of A's suffix
        qa = [x for x in ca if not has_quant(x)]
        c = qa[0] if len(qa) == 1 else (z3.And(*qa) if qa else None)
        if c is None: return None
        newmem = {}
        for bid in set(A.mem) | set(B.mem):
            ma, mb = A.mem.get(bid), B.mem.get(bid)
            if ma is mb: continue
            if ma is None or mb is None:
                b = s.blocks[bid]
                if b.kind == "stack" : # dead frame memory
                    continue
                if b.ginit is not None or b.lazy:
                    if ma is None: T = State(); s.materialize(T, b); ma = T.mem[bid]
                    else: T = State(); s.materialize(T, b); mb = T.mem[bid]
                else:
                    newmem[bid] = dict(ma if ma is not None else mb); continue
            out = {}
            for off in set(ma) | set(mb):
                x, y = ma.get(off), mb.get(off)
                if x is None or y is None:
                    # not yet initialised on one side
                    bk = s.blocks[bid]
                    sz, v = x or y
                    other = mb if x is None else ma
                    if any(o < off + sz and off < o + c2[0] for o, c2 in other.items()): return None
                    w = s.initval(None, bk, off, sz) if bk.ginit is None else 0
                    r = s.ite_n(c, *( (v, w) if x is not None else (w, v)), sz)
                    if r is None:
                        if bk.kind == "stack" and bk.lazy is None: continue   # uninitialised local: dead on one side
                        return None
                    out[off] = (sz, r); continue
                if x is y or (x[0] == y[0] and x[1] is y[1]): out[off] = x; continue
                if x[0] != y[0]: return None
                r = s.ite_n(c, x[1], y[1], x[0])
                if r is None:
                    return None
                out[off] = (x[0], r)
            newmem[bid] = out
        newregs = {}
        for rid in set(A.regs) | set(B.regs):
            ra, rb = A.regs.get(rid), B.regs.get(rid)
            if ra is rb: continue
            if ra is None or rb is None: newregs[rid] = ra or rb; continue
            if ra.freed != rb.freed or ra.esz != rb.esz or ra.gen != rb.gen: return None
            r = ra.copy()
            if ra.cap is not rb.cap:
                q = s.ite_n(c, ra.cap, rb.cap, 8)
                if q is None: return None
                r.cap = q
            for k in set(ra.arrs) | set(rb.arrs):
                x, y = ra.arrs.get(k), rb.arrs.get(k)
                if x is None or y is None:
                    z = z3.Array("%s%s_%d_%d" % (r.name, r.gen, k[0], k[1]), z3.BitVecSort(64), z3.BitVecSort(8 * k[1]))
                    x = z if x is None else x; y = z if y is None else y
                r.arrs[k] = x if x.eq(y) else z3.If(c, x, y)
            newregs[rid] = r
        M = A.fork()
        for bid in list(newmem):
            M.mem[bid] = newmem[bid]
        for bid in list(M.mem):
            if bid not in B.mem and s.blocks[bid].kind == "stack": del M.mem[bid]
        for rid, r in newregs.items(): M.regs[rid] = r
        for k in set(A.heap) | set(B.heap):
            x, y = A.heap.get(k), B.heap.get(k)
            if x is None: x = s.heaparr(A, *k)
            if y is None: y = s.heaparr(B, *k)
            M.heap[k] = x if x.eq(y) else z3.If(c, x, y)
        for k in A.ghost:
            x, y = A.ghost[k], B.ghost[k]
            if x is y: continue
            if is_sym(x) and is_sym(y):
                M.ghost[k] = x if x.eq(y) else z3.If(c, x, y)
            else:
                r = s.ite_n(c, x, y, 8)
                if r is None: return None
                M.ghost[k] = r
        com = []; 
        i = 0
        M.pc = A.pc[:npc]
        qa = [x for x in ca if has_quant(x)]; qb = [x for x in cb if has_quant(x)]
        na = [x for x in ca if not has_quant(x)]; nb = [x for x in cb if not has_quant(x)]
        ea = z3.And(*na) if len(na) > 1 else na[0] if na else z3.BoolVal(True)
        eb = z3.And(*nb) if len(nb) > 1 else nb[0] if nb else z3.BoolVal(True)
        d = z3.simplify(z3.Or(ea, eb))
        if not z3.is_true(d): M.pc.append(d)
        for q in qa: M.pc.append(z3.Implies(ea, q))
        for q in qb: M.pc.append(z3.Implies(z3.Not(ea), q))
        if A.wlog is not None: M.wlog = {**A.wlog, **(B.wlog or {})}
        M.notes = A.notes if A.notes == B.notes else tuple(set(A.notes) | set(B.notes))
        return M, c
    def merge_states(s, lst, npc, f, m):
        if len(lst) < 2: return lst
        phis = [i for i in f.blocks[m] if i.op == "phi"]
        lst = [(st, env, pv, s.phis(f, env, m, pv)) for st, env, pv in lst]
        out = [lst[0]]
        for (B, eb, pb, fb) in lst[1:]:
            for i, (A, ea, pa, fa) in enumerate(out):
                if any(k in ea and k in eb and ea[k] != eb[k] for k in ea if k.startswith(("#cut:", "#symloop", "#trial"))): continue
                r = s.try_merge(A, B, npc)
                if r is None: continue
                M, c = r
                fm = {}
                for ph in phis:
                    v = s.ite_t(c, fa[ph.res], fb[ph.res], ph.ty)
                    if v is None: break
                    fm[ph.res] = v
                else:
                    env = {}
                    for k in ea:
                        if k not in eb: continue
                        x, y = ea[k], eb[k]
                        if k[0] == "#":
                            env[k] = max(x, y) if k.startswith("#it:") else x
                        elif x is y or (isinstance(x, int) and isinstance(y, int) and x == y): env[k] = x
                    out[i] = (M, env, pa, fm)
                    break
            else: out.append((B, eb, pb, fb))
        res = []
        for (st, env, pv, fm) in out:
            if phis: env["#phis"] = fm
            res.append((st, env, pv))
        return res
    def ite_t(s, c, a, b, ty):
        """typed ite; None when not mergeable"""
        if a is b: return a
        if isinstance(a, list) or isinstance(b, list):
            if isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and ty.k == "struct":
                r = [s.ite_t(c, x, y, t) for x, y, t in zip(a, b, ty.sub)]
                return None if any(x is None for x in r) else r
            return None
        if isinstance(a, int) and isinstance(b, int):
            if a == b: return a
            if ty.k == "int":
                if ty.n == 1: return simp(c if a & 1 else z3.Not(c))
                if ty.n == 64 and (s.known_addr(a) or s.known_addr(b)): return None
                return simp(z3.If(c, z3.BitVecVal(a, ty.n), z3.BitVecVal(b, ty.n)))
            if ty.k in ("double", "float", "x86_fp80"):
                n = 64 if ty.k == "double" else 79 if ty.k == "x86_fp80" else 32
                return simp(z3.If(c, z3.BitVecVal(a, n), z3.BitVecVal(b, n)))
            return None
        if ty.k == "ptr":
            if isinstance(a, int) and a and s.known_addr(a): return None
            if isinstance(b, int) and b and s.known_addr(b): return None
        if isinstance(a, z3.BoolRef) != isinstance(b, z3.BoolRef) and is_sym(a) and is_sym(b):
            n = (b if isinstance(a, z3.BoolRef) else a).size(); a, b = bv(a, n), bv(b, n)
        if isinstance(a, PDiff) or isinstance(b, PDiff):
            if isinstance(a, PDiff) and isinstance(b, PDiff) and a.esz == b.esz:
                return PDiff(simp(z3.If(c, bv(a.d, 64), bv(b.d, 64))), a.esz)
            a = s.pd(a) if isinstance(a, PDiff) else a; b = s.pd(b) if isinstance(b, PDiff) else b
        return s.ite(None, c, a, b, None, None)
    def merge_outcomes(s, outs, retty):
        if len(outs) < 2 or not s.merge: return outs
        rets = [o for o in outs if o.kind == "ret"]; oth = [o for o in outs if o.kind != "ret"]
        if len(rets) < 2: return outs
        res = [rets[0]]
        for B in rets[1:]:
            ok = False
            for i, A in enumerate(res):
                n = 0
                while n < len(A.st.pc) and n < len(B.st.pc) and A.st.pc[n] is B.st.pc[n]: n += 1
                va, vb = A.val, B.val
                r = s.try_merge(A.st, B.st, n)
                if r is None: continue
                M, c = r
                if va is None and vb is None: v = None
                else:
                    v = s.ite_t(c, va, vb, retty)
                    if v is None: continue
                res[i] = Outcome(M, "ret", v); ok = True; break
            if not ok: res.append(B)
        return res + oth

    # ---------------- calls
    def do_call(s, f, st, env, ins, blk, idx, stop, prev):
        cal, args = ins.a
        if cal.__class__ is Local: target = env[cal.name]
        else:
            name = cal.v
            if name.startswith("llvm."):
                return ("one", st, s.models.intrinsic(s, st, name, [s.val(env, v, t) for t, v, _ in args], [t for t, _, _ in args], ins))
            target = None
        av = [s.val(env, v, t) for t, v, _ in args]
        if target is not None:
            if isinstance(target, FnSlot):
                name = s.virt.get(target.off)
                if name is None: raise ToolLimit("virtual call through unmodelled slot %d of symbolic object" % target.off)
            elif isinstance(target, int):
                name = s.addrfn.get(target)
                if name is None: 
                    s.safety_check(st, "bad-function-pointer@" + s.where(), False)
            else:
                raise ToolLimit("symbolic function pointer")
        if name == "vf_cut_begin": return s.cut_begin(f, st, env, av, blk, idx, prev)
        if name == "vf_cut": return s.cut(f, st, env, av, blk, idx, prev)
        outs = s.call(st, name, av, None, ins.ty)
        if len(outs) == 1 and outs[0].kind == "ret": return ("one", outs[0].st, outs[0].val)
        if not outs: return ("dead",)
        return ("many", outs)

    # ---------------- loop invariants (cut points)
    def cstr(s, st, p):
        b = s.block_at(p); o = p - b.addr; out = ""
        if b.id not in st.mem: s.materialize(st, b)
        while True:
            v = s.bload(st, b, o, 1)
            if not isinstance(v, int): raise ToolLimit("symbolic C string")
            if v == 0: return out
            out += chr(v); o += 1
    def cut_begin(s, f, st, env, av, blk, idx, prev):
        name = s.cstr(st, av[0])
        k = "#cut:" + name
        c = env.get(k)
        L = innermost_loop(f, blk)
        if L is None: raise ToolLimit("cut point outside a loop: " + name)
        if c is None: env[k] = ("init", blk, idx, frozenset(L), prev)
        elif c[0] == "body": env[k] = ("check",) + c[1:]
        elif c[0] == "havoc": env[k] = ("assume",) + c[1:]
        return ("one", st, None)
    def cut(s, f, st, env, av, blk, idx, prev):
        name = s.cstr(st, av[0]); inv = av[1]
        k = "#cut:" + name
        c = env.get(k)
        if c is None: raise ToolLimit("cut without begin")
        ph = c[0]
        if ph == "init":
            s.oblige(st, "loop-inv-init:" + name, inv)
            # the facts asserted here hold; go on
            if is_sym(inv): pass
            b0, i0, L, p0 = c[1:]
            W = {}
            eq = None
            for rnd in range(12):
                if eq is None and W: eq = s.same_pointers(st, W)
                t = s.havoc(st.fork(), W, name, eq)
                e2 = dict(env); e2[k] = ("havoc", b0, i0, L, p0); e2["#trial"] = L | frozenset([b0])
                t.wlog = {}
                col = []
                s.trial += 1
                bad = set()
                e2["#collect:" + name] = col; e2["#eq:" + name] = (eq, bad)
                try: s.run(f, t, e2, b0, p0, None, i0)
                finally: s.trial -= 1
                new = {}
                for w in col:
                    for kk, vv in w.items():
                        if kk[0] == "b" and kk[1] not in st.mem: continue
                        if kk[0] == "b" and s.blocks[kk[1]].kind == "stack" and kk[1] not in st.mem: continue
                        if kk[0] == "r" and kk[1] not in st.regs: continue
                        new[kk] = vv if kk not in new or new[kk] == vv else 1
                add = {kk: vv for kk, vv in new.items() if kk not in W or (W[kk] != vv and W[kk] != 1)}
                if bad: eq = {x: y for x, y in eq.items() if x not in bad}
                if not add and not bad: break
                if add: eq = None if not bad else eq
                for kk, vv in add.items(): W[kk] = vv if kk not in W else 1
            else: raise ToolLimit("loop frame did not stabilise: " + name)
            h = s.havoc(st, W, name, eq)
            env[k] = ("havoc", b0, i0, L, p0); env["#eq:" + name] = (eq, None)
            s.cutnames.setdefault(name, 0); s.cutnames[name] += 1
            return ("jump", h, b0, i0, p0)
        if ph == "assume":
            try: s.assume(st, inv)
            except PathEnd: return ("dead",)
            if not s.trial and s.sol.feasible(st.pc): s.covers["loop-body:" + name] = True
            else: s.covers.setdefault("loop-body:" + name, bool(s.trial) and s.covers.get("loop-body:" + name, False))
            env[k] = ("body",) + c[1:]
            return ("one", st, None)
        if ph == "check":
            s.oblige(st, "loop-inv-preserved:" + name, inv)
            eq, bad = env.get("#eq:" + name) or (None, None)
            for x, y in (eq or {}).items():
                p, q = st.cells(x[0]).get(x[1]), st.cells(y[0]).get(y[1])
                if p is None or q is None or not s.same_ptr(p[1], q[1]):
                    if bad is None: raise ToolLimit("inferred equality of loop pointers lost: " + name)
                    bad.add(x)
            col = env.get("#collect:" + name)
            if col is not None: col.append(dict(st.wlog or {}))
            return ("dead",)
        if ph == "body":
            raise ToolLimit("cut phase")
        raise ToolLimit("cut phase " + ph)
    def same_ptr(s, a, b):
        if not (isinstance(a, PtrE) and isinstance(b, PtrE) and a.r == b.r and a.c == b.c): return False
        d = simp(bv(a.idx, 64) - bv(b.idx, 64))
        return isinstance(d, int) and d == 0
    def same_pointers(s, st, W):
        """local pointers the loop moves that are equal when it is entered: inferred to stay equal, checked at the back edge"""
        eq = {}; reps = []
        for kk, how in W.items():
            if kk[0] != "b" or not (isinstance(how, tuple) and how[0] == "E") or s.blocks[kk[1]].kind != "stack" or kk[1] not in st.mem: continue
            c = st.cells(kk[1]).get(kk[2])
            if c is None or not isinstance(c[1], PtrE): continue
            for r, v in reps:
                if s.same_ptr(v, c[1]): eq[(kk[1], kk[2])] = r; break
            else: reps.append(((kk[1], kk[2]), c[1]))
        return eq
    def havoc(s, st, W, name, eq=None):
        eq = eq or {}; reps = {}
        # growing a vector sets its end-of-storage pointer to the region's capacity: both get the same arbitrary value
        oldcap = {}
        for kk in W:
            if kk[0] == "cap":
                r = st.regs[kk[1]].copy(); oldcap[kk[1]] = r.cap; r.cap = s.fresh("hvcap_" + r.name, 64); st.regs[kk[1]] = r
                st.pc.append(z3.ULT(r.cap, z3.BitVecVal(1 << 33, 64)))
                if st.wlog is not None: st.wlog[kk] = 1
        for kk, how in W.items():
            if kk[0] == "b":
                _, bid, off, sz = kk
                b = s.blocks[bid]
                if bid in st.freed: continue
                if bid not in st.mem: s.materialize(st, b)
                cells = st.cells(bid)
                cur = cells.get(off)
                if isinstance(how, tuple) and how[0] == "E" and how[1] in st.regs and (cur is None or (isinstance(cur[1], PtrE) and cur[1].r == how[1] and cur[1].c == how[2])):
                    oc = oldcap.get(how[1])
                    if cur is not None and oc is not None and how[2] == 0 and not isinstance(oc, int) and not isinstance(cur[1].idx, int) and oc.eq(cur[1].idx): v = PtrE(how[1], st.regs[how[1]].cap, 0)
                    else:
                        rep = eq.get((bid, off), (bid, off))
                        if rep not in reps: reps[rep] = s.fresh("hv_%s_%s" % (name, b.name), 64)
                        v = PtrE(how[1], reps[rep], how[2])
                else: v = s.fresh("hv_%s_%s%s" % (name, b.name, "+%d" % off if off else ""), 8 * sz)
                wl = st.wlog
                s.bstore(st, b, off, sz, v)
                if wl is not None: wl[kk] = how
            elif kk[0] == "r":
                _, rid, c, sz = kk
                s.rarr(st, rid, c, sz)
                r = st.regs[rid].copy()
                n = s.fresh_n.get("hvr", 0); s.fresh_n["hvr"] = n + 1
                r.arrs[(c, sz)] = z3.Array("hv_%s_%s_%d_%d!%d" % (name, r.name, c, sz, n), z3.BitVecSort(64), z3.BitVecSort(8 * sz))
                st.regs[rid] = r
                if st.wlog is not None: st.wlog[kk] = 1
            elif kk[0] == "h":
                _, c, sz = kk
                s.heaparr(st, c, sz)
                n = s.fresh_n.get("hvh", 0); s.fresh_n["hvh"] = n + 1
                st.heap[(c, sz)] = z3.Array("hv_%s_H_%d_%d!%d" % (name, c, sz, n), z3.BitVecSort(64), z3.BitVecSort(8 * sz))
                if st.wlog is not None: st.wlog[kk] = 1
            elif kk[0] == "g":
                g = st.ghost[kk[1]]
                n = s.fresh_n.get("hvg", 0); s.fresh_n["hvg"] = n + 1
                if is_sym(g): st.ghost[kk[1]] = z3.Const("hv_%s_G_%s!%d" % (name, kk[1], n), g.sort())
                else: st.ghost[kk[1]] = s.fresh("hv_%s_G_%s" % (name, kk[1]), 64)
                if st.wlog is not None: st.wlog[kk] = 1
        return st

    # ---------------- exceptions
    def typeid(s, ti): return (ti >> 4) & 0x7fffffff if ti else 1
    def exc_match(s, thrown, ti):
        seen = set(); wl = [thrown]
        while wl:
            t = wl.pop()
            if t == ti: return True
            if t in seen: continue
            seen.add(t)
            nm = s.gname(t); tn = s.gname(ti)
            if tn in s.models.STDEXC.get(nm, ()): return True
            for b in s.models.typeinfo_bases(s, nm): wl.append(b)
        return False
    def gname(s, addr):
        b = s.block_at(addr)
        return b.name[1:] if b is not None and b.name.startswith("@") else str(addr)

    # ---------------- bulk memory
    def memcpy(s, st, d, src, n, ety=None):
        if is_sym(d): d = s.norm(st, d)
        if is_sym(src): src = s.norm(st, src)
        if n == 0 and isinstance(n, int): return
        if isinstance(d, int) and isinstance(src, int) and isinstance(n, int):
            bs = s.block_at(src); bd = s.block_at(d)
            if bs is None or bd is None: s.safety_check(st, "bad-pointer-memcpy@" + s.where(), False)
            if bs.id not in st.mem: s.materialize(st, bs)
            if bd.id not in st.mem: s.materialize(st, bd)
            so, do = src - bs.addr, d - bd.addr
            if so + n > bs.size: s.safety_check(st, "out-of-bounds-read(%s)@%s" % (bs.name, s.where()), False)
            if do + n > bd.size: s.safety_check(st, "out-of-bounds-write(%s)@%s" % (bd.name, s.where()), False)
            if bs.id in st.freed or bd.id in st.freed: s.safety_check(st, "use-after-free@" + s.where(), False)
            cells = st.mem[bs.id]
            todo = []
            for o, (cs, v) in sorted(cells.items()):
                if o >= so and o + cs <= so + n: todo.append((o - so, cs, v))
                elif o < so + n and so < o + cs:
                    lo = max(o, so); hi = min(o + cs, so + n)
                    todo.append((lo - so, hi - lo, s.bload(st, bs, lo, hi - lo)))
            covered = []
            pos = 0
            for o, cs, v in todo:
                if o > pos: covered.append((pos, o - pos))
                pos = max(pos, o + cs)
            if pos < n: covered.append((pos, n - pos))
            # uninitialised / lazily initialised source parts
            for o, ln in covered:
                q = o
                while q < o + ln:
                    w = 8 if (so + q) % 8 == 0 and q + 8 <= o + ln else 4 if (so + q) % 4 == 0 and q + 4 <= o + ln else 1
                    if bs.ginit is None and bs.lazy is None:
                        pass
                    else: todo.append((q, w, s.bload(st, bs, so + q, w)))
                    q += w
            for o, ln in covered:
                if bs.ginit is None and bs.lazy is None:
                    # destination bytes become unspecified: drop old cells
                    if ln >= 1:
                        q = o
                        while q < o + ln:
                            w = 8 if (do + q) % 8 == 0 and q + 8 <= o + ln else 4 if (do + q) % 4 == 0 and q + 4 <= o + ln else 1
                            todo.append((q, w, s.fresh("uninit", 8 * w))); q += w
            for o, cs, v in todo: s.bstore(st, bd, do + o, cs, v)
            return
        if isinstance(n, int) and n <= 64 or (isinstance(n, int) and ety is not None):
            # typed leaves when known, otherwise guess from the region / heap layout
            leaves = s.leaves_for(st, d, src, n, ety)
            vals = [(o, w, s.loadn(st, s.padd(st, src, o), w)) for o, w in leaves]
            for o, w, v in vals: s.storen(st, s.padd(st, d, o), v, w)
            return
        return s.models.memcpy_sym(s, st, d, src, n)
    def leaves_for(s, st, d, src, n, ety):
        if ety is not None: return leaves(ety)
        for p in (src, d):
            if isinstance(p, PtrE):
                r = st.regs[p.r]
                if r.ety is not None and ir.size(r.ety) == n and p.c == 0: return leaves(r.ety)
                if r.esz == 1: 
                    q = src if p is d else d
                    if isinstance(q, int):
                        b = s.block_at(q); o0 = q - b.addr
                        if b.id not in st.mem: s.materialize(st, b)
                        ls = [(o - o0, c[0]) for o, c in sorted(st.mem[b.id].items()) if o >= o0 and o + c[0] <= o0 + n]
                        tot = sum(w for _, w in ls)
                        if tot == n: return ls
                    return [(0, n)] if n in (1, 2, 4, 8) else [(i, 1) for i in range(n)]
                ks = [(c - p.c, z) for (c, z) in r.arrs if c >= p.c and c + z <= p.c + n]
                if ks and sum(z for _, z in ks) == n: return sorted(ks)
        for p in (src, d):
            if isinstance(p, int):
                b = s.block_at(p); o0 = p - b.addr
                if b.id not in st.mem: s.materialize(st, b)
                ls = [(o - o0, c[0]) for o, c in sorted(st.mem[b.id].items()) if o >= o0 and o + c[0] <= o0 + n]
                if ls and sum(w for _, w in ls) == n: return ls
            elif isinstance(p, PtrO):
                pass
        if n in (1, 2, 4, 8): return [(0, n)]
        for p in (src, d):
            if is_sym(p):
                base, c = split_add(p)
                ls = sorted((k - c, z) for (k, z) in st.heap if k >= c and k + z <= c + n)
                if ls and sum(z for _, z in ls) == n: return ls
        return [(i, 8) for i in range(0, n - n % 8, 8)] + ([(n - n % 8, n % 8)] if n % 8 in (1, 2, 4) else [(i, 1) for i in range(n - n % 8, n)])
    def memset(s, st, d, v, n):
        if is_sym(d): d = s.norm(st, d)
        if isinstance(d, int) and isinstance(n, int):
            b = s.block_at(d); o = d - b.addr
            if o + n > b.size: s.safety_check(st, "out-of-bounds-write(%s)@%s" % (b.name, s.where()), False)
            if b.id not in st.mem: s.materialize(st, b)
            q = 0
            while q < n:
                w = 8 if (o + q) % 8 == 0 and q + 8 <= n else 4 if (o + q) % 4 == 0 and q + 4 <= n else 1
                if isinstance(v, int): x = int.from_bytes(bytes([v & 255]) * w, "little")
                else: x = z3.Concat(*[v] * w) if w > 1 else v
                s.bstore(st, b, o + q, w, x); q += w
            return
        return s.models.memset_sym(s, st, d, v, n)

def leaves(t, o=0):
    if t.k == "struct":
        out = []
        for x, y in zip(ir.offsets(t), t.sub): out += leaves(y, o + x)
        return out
    if t.k == "arr":
        out = []
        for i in range(t.n): out += leaves(t.sub, o + i * ir.size(t.sub))
        return out
    return [(o, ir.size(t))]

class NeedFork(Exception):
    def __init__(s, c): s.cond = c

def tofloat(bits, n): return struct.unpack("<d", struct.pack("<Q", bits))[0] if n == 64 else struct.unpack("<f", struct.pack("<I", bits))[0]
def frombits(x, n):
    if n == 64: return struct.unpack("<Q", struct.pack("<d", x))[0]
    try: return struct.unpack("<I", struct.pack("<f", x))[0]
    except OverflowError: return 0x7f800000 if x > 0 else 0xff800000
def fpconc(op, a, b, n):
    x, y = tofloat(a, n), tofloat(b, n)
    try:
        if op == "fadd": r = x + y
        elif op == "fsub": r = x - y
        elif op == "fmul": r = x * y
        elif op == "fdiv":
            if y == 0: return None
            r = x / y
        else: return None
    except OverflowError: return None
    return frombits(r, n)
def fpcast(op, v, a, b):
    dn = {"double": 64, "float": 32}.get(b.k); sn = {"double": 64, "float": 32}.get(a.k)
    if op == "uitofp": 
        if dn == 32 and v >= 1 << 24: 
            import numpy as np
            return int(np.array([np.float32(np.uint64(v))], dtype=np.float32).view(np.uint32)[0])
        return frombits(float(v), dn)
    if op == "sitofp": return frombits(float(tos(v, a.n)), dn)
    if op in ("fpext", "fptrunc") and dn and sn: return frombits(tofloat(v, sn), dn)
    if op in ("fptoui", "fptosi") and sn:
        x = tofloat(v, sn)
        if x != x or abs(x) > 2**64: return None
        return int(x) & ((1 << b.n) - 1)
    return None
