"""Models of the environment: verification primitives, C/C++ runtime, assumed contracts on libstdc++."""
import re, z3, time
import irparse as ir
from irparse import demangle, INT, PTR

STDEXC = {}
def _chain(*names):
    for i, n in enumerate(names): STDEXC.setdefault("_ZTI" + n, set()).update("_ZTI" + m for m in names[i + 1:])
E = "St9exception"
_chain("St12out_of_range", "St11logic_error", E); _chain("St16invalid_argument", "St11logic_error", E); _chain("St12length_error", "St11logic_error", E)
_chain("St12domain_error", "St11logic_error", E); _chain("St11range_error", "St13runtime_error", E); _chain("St14overflow_error", "St13runtime_error", E)
_chain("St11logic_error", E); _chain("St13runtime_error", E); _chain("St9bad_alloc", E); _chain("St8bad_cast", E)

def typeinfo_bases(ex, name):
    g = ex.m.globals.get(name)
    if g is None: return []
    t, init = ex.m.ginit(g)
    out = []
    if init is not None and init.k == "agg":
        for tt, v in init.v[2:]:
            if v.k == "gref" and v.v.startswith("_ZTI"): out.append(ex.gaddr(v.v))
    return out

TABLE = {}
PATTERNS = []
IGNORE = []

def model(*names):
    def d(fn):
        for n in names: TABLE[n] = fn
        return fn
    return d
def pattern(rx):
    def d(fn): PATTERNS.append((re.compile(rx), fn)); return fn
    return d

def one(st, v=None):
    from core import Outcome
    return [Outcome(st, "ret", v)]

_cache = {}
PREFER_REAL = {"_ZN3SST4Core11MemPoolItemnwEm", "_ZN3SST4Core11MemPoolItemdlEPv", "_ZNK3SST6Output5fatalEjPKcS2_iS2_z"}
def lookup(ex, name):
    h = TABLE.get(name)
    if h is not None and name in PREFER_REAL:
        f = ex.m.funcs.get(name)
        if f is not None and not f.decl: h = None
        else: return h
    if h is not None: return h
    if name in _cache: h = _cache[name]
    else:
        h = None
        if name.startswith("_Z"):
            d = demangle(name)
            for rx, fn in PATTERNS:
                m = rx.match(d)
                if m: h = (fn, m, d); break
        _cache[name] = h
    if h is None: return None
    fn, m, d = h
    return lambda ex, st, args: fn(ex, st, args, name, m)

IGNORED_EXT = re.compile(r"^(SST::Output::outputprintf|std::ostream::|std::basic_ostream|std::basic_ios|std::ios_base|std::basic_iostream|std::__cxx11::basic_ostringstream|std::__cxx11::basic_stringstream|std::basic_istream"
    r"|std::basic_ostream<char, std::char_traits<char> >& std::(operator<<|endl|flush|__ostream_insert)|std::__ostream_insert|SST::Output::(output|verbose|debug|init)|fprintf|printf|puts|putchar|fflush|vprintf|vfprintf|perror"
    r"|std::locale|std::__basic_file|std::ctype|std::__throw_bad_cast|__cxa_atexit|std::ios_base::Init)")

def external(ex, st, name, args, retty):
    from core import ToolLimit
    d = demangle(name)
    if IGNORED_EXT.match(d):
        ex.assumed.add("external function without effect on verified state: " + re.sub(r"\(.*", "", d))
        if retty is None or retty.k == "void": return one(st)
        if retty.k == "ptr": return one(st, args[0] if args else 0)
        if retty.k == "int": return one(st, ex.fresh("ext", retty.n))
        return one(st, ex.const(ir.Const("undef", None, retty), retty))
    raise ToolLimit("external function " + d)

def install(ex): pass

# ------------------------------------------------------------------ verification primitives
@model("vf_nondet")
def _(ex, st, a):
    from core import bv
    name = ex.cstr(st, a[0]); bits = a[1]
    k = ex.fresh_n.get("nd:" + name, 0)
    # one symbol per occurrence along a path
    oc = dict(st.extra.get("nd", {})); i = oc.get(name, 0); oc[name] = i + 1; st.extra = dict(st.extra); st.extra["nd"] = oc
    v = z3.BitVec("%s#%d" % (name, i), bits)
    ex.nondets.append((name, i, v))
    return one(st, v if bits == 64 else z3.ZeroExt(64 - bits, v))
@model("vf_any_ptr")
def _(ex, st, a):
    name = ex.cstr(st, a[0])
    oc = dict(st.extra.get("nd", {})); i = oc.get("*" + name, 0); oc["*" + name] = i + 1; st.extra = dict(st.extra); st.extra["nd"] = oc
    v = z3.BitVec("%s@%d" % (name, i), 64)
    ex.anyobjs.append((name, i, v))
    st.pc.append(z3.And(z3.UGE(v, z3.BitVecVal(1 << 52, 64)), z3.ULT(v, z3.BitVecVal(1 << 62, 64)), v & 63 == 0))
    return one(st, v)
@model("vf_valid_ptr")
def _(ex, st, a):
    v = ex.norm(st, a[0])
    from core import is_sym, bv
    if not is_sym(v): return one(st, int(v != 0) if isinstance(v, int) else 1)
    return one(st, z3.And(z3.UGE(v, z3.BitVecVal(1 << 52, 64)), z3.ULT(v, z3.BitVecVal(1 << 62, 64)), v & 63 == 0))
@model("vf_any_object")
def _(ex, st, a):
    # any_object(void* p, size, name): fill memory with arbitrary (lazily named) values
    p, n = a[0], a[1]; name = ex.cstr(st, a[2])
    b = ex.block_at(p)
    nb = ex.alloc(st, n, name, "sym", lazy=name)
    return one(st, nb.addr)
@model("vf_assume")
def _(ex, st, a):
    from core import PathEnd, b1
    try: ex.assume(st, a[0] if isinstance(a[0], int) else b1(a[0]))
    except PathEnd: return []
    if not ex.sol.feasible(st.pc): return []
    return one(st)
@model("vf_check")
def _(ex, st, a):
    from core import b1
    ex.oblige(st, ex.cstr(st, a[0]), a[1] if isinstance(a[1], int) else b1(a[1]))
    return one(st)
@model("vf_lemma")
def _(ex, st, a):
    """prove, then use"""
    from core import b1, PathEnd
    ex.oblige(st, ex.cstr(st, a[0]), a[1] if isinstance(a[1], int) else b1(a[1]))
    try: ex.assume(st, a[1] if isinstance(a[1], int) else b1(a[1]))
    except PathEnd: return []
    return one(st)
@model("vf_cover")
def _(ex, st, a):
    n = ex.cstr(st, a[0])
    if not ex.trial:
        ex.covers[n] = ex.covers.get(n, False) or ex.sol.feasible(st.pc)
        ex.coverpcs = getattr(ex, "coverpcs", {}); ex.coverpcs.setdefault(n, []).append(list(st.pc))
    return one(st)
@model("vf_symbolic")
def _(ex, st, a): return one(st, 1)
@model("vf_merge")
def _(ex, st, a): ex.merge = bool(a[0]); return one(st)
@model("vf_fp_exact")
def _(ex, st, a): ex.fp_exact = bool(a[0]); return one(st)
@model("vf_unroll")
def _(ex, st, a): ex.max_unroll = a[0]; return one(st)
@model("vf_no_safety")
def _(ex, st, a): ex.safety = False; return one(st)
@model("vf_use_contract")
def _(ex, st, a):
    ex.contracts[ex.addrfn[a[0]]] = ex.addrfn[a[1]]; ex.fns_contract.add(ex.addrfn[a[0]])
    return one(st)
@model("vf_end_contract")
def _(ex, st, a):
    ex.contracts.pop(ex.addrfn[a[0]], None); return one(st)
@model("vf_model_virtual")
def _(ex, st, a):
    # (offset of the vtable pointer inside the object, byte offset of the slot, stub)
    ex.virt[a[1]] = ex.addrfn[a[2]]
    ex.vt_slots.setdefault("offs", set()).add(a[0])
    return one(st)
@model("vf_forall", "vf_exists")
def _(ex, st, a): raise AssertionError
def quant(ex, st, a, fa):
    from core import simp, b1, bv, is_sym, ToolLimit
    lo, hi, fn, ctx = a
    lo, hi = [ex.pd(x) if type(x).__name__ == 'PDiff' else x for x in (lo, hi)]
    name = ex.addrfn[fn]
    if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 16:
        r = None
        for k in range(lo, hi):
            v = ev(ex, st, name, [ctx, k])
            r = v if r is None else (z3.And(r, v) if fa else z3.Or(r, v))
        if r is None: return one(st, 1 if fa else 0)
        return one(st, simp(r))
    k = ex.fresh("k", 64)
    rng = z3.And(z3.ULE(bv(lo, 64), k), z3.ULT(k, bv(hi, 64)))
    v = ev(ex, st, name, [ctx, k], rng)
    if v is None: return one(st, 1 if fa else 0)
    if fa: return one(st, z3.ForAll([k], z3.Implies(rng, v)))
    return one(st, z3.Exists([k], z3.And(rng, v)))
def ev(ex, st, name, args, rng=None):
    """pure evaluation of a boolean function in a copy of the state"""
    from core import b1, ToolLimit
    s2 = st.fork()
    n = len(s2.pc)
    if rng is not None: s2.pc.append(rng)
    n2 = len(s2.pc)
    ex.trial += 1
    sv = ex.safety
    try: outs = ex.call(s2, name, args)
    finally: ex.trial -= 1
    r = None
    for o in outs:
        if o.kind != "ret": raise ToolLimit("exception in specification")
        pcs = o.st.pc[n2:]
        # keep lazily created symbols
        for k2, v2 in o.st.heap.items():
            if k2 not in st.heap: st.heap[k2] = ex.heaparr(st, *k2)
        for rid, rr in o.st.regs.items():
            if rid in st.regs:
                for k2 in rr.arrs:
                    if k2 not in st.regs[rid].arrs:
                        if st.regs[rid].esz is None and rr.esz is not None: ex.set_esz(st, rid, rr.esz, rr.ety)
                        ex.rarr(st, rid, *k2)
        v = b1(o.val)
        c = z3.And(*pcs) if pcs else None
        # paths are exhaustive and exclusive
        if r is None: r = v if len(outs) == 1 else z3.And(c, v) if c is not None else v
        else: r = z3.Or(r, z3.And(c, v) if c is not None else v)
    if r is None:
        if rng is not None and not ex.sol.feasible(st.pc, rng): return None      # empty range
        raise ToolLimit("specification never returns")
    return z3.simplify(r)
TABLE["vf_forall"] = lambda ex, st, a: quant(ex, st, a, True)
TABLE["vf_exists"] = lambda ex, st, a: quant(ex, st, a, False)

@model("vf_any_vector")
def _(ex, st, a):
    # (vector object, name, element size)
    v, name, esz = a[0], ex.cstr(st, a[1]), a[2]
    from core import PtrE
    oc = dict(st.extra.get("nd", {})); i = oc.get("[]" + name, 0); oc["[]" + name] = i + 1; st.extra = dict(st.extra); st.extra["nd"] = oc
    nm = "%s%s" % (name, "" if i == 0 else "~%d" % i)
    n = z3.BitVec(nm + ".len", 64); cap = z3.BitVec(nm + ".cap", 64)
    st.pc.append(z3.And(z3.ULE(n, cap), z3.ULT(cap, z3.BitVecVal(1 << 32, 64))))
    r = ex.new_region(st, nm, esz, cap)
    ex.regspec[r.id] = (name, i, n)
    ex.storen(st, v, PtrE(r.id, 0, 0), 8)
    ex.storen(st, ex.padd(st, v, 8), PtrE(r.id, n, 0), 8)
    ex.storen(st, ex.padd(st, v, 16), PtrE(r.id, cap, 0), 8)
    return one(st)
@model("vf_any_array")
def _(ex, st, a):
    # (name, element size, length) -> pointer to an arbitrary array of that length
    from core import PtrE
    name, esz, n = ex.cstr(st, a[0]), a[1], a[2]
    r = ex.new_region(st, name, esz, n)
    ex.regspec[r.id] = (name, 0, n)
    return one(st, PtrE(r.id, 0, 0))
@model("vf_snapshot")
def _(ex, st, a):
    # pointer into a region -> pointer to a frozen copy of the region
    from core import PtrE, ToolLimit
    p = a[0]
    if not isinstance(p, PtrE): raise ToolLimit("snapshot of non-region")
    r = st.regs[p.r]
    ex.rid += 1
    q = r.copy(); q.id = ex.rid; q.base = (1 << 47) + (q.id << 41); q.name = r.name; q.freed = False
    st.regs[q.id] = q
    return one(st, PtrE(q.id, p.idx, p.c))
@model("vf_ghost_new")
def _(ex, st, a):
    name = ex.cstr(st, a[0])
    st.ghost[name] = z3.K(z3.BitVecSort(64), z3.BitVecVal(a[1], 64)) if isinstance(a[1], int) else z3.K(z3.BitVecSort(64), a[1])
    return one(st)
@model("vf_ghost_any")
def _(ex, st, a):
    name = ex.cstr(st, a[0])
    st.ghost[name] = z3.Array("G_" + name, z3.BitVecSort(64), z3.BitVecSort(64))
    return one(st)
@model("vf_ghost_get")
def _(ex, st, a):
    from core import bv, simp
    name = ex.cstr(st, a[0])
    return one(st, simp(z3.Select(st.ghost[name], bv(ex.numeric(st, a[1]), 64))))
@model("vf_ghost_set")
def _(ex, st, a):
    from core import bv
    name = ex.cstr(st, a[0])
    st.ghost[name] = z3.Store(st.ghost[name], bv(ex.numeric(st, a[1]), 64), bv(ex.numeric(st, a[2]), 64))
    if st.wlog is not None: st.wlog[("g", name)] = 1
    return one(st)
@model("vf_ghost_copy")
def _(ex, st, a):
    st.ghost[ex.cstr(st, a[0])] = st.ghost[ex.cstr(st, a[1])]
    return one(st)
@model("vf_debug", "vf_debugp")
def _(ex, st, a):
    if not ex.trial: print("DEBUG", ex.cstr(st, a[0]), a[1], flush=True)
    return one(st)
@model("vf_havoc")
def _(ex, st, a):
    # (ptr, size)
    ex.storen(st, a[0], ex.fresh("havoc", 8 * a[1]), a[1])
    return one(st)
@model("vf_havoc_field")
def _(ex, st, a):
    # havoc one field of every symbolic object
    off, sz = a
    n = ex.fresh_n.get("hf", 0); ex.fresh_n["hf"] = n + 1
    ex.heaparr(st, off, sz)
    st.heap[(off, sz)] = z3.Array("Hhf%d_%d_%d" % (n, off, sz), z3.BitVecSort(64), z3.BitVecSort(8 * sz))
    if st.wlog is not None: st.wlog[("h", off, sz)] = 1
    return one(st)
@model("vf_stop")
def _(ex, st, a): return []
@model("vf_same")
def _(ex, st, a):
    return one(st, ex.pcmp("eq", a[0], a[1], st))

# ------------------------------------------------------------------ C / C++ runtime
@model("_Znwm", "_Znam", "malloc", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t")
def _(ex, st, a):
    from core import PtrE
    n = a[0]
    if isinstance(n, int): return one(st, ex.alloc(st, n, "new%d" % n, "heap").addr)
    r = ex.new_region(st, "new_%d" % (ex.rid + 1), None, None, n)
    return one(st, PtrE(r.id, 0, 0))
@model("calloc")
def _(ex, st, a):
    from core import ToolLimit
    if not (isinstance(a[0], int) and isinstance(a[1], int)): raise ToolLimit("symbolic calloc")
    b = ex.alloc(st, a[0] * a[1], "calloc", "heap")
    ex.memset(st, b.addr, 0, a[0] * a[1])
    return one(st, b.addr)
@model("_ZdlPv", "_ZdaPv", "free", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t")
def _(ex, st, a):
    from core import PtrE, is_sym, ToolLimit
    p = a[0]
    if is_sym(p): p = ex.norm(st, p)
    if isinstance(p, int):
        if p == 0: return one(st)
        b = ex.block_at(p)
        if b is None or b.addr != p or b.kind not in ("heap", "sym"): ex.safety_check(st, "bad-free@" + ex.where(), False)
        if b.id in st.freed: ex.safety_check(st, "double-free@" + ex.where(), False)
        st.freed = st.freed | {b.id}
        return one(st)
    if isinstance(p, PtrE):
        r = st.regs[p.r]
        if r.freed: ex.safety_check(st, "double-free@" + ex.where(), False)
        r = r.copy(); r.freed = True; st.regs[p.r] = r
        return one(st)
    if is_sym(p):
        # symbolic object: record in the ghost map "freed" if the harness keeps one
        if "freed" in st.ghost:
            base = p
            st.ghost["freed"] = z3.Store(st.ghost["freed"], p, z3.Select(st.ghost["freed"], p) + 1)
            if st.wlog is not None: st.wlog[("g", "freed")] = 1
        return one(st)
    raise ToolLimit("free of %r" % (p,))

@model("memcpy", "memmove", "__memcpy_chk", "__memmove_chk")
def _(ex, st, a): ex.memcpy(st, a[0], a[1], a[2]); return one(st, a[0])
@model("memset")
def _(ex, st, a): ex.memset(st, a[0], a[1] if isinstance(a[1], int) else z3.Extract(7, 0, a[1]), a[2]); return one(st, a[0])
@model("strlen")
def _(ex, st, a):
    from core import ToolLimit
    if not isinstance(a[0], int): raise ToolLimit("strlen of symbolic")
    return one(st, len(ex.cstr(st, a[0])))
@model("memcmp", "bcmp", "strncmp")
def _(ex, st, a):
    from core import ToolLimit, is_sym, bv, simp
    p, q, n = a
    if not isinstance(n, int): raise ToolLimit("memcmp symbolic length")
    x = [ex.loadn(st, ex.padd(st, p, i), 1) for i in range(n)]; y = [ex.loadn(st, ex.padd(st, q, i), 1) for i in range(n)]
    r = 0
    for u, v in reversed(list(zip(x, y))):
        if isinstance(u, int) and isinstance(v, int):
            if u != v: r = (u - v) & 0xffffffff
        else:
            d = z3.ZeroExt(24, bv(u, 8)) - z3.ZeroExt(24, bv(v, 8))
            r = z3.If(bv(u, 8) == bv(v, 8), bv(r, 32), d)
    return one(st, r if isinstance(r, int) else simp(r))
@model("strcmp")
def _(ex, st, a):
    x, y = ex.cstr(st, a[0]), ex.cstr(st, a[1])
    return one(st, 0 if x == y else (1 if x > y else 0xffffffff))
@model("memchr")
def _(ex, st, a):
    from core import ToolLimit
    p, c, n = a
    if not isinstance(n, int) or not isinstance(c, int): raise ToolLimit("memchr")
    for i in range(n):
        v = ex.loadn(st, ex.padd(st, p, i), 1)
        if not isinstance(v, int): raise ToolLimit("memchr symbolic")
        if v == (c & 255): return one(st, ex.padd(st, p, i))
    return one(st, 0)

def lockword(ex, st, p): return ex.loadn(st, p, 4)
@model("pthread_mutex_lock", "__gthrw_pthread_mutex_lock")
def _(ex, st, a):
    from core import bv
    v = lockword(ex, st, a[0])
    ex.safety_check(st, "self-deadlock@" + ex.where(), bv(v, 32) == 0 if not isinstance(v, int) else v == 0)
    ex.storen(st, a[0], 1, 4); return one(st, 0)
@model("pthread_mutex_trylock")
def _(ex, st, a):
    v = lockword(ex, st, a[0])
    from core import ToolLimit
    if not isinstance(v, int): raise ToolLimit("trylock on symbolic lock")
    if v: return one(st, 16)
    ex.storen(st, a[0], 1, 4); return one(st, 0)
@model("pthread_mutex_unlock")
def _(ex, st, a): ex.storen(st, a[0], 0, 4); return one(st, 0)
@model("_ZN3SST4Core10ThreadSafe8Spinlock4lockEv")
def _(ex, st, a):
    from core import bv
    ex.assumed.add("assumed contract: Spinlock::lock acquires (a second acquisition by the same call is reported as self-deadlock)")
    v = ex.loadn(st, a[0], 1)
    ex.safety_check(st, "self-deadlock@" + ex.where(), bv(v, 8) == 0 if not isinstance(v, int) else v == 0)
    ex.storen(st, a[0], 1, 1); return one(st)
@model("pthread_self", "_ZNSt6thread6_M_idEv")
def _(ex, st, a): return one(st, 0x7777)
@model("sched_yield", "pthread_yield")
def _(ex, st, a): return one(st, 0)
@model("__gthread_active_p", "_ZL18__gthread_active_pv")
def _(ex, st, a): return one(st, 1)

@model("__cxa_guard_acquire")
def _(ex, st, a):
    v = ex.loadn(st, a[0], 1)
    return one(st, 0 if isinstance(v, int) and v else 1)
@model("__cxa_guard_release")
def _(ex, st, a): ex.storen(st, a[0], 1, 1); return one(st)
@model("__cxa_guard_abort", "__cxa_free_exception", "__cxa_atexit", "__cxa_thread_atexit")
def _(ex, st, a): return one(st, 0)
@model("__cxa_allocate_exception")
def _(ex, st, a): return one(st, ex.alloc(st, max(a[0], 1), "exc", "exc").addr)
@model("__cxa_throw")
def _(ex, st, a):
    from core import Outcome
    return [Outcome(st, "exc", (a[0], a[1]))]
@model("__cxa_rethrow")
def _(ex, st, a):
    from core import Outcome
    return [Outcome(st, "exc", st.exc[-1])]
@model("__cxa_begin_catch")
def _(ex, st, a):
    st.exc = st.exc + (st.extra.get("exc"),)
    return one(st, a[0])
@model("__cxa_end_catch")
def _(ex, st, a):
    st.exc = st.exc[:-1]; return one(st)
@model("__clang_call_terminate", "_ZSt9terminatev", "abort", "exit", "_exit", "__cxa_pure_virtual", "_ZSt17__throw_bad_allocv", "__cxa_throw_bad_array_new_length", "_ZSt28__throw_bad_array_new_lengthv")
def _(ex, st, a):
    ex.safety_check(st, "terminate@" + ex.where(), False)
    return []
@model("__assert_fail")
def _(ex, st, a):
    ex.safety_check(st, "assert@" + ex.where(), False)
    return []
THROWS = {"_ZSt20__throw_out_of_rangePKc": "_ZTISt12out_of_range", "_ZSt24__throw_out_of_range_fmtPKcz": "_ZTISt12out_of_range", "_ZSt20__throw_length_errorPKc": "_ZTISt12length_error",
          "_ZSt19__throw_logic_errorPKc": "_ZTISt11logic_error", "_ZSt24__throw_invalid_argumentPKc": "_ZTISt16invalid_argument", "_ZSt16__throw_bad_castv": "_ZTISt8bad_cast", "_ZSt25__throw_bad_function_callv": "_ZTISt17bad_function_call", "_ZSt20__throw_system_errori": "_ZTISt12system_error",
          "_ZSt21__throw_runtime_errorPKc": "_ZTISt13runtime_error"}
for _n, _t in THROWS.items():
    def mk(t):
        def f(ex, st, a):
            from core import Outcome
            if t in ex.m.globals: ti = ex.gaddr(t)
            else:
                b = ex.gblocks.get(t)
                if b is None: b = ex.alloc(None, 16, "@" + t, "global", lazy=t); ex.gblocks[t] = b
                ti = b.addr
            return [Outcome(st, "exc", (ex.alloc(st, 16, "exc", "exc").addr, ti))]
        return f
    TABLE[_n] = mk(_t)
# constructors / destructors of std exceptions
@pattern(r"^std::(logic_error|invalid_argument|out_of_range|length_error|runtime_error|range_error|domain_error|overflow_error|underflow_error|system_error|exception|bad_alloc)::(~)?(\1|what)")
def _(ex, st, a, name, m): return one(st, 0)
@pattern(r"^std::__cxx11::basic_(o|i|)stringstream<char, std::char_traits<char>, std::allocator<char> >::basic_(o|i|)stringstream\(")
def _(ex, st, a, name, m):
    """A string stream is an object with an opaque state: only its vtable offsets (all zero here) are ever read by verified code"""
    t = "vf stream vtable"
    b = ex.gblocks.get(t)
    if b is None:
        b = ex.alloc(None, 128, "@" + t, "global"); ex.gblocks[t] = b
    for i in range(16): ex.storen(st, b.addr + 8 * i, 0, 8)
    ex.storen(st, a[0], b.addr + 64, 8); ex.storen(st, a[0] + 8, 0, 8); ex.storen(st, a[0] + 16, b.addr + 64, 8)
    ex.assumed.add("text written to string streams is not modelled")
    return one(st)
@pattern(r"^std::__cxx11::basic_(o|i|)stringstream<char, std::char_traits<char>, std::allocator<char> >::str\(\) const")
def _(ex, st, a, name, m):
    ex.assumed.add("text written to string streams is not modelled (str() is empty)")
    ex.storen(st, a[0], a[0] + 16, 8); ex.storen(st, a[0] + 8, 0, 8); ex.storen(st, a[0] + 16, 0, 1)
    return one(st)
@model("__dynamic_cast")
def _(ex, st, a):
    from core import ToolLimit, is_sym
    p = a[0]
    if is_sym(p): raise ToolLimit("dynamic_cast of symbolic object")
    if p == 0: return one(st, 0)
    vp = ex.loadn(st, p, 8)
    if not isinstance(vp, int): raise ToolLimit("dynamic_cast on symbolic vptr")
    b = ex.block_at(vp)
    ti = ex.loadn(st, vp - 8, 8); top = ex.loadn(st, vp - 16, 8)
    full = (p + (top if isinstance(top, int) else 0)) & ((1 << 64) - 1)
    if ti == a[2]: return one(st, full)
    if ex.exc_match(ti, a[2]): return one(st, full)   # single inheritance chains at offset 0
    return one(st, 0)
@model("__errno_location")
def _(ex, st, a):
    b = ex.alloc(st, 4, "errno", "heap"); ex.storen(st, b.addr, ex.fresh("errno", 32), 4); return one(st, b.addr)
@model("strerror")
def _(ex, st, a):
    b = ex.alloc(st, 1, "strerror", "heap"); ex.storen(st, b.addr, 0, 1); return one(st, b.addr)
@model("_ZSt9call_onceIRFvvEJEEvRSt9once_flagOT_DpOT0_")
def _(ex, st, a): return one(st)

@model("_ZNK3SST6Output5fatalEjPKcS2_iS2_z")
def _(ex, st, a):
    """Output::fatal ends the program: modelled as the exception vf::Fatal"""
    from core import Outcome
    ex.assumed.add("Output::fatal never returns (modelled as an exception no SST code catches)")
    t = "_ZTIN2vf5FatalE"
    if t in ex.m.globals: ti = ex.gaddr(t)
    else:
        b = ex.gblocks.get(t)
        if b is None: b = ex.alloc(None, 16, "@" + t, "global", lazy=t); ex.gblocks[t] = b
        ti = b.addr
    e = ex.alloc(st, 16, "fatal", "exc"); ex.storen(st, e.addr, a[4], 4)
    return [Outcome(st, "exc", (e.addr, ti))]
@model("_ZN3SST4Core11MemPoolItemnwEm")
def _(ex, st, a):
    ex.assumed.add("assumed contract: MemPoolItem::operator new returns fresh storage of the requested size (property C17)")
    return TABLE["_Znwm"](ex, st, a)
@model("_ZN3SST4Core11MemPoolItemdlEPv")
def _(ex, st, a): return TABLE["_ZdlPv"](ex, st, a)
@model("_ZN3SST6OutputC1Ev", "_ZN3SST6OutputC2Ev", "_ZN3SST6OutputD1Ev", "_ZN3SST6OutputD2Ev", "_ZN3SST6OutputC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEjjNS0_17output_location_tES8_", "_ZN3SST6OutputC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEjjNS0_17output_location_tES8_")
def _(ex, st, a): return one(st)

# ------------------------------------------------------------------ intrinsics
def intrinsic(ex, st, name, a, tys, ins):
    from core import bv, simp, ToolLimit, tos, b1, is_sym
    n = name[5:]
    if n.startswith(("lifetime", "dbg", "assume", "invariant", "experimental", "donothing", "prefetch", "stacksave", "stackrestore", "var.annotation", "eh.recover")): return 0
    if n.startswith(("memcpy", "memmove")): ex.memcpy(st, a[0], a[1], a[2]); return None
    if n.startswith("memset"): ex.memset(st, a[0], a[1] if isinstance(a[1], int) else a[1], a[2]); return None
    if n.startswith("threadlocal.address"): return a[0]
    if n.startswith("expect"): return a[0]
    if n.startswith("eh.typeid.for"): return ex.typeid(a[0])
    if n.startswith("is.constant"): return 0
    if n.startswith("launder") or n.startswith("strip.invariant"): return a[0]
    if n.startswith("objectsize"): return (1 << 64) - 1
    if n.startswith(("umul.with.overflow", "uadd.with.overflow", "usub.with.overflow", "smul.with.overflow", "sadd.with.overflow", "ssub.with.overflow")):
        w = tys[0].n; op = {"mul": "mul", "add": "add", "sub": "sub"}[n[1:4]]; sg = n[0] == "s"
        r = ex.binop(op, a[0], a[1], INT(w), None, st)
        if isinstance(a[0], int) and isinstance(a[1], int):
            x, y = (tos(a[0], w), tos(a[1], w)) if sg else (a[0], a[1])
            t = x * y if op == "mul" else x + y if op == "add" else x - y
            ov = not (-(1 << (w - 1)) <= t < (1 << (w - 1))) if sg else not (0 <= t < (1 << w))
            return [r, int(ov)]
        A, B = bv(a[0], w), bv(a[1], w)
        if sg: ok = {"mul": lambda: z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B)), "add": lambda: z3.And(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B)), "sub": lambda: z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True))}[op]()
        else:
            if op == "mul" and isinstance(a[1], int) and a[1]: ok = z3.ULE(A, z3.BitVecVal(((1 << w) - 1) // a[1], w))
            elif op == "mul" and isinstance(a[0], int) and a[0]: ok = z3.ULE(B, z3.BitVecVal(((1 << w) - 1) // a[0], w))
            else: ok = {"mul": lambda: z3.BVMulNoOverflow(A, B, False), "add": lambda: z3.BVAddNoOverflow(A, B, False), "sub": lambda: z3.UGE(A, B)}[op]()
        return [r, simp(z3.Not(ok))]
    m = {"umax": "ugt", "umin": "ult", "smax": "sgt", "smin": "slt"}.get(n.split(".")[0])
    if m:
        c = ex.icmp(m, a[0], a[1], tys[0], st)
        if isinstance(c, int): return a[0] if c else a[1]
        return simp(z3.If(c, bv(a[0], tys[0].n), bv(a[1], tys[0].n)))
    if n.startswith("abs."):
        w = tys[0].n
        if isinstance(a[0], int): return abs(tos(a[0], w)) & ((1 << w) - 1)
        return simp(z3.If(a[0] < 0, -a[0], a[0]))
    if n.startswith("fabs"):
        w = 64 if tys[0].k == "double" else 32
        k = (1 << (w - 1)) - 1
        return a[0] & k if isinstance(a[0], int) else simp(a[0] & z3.BitVecVal(k, w))
    if n.startswith("ctpop"):
        w = tys[0].n
        if isinstance(a[0], int): return bin(a[0]).count("1")
        r = z3.BitVecVal(0, w)
        for i in range(w): r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, a[0]))
        return r
    if n.startswith(("ctlz", "cttz")):
        w = tys[0].n
        if isinstance(a[0], int):
            if a[0] == 0: return w
            return w - a[0].bit_length() if n.startswith("ctlz") else (a[0] & -a[0]).bit_length() - 1
        r = z3.BitVecVal(w, w)
        rng = range(w) if n.startswith("ctlz") else range(w - 1, -1, -1)
        for i in rng: r = z3.If(z3.Extract(i, i, a[0]) == 1, z3.BitVecVal(w - 1 - i if n.startswith("ctlz") else i, w), r)
        return r
    if n.startswith(("fshl", "fshr")):
        w = tys[0].n
        if isinstance(a[2], int):
            k = a[2] % w
            full = z3.Concat(bv(a[0], w), bv(a[1], w))
            lo = w - k if n.startswith("fshl") else k
            return simp(z3.Extract(lo + w - 1, lo, full))
        A, B, K = bv(a[0], w), bv(a[1], w), z3.ZeroExt(w, z3.URem(bv(a[2], w), z3.BitVecVal(w, w)))
        full = z3.Concat(A, B)
        return simp(z3.Extract(2 * w - 1, w, full << K) if n.startswith("fshl") else z3.Extract(w - 1, 0, z3.LShR(full, K)))
    if n.startswith("bswap"):
        w = tys[0].n
        if isinstance(a[0], int): return int.from_bytes(a[0].to_bytes(w // 8, "little"), "big")
        return simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a[0]) for i in range(w // 8)]))
    if n.startswith("trap"):
        ex.safety_check(st, "trap@" + ex.where(), False)
    if n.startswith(("floor", "ceil", "sqrt", "log", "exp", "pow", "round", "trunc", "rint", "cos", "sin", "fmuladd", "fma", "copysign", "minnum", "maxnum", "nearbyint")):
        t = tys[0]; w = 64 if t.k == "double" else 32
        if n.startswith("fmuladd"): return ex.fpop("fadd", ex.fpop("fmul", a[0], a[1], t), a[2], t)
        if ex.fp_exact and n.startswith(("floor", "ceil", "trunc")):
            so = z3.Float64() if w == 64 else z3.Float32()
            rm = {"f": z3.RTN(), "c": z3.RTP(), "t": z3.RTZ()}[n[0]]
            return z3.simplify(z3.fpToIEEEBV(z3.fpRoundToIntegral(rm, z3.fpBVToFP(bv(a[0], w), so))))
        if isinstance(a[0], int) and n.startswith(("floor", "ceil", "trunc", "sqrt")):
            import math
            from core import tofloat, frombits
            x = tofloat(a[0], w)
            return frombits(float({"fl": math.floor, "ce": math.ceil, "tr": math.trunc, "sq": math.sqrt}[n[:2]](x)), w)
        ex.assumed.add("math function %s is uninterpreted" % n.split(".")[0])
        S = z3.BitVecSort(w)
        return ex.ufn(n.split(".")[0] + str(w), *([S] * (len(a) + 1)))(*[bv(x, w) for x in a])
    raise ToolLimit("intrinsic " + name)

MATH = {"sqrt": 1, "log": 1, "exp": 1, "floor": 1, "ceil": 1, "pow": 2, "fabs": 1, "log2": 1, "log10": 1, "sin": 1, "cos": 1, "fmod": 2, "round": 1, "expm1": 1, "log1p": 1}
for _n, _k in MATH.items():
    def mkm(n, k):
        def f(ex, st, a):
            from core import bv, simp
            if n in ("floor", "ceil", "fabs", "sqrt"):
                class I: pass
                return one(st, intrinsic(ex, st, "llvm." + n + ".f64", a, [ir.DOUBLE], None))
            ex.assumed.add("math function %s is uninterpreted" % n)
            S = z3.BitVecSort(64)
            return one(st, ex.ufn(n + "64", *([S] * (k + 1)))(*[bv(x, 64) for x in a]))
        return f
    TABLE[_n] = mkm(_n, _k)

# ------------------------------------------------------------------ bulk memory on symbolic regions
def memcpy_sym(ex, st, d, s, n):
    from core import PtrE, ToolLimit, bv, PDiff
    """memmove of n bytes between regions, n symbolic multiple of the element size"""
    if isinstance(n, PDiff): cnt, unit = n.d, n.esz
    else: cnt, unit = None, None
    if isinstance(d, PtrE) and st.regs[d.r].esz is None:
        if isinstance(s, PtrE) and st.regs[s.r].esz is not None: ex.set_esz(st, d.r, st.regs[s.r].esz, st.regs[s.r].ety)
    if isinstance(s, PtrE) and isinstance(d, PtrE):
        rs, rd = st.regs[s.r], st.regs[d.r]
        if rs.esz != rd.esz and not s.c and not d.c and 1 in (rs.esz, rd.esz) and max(rs.esz, rd.esz) in (2, 4, 8):
            return copy_bytes(ex, st, d, s, n if cnt is None else bv(cnt, 64) * unit)
        if rs.esz != rd.esz or s.c or d.c: raise ToolLimit("memcpy between different layouts")
        if cnt is None:
            if rs.esz == 1: cnt = n
            else: raise ToolLimit("memcpy of symbolic bytes")
        elif unit != rs.esz:
            if unit % rs.esz: raise ToolLimit("memcpy unit")
            cnt = bv(cnt, 64) * (unit // rs.esz)
        copy_elems(ex, st, d, s, cnt)
        return
    if isinstance(s, int) and isinstance(d, PtrE) and isinstance(n, int):
        for i in range(n): ex.storen(st, ex.padd(st, d, i), ex.loadn(st, s + i, 1), 1)
        return
    if isinstance(d, int) and isinstance(s, PtrE) and isinstance(n, int):
        for i in range(n): ex.storen(st, d + i, ex.loadn(st, ex.padd(st, s, i), 1), 1)
        return
    raise ToolLimit("memcpy %r %r %r" % (d, s, n))
def shifted(ex, a, dst, src, cnt, src_arr=None):
    """array b with b[dst+i] = src_arr[src+i] for i<cnt, a elsewhere"""
    from core import bv
    k = z3.BitVec("k!sh", 64)
    src_arr = a if src_arr is None else src_arr
    dst, src, cnt = bv(dst, 64), bv(src, 64), bv(cnt, 64)
    return z3.Lambda([k], z3.If(z3.And(z3.UGE(k, dst), z3.ULT(k - dst, cnt)), z3.Select(src_arr, k - dst + src), z3.Select(a, k)))
def region_keys(ex, st, *rids):
    ks = set()
    for r in rids: ks |= set(st.regs[r].arrs)
    for r in rids:
        ety = st.regs[r].ety
        if ety is not None:
            from core import leaves
            for k in leaves(ety):
                if not any(c < k[0] + k[1] and k[0] < c + z for c, z in ks): ks.add(k)
    return ks
def copy_elems(ex, st, d, s, cnt):
    from core import bv, ToolLimit
    if st.regs[s.r].ety is None and not st.regs[s.r].arrs and st.regs[s.r].esz in (1, 2, 4, 8):
        ks = {(0, st.regs[s.r].esz)}
    else: ks = region_keys(ex, st, d.r, s.r)
    if not ks: raise ToolLimit("copy of elements with unknown layout")
    rs, rd = st.regs[s.r], st.regs[d.r]
    for r, p in ((rs, s), (rd, d)):
        if r.cap is not None:
            c, i, cp = bv(cnt, 64), bv(p.idx, 64), bv(r.cap, 64)
            ex.safety_check(st, "out-of-bounds-copy(%s)@%s" % (r.name, ex.where()), z3.And(z3.ULE(c, cp), z3.ULE(i, cp - c)))
    new = {}
    for k in ks:
        a = ex.rarr(st, d.r, *k); b = ex.rarr(st, s.r, *k)
        new[k] = shifted(ex, a, d.idx, s.idx, cnt, b)
    r = st.regs[d.r].copy()
    for k, v in new.items():
        r.arrs[k] = v
        if st.wlog is not None: st.wlog[("r", d.r) + k] = 1
    st.regs[d.r] = r
def copy_bytes(ex, st, d, s, n):
    """memcpy of n bytes between an array of scalars and an array of bytes (n a whole number of scalars)"""
    from core import bv, simp, ToolLimit
    rs, rd = st.regs[s.r], st.regs[d.r]
    big = max(rs.esz, rd.esz); sh = {2: 1, 4: 2, 8: 3}[big]
    for r in (rs, rd):
        if r.esz == big and set(r.arrs) - {(0, big)}: raise ToolLimit("byte copy of structured elements")
    n = bv(n, 64)
    ex.safety_check(st, "copy-of-part-of-an-element@" + ex.where(), n & (big - 1) == 0)
    cnt = z3.LShR(n, sh)
    si, di = bv(s.idx, 64), bv(d.idx, 64)
    for r, i, c in ((rs, si, cnt if rs.esz == big else n), (rd, di, cnt if rd.esz == big else n)):
        if r.cap is not None:
            cp = bv(r.cap, 64)
            ex.safety_check(st, "out-of-bounds-copy(%s)@%s" % (r.name, ex.where()), z3.And(z3.ULE(c, cp), z3.ULE(i, cp - c)))
    k = z3.BitVec("k!bc", 64)
    if rd.esz == 1:
        a, b = ex.rarr(st, d.r, 0, 1), ex.rarr(st, s.r, 0, big)
        e = z3.Select(b, z3.LShR(k - di, sh) + si); low = (k - di) & (big - 1)
        v = z3.Extract(7, 0, e)
        for j in range(1, big): v = z3.If(low == j, z3.Extract(8 * j + 7, 8 * j, e), v)
        new, key = z3.Lambda([k], z3.If(z3.And(z3.UGE(k, di), z3.ULT(k - di, n)), v, z3.Select(a, k))), (0, 1)
    else:
        a, b = ex.rarr(st, d.r, 0, big), ex.rarr(st, s.r, 0, 1)
        base = ((k - di) << sh) + si
        v = z3.Concat(*[z3.Select(b, base + j) for j in reversed(range(big))])
        new, key = z3.Lambda([k], z3.If(z3.And(z3.UGE(k, di), z3.ULT(k - di, cnt)), v, z3.Select(a, k))), (0, big)
    r = st.regs[d.r].copy(); r.arrs[key] = new; st.regs[d.r] = r
    if st.wlog is not None: st.wlog[("r", d.r) + key] = 1
def memset_sym(ex, st, d, v, n):
    from core import PtrE, ToolLimit, bv, PDiff
    if not isinstance(d, PtrE): raise ToolLimit("memset symbolic %s %s" % (d, str(n)[:200]))
    r = st.regs[d.r]
    if r.esz is None: ex.set_esz(st, d.r, 1); r = st.regs[d.r]
    if isinstance(n, PDiff) and n.esz == r.esz: cnt = n.d
    elif r.esz == 1: cnt = n
    elif isinstance(n, int) and n % r.esz == 0: cnt = n // r.esz
    else: raise ToolLimit("memset size")
    ks = set(r.arrs) or {(0, r.esz)}
    for k in ks:
        a = ex.rarr(st, d.r, *k)
        if isinstance(v, int): x = z3.BitVecVal(int.from_bytes(bytes([v & 255]) * k[1], "little"), 8 * k[1])
        else: x = z3.Concat(*[v] * k[1]) if k[1] > 1 else v
        j = z3.BitVec("k!ms", 64)
        r = st.regs[d.r].copy()
        r.arrs[k] = z3.Lambda([j], z3.If(z3.And(z3.UGE(j, bv(d.idx, 64)), z3.ULT(j - bv(d.idx, 64), bv(cnt, 64))), x, z3.Select(a, j)))
        st.regs[d.r] = r
        if st.wlog is not None: st.wlog[("r", d.r) + k] = 1

@model("_ZNSt16_Array_init_ctorItLb1EE8_S_do_itEPtS1_t")
def array_fill16(ex, st, a):
    """std::__valarray_fill_construct of [begin, end) with one value (libstdc++ loop, assumed contract)"""
    ex.assumed.add("std::valarray<uint16_t> fill constructor (libstdc++ loop)")
    from core import PtrE, ToolLimit, bv, PDiff
    if not isinstance(a[0], PtrE): raise ToolLimit('fill of a concrete block')
    r = st.regs[a[0].r]
    if r.esz is None: ex.set_esz(st, a[0].r, 2); r = st.regs[a[0].r]
    if r.esz != 2: raise ToolLimit("fill of another layout")
    cnt = bv(a[1].idx, 64) - bv(a[0].idx, 64)
    arr = ex.rarr(st, a[0].r, 0, 2); j = z3.BitVec("k!fl", 64)
    r = st.regs[a[0].r].copy()
    r.arrs[(0, 2)] = z3.Lambda([j], z3.If(z3.ULT(j - bv(a[0].idx, 64), cnt), bv(a[2], 16), z3.Select(arr, j)))
    st.regs[a[0].r] = r
    if st.wlog is not None: st.wlog[("r", a[0].r, 0, 2)] = 1
    return one(st, None)
# ------------------------------------------------------------------ std::vector on symbolic regions (assumed contracts)
def vec(ex, st, v):
    return [ex.loadn(st, ex.padd(st, v, o), 8) for o in (0, 8, 16)]
def symvec(ex, st, v):
    from core import PtrE, is_sym
    try: b = ex.loadn(st, v, 8)
    except Exception: return False
    return isinstance(b, PtrE)
def sym_dispatch(fn):
    """use the model only for symbolic vectors; concrete ones run the real libstdc++ code"""
    def h(ex, st, a, name, m):
        from core import ToolLimit
        if symvec(ex, st, a[0]): return fn(ex, st, a, name, m)
        return real(ex, st, name, a)
    return h
def real(ex, st, name, a):
    global _cache
    sv = _cache.get(name); _cache[name] = None
    try: return ex.call(st, name, a)
    finally: _cache[name] = sv
VEC = r"^(?:[\w: ]+ )?(?:.*[ &*>])?std::vector<.*>::"
def elem_pos(ex, st, p):
    return p.idx
def shift_right(ex, st, rid, pos, end, cnt=1):
    from core import bv
    for k in region_keys(ex, st, rid) or {(0, st.regs[rid].esz)}:
        a = ex.rarr(st, rid, *k)
        r = st.regs[rid].copy()
        r.arrs[k] = shifted(ex, a, bv(pos, 64) + bv(cnt, 64), bv(pos, 64), bv(end, 64) - bv(pos, 64))
        st.regs[rid] = r
        if st.wlog is not None: st.wlog[("r", rid) + k] = 1
    moved(ex, st, rid)
def moved(ex, st, rid):
    """fields of the region never touched so far moved as well: their later first access must not see the old contents"""
    ex.nmoved = getattr(ex, "nmoved", 0) + 1
    r = st.regs[rid].copy(); r.gen = "~moved%d" % ex.nmoved; st.regs[rid] = r
def shift_left(ex, st, rid, pos, nxt, end):
    from core import bv
    for k in region_keys(ex, st, rid) or {(0, st.regs[rid].esz)}:
        a = ex.rarr(st, rid, *k)
        r = st.regs[rid].copy()
        r.arrs[k] = shifted(ex, a, bv(pos, 64), bv(nxt, 64), bv(end, 64) - bv(nxt, 64))
        st.regs[rid] = r
        if st.wlog is not None: st.wlog[("r", rid) + k] = 1
    moved(ex, st, rid)
def grow(ex, st, v, need):
    """new capacity, at least `need`"""
    from core import PtrE, bv
    b, f, e = vec(ex, st, v)
    cap = ex.fresh("newcap", 64)
    st.pc.append(z3.And(z3.UGE(cap, bv(need, 64)), z3.ULT(cap, z3.BitVecVal(1 << 33, 64))))
    r = st.regs[b.r].copy(); r.cap = cap; st.regs[b.r] = r
    if st.wlog is not None: st.wlog[("cap", b.r)] = 1
    ex.storen(st, ex.padd(st, v, 16), PtrE(b.r, cap, 0), 8)
def insert_at(ex, st, v, posidx, src, room_known):
    from core import PtrE, bv
    b, f, e = vec(ex, st, v)
    esz = st.regs[b.r].esz
    ls = None
    lv = ex.leaves_for(st, PtrE(b.r, posidx, 0), src, esz, None)
    vals = [(o, w, ex.loadn(st, ex.padd(st, src, o), w)) for o, w in lv]
    for o, w in lv:
        if not any(c <= o and o + w <= c + z for c, z in st.regs[b.r].arrs): ex.rarr(st, b.r, o, w)
    if not room_known: grow(ex, st, v, ex.addi(f.idx, 1))
    if not (isinstance(posidx, int) and isinstance(f.idx, int) and posidx == f.idx): shift_right(ex, st, b.r, posidx, f.idx)
    for o, w, x in vals: ex.storen(st, PtrE(b.r, posidx, o), x, w)
    ex.storen(st, ex.padd(st, v, 8), PtrE(b.r, ex.addi(f.idx, 1), 0), 8)
def note(ex, what): ex.assumed.add("assumed contract: " + what)

@pattern(r"^void std::vector<.*>::_M_realloc_insert<")
@sym_dispatch
def _(ex, st, a, name, m):
    note(ex, "std::vector growth keeps the elements and inserts one element at the position (no exception from element construction)")
    p = a[1]; src = a[2]
    dem = demangle(name)
    insert_at(ex, st, a[0], p.idx, src, False)
    return one(st)
@pattern(r"^void std::vector<.*>::_M_insert_aux<")
@sym_dispatch
def _(ex, st, a, name, m):
    note(ex, "std::vector::insert shifts the tail by one and stores the element at the position")
    insert_at(ex, st, a[0], a[1].idx, a[2], True)
    return one(st)
@pattern(r"^std::vector<.*>::_M_erase\(__gnu_cxx::__normal_iterator<.*>\)$")
@sym_dispatch
def _(ex, st, a, name, m):
    from core import PtrE, bv
    note(ex, "std::vector::erase removes exactly the given element(s) and keeps the order of the others")
    b, f, e = vec(ex, st, a[0]); p = a[1]
    ex.safety_check(st, "erase-in-range@" + ex.where(), z3.ULT(bv(p.idx, 64), bv(f.idx, 64)))
    shift_left(ex, st, b.r, p.idx, ex.addi(p.idx, 1), f.idx)
    ex.storen(st, ex.padd(st, a[0], 8), PtrE(b.r, ex.addi(f.idx, (1 << 64) - 1), 0), 8)
    return one(st, p)
@pattern(r"^std::vector<.*>::_M_erase\(__gnu_cxx::__normal_iterator<.*>, __gnu_cxx::__normal_iterator<.*>\)$")
@sym_dispatch
def _(ex, st, a, name, m):
    from core import PtrE, bv, simp
    note(ex, "std::vector::erase removes exactly the given element(s) and keeps the order of the others")
    b, f, e = vec(ex, st, a[0]); p, q = a[1], a[2]
    ex.safety_check(st, "erase-in-range@" + ex.where(), z3.And(z3.ULE(bv(p.idx, 64), bv(q.idx, 64)), z3.ULE(bv(q.idx, 64), bv(f.idx, 64))))
    shift_left(ex, st, b.r, p.idx, q.idx, f.idx)
    n = simp(bv(f.idx, 64) - (bv(q.idx, 64) - bv(p.idx, 64)))
    ex.storen(st, ex.padd(st, a[0], 8), PtrE(b.r, n, 0), 8)
    return one(st, p)
@pattern(r"^std::vector<.*>::_M_erase_at_end\(")
@sym_dispatch
def _(ex, st, a, name, m):
    note(ex, "std::vector tail destruction only shortens the vector")
    ex.storen(st, ex.padd(st, a[0], 8), a[1], 8)
    return one(st)
@pattern(r"^std::vector<.*>::~vector\(\)$")
@sym_dispatch
def _(ex, st, a, name, m):
    return one(st)
@pattern(r"^std::vector<.*>::reserve\(")
@sym_dispatch
def _(ex, st, a, name, m):
    note(ex, "std::vector::reserve keeps contents and size")
    from core import bv, PtrE, simp
    b, f, e = vec(ex, st, a[0])
    cap = ex.fresh("newcap", 64)
    st.pc.append(z3.And(z3.UGE(cap, bv(a[1], 64)), z3.UGE(cap, bv(e.idx, 64)), z3.ULT(cap, z3.BitVecVal(1 << 33, 64))))
    r = st.regs[b.r].copy(); r.cap = cap; st.regs[b.r] = r
    if st.wlog is not None: st.wlog[("cap", b.r)] = 1
    ex.storen(st, ex.padd(st, a[0], 16), PtrE(b.r, cap, 0), 8)
    return one(st)
def set_len(ex, st, v, n, fillsrc):
    """resize to n; new elements = *fillsrc (None: zero)"""
    from core import PtrE, bv, simp
    b, f, e = vec(ex, st, v)
    rid = b.r
    r = st.regs[rid]
    ks = region_keys(ex, st, rid) or {(0, r.esz)}
    n = bv(n, 64); old = bv(f.idx, 64)
    cap = ex.fresh("newcap", 64)
    st.pc.append(z3.And(z3.UGE(cap, n), z3.UGE(cap, bv(e.idx, 64)), z3.ULT(cap, z3.BitVecVal(1 << 33, 64))))
    for k in ks:
        a = ex.rarr(st, rid, *k)
        x = z3.BitVecVal(0, 8 * k[1]) if fillsrc is None else bv(ex.numeric(st, ex.loadn(st, ex.padd(st, fillsrc, k[0]), k[1])), 8 * k[1])
        j = z3.BitVec("k!rs", 64)
        r = st.regs[rid].copy()
        r.arrs[k] = z3.Lambda([j], z3.If(z3.And(z3.UGE(j, old), z3.ULT(j, n)), x, z3.Select(a, j)))
        st.regs[rid] = r
        if st.wlog is not None: st.wlog[("r", rid) + k] = 1
    r = st.regs[rid].copy(); r.cap = cap; st.regs[rid] = r
    if st.wlog is not None: st.wlog[("cap", rid)] = 1
    ex.storen(st, ex.padd(st, v, 16), PtrE(rid, cap, 0), 8)
    ex.storen(st, ex.padd(st, v, 8), PtrE(rid, simp(n), 0), 8)
@pattern(r"^std::vector<.*>::resize\(unsigned long\)$")
@sym_dispatch
def _(ex, st, a, name, m):
    note(ex, "std::vector::resize keeps the common prefix and value-initialises new elements (zero)")
    set_len(ex, st, a[0], a[1], None)
    return one(st)
@pattern(r"^std::vector<.*>::resize\(unsigned long, .* const&\)$")
@sym_dispatch
def _(ex, st, a, name, m):
    note(ex, "std::vector::resize keeps the common prefix and copies the given value into new elements")
    set_len(ex, st, a[0], a[1], a[2])
    return one(st)

@pattern(r"^(void )?SST::Output::(output|verbose|verbosePrefix|debug|debugPrefix|outputprintf|flush)\(")
def _(ex, st, a, name, m):
    ex.assumed.add("printing through SST::Output has no effect on verified state")
    return one(st)
