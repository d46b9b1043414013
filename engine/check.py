#!/usr/bin/env python3
"""check.py PROPERTY: prove the contracts of one property on /repo's current sources.

1. compile every contract file contracts/PROPERTY*.cc together with the real sources it includes: to LLVM IR
   (what is proved) and to a native program (what replays counterexamples and runs the contracts at random inputs);
2. symbolic execution of every harness: obligations (postconditions, call preconditions, loop invariants, safety);
3. discharge with z3 (fallbacks: z3 with other tactics, cvc5);
4. replay refuted obligations natively; report.
"""
import sys, os, json, time, subprocess, re, glob, shutil, tempfile, traceback, signal
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1")); TIER = os.environ.get("VERIF_TIER", "quick")
OUT = os.path.join(VERIF, "out")
T0 = time.time()
TOTAL = 780 if TIER == "quick" else 3000
CXX = shutil.which("clang++-18") or shutil.which("clang++")

def incs():
    b = REPO + "/_build/src/sst/core"
    l = []
    if os.path.exists(b + "/sst_config.h"): l += [b, REPO + "/_build/src"]
    else: l += [VERIF + "/gen", VERIF + "/gen/.."]
    l += [VERIF + "/contracts", REPO + "/src", REPO + "/external", REPO + "/src/sst/core", "/usr/lib/x86_64-linux-gnu/openmpi/include", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi", "/usr/include/python3.12", VERIF + "/gen"]
    return ["-I" + x for x in l]
BASE = ["-std=c++17", "-w", "-fno-access-control", "-DHAVE_CONFIG_H", "-DSST_BUILDING_CORE=1"]
HOOK = ["-DSST_CORE_VERIF"]

def run(cmd, timeout=300):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired: return 124, "timeout"

def pragmas(src):
    d = {}
    for l in open(src):
        m = re.match(r"//\s*VF:(\w+)\s*(.*)", l)
        if m: d.setdefault(m.group(1), []).append(m.group(2).strip())
    return d

def compile_ir(src, out, hooks=True, extra=()):
    cmd = [CXX] + BASE + (HOOK if hooks else []) + list(extra) + ["-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-include", VERIF + "/contracts/vf_pre.h"] + incs() + ["-S", "-emit-llvm", src, "-o", out]
    return run(cmd)
SAN = ["-fsanitize=address"]
def compile_native(src, objdir, links, hooks=True, extra=()):
    """-> (path or None, message)"""
    jobs = []
    srcs = [(src, "h.o", ["-DVF_NATIVE"] + list(extra)), (HERE + "/native.cc", "n.o", [])] + [(REPO + "/" + l, "l%d.o" % i, list(extra)) for i, l in enumerate(links)]
    ps = []
    for s, o, fl in srcs:
        san = [] if o == "n.o" else SAN
        cmd = [CXX] + BASE + (HOOK if hooks and o != "n.o" and fl and "-DVF_NATIVE" in fl else []) + fl + ["-O1" if o != "h.o" else "-O0", "-g1", "-fno-omit-frame-pointer"] + san + incs() + ["-c", s, "-o", objdir + "/" + o]
        ps.append((o, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")))
    bad = None
    for o, p in ps:
        txt, _ = p.communicate()
        if p.returncode: bad = txt[-3000:]
    if bad: return None, bad
    objs = [objdir + "/" + o for _, o, _ in srcs]
    # static initialisers of the sources run under a guard in native.cc's main (some need parts of the simulator that are not linked)
    for o in objs:
        if not o.endswith("/n.o"): run(["objcopy", "--rename-section", ".init_array=vf_init", o])
    exe = objdir + "/prog"
    link = [CXX, "-no-pie"] + SAN + objs + ["-o", exe, "-lpthread", "-Wl,--no-demangle", "-Wl,--unresolved-symbols=report-all", "-Wl,--warn-unresolved-symbols"]
    rc, txt = run(link)
    und = sorted(set(re.findall(r"undefined reference to `([^']+)'", txt)))
    if und:
        with open(objdir + "/stubs.s", "w") as f:
            f.write(".text\n")
            for u in und:
                if re.match(r"_ZT[VIS]|_ZTT|_ZGV", u) or not u.startswith("_Z") and not re.match(r"^[A-Z]+_", u) and "Py" in u and u.endswith(("_Type", "Struct")) or is_data(u): continue
                f.write(".weak %s\n.type %s,@function\n%s: jmp vfn_unresolved\n.space 27, 0xcc\n" % (u, u, u))
            f.write(".data\n.balign 16\n")
            for u in und:
                if u.startswith("_ZTI"): f.write(".weak %s\n%s: .quad _ZTVN10__cxxabiv117__class_type_infoE+16\n.quad 1f\n.zero 48\n1: .asciz \"%s\"\n.balign 16\n" % (u, u, u[4:]))
                elif re.match(r"_ZT[VS]|_ZTT|_ZGV", u) or is_data(u): f.write(".weak %s\n%s: .zero 512\n" % (u, u))
            f.write(".section .note.GNU-stack,\"\",@progbits\n")
        rc, t2 = run([CXX, "-c", objdir + "/stubs.s", "-o", objdir + "/stubs.o"])
        if rc: return None, t2
        rc, txt = run([CXX, "-no-pie"] + SAN + objs + [objdir + "/stubs.o", "-o", exe, "-lpthread", "-Wl,--unresolved-symbols=ignore-all"])
    if rc or not os.path.exists(exe): return None, txt[-3000:]
    return exe, "ok"
def is_data(u):
    # mangled names without a parameter list are variables
    if not u.startswith("_Z"): return False
    if DEM is None: return False
    d = DEM(u)
    return "(" not in d
DEM = None

# ------------------------------------------------------------------ symbolic worker
def worker(irpath, harness, opts, q):
    try:
        r = prove(irpath, harness, opts)
    except BaseException as e:
        r = dict(harness=harness, limit="internal: " + "".join(traceback.format_exception_only(type(e), e)).strip()[:500], trace=traceback.format_exc()[-3000:], obls=[], covers={}, assumed=[], inlined=[], contract=[])
    q.put(r)

MODCACHE = {}
def prove(irpath, harness, opts):
    import core, z3, irparse
    core.HARD, core.ABSTRACT = hard_terms, abstract
    t0 = time.time()
    m = MODCACHE.get(irpath) or irparse.Module(irpath)
    z3.set_param("smt.random_seed", 0)
    ex = core.Ex(m, opts)
    st = core.State()
    limit = None; trace = None
    outs = []
    try:
        outs = ex.call(st, "vfh_" + harness, [])
        for o in outs:
            if o.kind == "exc": ex.cur_fn.append("vfh_" + harness); ex.oblige(o.st, "no-uncaught-exception", 0); ex.cur_fn.pop()
        rets = [o for o in outs if o.kind == "ret"]
        ex.covers["harness-end"] = any(ex.sol.feasible(o.st.pc) for o in rets)
    except core.ToolLimit as e: limit = str(e); trace = traceback.format_exc()[-1500:]
    except RecursionError: limit = "recursion limit"
    except z3.Z3Exception as e: limit = "z3: " + str(e)[:300]; trace = traceback.format_exc()[-3000:]
    texec = time.time() - t0
    res = []
    seen = {}
    for o in ex.obls:
        key = (o.label, o.goal.get_id(), tuple(c.get_id() for c in o.pc))
        if key in seen: continue
        seen[key] = 1
        left = opts["budget"] - (time.time() - t0)
        r = discharge(ex, o, opts, left)
        res.append(r)
    hl = {}
    return dict(harness=harness, limit=limit, trace=trace, obls=res, covers=ex.covers, assumed=sorted(ex.assumed), inlined=sorted(ex.fns_inlined), contract=sorted(ex.fns_contract), texec=texec, tsolve=sum(r["time"] for r in res), time=time.time() - t0, feas=ex.sol.n, cuts=ex.cutnames, outs=len(outs))

def discharge(ex, o, opts, left):
    import z3, core
    t = time.time()
    r = dict(label=o.label, where=o.where, res="unknown", backend="", time=0.0, reason="", cex=None)
    g = z3.simplify(o.goal)
    if z3.is_true(g): r.update(res="proved", backend="simplifier"); return r
    if left < 1:
        r.update(reason="budget exhausted"); return r
    fml = list(o.pc) + [z3.Not(o.goal)]
    q = any(core.has_quant(f) for f in fml)
    tmo = int(min(opts.get("tmo", 20), left) * 1000)
    def attempt(mk, name, ms, extra=()):
        s = mk(); s.set("timeout", ms)
        s.add(*fml); s.add(*extra)
        c = s.check()
        if c == z3.unsat and not extra: r.update(res="proved", backend=name); return True
        if c == z3.sat:
            r.update(res="refuted", backend=name)
            try: r["cex"] = cex(ex, s.model(), o)
            except Exception as e: r["reason"] = "model: %s" % e
            return True
        if not extra: r["reason"] = s.reason_unknown() if c == z3.unknown else ""
        return False
    if not q:
        ab = abstract(fml)
        if os.environ.get('VF_DUMP') == o.label: open('/tmp/dump.txt', 'a').write('=====\n' + '\n'.join(f.sexpr() for f in fml) + '\n-----ABS\n' + '\n'.join(f.sexpr() for f in (ab or [])) + '\n')
        if ab is not None:
            s = z3.Solver(); s.set("timeout", min(tmo, 8000)); s.add(*ab)
            if s.check() == z3.unsat:
                r.update(res="proved", backend="z3/abstract", time=time.time() - t); return r
            # nonlinear machine arithmetic: a short bit-level attempt, then cvc5 with bit-vectors as integers
            if attempt(z3.Solver, "z3", min(tmo, 6000)):
                r["time"] = time.time() - t; return r
            txt = smt2(fml)
            if txt is not None and shutil.which("cvc5"):
                for m in ("sum", "iand"):
                    try: p = subprocess.run(["cvc5", "--solve-bv-as-int=" + m, "--nl-ext-tplanes", "--tlimit=%d" % min(tmo, 15000), "-"], input=txt, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=25)
                    except subprocess.TimeoutExpired: continue
                    if p.stdout.strip().split("\n")[0] == "unsat":
                        r.update(res="proved", backend="cvc5/int", reason="", time=time.time() - t); return r
    if q and (ab := abstract(fml)) is not None:
        s = z3.Solver(); s.set("timeout", min(tmo, 4000)); s.add(*ab)
        if s.check() == z3.unsat:
            r.update(res="proved", backend="z3/abstract", time=time.time() - t); return r
    if q:
        # quantified: short attempts with two solvers before the long one
        if not attempt(z3.Solver, "z3", min(tmo, 2500)):
            txt = smt2(fml)
            if txt is not None and shutil.which("cvc5"):
                try: p = subprocess.run(["cvc5", "--tlimit=%d" % min(tmo, 6000), "-"], input=txt, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=min(tmo, 6000) / 1000 + 5)
                except subprocess.TimeoutExpired: p = None
                if p is not None and p.stdout.strip().split("\n")[0] == "unsat":
                    r.update(res="proved", backend="cvc5", reason="", time=time.time() - t); return r
    ok = r["res"] == "refuted" or r["res"] == "proved" or attempt(z3.Solver, "z3", tmo)
    if ok and r["res"] == "refuted":
        # look for a small counterexample that can be replayed
        sm = [z3.ULE(n, z3.BitVecVal(5, 64)) for (_, _, n) in ex.regspec.values() if core.is_sym(n)]
        if sm: attempt(z3.Solver, "z3", min(tmo, 8000), sm)
    if not ok:
        sm = [z3.ULE(n, z3.BitVecVal(3, 64)) for (_, _, n) in ex.regspec.values() if core.is_sym(n)]
        if q and sm: ok = attempt(z3.Solver, "z3", min(tmo, 8000), sm)
    if not ok and not q:
        tac = z3.Then("simplify", "solve-eqs", "bit-blast", "sat") if False else None
        fp = any("fp." in f.sexpr() or "to_fp" in f.sexpr() for f in fml)
        ok = attempt(lambda: z3.SolverFor("QF_FPBV" if fp else "QF_AUFBV"), "z3/qffpbv" if fp else "z3/qfaufbv", min(tmo, 20000))
    if not ok:
        # other installed solvers on the SMT-LIB text
        txt = smt2(fml)
        if txt is not None:
            for nm, cmd in (("cvc5", ["cvc5", "--tlimit=%d" % tmo, "-"]), ("z3-new", ["z3-new", "-T:%d" % max(tmo // 1000, 1), "-in"])):
                if not shutil.which(cmd[0]): continue
                try: p = subprocess.run(cmd, input=txt, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=tmo / 1000 + 5)
                except subprocess.TimeoutExpired: continue
                a = p.stdout.strip().split("\n")[0] if p.stdout else ""
                if a == "unsat": r.update(res="proved", backend=nm); break
                if a == "sat" and not q: r.update(res="refuted", backend=nm); break
    r["time"] = time.time() - t
    return r
def hard_terms(f):
    """does the formula contain a division, remainder or floating-point product the solver should not bit-blast first?"""
    import z3
    H = {z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BSDIV, z3.Z3_OP_BSREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM_I, z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_DIV}
    seen = set(); todo = [f]
    while todo:
        e = todo.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_app(e):
            k = e.decl().kind()
            if k in H and not (k not in (z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_DIV) and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long() & (e.arg(1).as_long() - 1) == 0): return True
            todo += e.children()
    return False
def abstract(fml):
    '''Over-approximation for proving only: every product of two unknowns, quotient and remainder becomes a fresh
    constant (the same term the same constant); remainders and quotients keep their range.'''
    import z3
    hard = {z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BSDIV, z3.Z3_OP_BSREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM_I}
    novf = {z3.Z3_OP_BSMUL_NO_OVFL, z3.Z3_OP_BSMUL_NO_UDFL, z3.Z3_OP_BUMUL_NO_OVFL}
    fph = {z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_DIV, z3.Z3_OP_FPA_SQRT, z3.Z3_OP_FPA_REM}
    seen, sub, facts, prods = {}, [], [], {}
    def go(e):
        k = e.get_id()
        if k in seen: return
        seen[k] = e
        if not z3.is_app(e): return
        for c in e.children(): go(c)
        o = e.decl().kind()
        if o in fph: sub.append((e, z3.FreshConst(e.sort(), "absf")))
        elif o in novf: sub.append((e, z3.FreshConst(e.sort(), "ovf")))
        elif o in hard: sub.append((e, z3.FreshConst(e.sort(), "abs")))
        elif o == z3.Z3_OP_BMUL:
            # constant factors stay; the product of the others is one constant per set of factors
            nc = [c for c in e.children() if not z3.is_bv_value(c)]
            if len(nc) < 2: return
            key = tuple(sorted(c.get_id() for c in nc))
            if key not in prods: prods[key] = (z3.FreshConst(e.sort(), "abs"), nc)
            v = prods[key][0]
            for c in e.children():
                if z3.is_bv_value(c): v = c * v
            sub.append((e, v))
    for f in fml: go(f)
    if not sub: return None
    # facts that hold for every operand (unsigned division: a = q*b + r, r < b, q*b <= a), over the original terms
    UD = (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I); UR = (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I)
    for e, v in sub:
        k = e.decl().kind()
        if k not in UD and k not in UR: continue
        x, y = e.arg(0), e.arg(1); nz = y != 0
        if k in UR:
            facts.append(z3.Implies(nz, z3.And(z3.ULT(e, y), z3.ULE(e, x))))
            facts.append(z3.Implies(z3.ULT(x, y), e == x))
            facts.append(z3.Implies(z3.And(z3.ULE(y, x), z3.ULT(x - y, y)), e == x - y))
        else:
            if z3.is_bv_value(y) and y.as_long(): facts.append(z3.ULE(e, z3.BitVecVal(((1 << e.size()) - 1) // y.as_long(), e.size())))
            facts.append(z3.Implies(nz, z3.ULE(e, x)))
            for m, c in prods.values():
                if len(c) == 2 and sorted(t.get_id() for t in c) == sorted([e.get_id(), y.get_id()]): facts.append(z3.Implies(nz, z3.And(z3.ULE(m, x), z3.ULT(x - m, y))))
    # IEEE rounding is monotone: x op c against K op c for a few anchors K, c a positive constant; and sign facts
    R = z3.RNE()
    for e, v in sub:
        k = e.decl().kind()
        if k not in (z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_DIV): continue
        so = e.sort(); a, b = e.arg(1), e.arg(2)
        if k == z3.Z3_OP_FPA_MUL and z3.is_fp_value(a): a, b = b, a
        op = z3.fpMul if k == z3.Z3_OP_FPA_MUL else z3.fpDiv
        zero = z3.FPVal(0.0, so); big = z3.FPVal(1e300 if so == z3.Float64() else 1e30, so)
        nice = lambda t: z3.And(z3.fpGEQ(t, zero), z3.fpLEQ(t, big))
        facts.append(z3.Implies(z3.And(nice(a), nice(b), z3.fpGT(b, zero)), z3.fpGEQ(e, zero)))
        if not z3.is_fp_value(b) or z3.is_fp_value(a): continue
        try: c = float(eval(str(z3.simplify(z3.fpToReal(b)).as_fraction()).replace("Fraction", "")))
        except Exception: continue
        if not 0 < c < 1e300: continue
        for K in sorted({0.0, 1.0, 4294967294.0, 4294967295.0, 4294967296.0, c} | ({c - 1} if 1 < c < 2.0**50 else set())):
            kv = z3.FPVal(K, so); kr = z3.simplify(op(R, kv, b))
            facts.append(z3.Implies(z3.fpLEQ(a, kv), z3.fpLEQ(e, kr)))
            facts.append(z3.Implies(z3.fpGEQ(a, kv), z3.fpGEQ(e, kr)))
    # products sharing a factor: equal other factors give equal products, the next multiple is one factor further
    L = [(m, c) for m, c in prods.values() if len(c) == 2]
    if len(L) <= 12:
        for i in range(len(L)):
            for j in range(len(L)):
                if i == j or L[i][0].size() != L[j][0].size(): continue
                for x in (0, 1):
                    for y in (0, 1):
                        a, b = L[i][1], L[j][1]
                        if not a[x].eq(b[y]): continue
                        if i < j: facts.append(z3.Implies(a[1 - x] == b[1 - y], L[i][0] == L[j][0]))
                        facts.append(z3.Implies(a[1 - x] == b[1 - y] + 1, L[i][0] == L[j][0] + a[x]))
    for m, c in L:
        for x in (0, 1):
            facts.append(z3.Implies(c[x] == 1, m == c[1 - x])); facts.append(z3.Implies(c[x] == 0, m == 0))
    # a product of truncated factors is the truncated product
    P = list(prods.values())
    if len(P) <= 40:
        for m, c in P:
            for M, C in P:
                if len(c) == 2 == len(C) and m.size() < M.size():
                    lo = [z3.simplify(z3.Extract(m.size() - 1, 0, t)) for t in C]
                    if sorted(t.get_id() for t in lo) == sorted(t.get_id() for t in c): facts.append(m == z3.Extract(m.size() - 1, 0, M))
    # outermost first: a hard term inside another one disappears with it
    return [z3.substitute(f, *sub[::-1]) for f in fml + facts]
def smt2(fml):
    import z3
    try:
        s = z3.Solver(); s.add(*fml)
        t = s.to_smt2()
        if "lambda" in t: return None
        for f in ("bvudiv", "bvurem", "bvsdiv", "bvsrem"): t = t.replace(f + "_i ", f + " ")
        d = ""
        if "bvumul_noovfl" in t: d += "(define-fun bvumul_noovfl ((a (_ BitVec 64)) (b (_ BitVec 64))) Bool (= ((_ extract 127 64) (bvmul ((_ zero_extend 64) a) ((_ zero_extend 64) b))) (_ bv0 64)))\n"
        return "(set-logic ALL)\n" + d + t
    except Exception: return None

def cex(ex, m, o):
    import z3, core
    L = []
    ev = lambda e: m.eval(e, model_completion=True)
    num = lambda e: ev(e).as_long()
    done = set()
    for name, i, v in ex.nondets:
        if (name, i) in done: continue
        done.add((name, i)); L.append("nd %s %d %d" % (name, i, num(v)))
    addrs = set()
    for name, i, v in ex.anyobjs:
        a = num(v); addrs.add(a)
        l = "ptr %s %d %d" % (name, i, a)
        if l not in L: L.append(l)
    for rid, (name, occ, n) in ex.regspec.items():
        k = n if isinstance(n, int) else num(n)
        l = "len %s %d %d" % (name, occ, k)
        if l in L: continue
        L.append(l)
        for (nm, c, z) in sorted(ex.regarrs):
            if nm != (name if occ == 0 else "%s~%d" % (name, occ)): continue
            a = z3.Array("%s_%d_%d" % (nm, c, z), z3.BitVecSort(64), z3.BitVecSort(8 * z))
            for i in range(min(k, 200)):
                v = num(z3.Select(a, z3.BitVecVal(i, 64)))
                if z <= 8: L.append("el %s %d %d %d %d %d" % (name, occ, i, c, z, v))
                if z == 8 and (1 << 52) <= v < (1 << 62): addrs.add(v)
    for a in list(addrs):
        for (c, z), arr in ex.heaparr0.items():
            if z <= 8 and c < (1 << 31): L.append("obj %d %d %d %d" % (a, c, z, num(z3.Select(arr, z3.BitVecVal(a, 64)))))
    for (bid, off, sz), v in ex.lazyinit.items():
        b = ex.blocks[bid]
        if b.kind == "sym" and core.is_sym(v) and sz <= 8:
            L.append("raw %s %d %d %d" % (b.lazy, off, sz, num(v)))
    return L

# ------------------------------------------------------------------ main
def main():
    global DEM
    import irparse
    DEM = irparse.demangle
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    prop = args[0]
    only = args[1:] 
    verbose = "--v" in sys.argv
    nonative = "--nonative" in sys.argv
    files = sorted(glob.glob(VERIF + "/contracts/%s*.cc" % prop))
    if not files: print("no contracts for", prop); sys.exit(2)
    os.makedirs(OUT, exist_ok=True); os.makedirs(VERIF + "/evidence", exist_ok=True)
    work = tempfile.mkdtemp(prefix="vf_%s_" % prop, dir=OUT)
    try: sys.exit(check(prop, files, work, only, verbose, nonative))
    finally:
        if os.environ.get("VF_KEEP"): print("kept", work)
        else: shutil.rmtree(work, ignore_errors=True)

def check(prop, files, work, only, verbose, nonative):
    from concurrent.futures import ThreadPoolExecutor
    notes = []      # undecided / tool limits
    comp = {}
    def job(kind, i, f):
        pg = pragmas(f)
        extra = sum([x.split() for x in pg.get("FLAGS", [])], [])
        if kind == "ir":
            o = "%s/%d.ll" % (work, i)
            rc, txt = compile_ir(f, o, True, extra)
            if rc:
                rc2, txt2 = compile_ir(f, o, False, extra)
                if rc2: return (kind, i, None, "contract file does not compile against the current sources: " + txt[-1500:])
                return (kind, i, o, "loop annotations do not compile against the current sources; proved without them: " + txt[-600:])
            return (kind, i, o, None)
        d = "%s/n%d" % (work, i); os.makedirs(d, exist_ok=True)
        links = sum([x.split() for x in pg.get("LINK", [])], [])
        exe, txt = compile_native(f, d, links, True, extra)
        if exe is None: exe, txt = compile_native(f, d, links, False, extra)
        return (kind, i, exe, None if exe else "native contract program does not build: " + txt[-1500:])
    jobs = []
    with ThreadPoolExecutor(8) as tp:
        for i, f in enumerate(files):
            jobs.append(tp.submit(job, "ir", i, f))
            if not nonative and "NONATIVE" not in pragmas(f): jobs.append(tp.submit(job, "nat", i, f))
    ir, nat = {}, {}
    for j in jobs:
        k, i, p, msg = j.result()
        (ir if k == "ir" else nat)[i] = p
        if msg: notes.append(os.path.basename(files[i]) + ": " + msg)
    tcomp = time.time() - T0
    # prove
    import irparse
    tasks = []
    for i, f in enumerate(files):
        names = re.findall(r"^HARNESS\((\w+)\)", open(f).read(), re.M)
        if ir.get(i):
            MODCACHE[ir[i]] = irparse.Module(ir[i])
            names = re.findall(r"^define [^@]*@vfh_(\w+)\(", open(ir[i]).read(), re.M)
        pg = pragmas(f)
        for n in names:
            if only and n not in only: continue
            tasks.append((i, n, pg))
    results = {}
    native_only = set()
    for i, n, pg in tasks:
        if n in sum([x.split() for x in pg.get("NATIVE_ONLY", [])], []): native_only.add(n)
    pending = [(i, n, pg) for (i, n, pg) in tasks if ir.get(i) and n not in native_only]
    bud = float(os.environ.get("VF_BUDGET", 0)) or (300 if TIER == "quick" else 1200)
    ctx = mp.get_context("fork")
    running = []
    maxp = 8
    while pending or running:
        while pending and len(running) < maxp:
            i, n, pg = pending.pop(0)
            q = ctx.Queue()
            opts = dict(budget=bud, tmo=20 if TIER == "quick" else 60)
            p = ctx.Process(target=worker, args=(ir[i], n, opts, q)); p.start()
            running.append((p, q, i, n, time.time()))
        nr = []
        for (p, q, i, n, t) in running:
            r = None
            try: r = q.get_nowait()
            except Exception: pass
            if r is not None:
                results[n] = r; p.join(2)
                if p.is_alive(): p.kill()
                continue
            if not p.is_alive():
                try: r = q.get(timeout=1)
                except Exception: r = dict(harness=n, limit="prover process ended (memory or crash)", obls=[], covers={}, assumed=[], inlined=[], contract=[])
                results[n] = r; continue
            if time.time() - t > bud + 60 or time.time() - T0 > TOTAL - 60:
                p.kill(); results[n] = dict(harness=n, limit="time limit", obls=[], covers={}, assumed=[], inlined=[], contract=[]); continue
            nr.append((p, q, i, n, t))
        running = nr
        time.sleep(0.02)
    # native runs
    known = [k for k in load_known() if k.get("property") == prop and k.get("status") == "open"]
    viols = []; knownhits = {}
    def is_known(h, label):
        for k in known:
            if k["harness"] == h and label in k["labels"]: return k
        return None
    nruns = {}
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:allocator_may_return_null=1:exitcode=77:detect_odr_violation=0:symbolize=0")
    def nrun(exe, a, to=60):
        try: p = subprocess.run([exe] + a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=to, env=env, cwd=work)
        except subprocess.TimeoutExpired: return None, "timeout"
        return p.returncode, p.stdout
    def parse_fail(out):
        m = re.search(r"^FAILED (.*)$", out, re.M)
        return (m.group(1), re.findall(r"^INPUT (.*)$", out, re.M)) if m else None
    cexn = 0
    natrand = {}
    def rnd(t):
        i, n, pg = t
        exe = nat.get(i)
        if not exe: return n, None
        r = results.get(n)
        weak = r is None or r.get("limit") or any(o["res"] != "proved" for o in r["obls"])
        cnt, secs = (800, 3) if not weak else (20000, 20)
        if n in native_only: cnt, secs = 20000, 20
        if TIER != "quick": cnt, secs = cnt * 10, secs * 6
        rc, out = nrun(exe, [n, "random", str(SEED), str(cnt), str(secs)], secs + 30)
        return n, (rc, out)
    with ThreadPoolExecutor(6) as tp:
        for n, r in tp.map(rnd, tasks): natrand[n] = r
    lines = []
    ob_total = ob_proved = 0
    undecided = []
    backends = {}; tsolve = 0.0
    samples = []
    for i, n, pg in tasks:
        r = results.get(n)
        exe = nat.get(i)
        hviol = None
        nr_ = natrand.get(n)
        nf = parse_fail(nr_[1]) if nr_ and nr_[0] == 1 else None
        if nr_:
            m = re.search(r"SUMMARY ok (\d+) vacuous (\d+) limit (\d+) hang (\d+)", nr_[1] or "")
            if m:
                nruns[n] = dict(ok=int(m.group(1)), vacuous=int(m.group(2)), limit=int(m.group(3)), hang=int(m.group(4)))
                if int(m.group(3)): notes.append("%s: native run hit an unresolved external function" % n)
        if r is None:
            if n not in native_only: undecided.append(dict(harness=n, why="no proof attempted"))
        else:
            if r.get("limit"): undecided.append(dict(harness=n, why="verifier limit: " + r["limit"]))
            if verbose and r.get("limit"): print("LIMIT", n, r["limit"]); print(r.get("trace"))
            for o in r["obls"]:
                ob_total += 1; tsolve += o["time"]
                if o["res"] == "proved": ob_proved += 1; backends[o["backend"]] = backends.get(o["backend"], 0) + 1
                elif o["res"] == "unknown":
                    undecided.append(dict(harness=n, obligation=o["label"], where=o["where"], why="solver: " + str(o["reason"])))
                if verbose and (o["res"] != "proved" or o["time"] > 5): print("  ", n, o["label"], o["where"], o["res"], o["backend"], "%.1fs" % o["time"], o["reason"])
                if verbose and o["res"] == "refuted" and o["cex"]: print("      cex:", "; ".join(o["cex"])[:1500])
            if not r.get("limit"):
                if not r["obls"]: undecided.append(dict(harness=n, why="vacuous: no obligation generated"))
                for c, v in r["covers"].items():
                    if not v: undecided.append(dict(harness=n, why="vacuous: cover point not reachable: " + c))
            # refuted obligations
            byl = {}
            for o in r["obls"]:
                if o["res"] == "refuted": byl.setdefault((o["label"], o["where"]), []).append(o)
            for (label, where), os_ in byl.items():
                k = is_known(n, label)
                if k: knownhits[k["id"]] = k; continue
                rep = None
                for o in os_[:6]:
                    if exe and o["cex"] is not None:
                        cexn += 1
                        fn = "%s/cex%d" % (work, cexn)
                        open(fn, "w").write("\n".join(o["cex"]) + "\n")
                        rc, out = nrun(exe, [n, "replay", fn], 30)
                        f = parse_fail(out or "")
                        if f is None and rc == 0 and "hang 1" in out and "deadlock" in label: f = ("safety:hang (deadlock)", [])
                        if f and not is_known(n, f[0]): rep = dict(failed=f[0], inputs=o["cex"], native=f[1]); break
                viols.append(dict(harness=n, file=os.path.basename(files[i]), label=label, where=where, replayed=rep, cex=os_[0]["cex"], backend=os_[0]["backend"], kind="refuted obligation"))
            for o in r["obls"]:
                if o["res"] == "unknown" and not is_known(n, o["label"]) and "incomplete" in str(o["reason"]) and not r.get("limit"):
                    viols.append(dict(harness=n, file=os.path.basename(files[i]), label=o["label"], where=o["where"], replayed=None, cex=None, backend="z3", kind="obligation not discharged (%s)" % o["reason"]))
        if nf:
            k = is_known(n, nf[0])
            if k: knownhits[k["id"]] = k
            else: viols.append(dict(harness=n, file=os.path.basename(files[i]), label=nf[0], where="native run of the contract", replayed=dict(failed=nf[0], inputs=nf[1], native=nf[1], seed=SEED), cex=None, backend="native", kind="contract violated on a concrete run of the real code"))
    rc = 0
    viols.sort(key=lambda v: v["replayed"] is None)
    # a native failure in the same harness confirms refuted obligations of that harness
    if viols:
        rc = 1
        v = viols[0]
        rp = "%s/replay-%s.json" % (OUT, prop)
        json.dump(dict(property=prop, violations=viols[:40], how="python3-vt engine/check.py %s ; replay inputs are the values of the contract's arbitrary inputs" % prop), open(rp, "w"), indent=1)
        for v in viols[:10]: print("failed: %s [%s] harness %s at %s%s" % (v["label"], v["kind"], v["harness"], v["where"], "" if v["replayed"] else " (no failing input found)"))
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if viols[0]["replayed"] else " no-failing-input-found"))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    wall = time.time() - T0
    inl = set(); con = set(); asm = set()
    for r in results.values(): inl |= set(r["inlined"]); con |= set(r["contract"]); asm |= set(r["assumed"])
    def realfn(x):
        d = DEM(x)
        return ("SST::" in d) and not d.startswith(("std::", "void std::", "vf::", "vfh_")) and "vfh_" not in d and not re.match(r"(\w+ )?(std|__gnu_cxx|vf)::", d)
    fl = sorted({re.sub(r"\s+", " ", DEM(x))[:160] for x in inl if realfn(x)})
    fc = sorted({re.sub(r"\s+", " ", DEM(x))[:160] for x in con})
    ass = sorted(asm) + sum([pragmas(f).get("ASSUME", []) for f in files], [])
    bounded = sum([pragmas(f).get("BOUNDED", []) for f in files], [])
    ev = dict(property=prop, tier=TIER, seed=SEED, level="proof",
        coverage=dict(obligations=ob_total, discharged=ob_proved,
            checker_cmd="python3-vt engine/check.py " + prop,
            trusted_base=["clang 18 front end (C++ to LLVM IR at -O0)", "engine/core.py, engine/models.py, engine/irparse.py (VC generator)", "z3 %s, cvc5 as fallback" % z3v(), "assumed contracts listed under assumptions"],
            functions_verified=fl, functions_used_by_contract=fc, harnesses=[n for _, n, _ in tasks],
            back_ends=backends, solver_time_s=round(tsolve, 2), exec_time_s=round(sum(r.get("texec", 0) for r in results.values()), 2), compile_time_s=round(tcomp, 2),
            loops_cut=sorted({c for r in results.values() for c in r.get("cuts", {})}),
            covers={n: r["covers"] for n, r in results.items()},
            native_contract_runs=nruns, counterexamples_replayed=cexn,
            undecided=undecided, notes=notes, bounded=bounded,
            evaluations=sum(x["ok"] for x in nruns.values())),
        assumptions=ass + (["BOUNDED (not counted as proved): " + b for b in bounded]), wall_s=round(wall, 2), violations=len(viols))
    json.dump(ev, open(VERIF + "/evidence/%s.json" % prop, "w"), indent=1)
    for u in undecided[:20]: print("UNDECIDED:", json.dumps(u)[:600])
    for x in notes[:10]: print("NOTE:", x[:1500])
    print("%s: %d/%d obligations discharged, %d harnesses, %d native runs, %.1fs%s" % (prop, ob_proved, ob_total, len(tasks), sum(x["ok"] for x in nruns.values()), wall, " -- VIOLATED" if rc else ""))
    if verbose:
        for n, r in results.items(): print("   %-30s obls %3d exec %.1fs solve %.1fs outs %s covers %s" % (n, len(r["obls"]), r.get("texec", 0), r.get("tsolve", 0), r.get("outs"), r["covers"]))
        for n, x in nruns.items(): print("   native", n, x)
        for a in ass: print("   assume:", a)
    if "--strict" in sys.argv and (undecided or notes): return 3
    return rc
def z3v():
    import z3
    return z3.get_version_string()
def load_known():
    p = VERIF + "/known_findings.json"
    if not os.path.exists(p): return []
    return json.load(open(p))["findings"]
if __name__ == "__main__":
    main()
