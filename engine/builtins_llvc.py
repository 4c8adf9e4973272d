"""Contracts for functions outside /repo (trusted) and the harness primitives v_*."""
import z3
from llvc import *
import llvc as L


def setup(E, st):
    pass


def A(E, st, i, n):
    return E.cval(st, i["a"][n], i["at"][n])


def cstr(E, st, p):
    """python string behind a constant pointer (labels)"""
    out = []
    if isinstance(p, PSel):
        return "?"
    o = p.off
    log = E.getlog(st, p.obj)
    if log.k != "K":
        return "?"
    while True:
        b = E.kbyte(log, o)
        if not isinstance(b, int) or b == 0:
            break
        out.append(chr(b))
        o += 1
    return "".join(out)


def new_heap(E, st, size, name):
    o = E.newobj(st, name, size, kind="heap")
    Engine.objbyid[o.id] = o
    return o


def do_free(E, st, p, what):
    p = E.mkptr(p)
    for c, q in ptr_alts(p):
        if q.obj is None:
            o = simp(q.off)
            if isinstance(o, int):
                E.oblige(st, Not(c) if (o != 0 and is_z(c)) else (o == 0 or Not(c)), what + " of invalid pointer", "mem")
            continue
        ok = q.obj.kind == "heap" and q.obj not in st.freed
        if not ok:
            E.oblige(st, Not(c) if is_z(c) else (not c), what + " of non-heap or already freed object " + q.obj.name, "mem")
            continue
        off = simp(q.off) if is_z(q.off) else q.off
        E.oblige(st, Or(Not(c), (bv(off, 64) == 0) if is_z(off) else off == 0), what + " pointer is start of allocation", "mem")
        if c is True:
            st.freed = st.freed | {q.obj}


def const_n(E, st, n):
    if is_z(n):
        n = E.unique(st, n)
    return n


def mem_copy(E, st, d, s, n, what):
    d, s = E.mkptr(d), E.mkptr(s)
    n = simp(n) if is_z(n) else n
    if isinstance(n, int) and n == 0:
        return
    nz = True if isinstance(n, int) else (bv(n, 64) != 0)
    E.bounds(st, s, n, what + " source", nz)
    E.bounds(st, d, n, what + " destination", nz)
    # resolve source into one log (M over alternatives with shifted offsets is not expressible: split)
    alts = ptr_alts(s)
    if len(alts) == 1:
        q = alts[0][1]
        sl = E.getlog(st, q.obj)
        E.write_node(st, d, lambda l, o: Log("C", l, o, n, sl, q.off), n, what, False)
    else:
        logs = [(c, E.getlog(st, q.obj), q.off) for c, q in alts]

        def mk(l, o):
            r = None
            for c, sl, so in reversed(logs):
                x = Log("C", l, o, n, sl, so)
                r = x if r is None else Log("M", None, asbool(c), x, r)
            return r
        E.write_node(st, d, mk, n, what, False)


def mem_cmp(E, st, a, b, n, what):
    a, b = E.mkptr(a), E.mkptr(b)
    n = const_n(E, st, n)
    if isinstance(n, int) and n == 0:
        return 0
    if not isinstance(n, int):
        # bounded by the size of a constant operand?
        raise Unsupported("%s with symbolic length at %s" % (what, E.curd))
    E.bounds(st, a, n, what)
    E.bounds(st, b, n, what)
    r = 0
    for i in range(n - 1, -1, -1):
        x = E.load_bytes(st, E.padd(a, i), 1, what, False)
        y = E.load_bytes(st, E.padd(b, i), 1, what, False)
        if not is_z(x) and not is_z(y):
            if x != y:
                r = 1 if x > y else 0xffffffff
            continue
        X, Y = bv(x, 8), bv(y, 8)
        r = z3.If(X == Y, bv(r, 32), z3.If(z3.UGT(X, Y), z3.BitVecVal(1, 32), z3.BitVecVal(0xffffffff, 32)))
    return simp(r) if is_z(r) else r


FM1 = {"sqrt": "sqrt", "fabs": "fabs", "floor": "floor", "ceil": "ceil", "round": "round", "trunc": "trunc", "roundeven": "roundeven", "rint": "rint", "nearbyint": "rint"}
UFM = {"sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "pow", "atan2", "fmod", "log2", "exp2", "log10"}


def fpfun(E, st, nm, args, t):
    if E.o.real:
        x = args[0]
        if nm == "fabs":
            return z3.If(x >= 0, x, -x)
        if nm == "sqrt":
            k = ("sqrt", zs(x).get_id())
            if k not in L.FPC:
                r = z3.Real("sqrt!%d" % next(E.fresh))
                L.FPC[k] = (zs(x), r)
            r = L.FPC[k][1]
            st.assume(z3.And(r >= 0, z3.Implies(x >= 0, r * r == x)))
            return r
        if nm in ("min", "minnum", "fmin"):
            return z3.If(args[0] < args[1], args[0], args[1])
        if nm in ("max", "maxnum", "fmax"):
            return z3.If(args[0] > args[1], args[0], args[1])
        if nm == "copysign":
            z = E.freshbool("zerosign") if hasattr(E, "freshbool") else z3.Bool("zerosign!%d" % next(E.fresh))
            m = z3.If(args[0] >= 0, args[0], -args[0])
            return z3.If(z3.Or(args[1] > 0, z3.And(args[1] == 0, z)), m, -m)
        if nm in ("fmuladd", "fma"):
            return args[0] * args[1] + args[2]
        f = z3.Function("m_" + nm, *([z3.RealSort()] * (len(args) + 1)))
        return f(*args)
    x = args[0]
    if nm == "fabs":
        return zs(z3.fpAbs(x))
    if nm == "sqrt" and not E.o.uf_fp:
        return zs(z3.fpSqrt(z3.RNE(), x))
    rm = {"floor": z3.RTN, "ceil": z3.RTP, "trunc": z3.RTZ, "round": z3.RNA, "roundeven": z3.RNE, "rint": z3.RNE}.get(nm)
    if rm is not None:
        return zs(z3.fpRoundToIntegral(rm(), x))
    if nm in ("minnum", "fmin"):
        return z3.If(z3.fpIsNaN(args[1]), args[0], z3.If(z3.fpLT(args[1], args[0]), args[1], args[0]))
    if nm in ("maxnum", "fmax"):
        return z3.If(z3.fpIsNaN(args[1]), args[0], z3.If(z3.fpGT(args[1], args[0]), args[1], args[0]))
    if nm == "fma":
        return z3.fpFMA(z3.RNE(), *args)
    if nm == "fmuladd":
        if E.o.uf_fp:
            t = "float"
            return E.binop("fadd", E.binop("fmul", args[0], args[1], t, st), args[2], t, st)
        return z3.fpAdd(z3.RNE(), z3.fpMul(z3.RNE(), args[0], args[1]), args[2])
    f = z3.Function("m_" + nm + str(x.sort()), *([a.sort() for a in args] + [x.sort()]))
    E.trusted.add("libm %s (uninterpreted)" % nm)
    return f(*args)


def lanewise(v, fn):
    return [fn(x) for x in v] if isinstance(v, list) else fn(v)


def sx(v, w, to):
    if isinstance(v, int):
        return sgn(v, w) & ((1 << to) - 1)
    return z3.SignExt(to - w, v)


def zx(v, w, to):
    return v if isinstance(v, int) else z3.ZeroExt(to - w, v)


def satss16(v32):
    if isinstance(v32, int):
        s = sgn(v32, 32)
        return max(-32768, min(32767, s)) & 0xffff
    return simp(z3.If(v32 > 32767, z3.BitVecVal(0x7fff, 16), z3.If(v32 < -32768, z3.BitVecVal(0x8000, 16), z3.Extract(15, 0, v32))))


def op32(E, o, a, b, w=32):
    return E.binop(o, a, b, "i%d" % w, None)


def pshufb(E, a, m):
    out = []
    for lane in range(0, len(a), 16):
        for j in range(16):
            c = m[lane + j]
            if isinstance(c, Undef):
                c = E.undef("i8")
            if isinstance(c, int):
                out.append(0 if c & 0x80 else a[lane + (c & 15)])
            else:
                r = E.mux([a[lane + x] for x in range(16)], z3.Extract(3, 0, c), 8)
                hi = simp(z3.Extract(7, 7, c) == 1)
                out.append(E.ite(hi, 0, r, 8))
    return out


def crc_step(E, crc, byte):
    if E.o.crc_uf:      # congruence only; the interpretation is the lemma harness's business
        return z3.Function("x86_crc32b", z3.BitVecSort(32), z3.BitVecSort(8), z3.BitVecSort(32))(bv(crc, 32), bv(byte, 8))
    crc = bv(crc, 32) ^ z3.ZeroExt(24, bv(byte, 8))
    for _ in range(8):
        crc = z3.If(z3.Extract(0, 0, crc) == 1, z3.LShR(crc, 1) ^ z3.BitVecVal(0x82F63B78, 32), z3.LShR(crc, 1))
    return simp(crc)


def x86(E, st, nm, a, i):
    if nm.endswith("pshuf.b.128") or nm.endswith("pshuf.b"):
        return pshufb(E, a[0], a[1])
    if nm.endswith("pblendvb"):
        out = []
        for x, y, m in zip(a[0], a[1], a[2]):
            c = bool(m & 0x80) if isinstance(m, int) else simp(z3.Extract(7, 7, m) == 1)
            out.append(E.ite(c, y, x, 8))
        return out
    if "pmadd.ub.sw" in nm:
        out = []
        for j in range(0, len(a[0]), 2):
            p = [op32(E, "mul", zx(a[0][j + k], 8, 32), sx(a[1][j + k], 8, 32)) for k in (0, 1)]
            s = op32(E, "add", p[0], p[1])
            out.append(satss16(s))
        return out
    if "pmadd.wd" in nm:
        out = []
        for j in range(0, len(a[0]), 2):
            p = [op32(E, "mul", sx(a[0][j + k], 16, 32), sx(a[1][j + k], 16, 32)) for k in (0, 1)]
            out.append(op32(E, "add", p[0], p[1]))
        return out
    if "psrli.d" in nm or "psrli.w" in nm or "psrli.q" in nm:
        w = {"d": 32, "w": 16, "q": 64}[nm.split("psrli.")[1][0]]
        c = a[1]
        return [op32(E, "lshr", x, c, w) if not (isinstance(c, int) and c >= w) else 0 for x in a[0]]
    if "pslli.d" in nm or "pslli.w" in nm or "pslli.q" in nm:
        w = {"d": 32, "w": 16, "q": 64}[nm.split("pslli.")[1][0]]
        c = a[1]
        return [op32(E, "shl", x, c, w) if not (isinstance(c, int) and c >= w) else 0 for x in a[0]]
    if "crc32.32.8" in nm:
        return crc_step(E, a[0], a[1] if isinstance(a[1], int) else a[1])
    if "crc32.32.32" in nm or "crc32.64.64" in nm or "crc32.32.16" in nm:
        w = {"crc32.32.32": 32, "crc32.64.64": 64, "crc32.32.16": 16}[nm.split("sse42.")[1]]
        crc = a[0]
        if w == 64:
            crc = crc & 0xffffffff if isinstance(crc, int) else z3.Extract(31, 0, crc)
        for k in range(w // 8):
            crc = crc_step(E, crc, simp(z3.Extract(8 * k + 7, 8 * k, bv(a[1], w))))
        return zx(crc, 32, 64) if w == 64 else crc
    raise Unsupported("x86 intrinsic " + nm)


def intrinsic(E, st, nm, i):
    if nm.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.experimental.noalias", "llvm.invariant", "llvm.donothing", "llvm.prefetch", "llvm.var.annotation")):
        return (None,)
    if nm.startswith("llvm.memcpy") or nm.startswith("llvm.memmove"):
        mem_copy(E, st, A(E, st, i, 0), A(E, st, i, 1), A(E, st, i, 2), "memcpy")
        return (None,)
    if nm.startswith("llvm.memset"):
        d, b, n = E.mkptr(A(E, st, i, 0)), A(E, st, i, 1), A(E, st, i, 2)
        n = simp(n) if is_z(n) else n
        if isinstance(n, int) and n == 0:
            return (None,)
        nz = True if isinstance(n, int) else bv(n, 64) != 0
        E.bounds(st, d, n, "memset", nz)
        E.write_node(st, d, lambda l, o: Log("S", l, o, n, b), n, "memset", False)
        return (None,)
    args = [A(E, st, i, k) for k in range(len(i["a"]))]
    base = nm.split(".")[1]
    t = i["t"]
    if base == "x86":
        return (x86(E, st, nm, args, i),)
    et = t[2] if isinstance(t, list) and t[0] == "v" else t
    isv = isinstance(t, list) and t[0] == "v"

    def lw(fn, *vs):
        if isv:
            return [fn(*[v[k] for v in vs]) for k in range(t[1])]
        return fn(*vs)
    if base in ("umin", "umax", "smin", "smax"):
        pr = {"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[base]
        return (lw(lambda a, b: E.ite(E.icmp(pr, a, b, et), a, b, tw(et)), args[0], args[1]),)
    if base == "abs":
        return (lw(lambda a: E.ite(E.icmp("slt", a, 0, et), E.binop("sub", 0, a, et, None), a, tw(et)), args[0]),)
    if base in ("ctlz", "cttz"):
        w = tw(et)
        zu = args[1]

        def f(a):
            if isinstance(a, int):
                if a == 0:
                    return w
                return w - a.bit_length() if base == "ctlz" else (a & -a).bit_length() - 1
            r = z3.BitVecVal(w, w) if not (zu is True or zu == 1) else E.freshbv(w, "poison")
            rng = range(w) if base == "ctlz" else range(w - 1, -1, -1)
            for k in rng:
                r = z3.If(z3.Extract(k, k, a) == 1, z3.BitVecVal(w - 1 - k if base == "ctlz" else k, w), r)
            return r
        return (lw(f, args[0]),)
    if base == "ctpop":
        w = tw(et)

        def f(a):
            if isinstance(a, int):
                return bin(a).count("1")
            r = z3.BitVecVal(0, w)
            for k in range(w):
                r = r + z3.ZeroExt(w - 1, z3.Extract(k, k, a))
            return r
        return (lw(f, args[0]),)
    if base == "bswap":
        w = tw(et)
        return (lw(lambda a: int.from_bytes(a.to_bytes(w // 8, "little"), "big") if isinstance(a, int) else simp(z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, a) for k in range(w // 8)])), args[0]),)
    if base in ("fshl", "fshr"):
        w = tw(et)

        def f(a, b, c):
            c = c % w if isinstance(c, int) else z3.URem(c, z3.BitVecVal(w, w))
            ab = z3.Concat(bv(a, w), bv(b, w))
            if base == "fshl":
                r = z3.Extract(2 * w - 1, w, ab << z3.ZeroExt(w, bv(c, w)))
            else:
                r = z3.Extract(w - 1, 0, z3.LShR(ab, z3.ZeroExt(w, bv(c, w))))
            return simp(r)
        return (lw(f, *args),)
    if nm.split(".")[2:3] == ["with"]:
        op = base
        w = tw(t[1][0])
        a, b = bv(args[0], w), bv(args[1], w)
        k = op[1:]
        r = E.binop(k, args[0], args[1], "i%d" % w, None)
        ext = (lambda x: z3.ZeroExt(w, x)) if op[0] == "u" else (lambda x: z3.SignExt(w, x))
        wide = {"add": ext(a) + ext(b), "sub": ext(a) - ext(b), "mul": ext(a) * ext(b)}[k]
        ov = simp(wide != ext(bv(r, w)))
        return ([r, ov],)
    if nm.split(".")[2:3] == ["sat"]:
        w = tw(et)

        def f(a, b):
            if base == "usub":
                return E.ite(E.icmp("ult", a, b, et), 0, E.binop("sub", a, b, et, None), w)
            if base == "uadd":
                s = E.binop("add", a, b, et, None)
                return E.ite(E.icmp("ult", s, a, et), (1 << w) - 1, s, w)
            raise Unsupported(nm)
        return (lw(f, *args),)
    if base == "expect":
        return (args[0],)
    if base == "is":
        return (False,)
    if base == "objectsize":
        return ((1 << tw(t)) - 1,)
    if base in ("stacksave", "stackrestore"):
        return (NULL if t != "void" else None,)
    if base == "trap" or base == "ubsantrap":
        E.oblige(st, False, "trap reached", "reach")
        return None
    if base == "vector":
        op = nm.split(".")[3]
        v = args[0] if op not in ("fadd", "fmul") else args[1]
        vt = i["at"][0] if op not in ("fadd", "fmul") else i["at"][1]
        acc = v[0] if op not in ("fadd", "fmul") else args[0]
        for x in (v[1:] if op not in ("fadd", "fmul") else v):
            if op in ("umin", "umax", "smin", "smax"):
                pr = {"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[op]
                acc = E.ite(E.icmp(pr, acc, x, vt[2]), acc, x, tw(vt[2]))
            else:
                acc = E.binop(op, acc, x, vt[2], st)
        return (acc,)
    if base in ("sqrt", "fabs", "floor", "ceil", "round", "trunc", "rint", "nearbyint", "roundeven", "fmuladd", "fma", "minnum", "maxnum", "sin", "cos", "pow", "exp", "log", "tan"):
        return (lw(lambda *v: fpfun(E, st, "rint" if base == "nearbyint" else base, list(v), et), *args),)
    if base == "copysign":
        def f(a, b):
            if E.o.real:
                return fpfun(E, st, "copysign", [a, b], et)
            w = tw(et)
            A_, B_ = bv(fp2bv(a), w), bv(fp2bv(b), w)
            return E.tofp(z3.Concat(z3.Extract(w - 1, w - 1, B_), z3.Extract(w - 2, 0, A_)), et)
        return (lw(f, *args),)
    raise Unsupported("intrinsic " + nm)


NORETURN = ("abort", "exit", "_exit", "__assert_fail", "_ZSt9terminatev", "__cxa_throw", "__cxa_pure_virtual", "__stack_chk_fail", "_ZSt17__throw_bad_allocv")


def dispatch(E, st, nm, i):
    if nm.startswith("llvm."):
        return intrinsic(E, st, nm, i)
    a = lambda n: A(E, st, i, n)
    if nm.startswith("v_"):
        return verif(E, st, nm, i, a)
    if nm in ("_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"):
        n = a(0)
        n = simp(n) if is_z(n) else n
        E.trusted.add("operator new / malloc: returns a fresh object of the requested size, never fails")
        if is_z(n):
            # an allocation that large throws bad_alloc in reality; the path does not continue
            st.assume(z3.ULT(n, z3.BitVecVal(1 << 47, 64)))
        elif n >= 1 << 47:
            return None
        return (P(new_heap(E, st, n, "heap"), 0),)
    if nm == "calloc":
        n = E.binop("mul", a(0), a(1), "i64", st)
        o = new_heap(E, st, n, "heap")
        st.mem[o] = Log("S", st.mem[o], 0, n, 0)
        return (P(o, 0),)
    if nm.startswith("_ZdlPv") or nm.startswith("_ZdaPv") or nm == "free":
        do_free(E, st, a(0), "delete")
        return (None,)
    if nm in ("memcpy", "memmove"):
        mem_copy(E, st, a(0), a(1), a(2), nm)
        return (a(0),)
    if nm in ("memcmp", "bcmp"):
        return (mem_cmp(E, st, a(0), a(1), a(2), nm),)
    if nm == "strlen":
        p = E.mkptr(a(0))
        s = cstr(E, st, p)
        if s != "?":
            return (len(s),)
        raise Unsupported("strlen of symbolic string")
    if nm == "memchr":
        return memchr(E, st, E.mkptr(a(0)), a(1), a(2))
    if nm in NORETURN or "__throw_" in nm or i.get("noreturn"):
        E.oblige(st, False, "call to noreturn %s reached" % nm, "reach")
        return None
    base = nm[:-1] if nm.endswith("f") and nm[:-1] in (set(FM1) | UFM | {"fmin", "fmax"}) else nm
    if base in FM1:
        return (fpfun(E, st, FM1[base], [a(0)], i["t"]),)
    if base in UFM or base in ("fmin", "fmax"):
        return (fpfun(E, st, base, [a(k) for k in range(len(i["a"]))], i["t"]),)
    if nm in ("lroundf", "lround", "llroundf", "llround"):
        x = fpfun(E, st, "round", [a(0)], i["at"][0])
        return (E.cast("fptosi", x, i["at"][0], i["t"], st),)
    if nm in ("_ZNSt3pmr20get_default_resourceEv", "_ZNSt3pmr19new_delete_resourceEv"):
        return (pmr_resource(E, st),)
    if nm == "__pmr_allocate":
        o = new_heap(E, st, a(1), "pmrheap")
        n = a(1)
        if is_z(n):
            st.assume(z3.ULT(n, z3.BitVecVal(1 << 47, 64)))
        return (P(o, 0),)
    if nm == "__pmr_deallocate":
        do_free(E, st, a(1), "pmr deallocate")
        return (None,)
    if nm == "__pmr_is_equal":
        return (True,)
    if nm in ("__cxa_atexit", "__cxa_guard_release"):
        return (0 if i["t"] != "void" else None,)
    if nm == "__cxa_guard_acquire":
        return (1,)
    raise Unsupported("call to external function %s at %s" % (nm, i.get("d")))


def pmr_resource(E, st):
    if "pmr" not in E.gobj:
        r = Obj("pmr_resource", 8, "global")
        v = Obj("pmr_vtable", 64, "global")
        E.gobj["pmr"] = (r, v)
        Engine.objbyid[r.id] = r
        Engine.objbyid[v.id] = v
        E.trusted.add("std::pmr default resource: allocate/deallocate as new/delete")
    r, v = E.gobj["pmr"]
    if r not in st.mem:
        ent = {}
        for k, n in enumerate(["__pmr_dtor", "__pmr_dtor", "__pmr_allocate", "__pmr_deallocate", "__pmr_is_equal"]):
            ent[8 * k] = (8, E.fnptr(n))
        st.mem[v] = Log("K", None, ent, 64)
        st.mem[r] = Log("K", None, {0: (8, P(v, 0))}, 8)
    return P(r, 0)


def memchr(E, st, p, c, n):
    """trusted contract: null, or the first matching position"""
    n2 = const_n(E, st, n)
    if isinstance(n2, int) and n2 <= 64:
        if n2 == 0:
            return (NULL,)
        E.bounds(st, p, n2, "memchr")
        r = NULL
        cb = c & 0xff if isinstance(c, int) else simp(z3.Extract(7, 0, c))
        for k in range(n2 - 1, -1, -1):
            x = E.load_bytes(st, E.padd(p, k), 1, "memchr", False)
            r = E.ite(E.icmp("eq", x, cb, "i8"), E.padd(p, k), r, 64)
        return (r,)
    E.bounds(st, p, n, "memchr", bv(n, 64) != 0)
    if isinstance(p, PSel):
        raise Unsupported("memchr on pointer choice")
    pos = E.freshbv(64, "memchr")
    found = z3.Bool("memchrfound!%d" % next(E.fresh))
    cb = c & 0xff if isinstance(c, int) else simp(z3.Extract(7, 0, c))
    log = E.getlog(st, p.obj)
    at = E.load_log(st, log, add64(p.off, pos), 1)
    st.assume(z3.Implies(found, z3.And(z3.ULT(pos, bv(n, 64)), bv(at, 8) == bv(cb, 8))))
    # no earlier match: recorded as a universal fact, instantiated at ghost indices (v_inst)
    st.univ = st.univ + ((p, log, found, pos, n, cb),)
    return (mk_psel([(found, E.padd(p, pos)), (z3.Not(found), NULL)]),)


def inp(st, kind, name, val, extra=None):
    st.inputs = st.inputs + ((kind, name, val, extra),)


def verif(E, st, nm, i, a):
    if nm in ("v_u8", "v_u16", "v_u32", "v_u64"):
        w = int(nm[3:])
        name = cstr(E, st, a(0))
        v = E.freshbv(w, "in_" + name)
        inp(st, nm[2:], name, v)
        return (v,)
    if nm == "v_split":     # the run enumerates all values 0..n-1 in separate verifier processes
        name = cstr(E, st, a(0))
        if name not in E.o.splits:
            raise Unsupported("split %s not declared" % name)
        E.splits_seen[name] = a(1)
        v = E.o.splits[name]
        inp(st, "u64", name, z3.BitVecVal(v, 64))
        return (v,)
    if nm == "v_size":
        name = cstr(E, st, a(0))
        v = E.freshbv(64, "in_" + name)
        mx = a(1)
        st.assume(z3.ULE(v, bv(mx, 64)))
        inp(st, "u64", name, v)
        return (v,)
    if nm == "v_bool":
        name = cstr(E, st, a(0))
        v = E.freshbv(8, "in_" + name)
        inp(st, "u8", name, v)
        return (simp(z3.Extract(0, 0, v) == 1),)
    if nm in ("v_f32", "v_f64"):
        name = cstr(E, st, a(0))
        w = int(nm[3:])
        if E.o.real:
            v = z3.Real("in_%s!%d" % (name, next(E.fresh)))
            inp(st, "r%d" % w, name, v)
            return (v,)
        v = z3.FP("in_%s!%d" % (name, next(E.fresh)), z3.Float32() if w == 32 else z3.Float64())
        inp(st, "f%d" % w, name, v)
        return (v,)
    if nm == "v_bytes":
        n, name = a(0), cstr(E, st, a(1))
        uf = E.freshuf("in_" + name)
        o = E.newobj(st, name, n, Log("U", None, uf), kind="heap")
        Engine.objbyid[o.id] = o
        if is_z(n):
            st.assume(z3.ULT(n, z3.BitVecVal(1 << 47, 64)))
        inp(st, "bytes", name, uf, n)
        return (P(o, 0),)
    if nm == "v_words":     # arbitrary content, indexed by aligned words (the same bytes, a representation that suits element arrays)
        n, w, name = a(0), a(1), cstr(E, st, a(2))
        if w == 1:
            uf = E.freshuf("in_" + name)
            log = Log("U", None, uf)
        else:
            uf = z3.Function("in_%s!%d" % (name, next(E.fresh)), z3.BitVecSort(64), z3.BitVecSort(8 * w))
            log = Log("U", None, Words(uf, w))
        size = n * w if isinstance(n, int) else simp(n * z3.BitVecVal(w, 64))
        if is_z(n):
            st.assume(z3.ULT(n, z3.BitVecVal(1 << 47, 64)))
        o = E.newobj(st, name, size, log, kind="heap")
        Engine.objbyid[o.id] = o
        inp(st, "words" if w > 1 else "bytes", name, uf, size)
        return (P(o, 0),)
    if nm == "v_obj":      # uninitialised writable object
        n, name = a(0), cstr(E, st, a(1))
        o = E.newobj(st, name, n, kind="heap")
        Engine.objbyid[o.id] = o
        if is_z(n):
            st.assume(z3.ULT(n, z3.BitVecVal(1 << 47, 64)))
        return (P(o, 0),)
    if nm == "v_havoc":
        p, n = E.mkptr(a(0)), a(1)
        uf = E.freshuf("havoc")
        E.bounds(st, p, n, "havoc")
        E.write_node(st, p, lambda l, o: Log("H", l, o, n, _Shift(uf, o)), n, "havoc", False)
        return (None,)
    if nm == "v_assume":
        c = a(0)
        c = simp(c) if is_z(c) else c
        if isinstance(c, (bool, int)):
            return (None,) if c else None
        if not E.feasible(st.pc, c):
            return None
        st.assume(c)
        return (None,)
    if nm == "v_assert":
        E.oblige(st, a(0), cstr(E, st, a(1)), "assert")
        return (None,)
    if nm == "v_cover":
        lab = cstr(E, st, a(0))
        if E.dry == 0:
            E.cover.setdefault(lab, []).append(st.pc)
        return (None,)
    if nm in ("v_loopinv", "v_loopinv2", "v_inv", "v_axiom"):
        p, ctx = a(0), a(1)
        st.preds = st.preds + ((nm, p.obj.fn, ctx),)
        return (None,)
    if nm == "v_loopinv_clear":
        st.preds = ()
        return (None,)
    if nm == "v_inst":
        # instantiate "no earlier match" facts of memchr at index k of the given object
        p = E.mkptr(a(0))
        for (q, log, found, pos, n, cb) in st.univ:
            if q.obj is p.obj:
                k = sub64(p.off, q.off)
                b = E.load_log(st, log, p.off, 1)
                lim = z3.If(found, pos, bv(n, 64))
                st.assume(z3.Implies(z3.ULT(bv(k, 64), lim), bv(b, 8) != bv(cb, 8)))
        return (None,)
    if nm == "v_symbolic":
        return (True,)
    if nm == "v_unique":
        return (E.unique(st, a(0)),)
    if nm == "v_freed":
        p = E.mkptr(a(0))
        return (p.obj in st.freed,)
    if nm == "v_note":
        return (None,)
    raise Unsupported("unknown primitive " + nm)


class _Shift:
    """uninterpreted content addressed relative to the start of the havocked range"""

    def __init__(self, uf, base):
        self.uf = uf
        self.base = base

    def llvc_read(self, off, n):
        parts = [self.uf(bv(add64(sub64(off, self.base), k), 64)) for k in range(n)]
        return parts[0] if n == 1 else z3.Concat(*reversed(parts))


class Words:
    """uninterpreted content indexed by aligned words of w bytes"""

    def __init__(self, uf, w):
        self.uf, self.w, self.k = uf, w, w.bit_length() - 1

    def llvc_read(self, off, n):
        o = bv(off, 64)
        w, k = self.w, self.k
        lo = simp(z3.Extract(k - 1, 0, o))
        if isinstance(lo, int):
            if lo + n <= w:
                v = self.uf(bv(simp(z3.LShR(o, k)), 64))
                return v if n == w else z3.Extract(8 * (lo + n) - 1, 8 * lo, v)
            return concat_bytes([(self.llvc_read(add64(off, i), 1), 1) for i in range(n)])
        if n > 1:
            return concat_bytes([(self.llvc_read(add64(off, i), 1), 1) for i in range(n)])
        v = self.uf(bv(simp(z3.LShR(o, k)), 64))
        r = z3.Extract(8 * w - 1, 8 * w - 8, v)
        for i in range(w - 1):
            r = z3.If(lo == i, z3.Extract(8 * i + 7, 8 * i, v), r)
        return r
