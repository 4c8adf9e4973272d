"""Loop cut points: inductive invariants are guessed (linear progress, bounds, harness predicates) and PROVED
(initiation and consecution, Houdini-style); only proved ones are used."""
import z3, time
from llvc import *
import llvc as L
import lia

DEBUG = False


def dbg(*a):
    if DEBUG:
        print("   [loop]", *a)


class Scalar:
    """a header phi or a modified memory cell with constant offset"""
    __slots__ = ("kind", "id", "t", "obj", "off", "n", "init", "slope", "objs", "w", "name")


def get_val(E, s, sc):
    if sc.kind == "phi":
        return s.regs[sc.id]
    return E.load_log(s, E.getlog(s, sc.obj), sc.off, sc.n)


def num(v):
    """integer view of a scalar value (pointer -> offset)"""
    if isinstance(v, P):
        return v.off
    return v


def prove(E, pc, goal, ms=20000):
    if isinstance(goal, (bool, int)):
        return bool(goal)
    g = simp(goal)
    if isinstance(g, (bool, int)):
        return bool(g)
    E.check_deadline()
    if not lia.content(g):
        if E.lia0.refutes(pc.nodes(), [z3.Not(g)], 500):
            return True
        if E.lia.refutes(pc.nodes(), [z3.Not(g)], 1000):
            return True
    E.sync(pc)
    r = E.isolver.check(z3.Not(g))
    if r == z3.unsat:
        return True
    if r == z3.sat:
        return False
    if lia.Combo(E.lia0, pc.nodes(), time.time() + ms / 1000).prove(g):
        return True
    if lia.Combo(E.lia, pc.nodes(), time.time() + ms / 1000).prove(g):
        return True
    s = z3.Solver()
    s.set("timeout", ms)
    for c in pc.list():
        s.add(c)
    s.add(z3.Not(g))
    if DEBUG:
        import os
        os.makedirs("/tmp/q", exist_ok=True)
        open("/tmp/q/%d.smt2" % len(os.listdir("/tmp/q")), "w").write(s.to_smt2())
    return s.check() == z3.unsat


def ite_cond(g, bmax=4000):
    """condition of some bit-vector if-then-else below g (an innermost-free one is not needed)"""
    st, seen = [g], set()
    while st and len(seen) < bmax:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if e.decl().kind() == z3.Z3_OP_ITE and z3.is_bv(e):
            return e.arg(0)
        st.extend(e.children())
    return None


def prove_cases(E, pc, g, depth=3):
    """case split on the merge conditions inside the goal, then prove"""
    c = ite_cond(g) if depth else None
    if c is None:
        return prove(E, pc, g)
    for v in (True, False):
        cc = c if v else simp(z3.Not(c))
        g2 = simp(z3.substitute(g, (c, z3.BoolVal(v))))
        if isinstance(g2, (bool, int)):
            if g2:
                continue
        pc2 = PC(pc, asbool(cc), True)
        if isinstance(g2, (bool, int)):
            E.sync(pc2)
            if E.isolver.check() == z3.unsat:
                continue
            return False
        if not prove_cases(E, pc2, g2, depth - 1):
            return False
    return True


def prune(E, jobs, live):
    """largest subset of `live` provable at every (pc, [(cand, goal)]) job; refuted ones are dropped by model"""
    dead = set()
    for pc, lst in jobs:
        todo = []
        for x, g in lst:
            g = simp(g)
            if isinstance(g, (bool, int)):
                if not g:
                    dead.add(id(x))
                continue
            todo.append((x, g))
        # drop by models
        todo = [(x, g) for x, g in todo if id(x) not in dead]
        unk = []
        while todo:
            E.check_deadline()
            E.sync(pc)
            r = E.isolver.check(z3.Not(z3.And(*[g for _, g in todo])))
            if r == z3.unsat:
                break
            if r == z3.sat:
                m = E.isolver.model()
                rest = [(x, g) for x, g in todo if not z3.is_false(m.eval(g, model_completion=True))]
                if len(rest) == len(todo):
                    unk = todo
                    break
                for x, g in todo:
                    if all(x is not y for y, _ in rest):
                        dead.add(id(x))
                todo = rest
                continue
            unk = todo
            break
        for x, g in unk:
            t1 = time.time()
            pr = prove_cases(E, pc, g)
            if DEBUG and time.time() - t1 > 1:
                dbg("slow %.1f" % (time.time() - t1), pr, x[0], str(g)[:1500])
                dbg("pc", [str(n.c)[:700] for n in pc.nodes()[-14:]])
            if not pr:
                dead.add(id(x))
    return [x for x in live if id(x) not in dead]


def eval_pred(E, st, fn, ctx, args):
    s = st.copy()
    s.preds = ()
    base = s.pc
    E.dry += 1
    E.pure += 1
    sw = E.written
    E.written = []
    d = E.curd
    nf = E.nofeas
    E.nofeas = True
    try:
        rets = E.call(s, fn, [ctx] + args)
    finally:
        E.dry -= 1
        E.pure -= 1
        E.written = sw
        E.nofeas = nf
        E.curd = d
    forms = []
    nb = len(base.nodes())
    for s2, v in rets:
        suf = [n.c for n in s2.pc.nodes()[nb:]]
        forms.append(And(*(suf + [asbool(v)])))
    return simp(asbool(Or(*forms)))


def delin(e):
    """Concat(Extract(w-k-1,0,X), c) -> X*2^k + c inside sums (so that constants cancel)"""
    if not is_z(e):
        return e
    k = e.decl().kind()
    if k == z3.Z3_OP_BADD:
        r = None
        for c in e.children():
            x = delin(c)
            r = x if r is None else r + x
        return r
    if k == z3.Z3_OP_CONCAT and e.num_args() == 2 and z3.is_bv_value(e.arg(1)):
        a, c = e.arg(0), e.arg(1)
        if z3.is_app_of(a, z3.Z3_OP_EXTRACT):
            hi, lo = a.params()
            X = a.arg(0)
            if lo == 0 and X.size() == e.size() and hi == e.size() - c.size() - 1:
                return X * z3.BitVecVal(1 << c.size(), e.size()) + z3.BitVecVal(c.as_long(), e.size())
    return e


def undef_phi(E, v, t):
    return E.undef(t) if isinstance(v, Undef) else v


def invariant_loop(E, f, h, st, rets):
    where = f.loops[h]["where"]
    tstart = time.time()
    phis = [i for i in f.blocks[h] if i["op"] == "phi"]
    for i in phis:
        st.regs[i["id"]] = undef_phi(E, st.regs[i["id"]], i["t"])
    E.stats["loops_inv"] += 1
    E.dry += 1
    mod = {}        # obj -> dict of (off,n) const cells, or "all"
    phiobjs = {i["id"]: set(q.obj for _, q in ptr_alts(st.regs[i["id"]])) for i in phis if isinstance(st.regs[i["id"]], (P, PSel))}
    rawphi = set()
    cellobjs = {}
    slopes = {}     # scalar key -> slope
    N = E.freshbv(64, "iter")
    d0 = E.curd

    def fresh_val(v0, t, key, objs):
        if key in slopes:
            c = slopes[key]
            if isinstance(v0, P):
                return P(v0.obj, add64(v0.off, simp(N * z3.BitVecVal(c & M64, 64))))
            w = v0.size() if is_z(v0) else tw(t)
            nn = N if w == 64 else (z3.Extract(w - 1, 0, N) if w < 64 else z3.ZeroExt(w - 64, N))
            return simp(bv(v0, w) + nn * z3.BitVecVal(c, w))
        if objs is not None:
            ol = sorted(objs, key=lambda o: -1 if o is None else o.id)
            alts = []
            rest = True
            for k, o in enumerate(ol):
                g = True
                if len(ol) > 1:
                    if k < len(ol) - 1:
                        b = z3.Bool("pobj!%d" % next(E.fresh))
                        g = And(rest, b)
                        rest = And(rest, z3.Not(b))
                    else:
                        g = rest
                alts.append((g, P(o, E.freshbv(64, "hoff"))))
            return alts[0][1] if len(alts) == 1 else PSel(alts)
        if isinstance(t, list):
            return E.undef(t) if t[0] != "v" else [E.undef(t[2]) for _ in range(t[1])]
        return E.undef(t)

    def header_state():
        s = st.copy()
        for i in phis:
            key = ("phi", i["id"])
            s.regs[i["id"]] = fresh_val(st.regs[i["id"]], i["t"], key, phiobjs.get(i["id"]) if i["id"] not in rawphi else None)
        for o, cells in mod.items():
            if cells == "all":
                s.mem[o] = Log("U", None, E.freshuf("loop"))
            else:
                lg = s.mem[o] if o in s.mem else E.getlog(s, o)
                for (off, n) in sorted(cells):
                    key = ("cell", o, off, n)
                    t = {1: "i8", 2: "i16", 4: "i32", 8: "i64"}.get(n)
                    v0 = E.load_log(st, E.getlog(st, o), off, n) if t else None
                    if t and (key in slopes or key in cellobjs):
                        v = fresh_val(v0, t, key, cellobjs.get(key))
                        lg = Log("W", lg, off, n, v)
                    elif t:
                        if is_z(v0) and z3.is_fp(v0):
                            v = E.undef("float" if n == 4 else "double")
                        else:
                            v = E.freshbv(8 * n, "cell")
                        lg = Log("W", lg, off, n, v)
                    else:
                        from builtins_llvc import _Shift
                        lg = Log("H", lg, off, n, _Shift(E.freshuf("cell"), off))
                s.mem[o] = lg
        return s

    def scalars():
        r = []
        for i in phis:
            t = i["t"]
            v0 = st.regs[i["id"]]
            if isinstance(t, str) and (t == "ptr" or t[0] == "i"):
                if t == "i1":
                    continue
                if t == "ptr" and not isinstance(v0, P):
                    continue
                sc = Scalar()
                sc.kind, sc.id, sc.t = "phi", i["id"], t
                sc.init = v0
                sc.name = "phi%d" % i["id"]
                r.append((("phi", i["id"]), sc))
        for o, cells in mod.items():
            if cells == "all":
                continue
            for (off, n) in sorted(cells):
                if n in (1, 2, 4, 8):
                    sc = Scalar()
                    sc.kind, sc.obj, sc.off, sc.n = "cell", o, off, n
                    sc.t = {1: "i8", 2: "i16", 4: "i32", 8: "i64"}[n]
                    sc.init = E.load_log(st, E.getlog(st, o), off, n)
                    if is_z(sc.init) and (z3.is_fp(sc.init) or z3.is_real(sc.init)):
                        continue
                    sc.name = "%s+%d" % (o.name, off)
                    r.append((("cell", o, off, n), sc))
        return r

    def overlap_fix(cells):
        """merge overlapping constant cells"""
        l = sorted(cells)
        out = []
        for off, n in l:
            if out and off < out[-1][0] + out[-1][1]:
                po, pn = out[-1]
                out[-1] = (po, max(po + pn, off + n) - po)
            else:
                out.append((off, n))
        return set(out)

    try:
        # ---- A: modset + pointer targets + slopes to a fixpoint
        for rnd in range(14):
            s = header_state()
            s.assume(z3.ULT(N, z3.BitVecVal(1 << 62, 64)))
            hdr = s.copy()
            rec = {}
            E.written.append(rec)
            r2 = []
            exits, backs = E.exec_body(f, h, s, r2)
            E.written.pop()
            changed = False
            for o, ws in rec.items():
                if o is not None and o not in st.mem:
                    continue
                for off, n in ws:
                    cur = mod.get(o)
                    if cur == "all":
                        continue
                    if isinstance(off, int) and isinstance(n, int):
                        if cur is None:
                            cur = mod[o] = set()
                        if not any(a <= off and off + n <= a + b for a, b in cur):
                            cur.add((off, n))
                            mod[o] = overlap_fix(cur)
                            changed = True
                    else:
                        mod[o] = "all"
                        changed = True
            # pointer targets
            for s2, p2 in backs:
                s3 = s2.copy()
                E.do_phis(f, h, s3, p2)
                for i in phis:
                    k = i["id"]
                    v = s3.regs[k]
                    if k in phiobjs and k not in rawphi:
                        if isinstance(v, (P, PSel)):
                            ob = set(q.obj for _, q in ptr_alts(v))
                            new = ob - phiobjs[k]
                            if new:
                                if any(o is not None and o not in st.mem for o in new):
                                    rawphi.add(k)
                                phiobjs[k] |= ob
                                slopes.pop(("phi", k), None)
                                changed = True
                for o, cells in mod.items():
                    if cells == "all":
                        continue
                    for off, n in cells:
                        if n != 8 or o not in s3.mem:
                            continue
                        key = ("cell", o, off, n)
                        v = E.load_log(s3, s3.mem[o], off, n)
                        v0 = E.load_log(st, E.getlog(st, o), off, n)
                        if isinstance(v, (P, PSel)) and isinstance(v0, (P, PSel)):
                            ob = set(q.obj for _, q in ptr_alts(v)) | set(q.obj for _, q in ptr_alts(v0))
                            if key not in cellobjs or not ob <= cellobjs[key]:
                                if any(o2 is not None and o2 not in st.mem for o2 in ob):
                                    cellobjs.pop(key, None)
                                else:
                                    cellobjs[key] = cellobjs.get(key, set()) | ob
                                slopes.pop(key, None)
                                changed = True
                        elif key in cellobjs:
                            del cellobjs[key]
                            slopes.pop(key, None)
                            changed = True
            if not changed:
                # slopes
                newslopes = {}
                for key, sc in scalars():
                    ok = True
                    c = None
                    hv = get_val(E, hdr, sc)
                    if isinstance(hv, PSel) or isinstance(sc.init, PSel):
                        continue
                    if isinstance(sc.init, P) and not isinstance(hv, P):
                        continue
                    for s2, p2 in backs:
                        s3 = s2.copy()
                        E.do_phis(f, h, s3, p2)
                        nv = get_val(E, s3, sc)
                        if isinstance(nv, (PSel, Undef)) or isinstance(nv, P) != isinstance(hv, P) or (isinstance(nv, P) and nv.obj is not hv.obj):
                            ok = False
                            break
                        if isinstance(nv, P):
                            d = sub64(nv.off, hv.off)
                        else:
                            w = tw(sc.t)
                            d = simp(bv(nv, w) - bv(hv, w))
                        if not isinstance(d, int) or (c is not None and c != d):
                            ok = False
                            break
                        c = d
                    if ok and c is not None:
                        newslopes[key] = c
                if newslopes != slopes:
                    # once a slope fails it must not come back
                    bad = [k for k in slopes if k not in newslopes]
                    if bad and rnd > 8:
                        raise Unsupported("loop slopes do not stabilise at " + where)
                    slopes = newslopes
                    continue
                break
        else:
            raise Unsupported("loop modset does not stabilise at " + where)
        dbg(where, "mod", {str(o): c for o, c in mod.items()}, "slopes", {str(k): v for k, v in slopes.items()})

        # ---- B: candidates
        scl = scalars()
        nb = len(st.pc.nodes())
        atoms = {}

        def collect(e, depth=0):
            if depth > 6:
                return
            k = e.decl().kind()
            if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT) or (k == z3.Z3_OP_ITE and z3.is_bool(e)):
                for ch in e.children():
                    collect(ch, depth + 1)
            elif k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT, z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
                a, b = e.arg(0), e.arg(1)
                if z3.is_bv(a):
                    atoms[(a.get_id(), b.get_id())] = (a, b, k)
        for s2, _ in backs + [(x[1], x[2]) for x in exits]:
            for n in s2.pc.nodes()[nb:]:
                if n.br:
                    collect(n.c)

        hv = {}
        for key, sc in scl:
            hv[key] = num(get_val(E, hdr, sc))
        hvars = set()

        def fv(e, acc, seen):
            if e.get_id() in seen:
                return
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(e.get_id())
            for ch in e.children():
                fv(ch, acc, seen)

        loopvars = {N.get_id()}
        for key, sc in scl:
            if key not in slopes and is_z(hv[key]):
                loopvars.add(hv[key].get_id())

        def is_invariant(e):
            acc = set()
            fv(e, acc, set())
            return not (acc & loopvars) and not any_fresh(e)

        # values created inside the body are not invariant either; detect by name counter
        startcnt = int(N.decl().name().split("!")[-1])

        def any_fresh(e):
            acc = []
            seen = set()
            stack = [e]
            while stack:
                x = stack.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    nm = x.decl().name()
                    if "!" in nm and not nm.startswith("addr!"):
                        try:
                            if int(nm.split("!")[-1]) >= startcnt:
                                return True
                        except ValueError:
                            pass
                stack.extend(x.children())
            return False

        used = set()
        for s2, p2 in backs + [(x[1], None) for x in exits]:
            for n in s2.pc.nodes()[nb:]:
                fv(n.c, used, set())
            if p2 is not None:
                s3 = s2.copy()
                E.do_phis(f, h, s3, p2)
                for key, sc in scl:
                    v = num(get_val(E, s3, sc))
                    hvv = hv[key]
                    if is_z(v) and not (is_z(hvv) and v.eq(hvv)):
                        fv(v, used, set())
                for o in mod:
                    lg = s3.mem.get(o)
                    base = hdr.mem.get(o)
                    n = 0
                    while lg is not None and lg is not base and n < 200:
                        if lg.k == "W" and is_z(lg.c):
                            fv(lg.c, used, set())
                        if lg.k in ("W", "C", "S") and is_z(lg.a):
                            fv(lg.a, used, set())
                        if lg.k == "M":
                            break
                        lg = lg.par
                        n += 1
        scl = [(key, sc) for key, sc in scl if key in slopes or sc.kind == "phi" or (is_z(hv[key]) and hv[key].get_id() in used)]
        bmeta = {}
        cands = []   # (name, fn(env)) env: dict N, vals (key->number), st

        def addc(name, fn):
            cands.append([name, fn])

        if slopes:
            pass
        # bounds on N from exit comparisons
        bseen = set()

        def slope_of(e):
            e1 = z3.substitute(e, (N, N + 1))
            d = simp(e1 - e)
            return d if isinstance(d, int) else None

        for a, b, ak in list(atoms.values()):
            sg = ak in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT)
            for X, Y in ((a, b), (b, a)):
                if is_invariant(Y) and not is_invariant(X):
                    w = X.size()
                    c = slope_of(X)
                    if c is None or c == 0:
                        # non-linear: bound candidates for scalars directly
                        continue
                    X0 = simp(z3.substitute(X, (N, z3.BitVecVal(0, 64))))
                    neg = sgn(c, w) < 0
                    cm = -sgn(c, w) if neg else c
                    df = simp(Y - X0)
                    k = (df if isinstance(df, int) else df.get_id(), c, sg)
                    E.keepalive.append(df)
                    if k in bseen:
                        continue
                    bseen.add(k)
                    lo, hi = (bv(X0, w), Y) if not neg else (Y, bv(X0, w))
                    W = max(w, 64) + cm.bit_length() + 2

                    def mkb(lo, hi, cm, slack, w, signed):
                        def g(env):
                            n = env["N"]
                            nn = z3.ZeroExt(W - 64, n) if is_z(n) else z3.BitVecVal(n, W)
                            if signed:
                                diff = z3.SignExt(W - w, hi) - z3.SignExt(W - w, lo)
                                le = lo <= hi
                            else:
                                diff = z3.ZeroExt(W - w, hi) - z3.ZeroExt(W - w, lo)
                                le = z3.ULE(lo, hi)
                            zero = (n == 0) if is_z(n) else z3.BoolVal(n == 0)
                            return z3.If(le, z3.ULE(nn * z3.BitVecVal(cm, W), diff + z3.BitVecVal(slack, W)), zero)
                        return g
                    for sl in (0, cm - 1):
                        bmeta["%sN*%d <= %s - %s%s" % ("s" if sg else "", cm, str(hi)[:40], str(lo)[:40], " + %d" % sl if sl else "")] = (lo, hi, cm, sl, w)
                    addc("%sN*%d <= %s - %s" % ("s" if sg else "", cm, str(hi)[:40], str(lo)[:40]), mkb(lo, hi, cm, 0, w, sg))
                    if cm > 1:
                        addc("%sN*%d <= %s - %s + %d" % ("s" if sg else "", cm, str(hi)[:40], str(lo)[:40], cm - 1), mkb(lo, hi, cm, cm - 1, w, sg))
        # generic bounds of non-linear scalars
        for key, sc in scl:
            if key in slopes:
                continue
            w = 64 if sc.t == "ptr" else tw(sc.t)
            v0 = num(sc.init)
            if isinstance(v0, (PSel, Undef)):
                continue
            V0 = bv(v0, w)
            addc(sc.name + " >= init", lambda env, key=key, V0=V0, w=w: z3.UGE(bv(env["v"][key], w), V0))
            addc(sc.name + " <= init", lambda env, key=key, V0=V0, w=w: z3.ULE(bv(env["v"][key], w), V0))
            addc(sc.name + " s>= init", lambda env, key=key, V0=V0, w=w: bv(env["v"][key], w) >= V0)
            addc(sc.name + " <= init + N", lambda env, key=key, V0=V0, w=w: z3.ULE(bv(env["v"][key], w) - V0, (bv(env["N"], 64) if w == 64 else z3.Extract(w - 1, 0, bv(env["N"], 64)))) if w <= 64 else z3.BoolVal(True))
            seen = set()
            for a, b, _ in atoms.values():
                for Y in (a, b):
                    if Y.size() == w and is_invariant(Y) and Y.get_id() not in seen:
                        seen.add(Y.get_id())
                        addc(sc.name + " <= " + str(Y)[:30], lambda env, key=key, Y=Y, w=w: z3.ULE(bv(env["v"][key], w), Y))
                        addc(sc.name + " < " + str(Y)[:30], lambda env, key=key, Y=Y, w=w: z3.ULT(bv(env["v"][key], w), Y))
            # relations with other scalars
            for key2, sc2 in scl:
                if key2 == key:
                    continue
                w2 = 64 if sc2.t == "ptr" else tw(sc2.t)
                if w2 == w and (sc.t == "ptr") == (sc2.t == "ptr"):
                    addc("%s <= %s" % (sc.name, sc2.name), lambda env, key=key, key2=key2, w=w: z3.ULE(bv(env["v"][key], w), bv(env["v"][key2], w)))
                    addc("%s >= %s" % (sc.name, sc2.name), lambda env, key=key, key2=key2, w=w: z3.UGE(bv(env["v"][key], w), bv(env["v"][key2], w)))
        for i in phis:
            if i["t"] == "i1":
                v0 = st.regs[i["id"]]
                addc("phi%d == init" % i["id"], lambda env, k=i["id"], v0=v0: asbool(env["st"].regs[k]) == asbool(v0))
        # harness predicates
        terms = [("N", lambda env: env["N"])]
        tseen = set()
        for key, sc in scl:
            w = 64 if sc.t == "ptr" else tw(sc.t)
            if w not in (8, 16, 32, 64):
                continue

            def term(env, key=key, w=w):
                v = env["v"][key]
                if w == 64:
                    return v
                return v if isinstance(v, int) else z3.ZeroExt(64 - w, v)
            e = simp(term(dict(N=N, v=hv)))
            kk = e if isinstance(e, int) else e.get_id()
            if kk in tseen or (is_z(e) and e.eq(N)):
                continue
            tseen.add(kk)
            terms.append((sc.name, term))
            v0 = num(sc.init)
            if is_z(v0) or v0 != 0:
                # progress relative to the initial value
                def term2(env, term=term, v0=v0, w=w):
                    return sub64(term(env), v0 if isinstance(v0, int) else (v0 if w == 64 else z3.ZeroExt(64 - w, v0)))
                e2 = simp(term2(dict(N=N, v=hv)))
                if not (is_z(e2) and e2.get_id() in tseen) and not isinstance(e2, int):
                    tseen.add(e2.get_id())
                    terms.append((sc.name + "-init", term2))
                    def term3(env, term2=term2):
                        return sub64(0, term2(env))
                    if key in slopes and sgn(slopes[key], w) < 0 or key not in slopes:
                        terms.append(("init-" + sc.name, term3))
        for kind, fn, ctx in st.preds:
            if kind == "v_axiom":
                continue
            if kind == "v_inv":
                addc("inv %s" % fn, lambda env, fn=fn, ctx=ctx: eval_pred(E, env["st"], fn, ctx, [0]))
            elif kind == "v_loopinv":
                for tn, tf in terms:
                    addc("%s(%s)" % (fn, tn), lambda env, fn=fn, ctx=ctx, tf=tf: eval_pred(E, env["st"], fn, ctx, [tf(env)]))
            else:
                for tn, tf in terms:
                    for tn2, tf2 in terms:
                        if tn != tn2:
                            addc("%s(%s,%s)" % (fn, tn, tn2), lambda env, fn=fn, ctx=ctx, tf=tf, tf2=tf2: eval_pred(E, env["st"], fn, ctx, [tf(env), tf2(env)]))

        def axioms(s, env):     # definitional facts about ghost inputs, instantiated at the loop's terms
            seen = set()
            for kind, fn, ctx in s.preds:
                if kind == "v_axiom":
                    for tn, tf in terms:
                        v = tf(env)
                        k = v if isinstance(v, int) else zs(v).get_id()
                        if k not in seen:
                            seen.add(k)
                            try:
                                s.assume(eval_pred(E, s, fn, ctx, [v]))
                            except Unsupported:
                                pass

        def envof(s, n):
            return dict(N=n, st=s, v={key: num(get_val(E, s, sc)) for key, sc in scl})

        # ---- C: Houdini
        e0 = envof(st, 0)
        init = []
        eh = envof(hdr, N)
        hseen = set()
        for nm, fn in cands:
            try:
                ch = fn(eh)
                ch = simp(ch)
                kk = ch if isinstance(ch, bool) else ch.get_id()
                if isinstance(ch, bool) or kk in hseen:
                    dbg("candidate", nm, "skipped", ch if isinstance(ch, bool) else "dup")
                    continue
                hseen.add(kk)
                E.keepalive.append(ch)
                init.append([nm, fn, asbool(fn(e0))])
            except (Unsupported, AttributeError) as ex:
                dbg("candidate", nm, "unusable:", ex)
                continue
        live = prune(E, [(st.pc, [(x, x[2]) for x in init])], init)
        dbg("not initial", [(x[0], str(x[2])[:200]) for x in init if all(x is not y for y in live)])
        dbg(where, len(cands), "candidates,", len(live), "initially true")
        rounds = 0
        while True:
            rounds += 1
            s = header_state()
            s.assume(z3.ULT(N, z3.BitVecVal(1 << 62, 64)))
            eh = envof(s, N)
            for nm, fn, _ in live:
                s.assume(fn(eh))
            axioms(s, eh)
            hdr2 = s.copy()
            r2 = []
            exits, backs = E.exec_body(f, h, s, r2)
            for s2, p2 in backs:
                E.do_phis(f, h, s2, p2)
            jobs = []
            bad = set()
            for s2, p2 in backs:
                lst = []
                eb = envof(s2, simp(N + 1))
                for x in live:
                    if id(x) in bad:
                        continue
                    try:
                        lst.append((x, asbool(x[1](eb))))
                    except Unsupported:
                        bad.add(id(x))
                jobs.append((s2.pc, lst))
            keep = prune(E, jobs, [x for x in live if id(x) not in bad])
            drop = [x for x in live if x not in keep]
            if drop:
                dbg("round", rounds, "dropped", [d[0] for d in drop][:20])
            live = keep
            if not drop:
                break
        dbg(where, "invariant:", [l[0] for l in live], "time %.1f" % (time.time() - tstart))
    finally:
        E.dry -= 1
        E.curd = d0
    # ---- D: real pass
    s = header_state()
    s.assume(z3.ULT(N, z3.BitVecVal(1 << 62, 64)))
    eh = envof(s, N)
    for nm, fn, _ in live:
        s.assume(fn(eh))
    axioms(s, eh)
    if E.dry == 0:
        E.invariants.append(dict(loop=where, invariants=["%s = init%+d*N" % (str(k[1]), sgn(v, 64)) for k, v in slopes.items()] + [l[0] for l in live]))
        for nm, fn, _ in live:
            for ph in ("initiation", "consecution"):
                ob = Obligation(None, True, "loop invariant %s: %s" % (ph, nm), where, (), "inv")
                ob.status = "proved"
                ob.backend = "z3"
                E.bufs[-1].append(ob)
    # havocked objects count as written for enclosing loops
    for o, cells in mod.items():
        for w in E.written:
            if cells == "all":
                w.setdefault(o, []).append((z3.BitVec("anyoff", 64), 1))
            else:
                for c in cells:
                    w.setdefault(o, []).append(c)
    exits, backs = E.exec_body(f, h, s, rets)
    if not E.nofeas:
        # the exit often fixes the iteration count: record N == (hi - lo + slack) / step where it is provable
        for x in exits:
            for nm in [l[0] for l in live if l[0] in bmeta]:
                lo, hi, cm, sl, w = bmeta[nm]
                d = simp(delin(simp(hi)) - delin(simp(lo)) + z3.BitVecVal(sl, w))
                if w < 64:
                    d = simp(z3.ZeroExt(64 - w, bv(d, w)))
                D = bv(d, 64)
                c = simp(z3.LShR(D, cm.bit_length() - 1)) if cm & (cm - 1) == 0 else simp(z3.UDiv(D, z3.BitVecVal(cm, 64)))
                eq = simp(N == bv(c, 64))
                if is_z(eq) and E.lia0.refutes(x[1].pc.nodes(), [z3.Not(eq)], 300):
                    x[1].assume(eq)
                    dbg(where, "exit count", eq)
                    break
    return exits
