"""Verify one harness: generate every verification condition from the IR of the real code and discharge it."""
import json, sys, os, time, traceback, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
import llvc, poly, loops_llvc, lia
from llvc import asbool, is_z


def dump(v):
    return v.to_bytes((v.bit_length() + 7) // 8 or 1, "little").hex()


def extract(m, inputs):
    out = []
    for kind, name, val, extra in inputs:
        if kind in ("bytes", "words"):
            w = val.range().size() // 8
            n = m.eval(extra, model_completion=True).as_long() if is_z(extra) else extra
            if n > (1 << 24):
                return None
            fi = m[val]
            els, ent = 0, {}
            if fi is not None:
                l = fi.as_list()
                e = l[-1]
                els = e.as_long() if z3.is_bv_value(e) else 0
                for a, b in l[:-1]:
                    ent[a.as_long()] = b.as_long()
            buf = bytearray(els.to_bytes(w, "little") * (n // w + 1))[:n]
            for k, b in ent.items():
                if k < n // w:
                    buf[k * w:k * w + w] = b.to_bytes(w, "little")
            out.append("in %s %s" % (name, bytes(buf).hex() or "-"))
            continue
        if kind[0] == "f":
            w = int(kind[1:])
            e = m.eval(val, model_completion=True)
            x = llvc.simp(z3.fpToIEEEBV(e)) if not z3.is_true(z3.simplify(z3.fpIsNaN(e))) else (0x7fc00000 if w == 32 else 0x7ff8000000000000)
            out.append("in %s %s" % (name, x.to_bytes(w // 8, "little").hex()))
            continue
        if kind[0] == "r":
            import struct
            e = m.eval(val, model_completion=True)
            if z3.is_algebraic_value(e):
                e = e.approx(20)
            x = float(e.as_fraction()) if z3.is_rational_value(e) else 0.0
            try:
                out.append("in %s %s" % (name, struct.pack("<f" if kind == "r32" else "<d", x).hex()))
            except OverflowError:
                return None
            continue
        w = int(kind[1:])
        x = m.eval(val, model_completion=True).as_long()
        out.append("in %s %s" % (name, x.to_bytes(w // 8, "little").hex()))
    return out


def small_model(ob, base, ms, deadline):
    """a model with small sizes if there is one"""
    sizes = [e for k, nm, v, e in ob.inputs if k in ("bytes", "words") and is_z(e)] + [v for k, nm, v, e in ob.inputs if k == "u64"]
    best = base
    for lim in (32, 256, 4096, 1 << 16, 1 << 20):
        if not sizes or time.time() > deadline:
            break
        s = z3.Solver()
        s.set("timeout", ms)
        for c in ob.pc.list():
            s.add(c)
        s.add(z3.Not(asbool(ob.cond)))
        for x in sizes:
            s.add(z3.ULE(x, z3.BitVecVal(lim, x.size())))
        if s.check() == z3.sat:
            return s.model()
    return best


def ext_solve(smt, cmd, ms):
    """an external solver process"""
    import subprocess
    try:
        r = subprocess.run(cmd, input=smt, capture_output=True, text=True, timeout=ms / 1000 + 1)
        o = r.stdout.strip().split("\n")[0] if r.stdout else ""
        return o
    except subprocess.TimeoutExpired:
        return "timeout"


def has_fp(es):
    seen = set()
    todo = list(es)
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_fp(e) or z3.is_fprm(e) or z3.is_real(e):
            return True
        todo.extend(e.children())
    return False


def discharge(E, ob, ms):
    t0 = time.time()
    g = asbool(ob.cond)
    g = llvc.zs(g)
    nodes = ob.pc.nodes()

    def done(st, be, model=None):
        ob.status, ob.backend, ob.time = st, be, time.time() - t0
        if model is not None:
            try:
                m = small_model(ob, model, 3000, t0 + ms / 1000 + 15)
                ob.model = extract(m, ob.inputs)
                if ob.model is None and m is not model:
                    ob.model = extract(model, ob.inputs)
            except Exception as e:
                ob.model = None
    if z3.is_true(g):
        return done("proved", "simplifier")
    if E.o.real:
        try:
            if poly.Prover(ob.pc.list(), time.time() + ms / 2000).prove(g):
                return done("proved", "poly")
        except (poly.Fail, poly.Split, RecursionError):
            pass
    E.isolver.set("timeout", 1500)
    E.sync(ob.pc)
    try:
        r = E.isolver.check(z3.Not(g))
    except z3.Z3Exception as e:
        r = z3.unknown
    if r == z3.unsat:
        return done("proved", "z3")
    if r == z3.sat:
        return done("failed", "z3", E.isolver.model())
    real = E.o.real
    if not real:
        try:
            if E.lia0.refutes(nodes, [z3.Not(g)], 600) or (not lia.content(g) and E.lia.refutes(nodes, [z3.Not(g)], 1500)):
                return done("proved", "z3-lia")
            if lia.Combo(E.lia0, nodes, time.time() + ms / 2000).prove(g):
                return done("proved", "z3-lia+bv")
        except z3.Z3Exception:
            pass
    for mk, be in ((lambda: z3.Solver(), "z3"), (lambda: z3.SolverFor("QF_UFBV") if not real else z3.Tactic("qfnra-nlsat").solver(), "z3-qf_ufbv" if not real else "z3-nlsat")):
        s = mk()
        s.set("timeout", ms // 3)
        for c in ob.pc.list():
            s.add(c)
        s.add(z3.Not(g))
        try:
            r = s.check()
        except z3.Z3Exception:
            continue
        if r == z3.unsat:
            return done("proved", be)
        if r == z3.sat and not (be == "z3-qf_ufbv" and has_fp(ob.pc.list() + [g])):
            return done("failed", be, s.model())
    s = z3.Solver()
    for c in ob.pc.list():
        s.add(c)
    s.add(z3.Not(g))
    o = ext_solve("(set-logic ALL)\n" + s.to_smt2(), ["cvc5", "--tlimit=%d" % (ms // 2), "-"], ms // 2)
    if o == "unsat":
        return done("proved", "cvc5")
    if not real:
        try:
            if lia.Combo(E.lia, nodes, time.time() + ms / 2000).prove(g):
                return done("proved", "z3-lia+bv")
        except z3.Z3Exception:
            pass
    return done("unknown" if o != "sat" else "failed", "cvc5" if o == "sat" else "none")


def solve_all(E, obs, jobs, ms, deadline):
    for attempt in range(5):        # a crashed solver process is replaced
        if all(ob.status is not None for ob in obs):
            return
        solve_some(E, obs, jobs if attempt == 0 else 1, ms, deadline)
    for ob in obs:
        if ob.status is None:
            ob.status, ob.backend = "unknown", "solver process died"


def solve_some(E, obs, jobs, ms, deadline):
    todo = [ob for ob in obs if ob.status is None]
    todo.sort(key=lambda o: o.pc.id)
    if not todo:
        return
    k = max(1, min(jobs, len(todo)))
    # contiguous-ish chunks in a shared work list: static interleave by blocks
    pipes = []
    blocks = [[] for _ in range(k)]
    for n, ob in enumerate(todo):
        blocks[n * k // len(todo) if len(todo) > 200 else n % k].append(n)
    for b in blocks:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            f = os.fdopen(w, "w")
            for n in b:
                ob = todo[n]
                if time.time() > deadline:
                    ob.status, ob.backend = "unknown", "deadline"
                else:
                    try:
                        discharge(E, ob, int(min(ms, max(2000, (deadline - time.time()) * 1000))))
                    except Exception as e:
                        ob.status, ob.backend = "unknown", "error " + str(e)[:200]
                f.write(json.dumps([n, ob.status, ob.backend, ob.time, ob.model]) + "\n")
                f.flush()
            f.close()
            os._exit(0)
        os.close(w)
        pipes.append((pid, r))
    import threading

    def rd(r):
        with os.fdopen(r) as f:
            for line in f:
                n, st, be, t, m = json.loads(line)
                ob = todo[n]
                ob.status, ob.backend, ob.time, ob.model = st, be, t, m
    ths = [threading.Thread(target=rd, args=(r,)) for _, r in pipes]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    for pid, _ in pipes:
        os.waitpid(pid, 0)


def main():
    spec = json.load(open(sys.argv[1]))
    res = dict(harness=spec["root"], error=None)
    t0 = time.time()
    try:
        mod = json.load(open(spec["json"]))
        o = llvc.Opts()
        for k, v in spec.get("opts", {}).items():
            setattr(o, k, v)
        o.deadline = t0 + spec["deadline"] * 0.75
        if os.environ.get("LLVC_DEBUG"):
            loops_llvc.DEBUG = True
        E = llvc.Engine(mod, o)
        obs = E.run(spec["root"])
        res["gen_s"] = time.time() - t0
        solve_all(E, obs, spec.get("jobs", 2), spec.get("ms", 60000), t0 + spec["deadline"])
        # vacuity: every cover point must be reachable
        cov = {}
        for lab, pcs in E.cover.items():
            ok = "unreachable"
            for pc in pcs[:40]:
                s = z3.Solver()
                s.set("timeout", 8000)
                for c in pc.list():
                    s.add(c)
                r = s.check()
                if r == z3.sat:
                    ok = "reachable"
                    break
                if r == z3.unknown:
                    ok = "unknown"
            cov[lab] = ok
        res.update(cover=cov, expected_cover=spec.get("cover", []))
        res["obligations"] = [dict(label=ob.label, kind=ob.kind, where=ob.where, status=ob.status, backend=ob.backend, time=round(ob.time, 3), model=ob.model) for ob in obs]
        res["invariants"] = E.invariants
        res["notes"] = E.notes
        res["trusted"] = sorted(E.trusted)
        res["splits"] = E.splits_seen
        res["bounded"] = E.bounded
        res["functions"] = sorted(set(mod.get("covered", [])))
        res["stats"] = {k: (round(v, 2) if isinstance(v, float) else v) for k, v in E.stats.items()}
    except llvc.Timeout as e:
        res["error"] = "timeout: " + str(e)
    except llvc.Unsupported as e:
        res["error"] = "unsupported: " + str(e)
        if os.environ.get("LLVC_DEBUG"):
            traceback.print_exc()
    except MemoryError:
        res["error"] = "memory"
    except Exception as e:
        res["error"] = "engine: " + repr(e)[:300] + " " + traceback.format_exc()[-600:]
    res["wall"] = time.time() - t0
    json.dump(res, open(sys.argv[2], "w"))


main()
