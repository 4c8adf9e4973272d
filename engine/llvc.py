"""llvc: a deductive verifier for LLVM IR produced from the real fastgltf sources.

For every harness (a C++ contract: assume precondition / call the real function / assert postcondition)
it generates verification conditions by symbolic execution between cut points (Floyd/Hoare): loops are either
executed completely (trip count decided) or cut at the header by an inductive invariant that is itself proved
(initiation + consecution) for all iterations, and every obligation is discharged by an SMT solver.
"""
import json, sys, time, os, itertools, struct
import z3
import lia
from lia import zs

sys.setrecursionlimit(100000)
M64 = (1 << 64) - 1


class Unsupported(Exception):
    pass


class Timeout(Exception):
    pass


# ---------------------------------------------------------------- values
class Obj:
    __slots__ = ("name", "size", "addr", "kind", "fn", "id", "const", "heap")
    n = itertools.count()

    def __init__(self, name, size, kind="mem", fn=None, const=False):
        self.id = next(Obj.n)
        self.name = name
        self.size = size
        self.kind = kind
        self.fn = fn
        self.const = const
        self.addr = z3.BitVec("addr!%d!%s" % (self.id, name), 64)

    def __repr__(self):
        return "<%s#%d>" % (self.name, self.id)


class P:
    """pointer: obj is an Obj, or None for an absolute ("world") address"""
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return "P(%r,%s)" % (self.obj, self.off)


class PSel:
    """guarded choice of pointers; guards exclusive and exhaustive under the path condition"""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "PSel%r" % (self.alts,)


class Undef:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


NULL = P(None, 0)


def is_z(v):
    return isinstance(v, z3.ExprRef)


def bv(v, w):
    if isinstance(v, bool):
        return z3.BitVecVal(int(v), w)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def simp(e):
    """simplify; python int/bool when the result is a value"""
    if not is_z(e):
        return e
    e = zs(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def asbool(c):
    if isinstance(c, bool):
        return z3.BoolVal(c)
    if isinstance(c, int):
        return z3.BoolVal(bool(c))
    if z3.is_bv(c):
        return c == 1
    return c


def Not(c):
    if isinstance(c, (bool, int)):
        return not c
    return z3.Not(c)


def And(*cs):
    out = []
    for c in cs:
        if isinstance(c, (bool, int)):
            if not c:
                return False
            continue
        out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*cs):
    out = []
    for c in cs:
        if isinstance(c, (bool, int)):
            if c:
                return True
            continue
        out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def add64(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & M64
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(a, int) and a == 0:
        return b
    return simp(bv(a, 64) + bv(b, 64))


def sub64(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & M64
    if isinstance(b, int) and b == 0:
        return a
    return simp(bv(a, 64) - bv(b, 64))


def extract_bytes(v, lo, n, tot):
    """bytes lo..lo+n of little-endian tot-byte value v"""
    if lo == 0 and n == tot:
        return v
    if isinstance(v, (P, PSel)):
        v = p2bv(v)
    if is_z(v) and z3.is_fp(v):
        v = fp2bv(v)
    if is_z(v) and z3.is_real(v):
        v = r2b(v, 8 * tot)
    if isinstance(v, int):
        return (v >> (8 * lo)) & ((1 << (8 * n)) - 1)
    return simp(z3.Extract(8 * (lo + n) - 1, 8 * lo, v))


def concat_bytes(parts):
    """parts: list of (value, nbytes) little-endian order"""
    if len(parts) == 1:
        return parts[0][0]
    if all(isinstance(p[0], int) for p in parts):
        r = 0
        sh = 0
        for v, n in parts:
            r |= v << (8 * sh)
            sh += n
        return r
    return simp(z3.Concat(*[bv(r2b(v, 8 * n) if is_z(v) and z3.is_real(v) else p2bv(v), 8 * n) for v, n in reversed(parts)]))


FPC = {}


def r2b(v, w):
    """the bit pattern of a float modelled as a real: uninterpreted, except for constants"""
    if z3.is_rational_value(v):
        x = float(v.as_fraction())
        if x == v.as_fraction():
            return int.from_bytes(struct.pack("<f" if w == 32 else "<d", x), "little")
    return z3.Function("r2b%d" % w, z3.RealSort(), z3.BitVecSort(w))(v)


def fp2bv(v):
    v2 = zs(v)
    if z3.is_fp_value(v2):
        return simp(z3.fpToIEEEBV(v2)) if not v2.isNaN() else (0x7fc00000 if v2.sort().ebits() == 8 else 0x7ff8000000000000)
    k = v.get_id()
    if k not in FPC:
        FPC[k] = (v, z3.fpToIEEEBV(v))
    return FPC[k][1]


def p2bv(v):
    if isinstance(v, P):
        if v.obj is None:
            return v.off
        return simp(v.obj.addr + bv(v.off, 64))
    if isinstance(v, PSel):
        r = bv(p2bv(v.alts[-1][1]), 64)
        for c, p in reversed(v.alts[:-1]):
            r = z3.If(asbool(c), bv(p2bv(p), 64), r)
        return simp(r)
    if is_z(v) and z3.is_fp(v):
        return fp2bv(v)
    return v


def ptr_alts(p):
    return p.alts if isinstance(p, PSel) else [(True, p)]


def mk_psel(alts):
    """normalise a list of (guard, P): merge same-object alternatives"""
    groups = []
    for c, p in alts:
        if isinstance(c, bool) and not c:
            continue
        for c2, q in ptr_alts(p):
            g = And(c, c2)
            for gr in groups:
                if gr[0] is q.obj:
                    gr[1].append((g, q.off))
                    break
            else:
                groups.append((q.obj, [(g, q.off)]))
    out = []
    for obj, l in groups:
        off = l[-1][1]
        for g, o in reversed(l[:-1]):
            off = ite_i(g, o, off, 64)
        out.append((simp(asbool(Or(*[g for g, _ in l]))) if len(groups) > 1 else True, P(obj, off)))
    if len(out) == 1:
        return out[0][1]
    return PSel(out)


def ite_i(c, a, b, w):
    if isinstance(c, (bool, int)):
        return a if c else b
    if not is_z(a) and not is_z(b) and a == b:
        return a
    if is_z(a) and is_z(b) and a.eq(b):
        return a
    return z3.If(c, bv(a, w), bv(b, w))


def tw(t):
    """bit width of int/ptr type"""
    if t == "ptr":
        return 64
    if isinstance(t, str) and t[0] == "i":
        return int(t[1:])
    if t == "float":
        return 32
    if t == "double":
        return 64
    raise Unsupported("width of %r" % (t,))


def tsize(t):
    if isinstance(t, str):
        if t == "x86_fp80" or t == "fp128":
            return 16
        return (tw(t) + 7) // 8
    if t[0] == "v":
        return t[1] * tw(t[2]) // 8
    if t[0] == "a":
        return t[1] * t[3]
    if t[0] == "s":
        return t[3]
    raise Unsupported("size %r" % (t,))


# ---------------------------------------------------------------- memory logs
class Log:
    __slots__ = ("k", "par", "a", "b", "c", "d", "id")
    n = itertools.count()

    def __init__(self, k, par, a=None, b=None, c=None, d=None):
        self.id = next(Log.n)
        self.k = k
        self.par = par
        self.a = a
        self.b = b
        self.c = c
        self.d = d


# kinds: 'U' base uninterpreted function a(off);  'K' constant base: a = {off:(size,val)}, b = total size
#        'W' write a=off b=n c=val ; 'C' copy a=off b=len c=srclog d=srcoff ; 'S' set a=off b=len c=byte
#        'H' havoc range a=off b=len (None=whole) c=uf ; 'M' merge a=cond b=logA c=logB


class PC:
    __slots__ = ("par", "c", "depth", "id", "br", "model")
    n = itertools.count()

    def __init__(self, par, c, br=False):
        self.par = par
        self.c = c
        self.br = br
        self.model = None
        self.depth = par.depth + 1 if par else 0
        self.id = next(PC.n)

    def list(self):
        r = []
        n = self
        while n is not None and n.c is not None:
            r.append(n.c)
            n = n.par
        r.reverse()
        return r

    def nodes(self):
        r = []
        n = self
        while n is not None and n.c is not None:
            r.append(n)
            n = n.par
        r.reverse()
        return r


class State:
    __slots__ = ("pc", "regs", "mem", "inputs", "preds", "freed", "univ", "sizes", "cov")

    def copy(self):
        s = State()
        s.pc = self.pc
        s.regs = dict(self.regs)
        s.mem = dict(self.mem)
        s.inputs = self.inputs
        s.preds = self.preds
        s.freed = self.freed
        s.univ = self.univ
        return s

    def assume(self, c, br=False):
        if isinstance(c, (bool, int)):
            if c:
                return
            c = z3.BoolVal(False)
        self.pc = PC(self.pc, c, br)


class Obligation:
    __slots__ = ("pc", "cond", "label", "where", "inputs", "status", "model", "time", "backend", "kind")

    def __init__(self, pc, cond, label, where, inputs, kind):
        self.pc = pc
        self.cond = cond
        self.label = label
        self.where = where
        self.inputs = inputs
        self.kind = kind
        self.status = None
        self.model = None
        self.time = 0
        self.backend = None


class Fn:
    def __init__(self, j):
        self.name = j["name"]
        self.args = j["args"]
        self.ret = j["ret"]
        self.blocks = j["blocks"]
        self.succ = []
        for b in self.blocks:
            t = b[-1]
            s = []
            if t["op"] in ("br", "switch"):
                for o in t["a"]:
                    if o[0] == "b":
                        s.append(o[1])
            self.succ.append(s)
        self.loops = {l["h"]: l for l in j["loops"]}
        for l in self.loops.values():
            l["bs"] = set(l["blocks"])
        # innermost loop header of every block
        self.inner = {}
        for h, l in sorted(self.loops.items(), key=lambda x: x[1]["depth"]):
            for b in l["blocks"]:
                self.inner[b] = h
        self.orders = {}

    def child_loop(self, h, b):
        """the loop directly inside region h (None = function) that contains block b, or None"""
        x = self.inner.get(b)
        if x is None or x == h:
            return None
        while self.loops[x]["parent"] != (h if h is not None else -1):
            x = self.loops[x]["parent"]
            if x == -1:
                return None
        return x

    def exits(self, h):
        r = []
        for b in self.loops[h]["blocks"]:
            for s in self.succ[b]:
                if s not in self.loops[h]["bs"]:
                    r.append((b, s))
        return r

    def order(self, h, start):
        key = (h, start)
        if key in self.orders:
            return self.orders[key]
        allowed = self.loops[h]["bs"] if h is not None else set(range(len(self.blocks)))
        seen = set()
        post = []

        def succs(b):
            cl = self.child_loop(h, b)
            if cl is not None:
                out = [t for _, t in self.exits(cl)]
            else:
                out = self.succ[b]
            return [t for t in out if t in allowed and not (t == h)]

        stack = [(start, iter(succs(start)))]
        seen.add(start)
        while stack:
            b, it = stack[-1]
            for t in it:
                if t not in seen:
                    seen.add(t)
                    stack.append((t, iter(succs(t))))
                    break
            else:
                post.append(b)
                stack.pop()
        rpo = {b: i for i, b in enumerate(reversed(post))}
        self.orders[key] = rpo
        return rpo


class Opts:
    merge = True
    unroll_sym = 3          # iterations whose exit is undecided before the loop is cut by an invariant
    unroll_max = 5000
    feas_ms = 400
    solve_ms = 60000
    real = False            # treat float as mathematical reals
    uf_fp = False
    max_states = 4000
    deadline = None
    force_unroll = 0        # bounded mode: unroll up to this many symbolic iterations (then assume(false)+flag)
    known_ptrs = ()
    splits = {}
    crc_uf = False


class Engine:
    def __init__(self, mod, opts=None):
        self.o = opts or Opts()
        self.mod = mod
        self.fns = {f["name"]: f for f in mod["functions"]}
        self.fcache = {}
        self.globals = {g["name"]: g for g in mod["globals"]}
        self.gobj = {}
        self.fobj = {}
        self.bufs = [[]]
        self.dry = 0
        self.pure = 0
        self.fresh = itertools.count()
        self.written = []        # stack of write recorders
        self.isolver = z3.Solver()
        self.isolver.set("timeout", self.o.feas_ms)
        self.istack = []
        self.lia = lia.Stack()
        self.lia0 = lia.Stack(light=True)
        self.nofeas = False
        self.lastmodel = None
        self.must_cache = {}
        self.stats = dict(feas=0, feas_time=0.0, loops_inv=0, loops_unrolled=0, paths=0)
        self.notes = []
        self.trusted = set()
        self.invariants = []
        self.cover = {}
        self.bounded = False
        self.curd = ""
        self.calldepth = 0
        self.world = None
        self.keepalive = []
        self.world_reads = 0
        self.functions_seen = set()
        self.splits_seen = {}

    # ------------------------------------------------------------ helpers
    def freshbv(self, w, n="v"):
        return z3.BitVec("%s!%d" % (n, next(self.fresh)), w)

    def freshuf(self, n="mem"):
        return z3.Function("%s!%d" % (n, next(self.fresh)), z3.BitVecSort(64), z3.BitVecSort(8))

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def check_deadline(self):
        if self.o.deadline and time.time() > self.o.deadline:
            raise Timeout("engine deadline")

    # ------------------------------------------------------------ solver for feasibility
    def sync(self, pc):
        nodes = pc.nodes()
        i = 0
        while i < len(self.istack) and i < len(nodes) and self.istack[i] is nodes[i]:
            i += 1
        if len(self.istack) > i:
            self.isolver.pop(len(self.istack) - i)
            del self.istack[i:]
        for n in nodes[i:]:
            self.isolver.push()
            self.isolver.add(n.c)
            self.istack.append(n)

    def feasible(self, pc, extra=None):
        """True unless pc && extra is proved unsat"""
        self.check_deadline()
        if extra is not None:
            if isinstance(extra, (bool, int)):
                if not extra:
                    return False
                extra = None
        t = time.time()
        m = self.model_of(pc)
        if m is not None:
            if extra is None or z3.is_true(m.eval(extra, model_completion=True)):
                self.stats["model_hits"] = self.stats.get("model_hits", 0) + 1
                return True
        if self.nofeas and extra is not None:
            return True
        if extra is not None and not lia.content(extra) and self.lia.refutes(pc.nodes(), [extra], 200):
            self.stats["lia_time"] = self.stats.get("lia_time", 0) + time.time() - t
            return False
        self.sync(pc)
        if extra is not None:
            r = self.isolver.check(extra)
        else:
            r = self.isolver.check()
        if r == z3.sat:
            self.lastmodel = (pc, extra, self.isolver.model())
            if extra is None:
                pc.model = self.lastmodel[2]
        self.stats["feas"] += 1
        self.stats["feas_time"] += time.time() - t
        return r != z3.unsat

    def model_of(self, pc):
        """a model of the path condition if one is at hand (inherited from an ancestor that still satisfies it)"""
        n = pc
        todo = []
        k = 0
        while n is not None and n.model is None and k < 12:
            todo.append(n)
            n = n.par
            k += 1
        if n is None or n.model is None or n.model is False:
            return None
        m = n.model
        for x in reversed(todo):
            if x.c is None or not z3.is_true(m.eval(x.c, model_completion=True)):
                return None
            x.model = m
        return m

    def must(self, pc, cond):
        if isinstance(cond, (bool, int)):
            return bool(cond)
        c = simp(cond)
        if isinstance(c, (bool, int)):
            return bool(c)
        k = (pc.id, c.get_id())
        if k in self.must_cache:
            return self.must_cache[k][0]
        r = self.lia.refutes(pc.nodes(), [z3.Not(c)], 400)
        self.stats["lia"] = self.stats.get("lia", 0) + 1
        if not r:
            r = not self.feasible(pc, z3.Not(c))
        self.must_cache[k] = (r, c)
        return r

    def unique(self, st, v, w=64):
        """python int if v has exactly one value under pc"""
        v = simp(v)
        if not is_z(v):
            return v
        if isinstance(v, (P, PSel)):
            return v
        self.sync(st.pc)
        self.stats["feas"] += 1
        if self.isolver.check() != z3.sat:
            return v
        m = self.isolver.model().eval(v, model_completion=True)
        if not z3.is_bv_value(m):
            return v
        if self.must(st.pc, v == m):
            return m.as_long()
        return v

    # ------------------------------------------------------------ obligations
    def oblige(self, st, cond, label, kind="assert", where=None):
        cond = simp(cond) if is_z(cond) else cond
        if self.dry:
            st.assume(cond)
            return
        ob = Obligation(st.pc, cond, label, where or self.curd, st.inputs, kind)
        if isinstance(cond, (bool, int)) and cond:
            ob.status = "proved"
            ob.backend = "syntactic"
            ob.pc = None
            self.bufs[-1].append(ob)
            return
        self.bufs[-1].append(ob)
        st.assume(cond)

    # ------------------------------------------------------------ memory
    def newobj(self, st, name, size, log=None, kind="mem", const=False):
        o = Obj(name, size, kind, const=const)
        if log is None:
            log = Log("U", None, self.freshuf(name))
        st.mem[o] = log
        return o

    def fnptr(self, name):
        if name not in self.fobj:
            self.fobj[name] = Obj(name, 0, "fn", fn=name)
        return P(self.fobj[name], 0)

    def flatten(self, c, t, off, out):
        k = c[0]
        if k in ("z", "u"):
            return
        if k == "agg":
            if t[0] == "s":
                for e, et, o in zip(c[2], t[1], t[2]):
                    self.flatten(e, et, off + o, out)
            elif t[0] == "a":
                for i, e in enumerate(c[2]):
                    self.flatten(e, t[2], off + i * t[3], out)
            elif t[0] == "v":
                sz = tsize(t[2])
                for i, e in enumerate(c[2]):
                    self.flatten(e, t[2], off + i * sz, out)
            return
        v = self.const(c, t)
        out[off] = (tsize(t), v)

    def globj(self, st, name):
        if name in self.gobj:
            o = self.gobj[name]
        else:
            g = self.globals[name]
            o = Obj("@" + name, g["size"], "global", const=g["const"])
            self.gobj[name] = o
        if o not in st.mem:
            g = self.globals[name]
            lg = self.gobj.get(("log", name))
            if lg is None:
                if g["const"] and "init" in g:
                    out = {}
                    self.flatten(g["init"], g["t"], 0, out)
                    lg = Log("K", None, out, g["size"])
                else:
                    lg = Log("U", None, self.freshuf("glob"))
                    self.note("mutable/extern global %s starts with arbitrary content" % name)
                self.gobj[("log", name)] = lg
            st.mem[o] = lg
        return o

    def resolve_raw(self, off):
        """absolute address expression -> P(obj, off) when it is addr_obj + something"""
        if isinstance(off, int):
            return P(None, off)
        return P(None, off)

    def bv2p(self, v):
        if isinstance(v, (P, PSel)):
            return v
        if isinstance(v, int):
            return P(None, v)
        return P(None, v)

    def getlog(self, st, obj):
        if obj is None:
            if None not in st.mem:
                if self.world is None:
                    self.world = Log("U", None, self.freshuf("world"))
                st.mem[None] = self.world
            return st.mem[None]
        if obj not in st.mem:
            if obj.kind == "global":
                return st.mem[self.globj(st, obj.name[1:])]
            raise Unsupported("access to object without memory: %r" % obj)
        return st.mem[obj]

    def bounds(self, st, p, n, what, guard=True):
        """obligation: [p, p+n) lies inside its object"""
        for c, q in ptr_alts(p):
            g = And(guard, c)
            if q.obj is None:
                o = simp(q.off)
                if isinstance(o, int) and o < 4096:
                    self.oblige(st, Not(g) if is_z(g) else (not g), "%s through null/invalid pointer %d" % (what, o), "mem")
                else:
                    self.world_reads += 1
                continue
            if q.obj.kind == "fn":
                self.oblige(st, Not(g) if is_z(g) else (not g), "%s through function pointer" % what, "mem")
                continue
            if q.obj in st.freed:
                self.oblige(st, Not(g) if is_z(g) else (not g), "%s of freed object %s" % (what, q.obj.name), "mem")
                continue
            sz, off = q.obj.size, q.off
            if isinstance(sz, int) and isinstance(off, int) and isinstance(n, int):
                ok = off + n <= sz and off <= sz
            else:
                s_, o_, n_ = bv(sz, 64), bv(off, 64), bv(n, 64)
                ok = z3.And(z3.ULE(n_, s_), z3.ULE(o_, s_ - n_))
            if self.pure and not isinstance(ok, bool):
                continue    # inside a specification predicate: a total logical function, reads past the end are unspecified values
            if g is not True:
                ok = Or(Not(g), ok)
            self.oblige(st, ok, "%s within object '%s'" % (what, q.obj.name), "mem")

    def load_log(self, st, log, off, n, memo=None):
        """value of n bytes at off"""
        if memo is None:
            memo = {}
        chain = []  # pending conditional results: list of (cond, val)
        key0 = (log.id, off if isinstance(off, int) else off.get_id(), n)
        if key0 in memo:
            return memo[key0][0]
        res = self._load(st, log, off, n, memo)
        memo[key0] = (res, off)
        return res

    def _wrap(self, chain, v, n):
        for c, x in reversed(chain):
            v = self.ite(c, x, v, n * 8)
        return v

    def bytewise(self, st, log, off, n, memo):
        return concat_bytes([(self.load_log(st, log, add64(off, i), 1, memo), 1) for i in range(n)])

    def _load(self, st, log, off, n, memo):
        chain = []
        while True:
            k = log.k
            if k == "W" or k == "S" or k == "C" or (k == "H" and log.b is not None):
                d = sub64(off, log.a)
                n2 = log.b
                if isinstance(d, int) and isinstance(n2, int):
                    sd = d if d < (1 << 63) else d - (1 << 64)
                    if sd >= n2 or sd + n <= 0:
                        log = log.par
                        continue
                    if sd >= 0 and sd + n <= n2:
                        return self._wrap(chain, self.entry_val(st, log, d, n, memo), n)
                    # partial overlap
                    return self._wrap(chain, self.bytewise(st, log, off, n, memo), n)
                D, N2 = bv(d, 64), bv(n2, 64)
                # disjoint iff d >= n2 (unsigned) and -d >= n   (both computed mod 2^64, objects < 2^63)
                disj = And(z3.UGE(D, N2), z3.UGE(z3.BitVecVal(0, 64) - D, z3.BitVecVal(n, 64)))
                if isinstance(n2, int) and n2 == 0:
                    log = log.par
                    continue
                cont = z3.And(z3.ULE(z3.BitVecVal(n, 64), N2), z3.ULE(D, N2 - n))
                if self.must(st.pc, Or(disj, N2 == 0)):
                    log = log.par
                    continue
                if self.must(st.pc, cont):
                    return self._wrap(chain, self.entry_val(st, log, d, n, memo), n)
                if self.must(st.pc, Or(cont, disj, N2 == 0)):
                    if k == "W" and n == n2:
                        c = D == 0
                    else:
                        c = cont
                    v = self.entry_val(st, log, d, n, memo)
                    chain.append((c, v))
                    log = log.par
                    continue
                if n > 1:
                    return self._wrap(chain, self.bytewise(st, log, off, n, memo), n)
                chain.append((z3.ULT(D, N2), self.entry_val(st, log, d, 1, memo)))
                log = log.par
                continue
            if k == "H":
                return self._wrap(chain, self.ufval(log.c, off, n), n)
            if k == "U":
                return self._wrap(chain, self.ufval(log.a, off, n), n)
            if k == "K":
                return self._wrap(chain, self.kval(st, log, off, n), n)
            if k == "M":
                a = self.load_log(st, log.b, off, n, memo)
                b = self.load_log(st, log.c, off, n, memo)
                return self._wrap(chain, self.ite(log.a, a, b, n * 8), n)
            raise Unsupported("log " + k)

    def entry_val(self, st, log, d, n, memo):
        k = log.k
        if k == "W":
            if isinstance(d, int):
                return extract_bytes(log.c, d, n, log.b)
            # symbolic offset inside the written value
            v = p2bv(log.c)
            if n == log.b:
                return log.c
            if log.b <= 64:
                # explicit position split (the address reasoning can decide each d == i separately)
                r = extract_bytes(v, log.b - n, n, log.b)
                D = bv(d, 64)
                for i in range(log.b - n - 1, -1, -1):
                    r = self.ite(D == i, extract_bytes(v, i, n, log.b), r, 8 * n)
                return r
            sh = z3.Extract(8 * log.b - 1, 0, z3.ZeroExt(max(0, 8 * log.b - 64), d << 3)) if 8 * log.b <= 64 else z3.ZeroExt(8 * log.b - 64, d << 3)
            return simp(z3.Extract(8 * n - 1, 0, z3.LShR(bv(v, 8 * log.b), sh)))
        if k == "C":
            return self.load_log(st, log.c, add64(log.d, d), n, memo)
        if k == "S":
            b = log.c
            return concat_bytes([(b, 1)] * n)
        if k == "H":
            return self.ufval(log.c, add64(log.a, d), n)

    def ufval(self, f, off, n):
        o = bv(off, 64)
        if callable(getattr(f, "llvc_read", None)):
            return f.llvc_read(off, n)
        parts = [f(simp_keep(o + i)) if i else f(simp_keep(o)) for i in range(n)]
        if n == 1:
            return parts[0]
        return z3.Concat(*reversed(parts))

    def kval(self, st, log, off, n):
        ent, size = log.a, log.b
        if isinstance(off, int):
            if off in ent and ent[off][0] == n:
                return ent[off][1]
            parts = []
            i = 0
            while i < n:
                b = self.kbyte(log, off + i)
                parts.append((b, 1))
                i += 1
            return concat_bytes(parts)
        # symbolic index into a constant table
        if n > 1 and size % n == 0 and self.must(st.pc, z3.URem(off, z3.BitVecVal(n, 64)) == 0):
            cnt = size // n
            leaves = [self.kval(st, log, i * n, n) for i in range(cnt)]
            idx = simp(z3.UDiv(off, z3.BitVecVal(n, 64))) if n & (n - 1) else simp(z3.LShR(off, n.bit_length() - 1))
            return self.mux(leaves, idx, 8 * n)
        if n > 1:
            return concat_bytes([(self.kval(st, log, add64(off, i), 1), 1) for i in range(n)])
        leaves = [self.kbyte(log, i) for i in range(size)]
        return self.mux(leaves, off, 8)

    def kbyte(self, log, off):
        ent = log.a
        if off in ent:
            s, v = ent[off]
            return extract_bytes(v, 0, 1, s)
        cache = log.c
        if cache is None:
            cache = {}
            for o, (s, v) in ent.items():
                for i in range(s):
                    cache[o + i] = (o, s, v)
            log.c = cache
        if off in cache:
            o, s, v = cache[off]
            return extract_bytes(v, off - o, 1, s)
        return 0

    def mux(self, leaves, idx, w):
        n = len(leaves)
        bits = max(1, (n - 1).bit_length())
        if len(leaves) > 1 and any(isinstance(l, (P, PSel)) for l in leaves):
            r = leaves[-1]
            for i in range(n - 2, -1, -1):
                r = self.ite(idx == i, leaves[i], r, w)
            return r

        def rec(lo, b):
            if b < 0:
                return leaves[lo] if lo < n else 0
            l = rec(lo, b - 1)
            if lo + (1 << b) >= n:
                return l
            h = rec(lo + (1 << b), b - 1)
            return self.ite(z3.Extract(b, b, idx) == 1, h, l, w)

        return rec(0, bits - 1)

    def ite(self, c, a, b, w):
        if isinstance(c, (bool, int)):
            return a if c else b
        if a is b:
            return a
        if isinstance(a, Undef) and not isinstance(b, Undef):
            return b
        if isinstance(b, Undef):
            return a
        if isinstance(a, (list, tuple)):
            return [self.ite(c, x, y, None) for x, y in zip(a, b)]
        if isinstance(a, (P, PSel)) or isinstance(b, (P, PSel)):
            a2, b2 = self.bv2p(a), self.bv2p(b)
            return mk_psel([(c, a2), (Not(c), b2)])
        if isinstance(a, bool) or isinstance(b, bool) or (is_z(a) and z3.is_bool(a)) or (is_z(b) and z3.is_bool(b)):
            a1, b1 = asbool(a), asbool(b)
            if a1.eq(b1):
                return a
            return simp(z3.If(c, a1, b1))
        if not is_z(a) and not is_z(b):
            if a == b:
                return a
            if w is None:
                raise Unsupported("ite width")
            return z3.If(c, z3.BitVecVal(a, w), z3.BitVecVal(b, w))
        if is_z(a) and is_z(b):
            if a.eq(b):
                return a
            if a.sort() != b.sort():
                # float vs raw bits
                if z3.is_real(a):
                    a = bv(r2b(a, b.size()), b.size())
                elif z3.is_real(b):
                    b = bv(r2b(b, a.size()), a.size())
                if z3.is_fp(a):
                    a = fp2bv(a)
                if z3.is_fp(b):
                    b = fp2bv(b)
            return z3.If(c, a, b)
        z = a if is_z(a) else b
        if z3.is_real(z):
            if w in (32, 64):
                return z3.If(c, self.tofp(a, "float" if w == 32 else "double"), self.tofp(b, "float" if w == 32 else "double"))
            raise Unsupported("ite of real")
        if z3.is_fp(z):
            z = fp2bv(z)
            a = z if is_z(a) else a
            b = z if is_z(b) else b
        ww = z.size()
        return z3.If(c, bv(a, ww), bv(b, ww))

    def load_bytes(self, st, p, n, what="load", check=True):
        if check:
            self.bounds(st, p, n, what)
        alts = ptr_alts(p)
        r = None
        for c, q in reversed(alts):
            v = self.load_log(st, self.getlog(st, q.obj), q.off, n) if not (q.obj is not None and q.obj.kind == "fn") else 0
            if r is None:
                r = v
            else:
                r = self.ite(c, v, r, 8 * n)
        return r

    def conv_loaded(self, v, t):
        if t == "ptr":
            if isinstance(v, (P, PSel)):
                return v
            if is_z(v) and z3.is_fp(v):
                v = fp2bv(v)
            return self.mkptr(v)
        if t in ("float", "double"):
            return self.tofp(v, t)
        if is_z(v) and z3.is_fp(v):
            return fp2bv(v)
        w = tw(t)
        if self.o.real and is_z(v) and z3.is_real(v):
            v = r2b(v, w)
        if w == 1:
            return simp(asbool_low(v))
        if w % 8:
            v = v & ((1 << w) - 1) if isinstance(v, int) else simp(z3.Extract(w - 1, 0, v))
        return v

    def mkptr(self, v):
        """integer -> pointer, recovering ite structure over known object addresses"""
        if isinstance(v, (P, PSel)):
            return v
        v = simp(v)
        if isinstance(v, int):
            return P(None, v)
        if "addr!" in v.sexpr()[:4000]:
            q = self.find_obj(v)
            if q is not None:
                return q
        return P(None, v)

    def find_obj(self, v):
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            a, b = self.mkptr(v.arg(1)), self.mkptr(v.arg(2))
            return mk_psel([(v.arg(0), a), (Not(v.arg(0)), b)])
        args = v.children() if z3.is_app_of(v, z3.Z3_OP_BADD) else [v]
        for i, a in enumerate(args):
            if z3.is_const(a) and a.decl().name().startswith("addr!"):
                oid = int(a.decl().name().split("!")[1])
                o = self.objbyid.get(oid)
                if o is None:
                    continue
                rest = args[:i] + args[i + 1:]
                off = 0
                for r in rest:
                    off = add64(off, r)
                return P(o, off)
        return None

    objbyid = {}

    def tofp(self, v, t):
        if self.o.real:
            if is_z(v) and z3.is_real(v):
                return v
            if isinstance(v, int):
                return z3.RealVal(_frac(struct.unpack("<f" if t == "float" else "<d", v.to_bytes(4 if t == "float" else 8, "little"))[0]))
            if v.decl().name() == ("r2b32" if t == "float" else "r2b64"):
                return v.arg(0)
            if z3.is_app_of(v, z3.Z3_OP_ITE):
                return z3.If(v.arg(0), self.tofp(v.arg(1), t), self.tofp(v.arg(2), t))
            if z3.is_bv_value(v):
                return self.tofp(v.as_long(), t)
            k = ("real", v.get_id())
            if k not in FPC:
                FPC[k] = (v, z3.Real("r!%d" % next(self.fresh)))
            return FPC[k][1]
        if is_z(v) and z3.is_fp(v):
            return v
        so = z3.Float32() if t == "float" else z3.Float64()
        if isinstance(v, (P, PSel)):
            v = p2bv(v)
        if is_z(v):
            if v.decl().name() == "fp.to_ieee_bv" and v.arg(0).sort() == so:
                return v.arg(0)
            if z3.is_app_of(v, z3.Z3_OP_ITE):
                a, b = v.arg(1), v.arg(2)
                if a.decl().name() == "fp.to_ieee_bv" or b.decl().name() == "fp.to_ieee_bv":
                    return z3.If(v.arg(0), self.tofp(a, t), self.tofp(b, t))
        return zs(z3.fpBVToFP(bv(v, 32 if t == "float" else 64), so)) if isinstance(v, int) else z3.fpBVToFP(v, so)

    def load(self, st, p, t, what="load"):
        if isinstance(t, list):
            if t[0] == "v":
                ew = tw(t[2])
                if ew % 8:
                    raw = bv(p2bv(self.load_bytes(st, p, tsize(t), what)), ew * t[1])
                    return [simp(z3.Extract(0, 0, z3.LShR(raw, i)) == 1) if ew == 1 else simp(z3.Extract(ew * i + ew - 1, ew * i, raw)) for i in range(t[1])]
                self.bounds(st, p, tsize(t), what)
                return [self.conv_loaded(self.load_bytes(st, self.padd(p, i * ew // 8), ew // 8, what, False), t[2]) for i in range(t[1])]
            if t[0] == "s":
                return [self.load(st, self.padd(p, o), et, what) for et, o in zip(t[1], t[2])]
            if t[0] == "a":
                return [self.load(st, self.padd(p, i * t[3]), t[2], what) for i in range(t[1])]
        return self.conv_loaded(self.load_bytes(st, p, tsize(t), what), t)

    def padd(self, p, k):
        if isinstance(p, PSel):
            return PSel([(c, P(q.obj, add64(q.off, k))) for c, q in p.alts])
        if not isinstance(p, P):
            p = self.mkptr(p)
            return self.padd(p, k)
        return P(p.obj, add64(p.off, k))

    def wrote(self, obj, off, n):
        for w in self.written:
            w.setdefault(obj, []).append((off, n))

    def write_node(self, st, p, mk, n, what, check=True):
        """mk(parent_log, off) -> new log"""
        if check:
            self.bounds(st, p, n, what)
        for c, q in ptr_alts(p):
            if q.obj is not None and q.obj.kind == "fn":
                continue
            if q.obj is not None and q.obj.const:
                self.oblige(st, Not(c) if is_z(c) else (not c), "%s to constant object %s" % (what, q.obj.name), "mem")
                continue
            old = self.getlog(st, q.obj)
            new = mk(old, q.off)
            if c is not True:
                new = Log("M", None, asbool(c), new, old)
            st.mem[q.obj] = new
            self.wrote(q.obj, q.off, n)

    def store(self, st, p, v, t, what="store"):
        if isinstance(v, Undef):
            v = self.undef(t)
        if isinstance(t, list):
            if t[0] == "v":
                ew = tw(t[2])
                if ew % 8:
                    if ew == 1:
                        raw = z3.Concat(*[bv(x, 1) for x in reversed(v)])
                    else:
                        raw = z3.Concat(*[bv(x, ew) for x in reversed(v)])
                    return self.store(st, p, simp(raw), "i%d" % (ew * t[1]), what)
                self.bounds(st, p, tsize(t), what)
                for i, x in enumerate(v):
                    if isinstance(x, Undef):
                        x = self.undef(t[2])
                    self.write_node(st, self.padd(p, i * ew // 8), lambda l, o, x=x: Log("W", l, o, ew // 8, x), ew // 8, what, False)
                return
            if t[0] == "s":
                for x, et, o in zip(v, t[1], t[2]):
                    self.store(st, self.padd(p, o), x, et, what)
                return
            if t[0] == "a":
                for i, x in enumerate(v):
                    self.store(st, self.padd(p, i * t[3]), x, t[2], what)
                return
        n = tsize(t)
        if t == "i1":
            v = bv(v, 8) if is_z(v) else int(v)
        elif t[0] == "i" and tw(t) % 8:
            w = tw(t)
            v = v if isinstance(v, int) else z3.ZeroExt(8 * n - w, v)
        self.write_node(st, p, lambda l, o: Log("W", l, o, n, v), n, what)

    def undef(self, t):
        if isinstance(t, list):
            if t[0] == "s":
                return [Undef(x) for x in t[1]]
            return [Undef(t[2]) for _ in range(t[1])]
        if t == "ptr":
            return P(None, self.freshbv(64, "undefp"))
        if t == "i1":
            return z3.Bool("undef!%d" % next(self.fresh))
        if t in ("float", "double"):
            return self.tofp(self.freshbv(tw(t), "undef"), t)
        return self.freshbv(tw(t), "undef")

    # ------------------------------------------------------------ operand evaluation
    def const(self, c, t=None):
        k = c[0]
        if k == "i":
            v = int(c[2])
            return bool(v) if c[1] == 1 else v
        if k == "n":
            return NULL
        if k == "f":
            return self.tofp(int(c[2]), c[1])
        if k == "fn":
            return self.fnptr(c[1])
        if k == "g":
            if c[1] not in self.gobj:
                if c[1] not in self.globals:
                    raise Unsupported("global " + c[1])
                g = self.globals[c[1]]
                self.gobj[c[1]] = Obj("@" + c[1], g["size"], "global", const=g["const"])
                Engine.objbyid[self.gobj[c[1]].id] = self.gobj[c[1]]
            return P(self.gobj[c[1]], 0)
        if k == "off":
            return self.padd(self.const(c[1]), c[2] & M64)
        if k == "u":
            return Undef(c[1])
        if k == "z":
            return self.zero(c[1])
        if k == "agg":
            return [self.const(e) for e in c[2]]
        if k == "cast":
            return self.const(c[2])
        if k == "ce":
            a = [self.const(x) for x in c[3]]
            return self.binop(c[1], a[0], a[1], c[2], None)
        raise Unsupported("const %r" % (c,))

    def zero(self, t):
        if isinstance(t, list):
            if t[0] == "s":
                return [self.zero(x) for x in t[1]]
            return [self.zero(t[2]) for _ in range(t[1])]
        if t == "ptr":
            return NULL
        if t == "i1":
            return False
        if t in ("float", "double"):
            return self.tofp(0, t)
        return 0

    def val(self, st, o):
        if o[0] == "l":
            v = st.regs[o[1]]
            return v
        if o[0] == "md":
            return None
        return self.const(o)

    def cval(self, st, o, t):
        v = self.val(st, o)
        if isinstance(v, Undef):
            return self.undef(t)
        return v

    # ------------------------------------------------------------ arithmetic
    def binop(self, op, a, b, t, st):
        if isinstance(t, list):
            if isinstance(a, Undef):
                a = self.undef(t)
            if isinstance(b, Undef):
                b = self.undef(t)
            return [self.binop(op, x, y, t[2], st) for x, y in zip(a, b)]
        if isinstance(a, Undef):
            a = self.undef(t)
        if isinstance(b, Undef):
            b = self.undef(t)
        if op[0] == "f" and op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            if self.o.real:
                if op == "fadd":
                    return a + b
                if op == "fsub":
                    return a - b
                if op == "fmul":
                    return a * b
                if op == "fdiv":
                    b = zs(b)
                    if z3.is_rational_value(b) and b.numerator_as_long() != 0:
                        return a / b
                    k = ("inv", b.get_id())
                    if k not in FPC:
                        FPC[k] = (b, z3.Real("inv!%d" % next(self.fresh)))
                    r = FPC[k][1]
                    st.assume(z3.Implies(b != 0, r * b == 1))     # division by zero: unconstrained result
                    return a * r
                raise Unsupported(op)
            if self.o.uf_fp:
                f = z3.Function("fp_%s_%s" % (op, t), a.sort(), b.sort(), a.sort())
                return f(a, b)
            rm = z3.RNE()
            r = {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}.get(op)
            if r is None:
                raise Unsupported(op)
            return zs(r(rm, a, b))
        w = tw(t)
        if w == 1:
            if op in ("and", "mul"):
                return simp(asbool(And(asbool(a), asbool(b))))
            if op == "or":
                return simp(asbool(Or(asbool(a), asbool(b))))
            if op in ("xor", "add", "sub"):
                if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
                    return bool(a) != bool(b)
                if isinstance(b, (bool, int)):
                    return simp(z3.Not(asbool(a))) if b else a
                return simp(z3.Xor(asbool(a), asbool(b)))
            raise Unsupported("i1 " + op)
        if isinstance(a, (P, PSel)) or isinstance(b, (P, PSel)):
            if op == "sub" and isinstance(a, P) and isinstance(b, P) and a.obj is b.obj:
                return sub64(a.off, b.off)
            if op == "sub" and isinstance(a, P) and not isinstance(b, (P, PSel)):
                return P(a.obj, sub64(a.off, b))
            if op == "sub" and isinstance(a, (P, PSel)) and isinstance(b, (P, PSel)):
                # choice of pointers: difference when objects agree, unknown otherwise
                r = None
                for c1, x in ptr_alts(a):
                    for c2, y in ptr_alts(b):
                        d = sub64(x.off, y.off) if x.obj is y.obj else simp(bv(p2bv(x), 64) - bv(p2bv(y), 64))
                        r = d if r is None else ite_i(And(c1, c2), d, r, 64)
                return simp(r)
            if op == "add" and isinstance(a, P) and not isinstance(b, (P, PSel)):
                return self.padd(a, b)
            if op == "add" and isinstance(b, P) and not isinstance(a, (P, PSel)):
                return self.padd(b, a)
            a, b = p2bv(a), p2bv(b)
        if is_z(a) and z3.is_bool(a):
            a = bv(a, w)
        if is_z(b) and z3.is_bool(b):
            b = bv(b, w)
        m = (1 << w) - 1
        if not is_z(a) and not is_z(b):
            if op == "add":
                return (a + b) & m
            if op == "sub":
                return (a - b) & m
            if op == "mul":
                return (a * b) & m
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "shl":
                return (a << b) & m if b < w else self.freshbv(w, "poison")
            if op == "lshr":
                return a >> b if b < w else self.freshbv(w, "poison")
            if op == "ashr":
                return (sgn(a, w) >> b) & m if b < w else self.freshbv(w, "poison")
            if op in ("udiv", "urem", "sdiv", "srem"):
                if b == 0:
                    if st is not None:
                        self.oblige(st, False, "division by zero", "arith")
                    return self.freshbv(w, "div0")
                if op == "udiv":
                    return a // b
                if op == "urem":
                    return a % b
                sa, sb = sgn(a, w), sgn(b, w)
                q = abs(sa) // abs(sb)
                if (sa < 0) != (sb < 0):
                    q = -q
                return q & m if op == "sdiv" else (sa - q * sb) & m
            raise Unsupported(op)
        # identities
        if op == "add":
            if not is_z(b) and b == 0:
                return a
            if not is_z(a) and a == 0:
                return b
        if op == "mul":
            for x, y in ((a, b), (b, a)):
                if not is_z(x):
                    if x == 0:
                        return 0
                    if x == 1:
                        return y
        if op == "and":
            for x, y in ((a, b), (b, a)):
                if not is_z(x):
                    if x == 0:
                        return 0
                    if x == m:
                        return y
        if op in ("or", "xor", "shl", "lshr", "ashr", "sub"):
            if not is_z(b) and b == 0:
                return a
        if op in ("or", "xor") and not is_z(a) and a == 0:
            return b
        A, B = bv(a, w), bv(b, w)
        if op == "add":
            return simp(A + B) if w == 64 else A + B
        if op == "sub":
            return simp(A - B) if w == 64 else A - B
        if op == "mul":
            return A * B
        if op == "and":
            return A & B
        if op == "or":
            return A | B
        if op == "xor":
            return A ^ B
        if op in ("shl", "lshr", "ashr"):
            r = A << B if op == "shl" else (z3.LShR(A, B) if op == "lshr" else A >> B)
            if is_z(b):
                if st is not None and self.must(st.pc, z3.ULT(B, w)):
                    return r
                return z3.If(z3.ULT(B, w), r, self.freshbv(w, "poison"))
            if b >= w:
                return self.freshbv(w, "poison")
            return r
        if op in ("udiv", "urem", "sdiv", "srem"):
            if st is not None and is_z(b):
                self.oblige(st, B != 0, "division by zero", "arith")
            if op == "udiv":
                return z3.UDiv(A, B)
            if op == "urem":
                return z3.URem(A, B)
            if op == "sdiv":
                return A / B
            return z3.SRem(A, B)
        raise Unsupported(op)

    def icmp(self, pred, a, b, t):
        if isinstance(t, list):
            if isinstance(a, Undef):
                a = self.undef(t)
            if isinstance(b, Undef):
                b = self.undef(t)
            return [self.icmp(pred, x, y, t[2]) for x, y in zip(a, b)]
        if isinstance(a, Undef):
            a = self.undef(t)
        if isinstance(b, Undef):
            b = self.undef(t)
        if isinstance(a, (P, PSel)) or isinstance(b, (P, PSel)):
            return self.pcmp(pred, self.bv2p(a), self.bv2p(b))
        w = tw(t)
        if w == 1:
            A, B = asbool(a), asbool(b)
            if pred == "eq":
                return simp(A == B)
            if pred == "ne":
                return simp(A != B)
            a, b = bv(A, 1), bv(B, 1)
        if not is_z(a) and not is_z(b):
            sa, sb = sgn(a, w), sgn(b, w)
            return {"eq": a == b, "ne": a != b, "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b,
                    "slt": sa < sb, "sle": sa <= sb, "sgt": sa > sb, "sge": sa >= sb}[pred]
        A, B = bv(a, w), bv(b, w)
        if pred == "eq":
            r = A == B
        elif pred == "ne":
            r = A != B
        elif pred == "ult":
            r = z3.ULT(A, B)
        elif pred == "ule":
            r = z3.ULE(A, B)
        elif pred == "ugt":
            r = z3.UGT(A, B)
        elif pred == "uge":
            r = z3.UGE(A, B)
        elif pred == "slt":
            r = A < B
        elif pred == "sle":
            r = A <= B
        elif pred == "sgt":
            r = A > B
        else:
            r = A >= B
        return simp(r)

    def pcmp(self, pred, a, b):
        if isinstance(a, PSel) or isinstance(b, PSel):
            r = False
            for c1, x in ptr_alts(a):
                for c2, y in ptr_alts(b):
                    r = Or(r, And(c1, c2, self.pcmp(pred, x, y)))
            return simp(r) if is_z(r) else r
        if a.obj is b.obj:
            return self.icmp(pred, a.off, b.off, "i64")
        if pred in ("eq", "ne"):
            # pointers to distinct live objects / null differ (one-past-the-end aliasing is ignored)
            if a.obj is not None and b.obj is not None:
                return pred == "ne"
            raw, obj = (a, b) if a.obj is None else (b, a)
            if isinstance(raw.off, int):
                return pred == "ne"
            self.note("addresses read from symbolic memory are assumed not to point into harness-created objects")
            return pred == "ne"
        return self.icmp(pred, p2bv(a), p2bv(b), "i64")

    def fcmp(self, pred, a, b, t):
        if isinstance(t, list):
            return [self.fcmp(pred, x, y, t[2]) for x, y in zip(a, b)]
        if isinstance(a, Undef):
            a = self.undef(t)
        if isinstance(b, Undef):
            b = self.undef(t)
        if self.o.real:
            k = pred[1:]
            if pred in ("ord",):
                return True
            if pred in ("uno",):
                return False
            r = {"eq": lambda: a == b, "ne": lambda: a != b, "lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b}[k]()
            return simp(r)
        un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if pred == "ord":
            return simp(z3.Not(un))
        if pred == "uno":
            return simp(un)
        k = pred[1:]
        r = {"eq": z3.fpEQ, "lt": z3.fpLT, "le": z3.fpLEQ, "gt": z3.fpGT, "ge": z3.fpGEQ}.get(k)
        if k == "ne":
            e = z3.Not(z3.fpEQ(a, b))
            return simp(e if pred[0] == "u" else z3.And(z3.Not(un), e))
        e = r(a, b)
        return simp(z3.Or(un, e) if pred[0] == "u" else e)

    # ------------------------------------------------------------ casts
    def cast(self, op, v, ft, tt, st):
        if op == "bitcast":
            return self.bitcast(v, ft, tt)
        if isinstance(tt, list):
            if isinstance(v, Undef):
                v = self.undef(ft)
            return [self.cast(op, x, ft[2], tt[2], st) for x in v]
        if isinstance(v, Undef):
            v = self.undef(ft)
        if op in ("ptrtoint", "inttoptr"):
            if op == "inttoptr":
                return self.mkptr(v)
            return v
        if op in ("zext", "sext", "trunc"):
            fw, w = tw(ft), tw(tt)
            if isinstance(v, (P, PSel)):
                v = p2bv(v)
            if fw == 1:
                if isinstance(v, (bool, int)):
                    return (int(v) if op == "zext" else (((1 << w) - 1) if v else 0))
                return z3.If(v, z3.BitVecVal(1 if op == "zext" else (1 << w) - 1, w), z3.BitVecVal(0, w))
            if not is_z(v):
                if op == "zext":
                    return v
                if op == "sext":
                    return sgn(v, fw) & ((1 << w) - 1)
                r = v & ((1 << w) - 1)
                return bool(r) if w == 1 else r
            if op == "zext":
                return simp(z3.ZeroExt(w - fw, v))
            if op == "sext":
                return simp(z3.SignExt(w - fw, v))
            r = z3.Extract(w - 1, 0, v)
            if w == 1:
                return simp(r == 1)
            return simp(r)
        if op in ("uitofp", "sitofp"):
            if self.o.real:
                if isinstance(v, int):
                    return z3.RealVal(sgn(int(v), tw(ft)) if op == "sitofp" else int(v))
                if z3.is_bool(v):
                    return z3.If(v, z3.RealVal(1), z3.RealVal(0))
                return z3.ToReal(z3.BV2Int(v, op == "sitofp"))
            so = z3.Float32() if tt == "float" else z3.Float64()
            V = bv(v, tw(ft))
            return zs((z3.fpSignedToFP if op == "sitofp" else z3.fpUnsignedToFP)(z3.RNE(), V, so))
        if op in ("fptoui", "fptosi"):
            w = tw(tt)
            if self.o.real:
                raise Unsupported("fptoint in real mode")
            so = z3.BitVecSort(w)
            f = z3.fpToUBV if op == "fptoui" else z3.fpToSBV
            r = f(z3.RTZ(), v, so)
            # out of range conversions are poison: arbitrary value
            fs = v.sort()
            tr = z3.fpRoundToIntegral(z3.RTZ(), v)
            if op == "fptoui":
                lo, hi = z3.FPVal(-1.0, fs), z3.FPVal(float(2 ** w), fs)
                ok = z3.And(z3.fpGT(v, lo), z3.fpLT(v, hi))
            else:
                lo, hi = z3.FPVal(-float(2 ** (w - 1)), fs), z3.FPVal(float(2 ** (w - 1)), fs)
                ok = z3.And(z3.fpGEQ(tr, lo), z3.fpLT(v, hi))
            return simp(z3.If(ok, r, self.freshbv(w, "poisonfp")))
        if op in ("fpext", "fptrunc"):
            if self.o.real:
                return v
            so = z3.Float32() if tt == "float" else z3.Float64()
            return zs(z3.fpFPToFP(z3.RNE(), v, so))
        raise Unsupported(op)

    def tobits(self, v, t):
        if isinstance(v, Undef):
            v = self.undef(t)
        if isinstance(t, list):
            ew = tw(t[2])
            return concat_bits([(self.tobits(x, t[2]), ew) for x in v])
        if isinstance(v, (P, PSel)):
            return p2bv(v)
        if is_z(v) and z3.is_fp(v):
            return fp2bv(v)
        if is_z(v) and z3.is_real(v):
            return r2b(v, tw(t))
        if t == "i1":
            return bv(v, 1) if is_z(v) else int(v)
        return v

    def bitcast(self, v, ft, tt):
        if ft == tt:
            return v
        if isinstance(v, Undef):
            return Undef(tt)
        if isinstance(ft, list) and isinstance(tt, list) and tw(ft[2]) == tw(tt[2]):
            return [self.bitcast(x, ft[2], tt[2]) for x in v]
        raw = self.tobits(v, ft)
        if isinstance(tt, list):
            ew = tw(tt[2])
            tot = ew * tt[1]
            out = []
            for i in range(tt[1]):
                if isinstance(raw, int):
                    x = (raw >> (ew * i)) & ((1 << ew) - 1)
                else:
                    x = simp(z3.Extract(ew * i + ew - 1, ew * i, raw))
                if tt[2] in ("float", "double"):
                    x = self.tofp(x, tt[2])
                elif ew == 1:
                    x = simp(asbool(x))
                out.append(x)
            return out
        if tt in ("float", "double"):
            return self.tofp(raw, tt)
        if tt == "i1":
            return simp(asbool(raw))
        return raw

    # ------------------------------------------------------------ function execution
    def fn(self, name):
        if name not in self.fcache:
            self.fcache[name] = Fn(self.fns[name])
        return self.fcache[name]

    def call(self, st, name, args):
        """execute defined function; returns list of (state, retval)"""
        f = self.fn(name)
        if self.calldepth > 24:
            raise Unsupported("recursion through " + name)
        self.calldepth += 1
        saved = st.regs
        st2 = st
        st2.regs = {}
        for a, v in zip(f.args, args):
            st2.regs[a["id"]] = v
        rets = []
        exits, backs = self.region(f, None, 0, [(st2, None)], rets)
        self.calldepth -= 1
        assert not exits and not backs
        if self.o.merge and len(rets) > 1:
            rets = self.merge_rets(rets, f.ret)
        out = []
        for s, v in rets:
            s.regs = dict(saved)
            out.append((s, v))
        return out

    def merge_rets(self, rets, t):
        try:
            s0, v0 = rets[0]
            for s1, v1 in rets[1:]:
                s0.regs = {"r": v0} if v0 is not None else {}
                s1.regs = {"r": v1} if v1 is not None else {}
                s0 = self.merge2(s0, s1, {"r": t})
                v0 = s0.regs.get("r")
            return [(s0, v0)]
        except Unsupported:
            return rets

    def region(self, f, h, start, instates, rets):
        """run acyclic region (loop body of h, or whole function when h is None) from `start`.
        returns (exits [(block, state, pred)], backs [(state, pred)])"""
        order = f.order(h, start)
        allowed = f.loops[h]["bs"] if h is not None else None
        pending = {start: list(instates)}
        exits, backs = [], []
        first = True
        while pending:
            b = min(pending, key=lambda x: order.get(x, 1 << 30))
            lst = pending.pop(b)
            self.check_deadline()
            if b != start or not first:
                pass
            cl = f.child_loop(h, b)
            is_loop = cl is not None and cl == b
            # phis
            sts = []
            for s, pred in lst:
                if pred is not None and not (is_loop):
                    self.do_phis(f, b, s, pred)
                sts.append((s, pred))
            if is_loop:
                for s, pred in sts:
                    if pred is not None:
                        self.do_phis(f, b, s, pred)
                ss = [s for s, _ in sts]
                if self.o.merge and len(ss) > 1:
                    ss = [self.merge_many(f, b, ss)]
                for s in ss:
                    for (t, s2, p2) in self.run_loop(f, b, s, rets):
                        if t == h:
                            backs.append((s2, p2))
                        elif allowed is not None and t not in allowed:
                            exits.append((t, s2, p2))
                        else:
                            pending.setdefault(t, []).append((s2, p2))
                first = False
                continue
            ss = [s for s, _ in sts]
            if self.o.merge and len(ss) > 1:
                ss = [self.merge_many(f, b, ss)]
            if len(ss) > self.o.max_states:
                raise Unsupported("too many states")
            for s in ss:
                for (t, s2) in self.block(f, b, s, rets):
                    if t == h and h is not None:
                        backs.append((s2, b))
                    elif allowed is not None and t not in allowed:
                        exits.append((t, s2, b))
                    else:
                        pending.setdefault(t, []).append((s2, b))
            first = False
        return exits, backs

    def do_phis(self, f, b, s, pred):
        new = {}
        for i in f.blocks[b]:
            if i["op"] != "phi":
                break
            for pb, v in i["in"]:
                if pb == pred:
                    new[i["id"]] = self.val(s, v)
                    break
        s.regs.update(new)

    def merge_many(self, f, b, ss):
        types = getattr(f, "types", None)
        if types is None:
            types = {}
            for a in f.args:
                types[a["id"]] = a["t"]
            for bl in f.blocks:
                for i in bl:
                    types[i["id"]] = i["t"]
            f.types = types
        r = ss[0]
        for s in ss[1:]:
            r = self.merge2(r, s, types)
        return r

    def merge2(self, a, b, types):
        na, nb = a.pc.nodes(), b.pc.nodes()
        i = 0
        while i < len(na) and i < len(nb) and na[i] is nb[i]:
            i += 1
        base = na[i - 1] if i else self.rootpc
        ra = [n.c for n in na[i:]]
        rb = [n.c for n in nb[i:]]
        ca = And(*ra)
        cb = And(*rb)
        if ca is True and cb is True:
            cond = True
        else:
            # cond must be true exactly in state a; use the first differing branch literal when complementary
            cond = ca
            if ra and rb and (ra[0].eq(zs(z3.Not(rb[0]))) or rb[0].eq(zs(z3.Not(ra[0]))) or z3.Not(rb[0]).eq(ra[0]) or z3.Not(ra[0]).eq(rb[0])):
                cond = ra[0]
        cond = asbool(cond)
        m = State()
        m.pc = base
        if ra or rb:
            if len(ra) == 1 and len(rb) == 1 and cond is ra[0]:
                pass
            else:
                ra2 = ra[1:] if cond is (ra[0] if ra else None) else None
                if ra2 is not None:
                    if ra2 or rb[1:]:
                        x = z3.If(cond, asbool(And(*ra2)), asbool(And(*rb[1:])))
                        m.pc = PC(m.pc, x)
                else:
                    m.pc = PC(m.pc, asbool(Or(ca, cb)))
        m.regs = {}
        for k in a.regs:
            if k in b.regs:
                x, y = a.regs[k], b.regs[k]
                if x is y:
                    m.regs[k] = x
                    continue
                t = types.get(k)
                try:
                    m.regs[k] = self.ite(cond, x, y, tw(t) if isinstance(t, str) and t not in ("void",) else None) if not isinstance(t, list) else self.ite_t(cond, x, y, t)
                except Unsupported:
                    pass
        m.mem = {}
        for o in set(a.mem) | set(b.mem):
            la, lb = a.mem.get(o), b.mem.get(o)
            if la is None or lb is None:
                m.mem[o] = la or lb
            elif la is lb:
                m.mem[o] = la
            else:
                m.mem[o] = Log("M", None, cond, la, lb)
        m.inputs = a.inputs if a.inputs == b.inputs else a.inputs + tuple(x for x in b.inputs if x not in a.inputs)
        m.preds = a.preds if len(a.preds) >= len(b.preds) else b.preds
        m.freed = a.freed | b.freed if a.freed == b.freed else (a.freed & b.freed)
        m.univ = a.univ if len(a.univ) >= len(b.univ) else b.univ
        return m

    def ite_t(self, c, x, y, t):
        if isinstance(x, Undef):
            return y
        if isinstance(y, Undef):
            return x
        if t[0] == "s":
            return [self.ite_t(c, p, q, tt) if isinstance(tt, list) else self.ite(c, p, q, tw(tt)) for p, q, tt in zip(x, y, t[1])]
        return [self.ite_t(c, p, q, t[2]) if isinstance(t[2], list) else self.ite(c, p, q, tw(t[2])) for p, q in zip(x, y)]

    # ------------------------------------------------------------ blocks
    def block(self, f, b, st, rets):
        """execute block; returns list of (succ, state)"""
        work = [(st, 0)]
        out = []
        ins = f.blocks[b]
        while work:
            st, ip = work.pop()
            while ip < len(ins):
                i = ins[ip]
                op = i["op"]
                if op == "phi":
                    ip += 1
                    continue
                self.curd = i.get("d", self.curd)
                if op == "br":
                    a = i["a"]
                    if len(a) == 1:
                        out.append((a[0][1], st))
                    else:
                        c = self.cval(st, a[0], "i1")
                        c = simp(c) if is_z(c) else c
                        # operand order in LLVM: cond, false, true
                        ft, tt = a[1][1], a[2][1]
                        if isinstance(c, (bool, int)):
                            out.append((tt if c else ft, st))
                        elif tt == ft:
                            out.append((tt, st))
                        else:
                            ft_ok = self.feasible(st.pc, z3.Not(c))
                            tt_ok = self.feasible(st.pc, c)
                            if tt_ok and ft_ok:
                                s2 = st.copy()
                                s2.assume(simp_keep(z3.Not(c)), True)
                                st.assume(c, True)
                                lm = self.lastmodel
                                if lm is not None and lm[0] is st.pc.par:
                                    if lm[1] is c:
                                        st.pc.model = lm[2]
                                out.append((tt, st))
                                out.append((ft, s2))
                            elif tt_ok:
                                out.append((tt, st))
                            elif ft_ok:
                                out.append((ft, st))
                    break
                if op == "switch":
                    a = i["a"]
                    v = self.cval(st, a[0], i["t0"])
                    v = simp(v) if is_z(v) else v
                    default = a[1][1]
                    cases = [(int(a[j][2]) if not isinstance(a[j][2], bool) else a[j][2], a[j + 1][1]) for j in range(2, len(a), 2)]
                    if not is_z(v):
                        v = int(v)
                        t = default
                        for k, tb in cases:
                            if k == v:
                                t = tb
                                break
                        out.append((t, st))
                    else:
                        w = tw(i["t0"])
                        V = bv(v, w)
                        bytgt = {}
                        for k, tb in cases:
                            bytgt.setdefault(tb, []).append(V == k)
                        rest = And(*[z3.Not(V == k) for k, _ in cases])
                        conds = [(tb, Or(*cs)) for tb, cs in bytgt.items() if tb != default]
                        dc = Or(rest, *bytgt.get(default, []))
                        conds.append((default, dc))
                        for tb, c in conds:
                            if self.feasible(st.pc, c):
                                s2 = st.copy()
                                s2.assume(c, True)
                                out.append((tb, s2))
                    break
                if op == "ret":
                    v = self.val(st, i["a"][0]) if i["a"] else None
                    if isinstance(v, Undef):
                        v = self.undef(f.ret)
                    rets.append((st, v))
                    self.stats["paths"] += 1
                    break
                if op == "unreachable":
                    self.oblige(st, False, "control reaches unreachable code", "reach")
                    break
                if op == "call":
                    r = self.do_call(f, st, i)
                    if r is None:
                        break
                    if isinstance(r, list):
                        for s2, v in r:
                            if i["t"] != "void":
                                s2.regs[i["id"]] = v
                            work.append((s2, ip + 1))
                        break
                    v = r[0]
                    if i["t"] != "void":
                        st.regs[i["id"]] = v
                    ip += 1
                    continue
                self.step(f, st, i, op)
                ip += 1
        return out

    BIN = {"add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem", "fadd", "fsub", "fmul", "fdiv", "frem"}
    CAST = {"zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "uitofp", "sitofp", "fptoui", "fptosi", "fpext", "fptrunc"}

    def step(self, f, st, i, op):
        R = st.regs
        if op in self.BIN:
            a, b = i["a"]
            R[i["id"]] = self.binop(op, self.val(st, a), self.val(st, b), i["t"], st)
        elif op in self.CAST:
            R[i["id"]] = self.cast(op, self.val(st, i["a"][0]), i["t0"], i["t"], st)
        elif op == "icmp":
            R[i["id"]] = self.icmp(i["pred"], self.val(st, i["a"][0]), self.val(st, i["a"][1]), i["t0"])
        elif op == "fcmp":
            R[i["id"]] = self.fcmp(i["pred"], self.cval(st, i["a"][0], i["t0"]), self.cval(st, i["a"][1], i["t0"]), i["t0"])
        elif op == "fneg":
            v = self.cval(st, i["a"][0], i["t0"])
            neg = (lambda x: -x) if self.o.real else (lambda x: zs(z3.fpNeg(x)))
            R[i["id"]] = [neg(x) for x in v] if isinstance(v, list) else neg(v)
        elif op == "getelementptr":
            base = self.cval(st, i["base"], "ptr")
            off = i["c"] & M64
            for v, t, sc in i["vars"]:
                x = self.cval(st, v, t)
                w = tw(t)
                if isinstance(x, (P, PSel)):
                    x = p2bv(x)
                if w < 64:
                    x = (sgn(x, w) & M64) if not is_z(x) else z3.SignExt(64 - w, x)
                if sc != 1:
                    x = (x * sc) & M64 if not is_z(x) else x * z3.BitVecVal(sc & M64, 64)
                off = add64(off, x)
            R[i["id"]] = self.padd(base, off)
        elif op == "load":
            p = self.cval(st, i["a"][0], "ptr")
            p = self.mkptr(p)
            R[i["id"]] = self.load(st, p, i["t"])
        elif op == "store":
            p = self.mkptr(self.cval(st, i["a"][1], "ptr"))
            self.store(st, p, self.val(st, i["a"][0]), i["vt"])
        elif op == "alloca":
            cnt = self.val(st, i["cnt"])
            sz = i["size"] * cnt if isinstance(cnt, int) else simp(bv(cnt, 64) * i["size"])
            o = self.newobj(st, "stack%d" % i["id"], sz, kind="stack")
            Engine.objbyid[o.id] = o
            R[i["id"]] = P(o, 0)
        elif op == "select":
            c = self.cval(st, i["a"][0], i["t0"])
            a, b = self.val(st, i["a"][1]), self.val(st, i["a"][2])
            t = i["t"]
            if isinstance(c, list):
                if isinstance(a, Undef):
                    a = self.undef(t)
                if isinstance(b, Undef):
                    b = self.undef(t)
                R[i["id"]] = [self.ite(simp(ci) if is_z(ci) else ci, x, y, tw(t[2])) for ci, x, y in zip(c, a, b)]
            else:
                c = simp(c) if is_z(c) else c
                if isinstance(c, (bool, int)):
                    R[i["id"]] = a if c else b
                elif isinstance(t, list):
                    R[i["id"]] = self.ite_t(c, a, b, t)
                else:
                    # poison in the unselected arm is ignored
                    R[i["id"]] = self.ite(c, a, b, tw(t))
        elif op == "extractvalue":
            v = self.val(st, i["a"][0])
            if isinstance(v, Undef):
                v = self.undef(i["t0"])
            for k in i["ix"]:
                v = v[k]
            R[i["id"]] = v
        elif op == "insertvalue":
            v = self.val(st, i["a"][0])
            if isinstance(v, Undef):
                v = self.undef(i["t"])
            v = _deep(v)
            x = v
            for k in i["ix"][:-1]:
                if isinstance(x[k], Undef):
                    x[k] = self.undef(x[k].t)
                x = x[k]
            x[i["ix"][-1]] = self.val(st, i["a"][1])
            R[i["id"]] = v
        elif op == "extractelement":
            v = self.cval(st, i["a"][0], i["t0"])
            k = self.val(st, i["a"][1])
            if is_z(k):
                k = self.unique(st, k)
            if is_z(k):
                r = v[-1]
                for n in range(len(v) - 2, -1, -1):
                    r = self.ite(k == n, v[n], r, tw(i["t"]))
                R[i["id"]] = r
            else:
                R[i["id"]] = v[k]
        elif op == "insertelement":
            v = self.cval(st, i["a"][0], i["t"])
            k = self.val(st, i["a"][2])
            if is_z(k):
                k = self.unique(st, k)
            x = self.val(st, i["a"][1])
            v = list(v)
            if is_z(k):
                v = [self.ite(k == n, x, v[n], tw(i["t"][2])) for n in range(len(v))]
            else:
                v[k] = x
            R[i["id"]] = v
        elif op == "shufflevector":
            a = self.val(st, i["a"][0])
            b = self.val(st, i["a"][1])
            n = i["t0"][1]
            if isinstance(a, Undef):
                a = [Undef(i["t0"][2])] * n
            if isinstance(b, Undef):
                b = [Undef(i["t0"][2])] * n
            ab = list(a) + list(b)
            R[i["id"]] = [ab[k] if k >= 0 else Undef(i["t0"][2]) for k in i["ix"]]
        elif op == "freeze":
            R[i["id"]] = self.cval(st, i["a"][0], i["t"])
        elif op == "fence":
            pass
        else:
            raise Unsupported("instruction %s at %s" % (op, i.get("d")))

    # ------------------------------------------------------------ calls
    def do_call(self, f, st, i):
        """None: path ends; list: continuations; (v,): value"""
        if "asm" in i:
            if i["asm"] == "":
                return (None,)
            raise Unsupported("inline asm at %s" % i.get("d"))
        cal = i["callee"]
        if cal[0] == "fn":
            name = cal[1]
        else:
            p = self.mkptr(self.cval(st, cal, "ptr"))
            if isinstance(p, P) and p.obj is not None and p.obj.kind == "fn":
                name = p.obj.fn
            elif isinstance(p, PSel) and all(q.obj is not None and q.obj.kind == "fn" for _, q in p.alts):
                outs = []
                for c, q in p.alts:
                    if self.feasible(st.pc, c):
                        s2 = st.copy()
                        s2.assume(c)
                        j = dict(i)
                        j["callee"] = ["fn", q.obj.fn]
                        r = self.do_call(f, s2, j)
                        if r is None:
                            continue
                        if isinstance(r, list):
                            outs += r
                        else:
                            outs.append((s2, r[0]))
                return outs if outs else None
            else:
                raise Unsupported("indirect call through unknown pointer %r at %s" % (p, i.get("d")))
        import builtins_llvc as B
        if name in self.fns and not name.startswith("v_"):
            args = [self.cval(st, a, t) for a, t in zip(i["a"], i["at"])]
            d = self.curd
            r = self.call(st, name, args)
            self.curd = d
            return r if r else None
        return B.dispatch(self, st, name, i)

    # ------------------------------------------------------------ loops
    def exec_body(self, f, h, st, rets):
        return self.region(f, h, h, [(st, None)], rets)

    def run_loop(self, f, h, st, rets):
        """returns list of (target, state, pred)"""
        L = f.loops[h]
        forced_inv = False
        # --- attempt complete unrolling
        self.bufs.append([])
        rets_try = []
        exits_all = []
        cur = [st.copy()]
        symn = 0
        ok = True
        it = 0
        saved_w = [dict((k, list(v)) for k, v in w.items()) for w in self.written]
        limit = self.o.unroll_sym
        if self.o.force_unroll:
            limit = self.o.force_unroll
        while cur:
            it += 1
            if it > self.o.unroll_max:
                ok = False
                break
            nexts = []
            sym = False
            for s in cur:
                r0 = len(rets_try)
                ex, bk = self.exec_body(f, h, s, rets_try)
                if bk and (ex or len(rets_try) > r0):
                    sym = True
                exits_all += ex
                for s2, p2 in bk:
                    self.do_phis(f, h, s2, p2)
                    nexts.append(s2)
            if self.o.merge and len(nexts) > 1:
                nexts = [self.merge_many(f, h, nexts)]
            cur = nexts
            if sym:
                symn += 1
                if symn > limit:
                    if self.o.force_unroll:
                        # bounded mode: remaining iterations are outside the stated bound
                        self.bounded = True
                        cur = []
                        break
                    ok = False
                    break
        if ok:
            buf = self.bufs.pop()
            self.bufs[-1] += buf
            rets += rets_try
            self.stats["loops_unrolled"] += 1
            return exits_all
        self.bufs.pop()
        for w, sv in zip(self.written, saved_w):
            w.clear()
            w.update(sv)
        import loops_llvc
        return loops_llvc.invariant_loop(self, f, h, st, rets)

    # ------------------------------------------------------------ top level
    def run(self, root):
        self.rootpc = PC(None, None)
        st = State()
        st.pc = self.rootpc
        st.regs = {}
        st.mem = {}
        st.inputs = ()
        st.preds = ()
        st.freed = frozenset()
        st.univ = ()
        import builtins_llvc as B
        B.setup(self, st)
        rets = self.call(st, root, [])
        self.final = rets
        return self.bufs[0]


def _deep(v):
    return [_deep(x) for x in v] if isinstance(v, (list, tuple)) else v


def _frac(x):
    from fractions import Fraction
    return str(Fraction(x))


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def asbool_low(v):
    if isinstance(v, int):
        return bool(v & 1)
    return z3.Extract(0, 0, v) == 1


def simp_keep(e):
    return zs(e)


def concat_bits(parts):
    if all(isinstance(p[0], int) for p in parts):
        r = 0
        sh = 0
        for v, w in parts:
            r |= v << sh
            sh += w
        return r
    return simp(z3.Concat(*[bv(v, w) for v, w in reversed(parts)]))
