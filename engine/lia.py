"""Sound translation of bit-vector facts to linear integer arithmetic + uninterpreted functions.

Every bit-vector term becomes an integer in [0, 2^w): +, -, *const, shifts by constants, concat, extract, zext,
sext, udiv/urem by constants and comparisons are translated exactly (modular wrap is an explicit bounded integer
multiple of 2^w); every other operator becomes an uninterpreted function of its translated arguments (so only
congruence is kept).  `unsat` of the translation therefore implies `unsat` of the original; `sat` means nothing.
"""
import z3


def zs(e):
    return z3.simplify(e, bv_le2extract=False)


class TrailDict(dict):
    """dict with push/pop"""

    def __init__(self):
        super().__init__()
        self.trail = [[]]

    def __setitem__(self, k, v):
        self.trail[-1].append((k, self.get(k)))
        super().__setitem__(k, v)

    def push(self):
        self.trail.append([])

    def pop(self):
        for k, old in reversed(self.trail.pop()):
            if old is None:
                self.pop_key(k)
            else:
                super().__setitem__(k, old)

    def pop_key(self, k):
        super().pop(k, None)


class LIA:
    light = False       # memory contents stay opaque (address reasoning only)

    def __init__(self, facts=()):
        self.memo = TrailDict()
        self.side = []
        self.ufs = {}
        self.n = 0
        self.rng = TrailDict()
        self.keep = []
        for f in facts:
            self.learn(f)

    def learn(self, f):
        k = f.decl().kind()
        if k == z3.Z3_OP_AND:
            for c in f.children():
                self.learn(c)
            return
        neg = False
        if k == z3.Z3_OP_NOT:
            neg = True
            f = f.arg(0)
            k = f.decl().kind()
        if k == z3.Z3_OP_ULT:
            a, b, strict = f.arg(0), f.arg(1), True
        elif k == z3.Z3_OP_ULEQ:
            a, b, strict = f.arg(0), f.arg(1), False
        elif k == z3.Z3_OP_EQ and not neg and z3.is_bv(f.arg(0)):
            a, b = f.arg(0), f.arg(1)
            for x, y in ((a, b), (b, a)):
                if z3.is_bv_value(y):
                    self.rng[x.get_id()] = (y.as_long(), y.as_long())
                    self.keep.append(x)
                elif z3.is_app_of(x, z3.Z3_OP_EXTRACT) and z3.is_bv_value(y):
                    pass
            # Extract(hi, lo, x) == 0  bounds x
            for x, y in ((a, b), (b, a)):
                if z3.is_app_of(x, z3.Z3_OP_EXTRACT) and z3.is_bv_value(y) and y.as_long() == 0:
                    hi, lo = x.params()
                    t = x.arg(0)
                    if hi == t.size() - 1:
                        self.bound(t, 0, (1 << lo) - 1)
            return
        else:
            return
        if neg:
            a, b, strict = b, a, not strict
        # a < b or a <= b
        if z3.is_bv_value(b):
            self.bound(a, 0, b.as_long() - (1 if strict else 0))
        if z3.is_bv_value(a):
            self.bound(b, a.as_long() + (1 if strict else 0), (1 << b.size()) - 1)

    def bound(self, t, lo, hi):
        self.keep.append(t)
        k = t.get_id()
        if k in self.rng:
            l, h = self.rng[k]
            lo, hi = max(l, lo), min(h, hi)
        self.rng[k] = (lo, hi)

    def fresh(self, lo, hi, nm="t"):
        self.n += 1
        v = z3.Int("%s?%d" % (nm, self.n))
        self.side.append(z3.And(v >= lo, v <= hi))
        return v

    def wrap(self, e, lo, hi, w):
        """integer e in [lo,hi] -> e mod 2^w"""
        m = 1 << w
        if lo >= 0 and hi < m:
            return e, lo, hi
        klo, khi = lo // m, hi // m
        if klo == khi:
            return e - klo * m, lo - klo * m, hi - klo * m
        k = self.fresh(klo, khi, "k")
        r = e - k * m
        self.side.append(z3.And(r >= 0, r < m))
        return r, 0, m - 1

    def uf(self, key, args):
        f = self.ufs.get(key)
        if f is None:
            f = z3.Function("uf?%d" % len(self.ufs), *([a.sort() for a in args] + [z3.IntSort()]))
            self.ufs[key] = f
        return f(*args)

    def term(self, e):
        k = e.get_id()
        if k in self.memo:
            return self.memo[k]
        r = self.term_(e)
        if k in self.rng:
            l, h = self.rng[k]
            v, lo, hi = r
            r = (v, max(lo, l), min(hi, h))
            if r[1] > r[2]:
                r = (v, l, h)
        self.memo[k] = r
        return r

    def opaque(self, e):
        w = e.size()
        if e.num_args() == 0 or self.light:
            v = z3.Int("x?%d" % e.get_id())
        else:
            args = []
            for c in e.children():
                if z3.is_bv(c):
                    args.append(self.term(c)[0])
                elif z3.is_bool(c):
                    args.append(z3.If(self.form(c), z3.IntVal(1), z3.IntVal(0)))
                else:
                    v = z3.Int("x?%d" % e.get_id())
                    args = None
                    break
            if args is not None:
                args = [z3.IntVal(a) if isinstance(a, int) else a for a in args]
                v = self.uf((e.decl().name(), e.decl().kind(), w, tuple(c.size() if z3.is_bv(c) else 0 for c in e.children()), tuple(str(p) for p in (e.params() if e.decl().kind() != z3.Z3_OP_UNINTERPRETED else ()))), args)
        self.keep.append(e)
        self.side.append(z3.And(v >= 0, v < (1 << w)))
        return v, 0, (1 << w) - 1

    def term_(self, e):
        w = e.size()
        M = 1 << w
        k = e.decl().kind()
        if z3.is_bv_value(e):
            v = e.as_long()
            return v, v, v
        ch = e.children()
        if k == z3.Z3_OP_BADD:
            s, lo, hi = 0, 0, 0
            for c in ch:
                if z3.is_bv_value(c):
                    v = c.as_long()
                    if v >= M // 2:
                        v -= M
                    s, lo, hi = s + v, lo + v, hi + v
                    continue
                # c = (2^w - k) * x : negative coefficient
                if z3.is_app_of(c, z3.Z3_OP_BMUL) and c.num_args() == 2 and z3.is_bv_value(c.arg(0)) and c.arg(0).as_long() >= M // 2:
                    cc = c.arg(0).as_long() - M
                    v, l, h = self.term(c.arg(1))
                    s, lo, hi = s + v * cc, lo + h * cc, hi + l * cc
                    continue
                if z3.is_app_of(c, z3.Z3_OP_BNEG):
                    v, l, h = self.term(c.arg(0))
                    s, lo, hi = s - v, lo - h, hi - l
                    continue
                v, l, h = self.term(c)
                s, lo, hi = s + v, lo + l, hi + h
            return self.wrap(s, lo, hi, w)
        if k == z3.Z3_OP_BSUB:
            v, l, h = self.term(ch[0])
            for c in ch[1:]:
                v2, l2, h2 = self.term(c)
                v, l, h = v - v2, l - h2, h - l2
            return self.wrap(v, l, h, w)
        if k == z3.Z3_OP_BNEG:
            v, l, h = self.term(ch[0])
            return self.wrap(-v, -h, -l, w)
        if k == z3.Z3_OP_BMUL and len(ch) == 2 and (z3.is_bv_value(ch[0]) or z3.is_bv_value(ch[1])):
            c, x = (ch[0], ch[1]) if z3.is_bv_value(ch[0]) else (ch[1], ch[0])
            c = c.as_long()
            if c >= M // 2:
                c -= M
            v, l, h = self.term(x)
            lo, hi = (l * c, h * c) if c >= 0 else (h * c, l * c)
            return self.wrap(v * c, lo, hi, w)
        if k == z3.Z3_OP_BNOT:
            v, l, h = self.term(ch[0])
            return M - 1 - v, M - 1 - h, M - 1 - l
        if k == z3.Z3_OP_CONCAT:
            s, lo, hi = 0, 0, 0
            for c in ch:
                f = 1 << c.size()
                v, l, h = self.term(c)
                s, lo, hi = s * f + v, lo * f + l, hi * f + h
            return s, lo, hi
        if k == z3.Z3_OP_ZERO_EXT:
            return self.term(ch[0])
        if k == z3.Z3_OP_SIGN_EXT:
            v, l, h = self.term(ch[0])
            w0 = ch[0].size()
            half = 1 << (w0 - 1)
            if h < half:
                return v, l, h
            d = M - (1 << w0)
            if l >= half:
                return v + d, l + d, h + d
            return z3.If(v >= half, v + d, v), 0, M - 1
        if k == z3.Z3_OP_EXTRACT:
            hi_, lo_ = e.params()
            v, l, h = self.term(ch[0])
            # top part
            if lo_ > 0:
                f = 1 << lo_
                q = self.fresh(l // f, h // f, "q")
                r = v - q * f
                self.side.append(z3.And(r >= 0, r < f))
                v, l, h = q, l // f, h // f
            if h >= (1 << w):
                if l // M == h // M:
                    d = l // M * M
                    return v - d, l - d, h - d
                q = self.fresh(l // M, h // M, "q")
                r = v - q * M
                self.side.append(z3.And(r >= 0, r < M))
                return r, 0, M - 1
            return v, l, h
        if k in (z3.Z3_OP_BLSHR,) and z3.is_bv_value(ch[1]):
            s = ch[1].as_long()
            if s >= w:
                return 0, 0, 0
            return self.div(ch[0], 1 << s)
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]):
            s = ch[1].as_long()
            if s >= w:
                return 0, 0, 0
            v, l, h = self.term(ch[0])
            return self.wrap(v * (1 << s), l << s, h << s, w)
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and z3.is_bv_value(ch[1]) and ch[1].as_long():
            return self.div(ch[0], ch[1].as_long())
        if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(ch[1]) and ch[1].as_long():
            d = ch[1].as_long()
            v, l, h = self.term(ch[0])
            q, ql, qh = self.div(ch[0], d)
            return v - q * d, 0, min(h, d - 1)
        if k == z3.Z3_OP_ITE:
            c = self.form(ch[0])
            a, al, ah = self.term(ch[1])
            b, bl, bh = self.term(ch[2])
            return z3.If(c, a if not isinstance(a, int) else z3.IntVal(a), b if not isinstance(b, int) else z3.IntVal(b)), min(al, bl), max(ah, bh)
        if k == z3.Z3_OP_BAND:
            r = self.opaque(e)
            h = min(self.term(c)[2] for c in ch)
            self.side.append(r[0] <= h)
            return r[0], 0, h
        return self.opaque(e)

    def div(self, x, d):
        v, l, h = self.term(x)
        key = ("div", x.get_id(), d)
        if key in self.memo:
            return self.memo[key]
        q = self.fresh(l // d, h // d, "q")
        r = v - q * d
        self.side.append(z3.And(r >= 0, r < d))
        self.memo[key] = (q, l // d, h // d)
        return self.memo[key]

    def form(self, e):
        key = ("f", e.get_id())
        if key in self.memo:
            return self.memo[key]
        r = self.form_(e)
        self.memo[key] = r
        self.keep.append(e)
        return r

    def form_(self, e):
        k = e.decl().kind()
        if k == z3.Z3_OP_TRUE or k == z3.Z3_OP_FALSE:
            return e
        ch = e.children()
        if k == z3.Z3_OP_AND:
            return z3.And(*[self.form(c) for c in ch])
        if k == z3.Z3_OP_OR:
            return z3.Or(*[self.form(c) for c in ch])
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.form(ch[0]))
        if k == z3.Z3_OP_XOR:
            return z3.Xor(self.form(ch[0]), self.form(ch[1]))
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.form(ch[0]), self.form(ch[1]))
        if k == z3.Z3_OP_ITE:
            return z3.If(self.form(ch[0]), self.form(ch[1]), self.form(ch[2]))
        if k == z3.Z3_OP_EQ and z3.is_bool(ch[0]):
            return self.form(ch[0]) == self.form(ch[1])
        if ch and z3.is_bv(ch[0]):
            if self.light and ch[0].size() < 32 and content(e):
                return z3.Bool("b?%d" % e.get_id())
            if k == z3.Z3_OP_DISTINCT and len(ch) == 2:
                return z3.Not(self.cmp(z3.Z3_OP_EQ, ch))
            if k in (z3.Z3_OP_EQ, z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT, z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
                return self.cmp(k, ch)
        return z3.Bool("b?%d" % e.get_id())

    def cmp(self, k, ch, e=None):
        a, al, ah = self.term(ch[0])
        b, bl, bh = self.term(ch[1])
        if isinstance(a, int):
            a = z3.IntVal(a)
        if isinstance(b, int):
            b = z3.IntVal(b)
        if k == z3.Z3_OP_EQ:
            return a == b
        if k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
            w = ch[0].size()
            half = 1 << (w - 1)

            def s(v, l, h):
                if h < half:
                    return v
                if l >= half:
                    return v - 2 * half
                return z3.If(v >= half, v - 2 * half, v)
            a, b = s(a, al, ah), s(b, bl, bh)
            return {z3.Z3_OP_SLEQ: a <= b, z3.Z3_OP_SLT: a < b, z3.Z3_OP_SGEQ: a >= b, z3.Z3_OP_SGT: a > b}[k]
        return {z3.Z3_OP_ULEQ: lambda: a <= b, z3.Z3_OP_ULT: lambda: a < b, z3.Z3_OP_UGEQ: lambda: a >= b, z3.Z3_OP_UGT: lambda: a > b}[k]()


class Stack:
    """incremental LIA context synchronised with a chain of path-condition nodes"""

    def __init__(self, light=False):
        self.L = LIA()
        self.L.light = light
        self.s = z3.Solver()
        self.light = light      # ignore facts about memory content
        self.model = None
        self.nodes = []
        self.sidelen = 0
        self.marks = []

    def flush(self):
        for f in self.L.side[self.sidelen:]:
            self.s.add(f)
        self.sidelen = len(self.L.side)

    def push(self):
        self.s.push()
        self.L.memo.push()
        self.L.rng.push()
        self.marks.append((self.sidelen, len(self.L.keep)))

    def pop(self):
        self.s.pop()
        self.L.memo.pop()
        self.L.rng.pop()
        n, k = self.marks.pop()
        del self.L.side[n:]
        del self.L.keep[k:]
        self.sidelen = n

    def add(self, f):
        g = zs(f)
        self.L.learn(g)
        self.L.learn(f)
        self.s.add(self.L.form(f))
        self.flush()

    def sync(self, nodes):
        i = 0
        while i < len(self.nodes) and i < len(nodes) and self.nodes[i] is nodes[i]:
            i += 1
        while len(self.nodes) > i:
            self.nodes.pop()
            self.pop()
        for n in nodes[i:]:
            self.push()
            self.nodes.append(n)
            self.add(n.c)

    def refutes(self, nodes, extra, ms):
        self.sync(nodes)
        self.push()
        self.model = None
        try:
            for f in extra:
                self.add(f)
            self.s.set("timeout", ms)
            r = self.s.check()
            if r == z3.sat:
                self.model = self.s.model()
            return r == z3.unsat
        finally:
            self.pop()

    def truth(self, models, f):
        """truth values of f in the known models of the current nodes (None where undetermined)"""
        self.push()
        try:
            g = self.L.form(zs(f))
            r = set()
            for m in models:
                v = m.eval(g)
                r.add(True if z3.is_true(v) else False if z3.is_false(v) else None)
            return r
        finally:
            self.pop()


def find_atom(g, seen):
    """first wide comparison inside g that does not look inside memory content"""
    stack = [g]
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        k = e.decl().kind()
        ch = e.children()
        if k in CMP and ch and z3.is_bv(ch[0]) and ch[0].size() >= 32 and not content(e):
            return e
        if k == z3.Z3_OP_UNINTERPRETED:
            # address conditions inside an index are part of the address
            pass
        stack.extend(ch)
    return None


CMP = {z3.Z3_OP_EQ, z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT, z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT, z3.Z3_OP_DISTINCT}
_content = {}


def content(e):
    """mentions memory content (an uninterpreted function application)"""
    k = e.get_id()
    if k in _content:
        return _content[k][0]
    r = False
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
            r = True
            break
        stack.extend(x.children())
    _content[k] = (r, e)
    return r


def apps(e, acc):
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 1 and z3.is_bv(x.arg(0)):
            acc.setdefault(x.decl().name(), {})[x.get_id()] = x
        stack.extend(x.children())


class Combo:
    """goal proof: split on address comparisons, resolve aliases in LIA, bit-blast what is left"""

    def __init__(self, stack, nodes, deadline, ms=300):
        self.S = stack
        self.nodes = list(nodes)
        self.deadline = deadline
        self.ms = ms
        self.models = [[]]

    class Node:
        __slots__ = ("c",)

        def __init__(self, c):
            self.c = c

    def ref(self, f):
        """f is impossible here"""
        self.S.sync(self.nodes)
        if self.models[-1] and True in self.S.truth(self.models[-1], f):
            return False
        r = self.S.refutes(self.nodes, [f], self.ms)
        if not r and self.S.model is not None:
            self.models[-1].append(self.S.model)
        return r

    def prove(self, goal, depth=0):
        import time
        if time.time() > self.deadline:
            return False
        g = zs(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g) or not content(g):
            return self.S.refutes(self.nodes, [z3.Not(g)], self.ms * 5)
        # resolve / split address atoms
        seen = set()
        while True:
            a = find_atom(g, seen)
            if a is None:
                break
            if self.ref(a):
                g = zs(z3.substitute(g, (a, z3.BoolVal(False))))
                seen = set()
            elif self.ref(z3.Not(a)):
                g = zs(z3.substitute(g, (a, z3.BoolVal(True))))
                seen = set()
            else:
                if depth > 60:
                    return False
                for c, v in ((a, True), (z3.Not(a), False)):
                    self.nodes.append(Combo.Node(c))
                    self.models.append([])
                    ok = self.prove(z3.substitute(g, (a, z3.BoolVal(v))), depth + 1)
                    self.nodes.pop()
                    self.models.pop()
                    if not ok:
                        return False
                return True
            if z3.is_true(g):
                return True
            if z3.is_false(g):
                return self.S.refutes(self.nodes, [z3.BoolVal(True)], self.ms * 5)
        # alias resolution
        facts = [n.c for n in self.nodes]
        rel = [f for f in facts if content(f)]
        gacc = {}
        apps(g, gacc)
        rel2 = []
        for f in rel:
            # decide the address conditions inside relevant facts as well
            fa = {}
            apps(f, fa)
            if not (set(fa) & set(gacc)):
                rel2.append(f)
                continue
            seen = set()
            f = zs(f)
            for _ in range(25):
                if time.time() > self.deadline:
                    break
                a = find_atom(f, seen)
                if a is None:
                    break
                if self.ref(a):
                    f = zs(z3.substitute(f, (a, z3.BoolVal(False))))
                    seen = set()
                elif self.ref(z3.Not(a)):
                    f = zs(z3.substitute(f, (a, z3.BoolVal(True))))
                    seen = set()
                if not z3.is_bool(f) or z3.is_true(f):
                    break
            rel2.append(f)
        rel = rel2
        acc = {}
        for f in rel + [g]:
            apps(f, acc)
        subs = []
        cnt = 0
        for fn, d in acc.items():
            reps = []
            l = list(d.values())
            if fn not in gacc or len(l) > 60:
                continue
            for x in l:
                done = False
                for r, v in reps:
                    cnt += 1
                    if cnt > 600 or time.time() > self.deadline:
                        return False
                    df = zs(x.arg(0) - r.arg(0))
                    if z3.is_bv_value(df) and df.as_long() != 0:
                        continue
                    if self.ref(x.arg(0) != r.arg(0)):
                        subs.append((x, v))
                        done = True
                        break
                if not done:
                    v = z3.BitVec("al!%d" % x.get_id(), x.size())
                    reps.append((x, v))
                    subs.append((x, v))
        # first without the address facts
        g2 = z3.substitute(g, *subs)
        s2 = z3.SolverFor("QF_UFBV")
        s2.set("timeout", 4000)
        for f in rel:
            f2 = z3.substitute(f, *subs)
            if not content(f2):
                s2.add(f2)
        s2.add(z3.Not(g2))
        r = s2.check()
        if r == z3.unsat:
            return True
        if self.S.light:
            return False
        s = z3.SolverFor("QF_UFBV")
        s.set("timeout", 10000)
        for f in rel:
            s.add(z3.substitute(f, *subs))
        for f in facts:
            if not content(f):
                s.add(f)
        s.add(z3.Not(g2))
        return s.check() == z3.unsat


def refutes(facts, ms):
    s = Stack()
    return s.refutes([], facts, ms)
