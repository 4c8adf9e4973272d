"""Polynomial reasoning over the reals for float code verified in real mode.

Decides  facts |- goal  for goals built from polynomial equalities and inequalities:
 * equalities by membership in the (degree-bounded) ideal of the equality facts -- linear algebra over monomials, exact rationals;
 * inequalities by a positive combination of squares and known non-negative facts modulo that ideal (LP in z3's LRA);
 * if-then-else by resolving the condition the same way, else by case distinction;
 * sqrt atoms whose argument is c*a^2 modulo the facts, a of known sign, are replaced by +-sqrt(c)*a.
Every step is a proof; failure means "not decided here".
"""
import time
from fractions import Fraction
import z3

ONE = ()
P61 = (1 << 61) - 1


class Fail(Exception):
    pass


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def mdiv(a, b):
    """a / b or None"""
    d = dict(a)
    for v, e in b:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x:
            d[v] = x
        else:
            d.pop(v, None)
    return tuple(sorted(d.items()))


def pmul(a, b, cap=200000):
    if len(a) * len(b) > cap:
        raise Fail("polynomial too large")
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def deg(m):
    return sum(e for _, e in m)


def pdeg(p):
    return max((deg(m) for m in p), default=0)


def const(p):
    if not p:
        return Fraction(0)
    if len(p) == 1 and ONE in p:
        return p[ONE]
    return None


class Ctx:
    def __init__(self):
        self.eq, self.ge, self.gt, self.ne, self.rest, self.sqrts, self.guard = [], [], [], [], [], {}, []

    def copy(self):
        c = Ctx()
        for k in ("eq", "ge", "gt", "ne", "rest", "guard"):
            setattr(c, k, list(getattr(self, k)))
        c.sqrts = dict(self.sqrts)
        return c


class Prover:
    def __init__(self, facts, deadline):
        self.atoms, self.ids, self.cache = [], {}, {}
        self.deadline = deadline
        self.subst = {}
        self.rules, self.tcache = {}, {}
        self.ctx = Ctx()
        self.false = False
        self.keep = list(facts)
        for f in facts:
            try:
                self.fact(f)
            except Fail:
                pass
        self.settle()

    def tick(self):
        if time.time() > self.deadline:
            raise Fail("time")

    # ------------------------------------------------------------ terms
    def atom(self, e):
        k = e.get_id()
        if k not in self.ids:
            self.ids[k] = len(self.atoms)
            self.atoms.append(e)
        return self.ids[k]

    def poly(self, e):
        k = e.get_id()
        if k in self.cache:
            return self.cache[k][1]
        self.tick()
        r = self.nf(self.poly0(e))
        self.cache[k] = (e, r)
        return r

    def poly0(self, e):
        if z3.is_rational_value(e) or z3.is_int_value(e):
            f = Fraction(e.numerator_as_long(), e.denominator_as_long()) if z3.is_rational_value(e) else Fraction(e.as_long())
            return {ONE: f} if f else {}
        k = e.decl().kind()
        c = e.children()
        if k == z3.Z3_OP_ADD:
            r = {}
            for x in c:
                r = padd(r, self.poly(x))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.poly(c[0])
            for x in c[1:]:
                r = padd(r, self.poly(x), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return padd({}, self.poly(c[0]), -1)
        if k == z3.Z3_OP_MUL:
            r = {ONE: Fraction(1)}
            for x in c:
                r = self.nf(pmul(r, self.poly(x)))
            return r
        if k == z3.Z3_OP_DIV:
            d = const(self.poly(c[1]))
            if d:
                return {m: v / d for m, v in self.poly(c[0]).items()}
        if k == z3.Z3_OP_POWER and z3.is_rational_value(c[1]) and c[1].denominator_as_long() == 1 and 0 <= c[1].numerator_as_long() <= 8:
            r = {ONE: Fraction(1)}
            p = self.poly(c[0])
            for _ in range(c[1].numerator_as_long()):
                r = pmul(r, p)
            return r
        if k == z3.Z3_OP_ITE:
            t = self.truth(c[0])
            if t is True:
                return self.poly(c[1])
            if t is False:
                return self.poly(c[2])
            raise Split(c[0])
        v = self.atom(e)
        return dict(self.subst[v]) if v in self.subst else {((v, 1),): Fraction(1)}

    def again(self):
        self.cache = {}

    # ------------------------------------------------------------ rewriting by simple equality facts
    def nf(self, p):
        """normal form modulo the rules  x*y -> c  and  v^2 -> (terms in smaller variables)"""
        if not self.rules:
            return p
        for _ in range(60):
            hit = None
            for m in p:
                for l in self.rules:
                    if len(l) == 1:
                        v, e = l[0]
                        if any(w == v and x >= e for w, x in m):
                            hit = l
                            break
                    elif mdiv(m, l) is not None:
                        hit = l
                        break
                if hit:
                    break
            if hit is None:
                return p
            r = {}
            for m, c in p.items():
                d = mdiv(m, hit)
                if d is None:
                    v = r.get(m, 0) + c
                    if v:
                        r[m] = v
                    else:
                        r.pop(m, None)
                else:
                    r = padd(r, {mmul(d, n): c * x for n, x in self.rules[hit].items()})
            p = r
        return p

    def addrules(self):
        ch = False
        for l in list(self.rules):           # a substituted variable invalidates its rules
            full = padd({l: Fraction(1)}, self.rules[l], -1)
            if any(v in self.subst for m in full for v, _ in m):
                del self.rules[l]
                self.ctx.eq.append(self.sub(full))
                ch = True
        for p in list(self.ctx.eq):
            p = self.nf(self.sub(p))
            if not p or len(p) > 8 or pdeg(p) != 2:
                continue
            if len(p) == 2 and ONE in p:
                l = [m for m in p if m][0]
                if len(l) == 2:
                    self.rules[l] = {ONE: -p[ONE] / p[l]}
                    ch = True
                    continue
            vs = max(v for m in p for v, _ in m)
            l = ((vs, 2),)
            if l in p and not str(self.atoms[vs]).startswith(("sqrt!", "inv!")) and not self.occurs(vs, {m: c for m, c in p.items() if m != l}):
                self.rules[l] = {m: -c / p[l] for m, c in p.items() if m != l}
                ch = True
        return ch

    # ------------------------------------------------------------ facts
    def fact(self, f, neg=False):
        k = f.decl().kind() if z3.is_app(f) else None
        c = f.children()
        if k == z3.Z3_OP_NOT:
            return self.fact(c[0], not neg)
        if (k == z3.Z3_OP_AND and not neg) or (k == z3.Z3_OP_OR and neg):
            for x in c:
                self.fact(x, neg)
            return
        if k == z3.Z3_OP_IMPLIES and not neg:
            self.ctx.guard.append((c[0], c[1]))
            return
        if k == z3.Z3_OP_OR and not neg and len(c) == 2:
            self.ctx.guard.append((z3.Not(c[0]), c[1]))
            return
        self.ctx.rest.append((f, neg))
        if not c or not z3.is_arith(c[0]):
            return
        try:
            d = padd(self.poly(c[0]), self.poly(c[1]), -1)
        except Split:
            return
        op = {z3.Z3_OP_EQ: "eq", z3.Z3_OP_LE: "le", z3.Z3_OP_GE: "ge", z3.Z3_OP_LT: "lt", z3.Z3_OP_GT: "gt"}.get(k)
        if op is None:
            return
        if neg:
            op = {"eq": "ne", "le": "gt", "ge": "lt", "lt": "ge", "gt": "le"}[op]
        if op in ("le", "lt"):
            d = padd({}, d, -1)
            op = {"le": "ge", "lt": "gt"}[op]
        getattr(self.ctx, op).append(d)

    def settle(self):
        """use guarded facts whose guards hold; solve for sqrt atoms; substitute linear definitions"""
        for _ in range(14):
            self.tick()
            ch = False
            todo, self.ctx.guard = self.ctx.guard, []
            for g, b in todo:
                self.again()
                t = self.truth(g, deep=True)
                if t is True:
                    self.fact(b)
                    ch = True
                elif t is None:
                    self.ctx.guard.append((g, b))
            ch |= self.eliminate()
            ch |= self.addrules()
            ch |= self.zeros()
            ch |= self.roots()
            if not ch:
                break
            self.again()
            # facts that needed a case split before may be polynomial now
            old, self.ctx.rest = self.ctx.rest, []
            self.ctx.eq, self.ctx.ge, self.ctx.gt, self.ctx.ne = [x for x in self.ctx.eq if self.keepeq(x)], [], [], []
            seen = set()
            for f, n in old:
                if (f.get_id(), n) in seen:
                    continue
                seen.add((f.get_id(), n))
                try:
                    self.fact(f, n)
                except Fail:
                    pass

    def keepeq(self, x):
        return False

    def occurs(self, v, p):
        return any(v == w for m in p for w, _ in m)

    def eliminate(self):
        ch = False
        for p in list(self.ctx.eq):
            p = self.sub(p)
            if not p:
                continue
            best = None
            for m, c in p.items():
                if len(m) == 1 and m[0][1] == 1:
                    v = m[0][0]
                    rest = {n: x for n, x in p.items() if n != m}
                    if not self.occurs(v, rest) and pdeg(rest) <= 1 and len(rest) <= 2:
                        # prefer eliminating introduced atoms
                        nm = str(self.atoms[v])
                        pr = (0 if not nm.startswith("in_") else 1, -v)
                        if best is None or pr < best[0]:
                            best = (pr, v, {n: -x / c for n, x in rest.items()})
            if best and best[1] not in self.subst:
                _, v, q = best
                self.subst[v] = q
                for w in self.subst:
                    self.subst[w] = self.sub(self.subst[w]) if w != v else self.subst[w]
                ch = True
        return ch

    def sub(self, p):
        for _ in range(20):
            if not any(v in self.subst for m in p for v, _ in m):
                return self.nf(p)
            r = {}
            for m, c in p.items():
                q = {ONE: c}
                for v, e in m:
                    x = self.subst.get(v, {((v, 1),): Fraction(1)})
                    for _ in range(e):
                        q = pmul(q, x)
                r = padd(r, self.nf(q))
            p = r
        return self.nf(p)

    def roots(self):
        """S*S == X, S >= 0, X == k*k*a^2 modulo facts, sign of a known"""
        ch = False
        for p in list(self.ctx.eq):
            p = self.sub(p)
            for m, c in p.items():
                if len(m) == 1 and m[0][1] == 2:
                    v = m[0][0]
                    if v in self.subst or not str(self.atoms[v]).startswith("sqrt!"):
                        continue
                    rest = {n: -x / c for n, x in p.items() if n != m}
                    if self.occurs(v, rest):
                        continue
                    for a in range(len(self.atoms)):
                        if a == v or a in self.subst or str(self.atoms[a]).startswith(("sqrt!", "inv!")):
                            continue
                        s = self.sign({((a, 1),): Fraction(1)})
                        if s is None:
                            continue
                        for k in (1, 2):
                            if self.member(padd(rest, {((a, 2),): Fraction(k * k)}, -1)):
                                self.subst[v] = {((a, 1),): Fraction(k * s)}
                                ch = True
                                break
                        if v in self.subst:
                            break
                    if v not in self.subst:
                        cc = const(rest)
                        if cc is not None and cc >= 0:
                            import math
                            n, d = math.isqrt(cc.numerator), math.isqrt(cc.denominator)
                            if n * n == cc.numerator and d * d == cc.denominator:
                                self.subst[v] = {ONE: Fraction(n, d)} if n else {}
                                ch = True
                    if v not in self.subst:
                        for k in (1, 2, 4):
                            if self.member(padd(rest, {ONE: Fraction(k * k)}, -1)):
                                self.subst[v] = {ONE: Fraction(k)}
                                ch = True
                                break
        return ch

    def zeros(self):
        """a product that is zero with all factors but one non-zero makes that factor zero"""
        ch = False
        for g in self.ctx.ge:
            g = self.sub(g)
            if len(g) == 1 and const(g) is None and self.nonneg(padd({}, g, -1)):
                self.ctx.eq.append(g)
        for p in self.ctx.eq:
            p = self.sub(p)
            if len(p) != 1 or const(p) is not None:
                continue
            (m, _), = p.items()
            un = [v for v, _ in m if not ((self.vsign(v) or (0, False))[1] or any(prop({((v, 1),): Fraction(1)}, self.sub(n)) for n in self.ctx.ne))]
            if not un:
                self.false = True
            if len(un) == 1 and un[0] not in self.subst:
                self.subst[un[0]] = {}
                ch = True
        return ch

    def vsign(self, v):
        """(sign, strict) of a variable by a single fact"""
        p = {((v, 1),): Fraction(1)}
        for g in self.ctx.gt:
            r = prop(p, self.sub(g))
            if r:
                return (1 if r > 0 else -1), True
        for g in self.ctx.ge:
            r = prop(p, self.sub(g))
            if r:
                return (1 if r > 0 else -1), False
        return None

    def sign(self, p):
        """+1 if p >= 0, -1 if p <= 0 by a single fact"""
        for g in self.ctx.ge + self.ctx.gt:
            r = prop(p, self.sub(g))
            if r:
                return 1 if r > 0 else -1
        return None

    # ------------------------------------------------------------ truth of conditions
    def truth(self, c, deep=False):
        k = c.get_id()
        ver = (deep, len(self.ctx.ge), len(self.ctx.gt), len(self.ctx.eq), len(self.ctx.ne), len(self.subst), len(self.rules), len(self.ctx.rest))
        if k in self.tcache:
            _, v, r = self.tcache[k]
            if r is not None or v == ver:
                return r
        r = self.truth0(c, deep)
        self.tcache[k] = (c, ver, r)
        return r

    def truth0(self, c, deep=False):
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.decl().kind()
        ch = c.children()
        if k == z3.Z3_OP_NOT:
            t = self.truth(ch[0], deep)
            return None if t is None else not t
        if k == z3.Z3_OP_ITE:
            t = self.truth(ch[0], deep)
            if t is not None:
                return self.truth(ch[1 if t else 2], deep)
            a, b = self.truth(ch[1], deep), self.truth(ch[2], deep)
            return a if a == b else None
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            ts = [self.truth(x, deep) for x in ch]
            if k == z3.Z3_OP_AND:
                return False if False in ts else (True if all(t is True for t in ts) else None)
            return True if True in ts else (False if all(t is False for t in ts) else None)
        for f, n in self.ctx.rest:
            if f.get_id() == c.get_id():
                return not n
        if not ch or not z3.is_arith(ch[0]):
            return None
        try:
            d = self.sub(padd(self.poly(ch[0]), self.poly(ch[1]), -1))
        except (Split, Fail):
            return None
        if k == z3.Z3_OP_EQ:
            v = const(d)
            if v is not None:
                return v == 0
            if any(prop(d, self.sub(n)) for n in self.ctx.ne + self.ctx.gt):
                return False
            if len(d) == 1 and (self.nonneg(d, True) or self.nonneg(padd({}, d, -1), True)):
                return False
            if deep or len(d) < 200:
                if self.member(d):
                    return True
            return None
        neg = padd({}, d, -1)
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
            d, neg = neg, d          # now: d >= 0 / d > 0
        strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
        if self.nonneg(d, strict):
            return True
        if self.nonneg(neg, not strict):
            return False
        return None

    # ------------------------------------------------------------ ideal membership
    def rows(self, targets, maxrows=4000, degcap=None):
        eqs = []
        for f in self.ctx.eq:
            f = self.sub(f)
            if f:
                eqs.append(f)
        for l, r in self.rules.items():
            eqs.append(padd({l: Fraction(1)}, r, -1))
        mons = set(targets)
        work = list(mons)
        cap = degcap if degcap is not None else max([deg(m) for m in mons] + [0])
        seen, out = set(), []
        while work:
            self.tick()
            m = work.pop()
            for i, f in enumerate(eqs):
                for mf in f:
                    if not mf:
                        continue
                    q = mdiv(m, mf)
                    if q is None or (i, q) in seen:
                        continue
                    if deg(q) + pdeg(f) > cap:
                        continue
                    seen.add((i, q))
                    r = {mmul(q, n): c for n, c in f.items()}
                    out.append(r)
                    if len(out) > maxrows:
                        return out
                    for n in r:
                        if n not in mons:
                            mons.add(n)
                            work.append(n)
        return out

    def member(self, p, exact=True):
        p = self.sub(p)
        if not p:
            return True
        for extra in (0, 2):
            rs = self.rows(p.keys(), degcap=pdeg(p) + extra)
            if not rs:
                continue
            used = span_mod(p, rs)
            if used is None:
                continue
            if span_exact(p, [rs[i] for i in used]):
                return True
        return False

    def nonneg(self, p, strict=False):
        """p >= 0 (p > 0) from facts by a linear positive combination modulo the ideal"""
        p = self.sub(p)
        c = const(p)
        if c is not None:
            return c > 0 if strict else c >= 0
        if not strict and all(x > 0 and all(e % 2 == 0 for _, e in m) for m, x in p.items()):
            return True
        if strict and p.get(ONE, 0) > 0 and all(x > 0 and all(e % 2 == 0 for _, e in m) for m, x in p.items()):
            return True
        if len(p) == 1:         # a monomial: signs of its odd variables
            (m, c), = p.items()
            sg, st = (1 if c > 0 else -1), True
            for v, e in m:
                if e % 2:
                    x = self.vsign(v)
                    if x is None:
                        sg = None
                        break
                    sg, st = sg * x[0], st and x[1]
                else:
                    st = st and ({((v, 1),): Fraction(1)} in self.ctx.ne or (self.vsign(v) or (0, False))[1])
            if sg is not None:
                if sg > 0 and (st or not strict):
                    return True
                if sg < 0 and st:
                    return False
        for g in self.ctx.ge * (not strict) + self.ctx.gt:
            r = prop(p, self.sub(g))
            if r and r > 0:
                return True
        if len(p) > 60 or pdeg(p) > 4:
            return False
        vs = sorted(set(v for m in p for v, _ in m))
        if len(vs) > 14:
            return False
        pos = []      # (poly, strict)
        for v in vs:
            pos.append(({((v, 2),): Fraction(1)}, False))
        for g in self.ctx.ge:
            pos.append((self.sub(g), False))
        for g in self.ctx.gt:
            pos.append((self.sub(g), True))
        for g in self.ctx.ne:
            g = self.sub(g)
            if len(g) <= 3:
                pos.append((pmul(g, g), True))
        base = [x for x in pos if pdeg(x[0]) <= 1 and len(x[0]) <= 3][:10]
        for i in range(len(base)):
            for j in range(i, len(base)):
                pos.append((pmul(base[i][0], base[j][0]), base[i][1] and base[j][1]))
        if pdeg(p) >= 4:
            for i, v in enumerate(vs):
                for w in vs[i:]:
                    pos.append(({mmul(((v, 2),), ((w, 2),)): Fraction(1)}, False))
        pos.append(({ONE: Fraction(1)}, True))
        mons = set(p)
        for g, _ in pos:
            mons |= set(g)
        rs = self.rows(mons, 300, max(2, pdeg(p)))
        if len(pos) + len(rs) > 500:
            return False
        s = z3.SolverFor("QF_LRA")
        s.set("timeout", 1500)
        acc = {}
        st = []
        for i, (g, sf) in enumerate(pos):
            l = z3.Real("l%d" % i)
            s.add(l >= 0)
            if sf:
                st.append(l)
            for m, c in g.items():
                acc.setdefault(m, []).append(l * q(c))
        for i, r in enumerate(rs):
            u = z3.Real("u%d" % i)
            for m, c in r.items():
                acc.setdefault(m, []).append(u * q(c))
        for m in set(acc) | set(p):
            s.add(z3.Sum(acc.get(m, [z3.RealVal(0)])) == q(p.get(m, Fraction(0))))
        if strict:
            s.add(z3.Sum(st) > 0)
        return s.check() == z3.sat

    # ------------------------------------------------------------ goals
    def prove(self, g, depth=0):
        self.tick()
        try:
            return self.goal(g)
        except Split as e:
            if depth > 9:
                return False
            c = self.leaf(e.c)
            for v in (True, False):
                p = Prover.__new__(Prover)
                p.atoms, p.ids, p.cache, p.deadline = self.atoms, self.ids, {}, self.deadline
                p.subst = dict(self.subst)
                p.rules = dict(self.rules)
                p.tcache = {k: x for k, x in self.tcache.items() if x[2] is not None}
                p.ctx = self.ctx.copy()
                p.keep = self.keep
                p.false = False
                p.fact(c, not v)
                p.settle()
                if p.inconsistent():
                    continue
                if not p.prove(g, depth + 1):
                    return False
            return True

    def leaf(self, c):
        """an undecided comparison without case distinctions inside c"""
        k = c.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT) or (k == z3.Z3_OP_ITE and z3.is_bool(c)):
            for x in c.children():
                if self.truth(x) is None:
                    return self.leaf(x)
            return c
        if c.children() and z3.is_arith(c.children()[0]):
            for x in c.children():
                try:
                    self.poly(x)
                except Split as e:
                    return self.leaf(e.c)
        return c

    def inconsistent(self):
        if self.false:
            return True
        for p in self.ctx.eq:
            p = self.sub(p)
            c = const(p)
            if c is not None and c != 0:
                return True
        for p in self.ctx.ge:
            c = const(self.sub(p))
            if c is not None and c < 0:
                return True
        for p in self.ctx.gt:
            p = self.sub(p)
            c = const(p)
            if c is not None and c <= 0:
                return True
            if self.nonneg(padd({}, p, -1)):
                return True
        for p in self.ctx.ne:
            if not self.sub(p):
                return True
        return False

    def goal(self, g):
        if z3.is_true(g):
            return True
        k = g.decl().kind()
        c = g.children()
        if k == z3.Z3_OP_AND:
            return all(self.prove(x) for x in c)
        if k == z3.Z3_OP_OR:
            return any(self.prove(x) for x in c)
        if k == z3.Z3_OP_NOT and c[0].decl().kind() in (z3.Z3_OP_OR,):
            return all(self.prove(z3.Not(x)) for x in c[0].children())
        if k == z3.Z3_OP_NOT and c[0].decl().kind() in (z3.Z3_OP_AND,):
            return any(self.prove(z3.Not(x)) for x in c[0].children())
        if k == z3.Z3_OP_NOT and c[0].decl().kind() == z3.Z3_OP_NOT:
            return self.goal(c[0].children()[0])
        if k == z3.Z3_OP_IMPLIES:
            return self.prove(z3.Or(z3.Not(c[0]), c[1]))
        if k == z3.Z3_OP_EQ and z3.is_arith(c[0]):
            d = padd(self.poly(c[0]), self.poly(c[1]), -1)
            return self.member(d)
        t = self.truth(g, deep=True)
        if t is True:
            return True
        # force any case distinction inside
        if k == z3.Z3_OP_NOT:
            c = c[0].children()
        if c and z3.is_arith(c[0]):
            for x in c:
                self.poly(x)
        return False


class Split(Exception):
    def __init__(self, c):
        self.c = c


_q = {}


def q(f):
    if f not in _q:
        _q[f] = z3.RealVal("%d/%d" % (f.numerator, f.denominator))
    return _q[f]


def prop(p, g):
    """r with p == r*g, or None"""
    if not g or len(p) != len(g):
        return None
    r = None
    for m, c in p.items():
        if m not in g:
            return None
        x = c / g[m]
        if r is None:
            r = x
        elif r != x:
            return None
    return r


def span_mod(p, rows):
    """is p in the span of rows modulo a 61-bit prime?  returns indices of rows used or None"""
    M = P61

    def conv(f):
        return f.numerator * pow(f.denominator, -1, M) % M
    piv = {}
    order = {}

    def reduce(r, comb):
        while r:
            lead = max(r, key=lambda m: (deg(m), m))
            if lead not in piv:
                return r, comb, lead
            b, bc = piv[lead]
            k = r[lead]
            for m, c in b.items():
                v = (r.get(m, 0) - k * c) % M
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
            comb |= bc
        return r, comb, None
    for i, row in enumerate(rows):
        r = {m: conv(c) for m, c in row.items()}
        r, comb, lead = reduce(r, {i})
        if lead is not None:
            k = pow(r[lead], -1, M)
            piv[lead] = ({m: c * k % M for m, c in r.items()}, comb)
    r, comb, lead = reduce({m: conv(c) for m, c in p.items()}, set())
    return sorted(comb) if lead is None else None


def span_exact(p, rows):
    piv = {}

    def reduce(r):
        while r:
            lead = max(r, key=lambda m: (deg(m), m))
            if lead not in piv:
                return r, lead
            b = piv[lead]
            k = r[lead]
            for m, c in b.items():
                v = r.get(m, 0) - k * c
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return r, None
    for row in rows:
        r, lead = reduce(dict(row))
        if lead is not None:
            k = r[lead]
            piv[lead] = {m: c / k for m, c in r.items()}
    r, lead = reduce(dict(p))
    return lead is None
