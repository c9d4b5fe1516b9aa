"""Equational back end: decides goals that are polynomial consequences of the unconditional equations of a path.

Every equation of the path that is linear in some atom with a constant coefficient is used as a rewrite rule for this atom (Gaussian
elimination over polynomials with rational coefficients); a goal l = r is proved if l - r reduces to the zero polynomial.
"""
import time
from fractions import Fraction as Fr
import z3


class TooBig(Exception):
    pass


ABSTR = {}
ISI = z3.Function('isint', z3.RealSort(), z3.BoolSort())
MULT = z3.Function('times', z3.RealSort(), z3.RealSort(), z3.RealSort())
DIVI = z3.Function('over', z3.RealSort(), z3.RealSort(), z3.RealSort())


def abstract(f):
    """the predicate 'is an integer' uninterpreted: keeps the query in linear arithmetic (what is unsatisfiable then is so before)"""
    k = f.get_id()
    if k not in ABSTR:
        cs = f.children()
        if not cs:
            r = f
        else:
            ns = [abstract(c) for c in cs]
            if z3.is_is_int(f):
                r = z3.BoolVal(True) if z3.is_to_real(ns[0]) else ISI(ns[0])
            elif z3.is_mul(f) and f.sort() == z3.RealSort() and sum(not z3.is_rational_value(c) for c in ns) > 1:
                q = sorted([c for c in ns if not z3.is_rational_value(c)], key=lambda c: c.get_id())
                r = q[0]
                for c in q[1:]:
                    r = MULT(r, c)
                for c in ns:
                    if z3.is_rational_value(c):
                        r = c * r
            elif z3.is_div(f) and not z3.is_rational_value(ns[1]):
                r = DIVI(*ns)
            elif all(a.eq(b) for a, b in zip(cs, ns)):
                r = f
            else:
                r = z3.And(ns) if z3.is_and(f) else z3.Or(ns) if z3.is_or(f) else f.decl()(*ns)
        ABSTR[k] = (r, f)
    return ABSTR[k][0]


class Poly:
    def __init__(self, facts, deadline, imply_ms=150):
        self.deadline = deadline
        self.uf = {}
        self.keys = {}
        self.sub = {}        # atom -> polynomial
        self.users = {}
        eqs, imps, terms = [], [], []
        for f in facts:
            self.flat(f, eqs, imps)
        if imps:
            s = z3.Solver()
            s.set('timeout', imply_ms)
            # products uninterpreted: makes a hypothesis harder to prove, never easier
            for f in facts:
                s.add(abstract(f))
            cand = [(h, c) for h, c in imps if self.interesting(c)]
            models = []
            if s.check() == z3.sat:
                models.append(s.model())
            for h, c in cand:
                if time.time() > deadline:
                    break
                if any(z3.is_false(m.eval(abstract(h), True)) for m in models):
                    continue
                s.push()
                s.add(z3.Not(abstract(h)))
                r = s.check()
                if r == z3.sat and len(models) < 6:
                    models.append(s.model())
                s.pop()
                if r == z3.unsat:
                    self.flat(c, eqs, [])
        ar = []
        for a, b in eqs:
            if a.sort().kind() == z3.Z3_UNINTERPRETED_SORT:
                terms.append((a, b))
            elif a.sort().kind() in (z3.Z3_REAL_SORT, z3.Z3_INT_SORT):
                ar.append((a, b))
        for _ in range(3):
            self.keys = {}
            ch = False
            for a, b in terms:
                x, y = self.find(self.key(a)), self.find(self.key(b))
                if x != y:
                    if len(x) < len(y):
                        x, y = y, x
                    self.uf[x] = y
                    ch = True
            if not ch:
                break
        self.keys = {}
        for a, b in ar:
            if time.time() > deadline:
                break
            try:
                self.addeq(self.minus(self.poly(a), self.poly(b)))
            except TooBig:
                pass

    def interesting(self, c):
        e = []
        self.flat(c, e, [])
        return bool(e)

    def flat(self, f, eqs, imps):
        if z3.is_and(f):
            for c in f.children():
                self.flat(c, eqs, imps)
        elif z3.is_eq(f):
            eqs.append((f.arg(0), f.arg(1)))
        elif z3.is_implies(f):
            imps.append((f.arg(0), f.arg(1)))

    def find(self, k):
        while k in self.uf:
            k = self.uf[k]
        return k

    def key(self, t):
        i = t.get_id()
        if i in self.keys:
            return self.keys[i]
        if z3.is_app(t) and t.num_args():
            k = t.decl().name() + '(' + ','.join(self.find(self.key(c)) for c in t.children()) + ')'
        else:
            k = str(t)
        self.keys[i] = k
        return k

    def poly(self, t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            v = Fr(str(t.as_fraction())) if z3.is_rational_value(t) else Fr(t.as_long())
            return {(): v} if v else {}
        d = t.decl().kind()
        if d == z3.Z3_OP_ADD:
            r = {}
            for c in t.children():
                r = self.plus(r, self.poly(c))
            return r
        if d == z3.Z3_OP_SUB:
            r = self.poly(t.arg(0))
            for c in t.children()[1:]:
                r = self.minus(r, self.poly(c))
            return r
        if d == z3.Z3_OP_UMINUS:
            return self.scale(self.poly(t.arg(0)), Fr(-1))
        if d == z3.Z3_OP_MUL:
            r = {(): Fr(1)}
            for c in t.children():
                r = self.mul(r, self.poly(c))
            return r
        if d == z3.Z3_OP_DIV:
            q = self.poly(t.arg(1))
            if set(q) == {()}:
                return self.scale(self.poly(t.arg(0)), 1 / q[()])
        if d == z3.Z3_OP_TO_REAL:
            return self.poly(t.arg(0))
        k = self.find(self.key(t))
        if k in self.sub:
            return self.sub[k]
        return {(k,): Fr(1)}

    @staticmethod
    def plus(a, b):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    @staticmethod
    def scale(a, s):
        return {m: c * s for m, c in a.items()} if s else {}

    def minus(self, a, b):
        return self.plus(a, self.scale(b, Fr(-1)))

    def mul(self, a, b):
        if len(a) * len(b) > 4000:
            raise TooBig()
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = tuple(sorted(m + n))
                v = r.get(k, 0) + c * d
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return r

    def subst(self, p, atom, q):
        if not any(atom in m for m in p):
            return p
        r = {}
        for m, c in p.items():
            if atom in m:
                x = {tuple(a for a in m if a != atom): c}
                for _ in range(m.count(atom)):
                    x = self.mul(x, q)
                r = self.plus(r, x)
            else:
                r = self.plus(r, {m: c})
            if len(r) > 600:
                raise TooBig()
        return r

    def addeq(self, p):
        cand = []
        for m in p:
            if len(m) == 1 and not any(m[0] in n for n in p if n != m):
                cand.append(m[0])
        if not cand:
            return
        # the longest name is the most derived term: a created expression, a list function
        a = max(cand, key=lambda x: (not x.startswith(('val(hd', 'numerator')), len(x)))
        c = p[(a,)]
        q = self.scale({m: v for m, v in p.items() if m != (a,)}, Fr(-1) / c)
        if len(q) > 40:
            return
        for k in list(self.sub):
            self.sub[k] = self.subst(self.sub[k], a, q)
        self.sub[a] = q

    def goal(self, g):
        if z3.is_and(g):
            return all(self.goal(c) for c in g.children())
        if z3.is_true(g):
            return True
        if z3.is_eq(g) and g.arg(0).sort().kind() in (z3.Z3_REAL_SORT, z3.Z3_INT_SORT):
            try:
                return not self.minus(self.poly(g.arg(0)), self.poly(g.arg(1)))
            except TooBig:
                return False
        return False


def poly_prove(facts, goal, secs=4.0):
    g = goal
    fs = list(facts)
    while z3.is_implies(g):
        fs.append(g.arg(0))
        g = g.arg(1)
    if not (z3.is_eq(g) or z3.is_and(g)):
        return False
    parts = g.children() if z3.is_and(g) else [g]
    if not all(z3.is_eq(x) and z3.is_arith(x.arg(0)) for x in parts):
        return False
    return Poly(fs, time.time() + secs).goal(g)
