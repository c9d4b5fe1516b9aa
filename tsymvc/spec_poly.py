"""Polynomial division: dividend = quotient*divisor + remainder at every (generic) assignment."""
from spec_value import *

degf = Function('degree', E, E, I)
lcf = Function('leadingcoeff', E, E, E)
coeff = Function('coefficient', E, E, I, E)
pvalid = Function('validpolynomials', E, E, B)


deffold('nzs', lambda e: And(kind(e) == SYM, dfd(e), val(e) != 0), lambda a, b: And(a, b), BoolVal(True), B)


def two(c, r):
    cell = Cell(r)
    c.materialize_front(cell, 0)
    c.materialize_front(cell, 1)
    ns = cell.v.nodes
    if len(ns) < 2 or ns[0][1] != 'e' or ns[1][1] != 'e':
        return None
    return ns[0][2], ns[1][2]


def fresh2(c, o):
    return ListV([c.newnode('e', c.freshE('quotient')), c.newnode('e', c.freshE('remainder'))])


ACC = {}


def t_div(ex, lc, pfx, cid):
    """a loop that moves multiples of a fixed expression from one variable to another"""
    out = []
    Es = [c for c in lc['W'] if is_E(c.v)]
    fixed, seen = [], set()
    for c in lc['cells']:
        if is_E(c.v) and c not in lc['W'] and c.v.get_id() not in seen:
            seen.add(c.v.get_id())
            fixed.append(c)
    bools = [c for c in lc['cells'] if z3.is_bool(c.v) if c not in lc['W']] if True else []
    for a in Es:
        i = cid[id(a)]
        out.append(('def%d' % i, Implies(dfd(lc['entry'][a]), dfd(a.v))))
        for b in Es:
            if a is b:
                continue
            j = cid[id(b)]
            ea, eb = lc['entry'][a], lc['entry'][b]
            # the quotient starts from zero, the remainder with something defined
            key = ('acc', ea.get_id(), eb.get_id())
            if key not in ACC:
                ACC[key] = (ex.prove(And(dfd(ea), val(ea) == 0), 500)[0] == 'proved' and ex.prove(dfd(eb), 500)[0] == 'proved', ea, eb)
            if not ACC[key][0]:
                continue
            for v in fixed:
                k = cid[id(v)]
                new, old = val(a.v) * val(v.v) + val(b.v), val(ea) * val(v.v) + val(eb)
                gs = [('', new == old)]
                for n in lc['W']:
                    if is_intv(n.v) and z3.is_int_value(z3.simplify(lc['entry'][n])):
                        for l in fixed:
                            p = ex.pw(val(l.v), ToReal(n.v - lc['entry'][n]))
                            gs.append(('_%d_%d' % (cid[id(n)], cid[id(l)]), new == p * old))
                for nm, g in gs:
                    if not bools:
                        out.append(('div%d_%d_%d%s' % (i, j, k, nm), g))
                    for q in bools:
                        out.append(('divif%d_%d_%d%s_%d' % (i, j, k, nm, cid[id(q)]), Implies(q.v, g)))
    return out


def steps(ex, t, b, x):
    """ground instances of a^(x+y) = a^x a^y"""
    old = [q for q in ex.pwterms.values() if q[1].eq(b) and not q[0].eq(t)]
    for t2, _, x2 in old:
        ex.assume(Implies(And(b != 0, IsInt(x), x == x2 + 1), t == t2 * b), Implies(And(b != 0, IsInt(x2), x2 == x + 1), t2 == t * b))
    for i, (t2, _, x2) in enumerate(old):
        for t3, _, x3 in old[i + 1:]:
            for (u, p), (v, q), (w, r) in (((t, x), (t2, x2), (t3, x3)), ((t, x), (t3, x3), (t2, x2)), ((t2, x2), (t3, x3), (t, x))):
                ex.assume(Implies(And(b != 0, IsInt(p), IsInt(q), r == p + q), w == u * v))


def division_spec():
    spec = value_spec()
    spec.templates = [t_div]
    spec.partition_hooks = []
    spec.pwhooks = [steps]
    spec.intfacts = True
    spec.folds = ('sum', 'prod', 'def', 'nzs')

    def a_lead(ex, e, a):
        r = lcf(e, a[0])
        ex.touch(r)
        ex.assume(Implies(dfd(e), And(dfd(r), val(r) != 0)))
        return r

    def a_deg(ex, e, a):
        d = degf(e, a[0])
        ex.assume(d >= 0)
        return d

    def a_coeff(ex, e, a):
        r = coeff(e, a[0], a[1])
        ex.touch(r)
        ex.assume(Implies(dfd(e), dfd(r)))
        return r
    spec.attr['leadingCoeff'], spec.attr['degree'], spec.attr['coeff'] = a_lead, a_deg, a_coeff

    def put(q, **kw):
        spec.c.pop(q, None) if kw.pop('replace', False) else None
        spec.add(Contract(q, **kw))
    A = 'tsym::@poly::'
    ok2 = lambda o: And(dfd(o[0]), dfd(o[1]), val(o[1]) != 0)

    def ident(c, o, n, r):
        p = two(c, r)
        if p is None:
            return [('two elements', BoolVal(False))]
        q, m = p
        return [('two elements', c.length(r) == 2), ('identity', Implies(pvalid(o[0], o[1]), And(dfd(q), dfd(m), val(o[0]) == val(q) * val(o[1]) + val(m)))),
                ('undefined for invalid input', Implies(Not(pvalid(o[0], o[1])), And(K(q) == UNDEF, K(m) == UNDEF)))]

    def ident2(c, o, n, r):
        p = two(c, r)
        if p is None:
            return [('two elements', BoolVal(False))]
        q, m = p
        return [('two elements', c.length(r) == 2), ('identity', And(dfd(q), dfd(m), val(o[0]) == val(q) * val(o[1]) + val(m)))]
    nz = lambda c, o: c.fold('nzs', o[2])
    put('tsym::poly::isInputValid', post=lambda c, o, n, r: [('valid', r == pvalid(o[0], o[1]))], trusted=True)
    put('tsym::poly::listOfSymbols', post=lambda c, o, n, r: [('symbols with a value other than zero', c.fold('nzs', r))], trusted=True)
    put(A + 'divideEmptyList', hyp=lambda c, o: ok2(o), post=ident2, result=fresh2)
    put(A + 'divideNonEmpty', hyp=lambda c, o: And(ok2(o), nz(c, o)), pre=lambda c, o: [('non-empty list of symbols', c.length(o[2]) > 0)], post=ident2, result=fresh2)
    put('tsym::poly::divide', nargs=3, hyp=lambda c, o: And(ok2(o), nz(c, o)), post=ident, result=fresh2)
    put('tsym::poly::divide', nargs=2, hyp=lambda c, o: ok2(o), post=ident, result=fresh2)

    def pident(c, o, n, r, cond=True, valid=True):
        p = two(c, r)
        if p is None:
            return [('two elements', BoolVal(False))]
        q, m = p
        x = o[2]
        lc = lcf(o[1], x)
        d = degf(o[0], x) - degf(o[1], x) + 1
        f = c.pw(val(lc), ToReal(If(d >= 0, d, IntVal(0))))
        g = And(dfd(q), dfd(m), Implies(o[3] if cond else BoolVal(True), f * val(o[0]) == val(q) * val(o[1]) + val(m)))
        return [('two elements', c.length(r) == 2), ('identity', Implies(pvalid(o[0], o[1]), g) if valid else g)]

    def lcv(c, o):
        a_lead(c, o[1], [o[2]])
    put(A + 'pseudoDivideChecked', extra=lcv, hyp=lambda c, o: And(ok2(o), dfd(o[2]), val(o[2]) != 0), post=lambda c, o, n, r: pident(c, o, n, r, valid=False), result=fresh2)
    put(A + 'pseudoDivideImpl', extra=lcv, hyp=lambda c, o: And(ok2(o), dfd(o[2]), val(o[2]) != 0), post=pident, result=fresh2)
    put('tsym::poly::pseudoDivide', extra=lcv, hyp=lambda c, o: And(ok2(o), dfd(o[2]), val(o[2]) != 0), post=lambda c, o, n, r: pident(c, o, n, r, cond=False), result=fresh2)

    def cinv(ex, key, value):
        u, v = two(ex, key)
        if value is None:
            value = fresh2(ex, None)
        o = [u, v]
        return value, Implies(ok2(o), And([g for _, g in ident(ex, o, None, value)]))
    spec.cacheinv['tsym::poly::divide'] = cinv
    return spec
