"""Contracts of the class Number: exact arithmetic on rational numbers of any size."""
from spec_value import *

EPS = RealVal(1) / RealVal(2 ** 52)
DMAX = RealVal(str((2 ** 53 - 1) * 2 ** 971))


def numop(ex, op, x, y):
    both = And(x.rat, y.rat)
    if op in ('==', '!='):
        r = Const(ex.name('equal'), B)
        ex.called.add('tsym::operator==')
        ex.assume(Implies(both, r == (x.v == y.v)))
        return r if op == '==' else Not(r)
    if op in ('<', '>', '<=', '>='):
        r = Const(ex.name('less'), B)
        ex.called.add('tsym::operator<')
        a, b = (x, y) if op in ('<', '>=') else (y, x)
        ex.assume(Implies(both, r == (a.v < b.v)))
        return r if op in ('<', '>') else Not(r)
    r = ex.freshnum('num')
    if op in '+-*':
        ex.assume(Implies(both, And(r.rat, r.v == {'+': x.v + y.v, '-': x.v - y.v, '*': x.v * y.v}[op])))
        return r
    raise Unsupported('number operator ' + op)


def fromdouble(ex, x):
    r = NumV(Const(ex.name('conv'), R), Const(ex.name('convrat'), B))
    for n, g in conv(x, r):
        ex.assume(g)
    return r


def conv(x, r):
    return [('a double is kept or replaced by a fraction close to it', If(r.rat, And(r.v - x < EPS, x - r.v < EPS), r.v == x)), ('sign', Implies(x >= 0, r.v >= 0))]


def powlaws(ex, t, b, x):
    """ground instances of the laws of powers: (-1)^n, a^x b^x = (ab)^x, a^(-x) = 1/a^x"""
    if b.eq(RealVal(-1)) or True:
        ex.assume(Implies(And(b == -1, IsInt(x)), t == If(ToInt(x) % 2 == 0, RealVal(1), RealVal(-1))))
    old = [q for q in ex.pwterms.values() if not q[0].eq(t)]
    for t2, b2, x2 in old:
        if x2.sort() == x.sort() and b2.eq(b) and not x2.eq(x):
            ex.assume(Implies(And(b != 0, x + x2 == 0), t * t2 == 1))
    same = [q for q in old if q[2].eq(x)]
    for i, (t2, b2, _) in enumerate(same):
        for t3, b3, _ in same[i + 1:]:
            for (u, p), (v, q), (w, r) in (((t, b), (t2, b2), (t3, b3)), ((t, b), (t3, b3), (t2, b2)), ((t2, b2), (t3, b3), (t, b))):
                ex.assume(Implies(And(p > 0, q > 0, r == p * q), w == u * v))


def number_spec():
    spec = value_spec()
    spec.numbers = True
    spec.folds = ('sum', 'prod', 'def')
    spec.templates = []
    spec.partition_hooks = []
    spec.numop, spec.fromdouble = numop, fromdouble
    spec.fields['Number::rep'] = lambda ex, o, v: o if isinstance(o, Cell) else Cell(v)
    spec.pwhooks = [powlaws]
    b = spec.builtin
    b['tsym::fitsInto'] = lambda ex, a, n: (lambda x: And(x >= 0, x <= 2 ** 32 - 1))(a[0].v if isinstance(a[0], Cell) else a[0])
    b['std:epsilon'] = lambda ex, a, n: EPS
    b['std:max'] = None
    b.pop('std:max')
    b['std:lowest'] = lambda ex, a, n: -DMAX
    for q in ('tsym::isInt', 'tsym::isEvenInt', 'tsym::isOddInt', 'tsym::isFraction', 'tsym::abs', 'tsym::sign'):
        for c in spec.c[q]:
            def post(p):
                return lambda c, o, n, r: [(nm, Implies(o[0].rat, g)) for nm, g in p(c, o, n, r)]
            c.post = post(c.post)
            c.hyp = lambda c, o: o[0].rat

            def extra(c, o):
                c.touch_frac(o[0])
                v = o[0].v
                # arithmetic: an integral number is twice an integral number if and only if the remainder is zero
                c.assume(Implies(v == ToReal(numf(v)), IsInt(v / 2) == (numf(v) % 2 == 0)))
            if 'Int' in q and q != 'tsym::isInt':
                c.extra = extra
    N = 'tsym::Number::'

    def put(q, **kw):
        spec.add(Contract(q, **kw))
    R_ = lambda *xs: And([x.rat for x in xs])
    put('tsym::operator==', sig='Number', hyp=lambda c, o: R_(*o), post=lambda c, o, n, r: [('exact equality', r == (o[0].v == o[1].v))])
    put('tsym::operator<', sig='Number', hyp=lambda c, o: R_(*o), post=lambda c, o, n, r: [('exact comparison', r == (o[0].v < o[1].v))])
    for op, f in (('+', lambda a, b: a + b), ('-', lambda a, b: a - b), ('*', lambda a, b: a * b)):
        put(N + 'operator' + op + '=', nargs=1, thisfields=('*',), hyp=lambda c, o: R_(*o), post=(lambda f: lambda c, o, n, r: [('exact', And(n[0].rat, n[0].v == f(o[0].v, o[1].v)))])(f),
            result=None if op != '-' else None)
    put(N + 'operator/=', nargs=1, thisfields=('*',), hyp=lambda c, o: R_(*o), throwsif=lambda c, o: o[1].v == 0,
        throws=lambda c, o, w: [('only for a zero divisor', Implies(R_(*o), o[1].v == 0))],
        post=lambda c, o, n, r: [('exact', And(o[1].v != 0, n[0].rat, n[0].v * o[1].v == o[0].v))])
    put(N + 'operator-', nargs=0, hyp=lambda c, o: o[0].rat, post=lambda c, o, n, r: [('exact', And(r.rat, r.v == -o[0].v))])
    put(N + 'isRational', trusted=True, post=lambda c, o, n, r: [('representation', r == o[0].rat)])
    put(N + 'isDouble', trusted=True, post=lambda c, o, n, r: [('representation', r == Not(o[0].rat))])
    frac = lambda c, o: c.touch_frac(o[0])
    put(N + 'numerator', extra=frac, post=lambda c, o, n, r: [('numerator', r == c.numer(o[0])), ('zero for a double', Implies(Not(o[0].rat), r == 0))])
    put(N + 'denominator', extra=frac, post=lambda c, o, n, r: [('denominator', r == c.denom(o[0])), ('positive', r >= 1)])
    put(N + 'toDouble', trusted=True, post=lambda c, o, n, r: [('value', r == o[-1].v)])
    put('tsym::@number::intToDouble', trusted=True, post=lambda c, o, n, r: [('value', r == ToReal(o[0]))])
    put(N + 'tryDoubleToFraction', thisfields=('*',), hyp=lambda c, o: Not(o[0].rat), post=lambda c, o, n, r: conv(o[0].v, n[0]))

    # constructors
    isn = lambda c, o, n, r: [('value', And(n[0].rat, n[0].v * ToReal(o[2]) == ToReal(o[1])))]
    for sig in ('(int, int)', '(const Int &, const Int &)'):
        put(N + 'Number', sig=sig, post=isn, throws=lambda c, o, w: [('only for a zero denominator', o[2] == 0)])
    for sig in ('(int)', '(const Int &)'):
        put(N + 'Number', sig=sig, post=lambda c, o, n, r: [('value', And(n[0].rat, n[0].v == ToReal(o[1])))])
    put(N + 'Number', sig='(double)', post=lambda c, o, n, r: conv(o[1], n[0]))

    # powers
    small = lambda e: And(ToReal(numf(e.v)) <= 2 ** 32 - 1, ToReal(numf(e.v)) >= -(2 ** 32 - 1))
    dsmall = lambda e: denf(e.v) <= 2 ** 32 - 1

    def bad(o):
        b, e = o[0], o[1]
        return Or(And(b.v == 0, e.v < 0), And(b.v < 0, Not(IsInt(e.v))))

    def touch2(c, o):
        c.touch_frac(o[0])
        c.touch_frac(o[1])
        c.pw(o[0].v, o[1].v)
        c.pw(o[0].v, ToReal(numf(o[1].v)))

    def exact(c, b, e, r):
        """r = b^e exactly, or (fractional exponents) not represented exactly"""
        c.touch_frac(e)
        c.pw(b.v, e.v)
        d = ToReal(denf(e.v))
        return [('integral powers are exact', Implies(And(IsInt(e.v), Not(And(b.v == 0, e.v == 0))), And(r.rat, r.v == c.pw(b.v, e.v)))),
                ('a fraction is returned only if it is the root', Implies(And(Not(IsInt(e.v)), b.v > 0, r.rat), And(r.v >= 0, c.pw(r.v, d) == c.pw(b.v, ToReal(numf(e.v))))))]
    hyp2 = lambda c, o: And(R_(*o), small(o[1]), dsmall(o[1]))
    put(N + 'toThe', extra=touch2, hyp=hyp2, throwsif=lambda c, o: And(R_(*o), bad(o)), throws=lambda c, o, w: [('only outside of the real domain', bad(o))],
        post=lambda c, o, n, r: [('rejected outside of the real domain', Not(bad(o)))] + exact(c, o[0], o[1], r))
    opt = lambda c, o, r: [(nm, Implies(r.has, g)) for nm, g in exact(c, o[0], o[1], r.val)] if r.val is not None else []
    triv = lambda o: Or(o[0].v == 0, o[0].v == 1, o[1].v == 1, o[1].v == 0, o[0].v == -1)
    put(N + 'computeTrivialPower', extra=touch2, hyp=hyp2, throwsif=lambda c, o: And(R_(*o), bad(o)), throws=lambda c, o, w: [('only outside of the real domain', bad(o))],
        post=lambda c, o, n, r: [('rejected outside of the real domain', Not(bad(o))), ('trivial', r.has == triv(o))] + opt(c, o, r))
    put(N + 'computeMinusOneToThe', extra=touch2, pre=lambda c, o: [('integral exponent', Implies(R_(*o), IsInt(o[1].v)))], hyp=lambda c, o: And(hyp2(c, o), o[0].v == -1),
        post=lambda c, o, n, r: exact(c, o[0], o[1], r))
    put(N + 'computeNegBasePower', extra=touch2, pre=lambda c, o: [('integral exponent of a negative base', Implies(And(o[0].rat, o[0].v <= 0), And(o[1].rat, IsInt(o[1].v))))],
        hyp=lambda c, o: And(hyp2(c, o), o[0].v != 0, Implies(o[0].v < 0, IsInt(o[1].v))), post=lambda c, o, n, r: [('negative base', r.has == (o[0].v < 0))] + opt(c, o, r))
    put(N + 'computeIrrationalPower', hyp=hyp2, post=lambda c, o, n, r: [('only for doubles', Not(r.has))])
    pos = lambda c, o: And(hyp2(c, o), o[0].v > 0)
    put(N + 'computeRationalPower', extra=touch2, hyp=pos, pre=lambda c, o: [('rational', Implies(R_(*o), o[0].v > 0))] if False else [],
        post=lambda c, o, n, r: exact(c, o[0], o[1], r))

    def nump(c, o):
        c.touch_frac(o[0])
        c.pw(o[0].v, ToReal(o[1]))
    put(N + 'computeNumPower', extra=nump, hyp=lambda c, o: And(o[0].rat, o[0].v >= 0, Or(o[0].v > 0, o[1] > 0), o[1] <= 2 ** 32 - 1, o[1] >= -(2 ** 32 - 1)),
        post=lambda c, o, n, r: [('exact', And(r.rat, r.v == c.pw(o[0].v, ToReal(o[1]))))])

    def dp(c, o, n, r):
        d = ToReal(denf(o[1].v))
        return [('unchanged for integral exponents', Implies(denf(o[1].v) == 1, And(n[2].rat, n[2].v == o[2].v))),
                ('a fraction is returned only if it is the root', Implies(And(denf(o[1].v) != 1, n[2].rat), And(n[2].v >= 0, c.pw(n[2].v, d) == o[2].v)))]
    put(N + 'computeDenomPower', extra=touch2, hyp=lambda c, o: And(R_(*o), o[0].v > 0, o[2].v > 0, dsmall(o[1])), post=dp)
    put('tsym::@number::tryGetBase', hyp=lambda c, o: And(o[0] >= 1, o[1] >= 1, o[1] <= 2 ** 32 - 1),
        post=lambda c, o, n, r: [('exact root or nothing', And(r >= 0, Implies(r != 0, c.pw(ToReal(r), ToReal(o[1])) == ToReal(o[0]))))])
    return spec
