"""Contracts of the elementary functions: creating a trigonometric function or a logarithm gives the value of that function."""
from spec_value import *
from spec_more import fields_fun, tf, tdom
import spec_more

T = 'tsym::Trigonometric::'
H = RealVal('1/2')
S2, S3, S6 = (Const('sqrt%d' % k, R) for k in (2, 3, 6))
S2M, S2P = Const('sqrt(2-sqrt2)', R), Const('sqrt(2+sqrt2)', R)
ROOTS = [S2 > 0, S2 * S2 == 2, S3 > 0, S3 * S3 == 3, S6 > 0, S6 * S6 == 6, S6 == S2 * S3, S2M > 0, S2M * S2M == 2 - S2, S2P > 0, S2P * S2P == 2 + S2, S2M * S2P == S2]
# textbook values in the first quadrant: multiple of pi, sine, cosine
TABLE = [('0', RealVal(0), RealVal(1)), ('1/12', (S6 - S2) / 4, (S6 + S2) / 4), ('1/8', S2M / 2, S2P / 2), ('1/6', H, S3 / 2), ('1/4', S2 / 2, S2 / 2),
         ('1/3', S3 / 2, H), ('3/8', S2P / 2, S2M / 2), ('5/12', (S6 + S2) / 4, (S6 - S2) / 4), ('1/2', RealVal(1), RealVal(0))]


def reg(ex, v):
    trig(ex, vsin, v)
    return v


def regi(ex, v):
    """inverse functions at v"""
    k = ('inv', v.get_id())
    if k in ex.touchedL:
        return v
    ex.touchedL[k] = v
    for w in (vasin(v), vacos(v), vatan(v)):
        reg(ex, w)
    a, c, t = vasin(v), vacos(v), vatan(v)
    ex.assume(Implies(And(v >= -1, v <= 1), And(vsin(a) == v, vcos(a) >= 0, a >= -PI / 2, a <= PI / 2, vcos(c) == v, vsin(c) >= 0, c >= 0, c <= PI, a + c == PI / 2)),
              vtan(t) == v, vcos(t) > 0, t > -PI / 2, t < PI / 2, vatan(-v) == -t, vasin(-v) == -a, vacos(-v) == PI - c)
    return v


def rega2(ex, y, x):
    a = vatan2(y, x)
    k = ('a2', a.get_id())
    if k not in ex.touchedL:
        ex.touchedL[k] = a
        reg(ex, a)
        r = Const(ex.name('radius'), R)
        ex.assume(Implies(Or(x != 0, y != 0), And(r > 0, r * r == x * x + y * y, vsin(a) * r == y, vcos(a) * r == x)))
    return a


# no periods or symmetries needed
NOPAIRS = ('createFromTrigo', 'createFromTrigoNoInverse', 'sineTable', 'tanTable')


def trig_lemmas(ex, goal):
    us = list(ex.trigterms.values())
    out = [vsin(RealVal(0)) == 0]
    if len(us) > 24 or ex.target.qual.endswith('NoInverse'):
        return out
    for u in us:
        s, c = vsin(u), vcos(u)
        out += [Implies(And(u >= -PI / 2, u <= PI / 2), vasin(s) == u), Implies(And(u >= 0, u <= PI), vacos(c) == u),
                Implies(And(u > -PI / 2, u < PI / 2), And(vatan(vtan(u)) == u, c > 0)), Implies(Or(u == PI / 2, u == -PI / 2), c == 0),
                Implies(And(u >= 0, u <= PI), s >= 0), Implies(Or(u == 0, u == PI), s == 0)]
    if ex.target.qual.split('::')[-1] in NOPAIRS:
        return out
    for i, u in enumerate(us):
        for j, v in enumerate(us):
            if i == j:
                continue
            su, cu, tu, sv_, cv, tv = vsin(u), vcos(u), vtan(u), vsin(v), vcos(v), vtan(v)
            if i < j:
                out += [Implies(u == -v, And(su == -sv_, cu == cv, tu == -tv, vasin(u) == -vasin(v), vatan(u) == -vatan(v), vacos(u) == PI - vacos(v))),
                        Implies(u == PI - v, And(su == sv_, cu == -cv, tu == -tv)), Implies(u == 2 * PI - v, And(su == -sv_, cu == cv, tu == -tv)),
                        Implies(u == PI / 2 - v, And(su == cv, cu == sv_))]
            out += [Implies(u == v + 2 * PI, And(su == sv_, cu == cv, tu == tv)), Implies(u == v + PI, And(su == -sv_, cu == -cv, tu == tv)),
                    Implies(u == v + PI / 2, And(su == cv, cu == -sv_))]
    return out


def touch_fun2(ex, e):
    key = ('fun2', e.get_id())
    if key in ex.touched:
        return
    ex.touched[key] = e
    touch_fun(ex, e)
    o = ops(e)
    a, l = hd(o), last(o)
    regi(ex, val(a))
    y, x = val(a), val(l)
    # only functions of evaluable arguments are evaluable (group eval)
    ex.assume(Implies(And(K(e) == FUN, hasnum(e)), And(hasnum(a), hasnum(l))))
    ex.assume(Implies(And(K(e) == FUN, ename(e) == name_id('atan2')), And(dfd(e) == And(dfd(a), dfd(l), Or(x != 0, y != 0)), val(e) == rega2(ex, y, x))))


def tval(c, ty, v):
    reg(c, v)
    regi(c, v)
    return tf(ty, v)


def t_trig(ex, lc, pfx, cid):
    """an argument shifted by periods"""
    out = []
    ints = [c for c in lc['W'] if is_intv(c.v)]
    for a in lc['W']:
        if not is_E(a.v):
            continue
        i = cid[id(a)]
        u, v = val(a.v), val(lc['entry'][a])
        reg(ex, u)
        reg(ex, v)
        out.append(('tper%d' % i, Implies(dfd(lc['entry'][a]), And(dfd(a.v), vsin(u) == vsin(v), vcos(u) == vcos(v), vtan(u) == vtan(v)))))
        out.append(('thas%d' % i, Implies(hasnum(lc['entry'][a]), hasnum(a.v))))
        seen = set()
        for c in lc['cells']:
            if is_E(c.v) and c not in lc['W'] and c.v.get_id() not in seen:
                seen.add(c.v.get_id())
                out.append(('tub%d_%d' % (i, cid[id(c)]), u < val(c.v) + 2 * PI))
                out.append(('tlb%d_%d' % (i, cid[id(c)]), u >= val(c.v)))
        out.append(('tnn%d' % i, u >= 0))
        out.append(('tu2%d' % i, u < 2 * PI))
        out.append(('tle%d' % i, u <= v))
        out.append(('tge%d' % i, u >= v))
        for c in ints:
            out.append(('tcnt%d_%d' % (i, cid[id(c)]), u == v - ToReal(c.v - lc['entry'][c]) * PI / 2))
    return out


def thisnts(ex):
    pi = ex.freshE('Pi')
    ex.assume(K(pi) == CONSTK, ename(pi) == name_id('pi'), val(pi) == PI, dfd(pi), hasnum(pi))
    PIn = NumV(PI, BoolVal(False))
    f = dict(Pi=Cell(pi, 'const BasePtr', 'Pi'), PI=Cell(PIn, 'const Number', 'PI'), type=Cell(ex.fresh('TY', 'type'), 'Type', 'type'), sign=Cell(ex.fresh('I', 'sign', 'int'), 'int', 'sign'),
             origArg=Cell(ex.freshE('origArg'), 'BasePtr', 'origArg'), arg=Cell(ex.freshE('arg'), 'BasePtr', 'arg'), result=Cell(ex.fresh('OE', 'result'), 'std::optional<BasePtr>', 'result'))
    ex.assume(f['type'].v != name_id('atan2'))
    return StructV('NumTrigoSimpl', f)


def mk_nts(ex, n, args):
    vs = [ex.ev(a) for a in args]
    if len(vs) == 1 and isinstance(vs[0], StructV):
        return vs[0]
    s = thisnts(ex)
    s.f['origArg'].v = s.f['arg'].v = vs[0]
    s.f['type'].v = vs[1] if len(vs) > 1 else name_id('sin')
    s.f['sign'].v = IntVal(1)
    s.f['result'].v = OptV(BoolVal(False), None)
    ex.oblige('pre:NumTrigoSimpl:numerically evaluable argument', hasnum(vs[0]), cls='pre')
    return s


def sintab(ex, k, x):
    reg(ex, val(k))
    return [('angle', And(dfd(k), hasnum(k), val(k) >= 0, val(k) <= PI / 2)), ('value', And(dfd(x), hasnum(x), val(x) == vsin(val(k)), val(x) >= 0))]


def tantab(ex, k, x):
    reg(ex, val(k))
    return [('angle', And(dfd(k), hasnum(k), val(k) >= 0, val(k) <= PI / 2)),
            ('value', Or(And(val(k) == PI / 2, K(x) == UNDEF), And(val(k) < PI / 2, dfd(x), hasnum(x), val(x) == vtan(val(k)), val(x) >= 0)))]


def textbook(ex):
    for f in ROOTS:
        ex.assume(f)
    for m, s, c in TABLE:
        u = PI * RealVal(m)
        reg(ex, z3.simplify(u))
        u = z3.simplify(u)
        ex.assume(vsin(u) == s, vcos(u) == c)


def trig_spec():
    spec = value_spec()
    fields_fun(spec)
    f = spec.fields
    for k in ('type', 'arg', 'arg1', 'arg2'):
        f[k] = (lambda h: lambda ex, e: (touch_fun2(ex, e), h(ex, e))[1])(f[k])
    for nm, fn in (('sin', vsin), ('cos', vcos), ('tan', vtan), ('asin', vasin), ('acos', vacos), ('atan', vatan)):
        spec.builtin['std:' + nm] = (lambda fn, rg: lambda ex, a, n: fn(rg(ex, rv(ex.asnum(ex.ev(a[0])).v))))(fn, reg if len(nm) == 3 else regi)
    spec.folds = ('sum', 'prod', 'def', 'hn')
    spec.templates = [t_trig]
    spec.partition_hooks = []
    spec.lemmas = [trig_lemmas, pw_lemmas]
    ms = spec.make_shared
    old = ms['Trigonometric']
    ms['Trigonometric'] = lambda ex, args: (lambda e: (touch_fun2(ex, e), e)[1])(old(ex, args))
    ms['this:NumTrigoSimpl'] = thisnts
    ms['construct:NumTrigoSimpl'] = mk_nts

    # closed expressions stay numerically evaluable (checked by the bounded stand-in of C13)
    def closed(q):
        for c in spec.c['tsym::' + q]:
            def post(p):
                return lambda c, o, n, r: p(c, o, n, r) + [('closed', Implies(foldv(c, 'hn', o), foldv(c, 'hn', [r])))]
            c.post = post(c.post)
    for q in ('Sum::create', 'Product::create', 'Product::minus', 'Power::oneOver', 'Power::sqrt', 'Power::create'):
        closed(q)
    for nm, v in (('createE', EUL), ('createPi', PI)):
        spec.c.pop('tsym::Constant::' + nm)
        spec.add(Contract('tsym::Constant::' + nm, post=lambda c, o, n, r, v=v: [('constant', And(K(r) == CONSTK, val(r) == v, dfd(r), hasnum(r), nev(r) == v))]))

    def put(q, **kw):
        spec.c.pop(q, None)
        spec.add(Contract(q, **kw))

    def eq1(c, o, n, r):
        return [('defined', dfd(r)), ('value', val(r) == tval(c, o[0], val(o[1])))]
    h1 = lambda c, o: And(dfd(o[1]), tdom(o[0], val(o[1])))
    istrig = lambda e: And(K(e) == FUN, Or([ename(e) == name_id(x) for x in theory.TRIGNAMES]))
    for q, pre in (('create', None), ('createFromFunction', lambda c, o: [('function', K(o[1]) == FUN)]), ('createFromTrigo', lambda c, o: [('trigonometric', istrig(o[1]))]),
                   ('createFromTrigoNoInverse', lambda c, o: [('trigonometric', istrig(o[1]))]), ('createBySymmetry', None),
                   ('createNumerically', lambda c, o: [('numerically evaluable', hasnum(o[1]))]), ('createNumericallyBySymmetry', None)):
        put(T + q, pre=pre, hyp=h1, post=eq1)
    put(T + 'doesSymmetryApply', post=lambda c, o, n, r: [])

    INV = {'asin': vsin, 'acos': vcos, 'atan': vtan}

    def shpre(c, o):
        return [('inverse function of an evaluable argument', And(Or([o[0] == name_id(x) for x in INV]), hasnum(o[1])))]

    def shpost(c, o, n, r):
        v = reg(c, val(o[1]))
        reg(c, val(r))
        for x in INV.values():
            regi(c, x(v))
        return [('defined', dfd(r)), ('value', And([Implies(o[0] == name_id(x), val(r) == tf(o[0], g(v))) for x, g in INV.items()])), ('closed', hasnum(r))]
    put(T + 'shiftArgIntoRange', pre=shpre, hyp=lambda c, o: And(dfd(o[1]), Implies(o[0] == name_id('atan'), vcos(reg(c, val(o[1]))) != 0)), post=shpost)
    put('tsym::@trigonometric::normalFrac', hyp=lambda c, o: And(dfd(o[0]), dfd(o[1]), val(o[1]) != 0),
        post=lambda c, o, n, r: [('quotient', And(dfd(r), val(r) * val(o[1]) == val(o[0])))])
    put('tsym::@trigonometric::atan2ArgEval', hyp=lambda c, o: And(dfd(o[0]), dfd(o[1]), val(o[1]) != 0),
        post=lambda c, o, n, r: [('value', And(dfd(r), val(r) * val(o[1]) == val(o[0]))), ('closed', Implies(And(hasnum(o[0]), hasnum(o[1])), hasnum(r)))])
    put('tsym::eval', sig='Fraction', nargs=1, post=lambda c, o, n, r: [('quotient', Implies(And(dfd(o[0].f['num'].v), dfd(o[0].f['denom'].v), val(o[0].f['denom'].v) != 0),
        And(dfd(r), val(r) * val(o[0].f['denom'].v) == val(o[0].f['num'].v))))])
    for fn, g, df in (('Sin', vsin, None), ('Cos', vcos, None), ('Tan', vtan, lambda v: vcos(v) != 0), ('Asin', vasin, 1), ('Acos', vacos, 1), ('Atan', vatan, None)):
        pass    # contracts of value_spec, verified here

    # two arguments: not both numerically evaluable (known finding otherwise)
    put(T + 'createAtan2', hyp=lambda c, o: And(dfd(o[0]), dfd(o[1]), Or(val(o[0]) != 0, val(o[1]) != 0), Not(And(hasnum(o[0]), hasnum(o[1])))),
        post=lambda c, o, n, r: [('defined', dfd(r)), ('value', val(r) == rega2(c, val(o[0]), val(o[1])))])
    put(T + 'createAtan2Numerically', post=lambda c, o, n, r: [])

    # ---- numerically evaluable arguments
    N = 'tsym::NumTrigoSimpl::'
    F = ('arg', 'sign', 'result')

    def nhyp(c, o):
        t = o[0].f
        return And(dfd(t['origArg'].v), tdom(t['type'].v, val(t['origArg'].v)))
    ok = lambda r, v: Implies(r.has, And(dfd(r.val), val(r.val) == v)) if r.val is not None else BoolVal(True)
    put(N + 'simplify', thisfields=F, pre=lambda c, o: [('numerically evaluable', And(hasnum(o[0].f['origArg'].v), o[0].f['type'].v != name_id('atan2'), hasnum(o[0].f['arg'].v)))],
        hyp=nhyp, post=lambda c, o, n, r: [('value', ok(r, tval(c, o[0].f['type'].v, val(o[0].f['origArg'].v))))])
    rng = lambda c, o: [('argument in the first period', And(hasnum(o[0].f['arg'].v)))]
    inrange = lambda c, o: (lambda a: And(dfd(a), val(a) >= 0, val(a) < 2 * PI))(o[0].f['arg'].v)
    put(N + 'sin', thisfields=F, pre=rng, hyp=inrange,
        post=lambda c, o, n, r: [('value', ok(n[0].f['result'].v, vsin(reg(c, val(o[0].f['arg'].v)))))])
    put(N + 'adjustArgRange', thisfields=('arg',), pre=rng, hyp=lambda c, o: dfd(o[0].f['arg'].v), post=lambda c, o, n, r: (lambda u, v, e: [
        ('first period', And(dfd(e), u >= 0, u < 2 * PI)), ('closed', hasnum(e)), ('same sine, cosine and tangent', And(vsin(u) == vsin(v), vcos(u) == vcos(v), vtan(u) == vtan(v)))])(
            reg(c, val(n[0].f['arg'].v)), reg(c, val(o[0].f['arg'].v)), n[0].f['arg'].v))
    for q, inv in (('sineTable', sintab), ('tanTable', tantab)):
        o = 'tsym::@numtrigosimpl::' + q
        spec.tableinv[o] = inv
        spec.add(Contract(o, result=(lambda o: lambda c, a: MapV(o, o))(o), post=lambda c, a, n, r: [], extra=lambda c, a: textbook(c)))
    put('tsym::@numtrigosimpl::timesPi', pre=lambda c, o: [('nonzero denominator', o[1] != 0)], post=lambda c, o, n, r: [('value', And(dfd(r), hasnum(r), val(r) == ToReal(o[0]) / ToReal(o[1]) * PI))])
    put('tsym::@trigonometric::timesPi', pre=lambda c, o: [('nonzero denominator', (o[1] if len(o) > 1 else IntVal(1)) != 0)], post=lambda c, o, n, r: [('value', And(dfd(r), hasnum(r), val(r) == ToReal(o[0]) / ToReal(o[1] if len(o) > 1 else IntVal(1)) * PI))])
    add = spec.add
    add(Contract('tsym::isDoubleNumeric', post=lambda c, o, n, r: [('double', r == And(K(o[0]) == NUM, Not(rat(o[0]))))]))
    add(Contract('tsym::isRationalNumeric', post=lambda c, o, n, r: [('rational', r == And(hasnum(o[0]), nevrat(o[0])))]))

    # ---- logarithm
    G = 'tsym::Logarithm::'
    lh = lambda c, o: And(dfd(o[0]), val(o[0]) > 0, lgen(o[0]))
    lp = lambda c, o, n, r: [('defined', dfd(r)), ('value', val(r) == logv(c, val(o[0])))]

    def lextra(c, o):
        lognest(c, o[0])
    for q, pre in (('create', None), ('createNumerically', lambda c, o: [('number', K(o[0]) == NUM)]), ('createFromConstant', lambda c, o: [('constant', K(o[0]) == CONSTK)]), ('createFromPower', lambda c, o: [('power', K(o[0]) == POW)])):
        put(G + q, pre=pre, hyp=lh, post=lp, extra=lextra)
    return spec


lgen = Function('positivebases', E, B)


def lognest(c, e):
    """every base of nested powers is positive at the assignment"""
    c.touch_pow(e)
    b = base(e)
    c.assume(lgen(e) == Or(K(e) != POW, And(val(b) > 0, lgen(b))))
    logv(c, val(b))
    logv(c, val(e))
    c.assume(Implies(And(K(e) == POW, val(b) > 0), vlog(val(e)) == val(exp(e)) * vlog(val(b))))
