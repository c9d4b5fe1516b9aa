"""Further contract groups on top of the value layer."""
from spec_value import *


def t_ipow(ex, lc, pfx, cid):
    """a counter and a list that collects the same factor: product of the list is a power"""
    out = []
    Es = []
    for c in lc['cells']:
        if is_E(c.v) and c not in lc['W'] and all(not c.v.eq(d) for d in Es):
            Es.append(c.v)
    if ex.this is not None and is_E(ex.this):
        Es.append(base(ex.this))
    for a in lc['W']:
        if isinstance(a.v, ListV) and a.v.et == 'E' and not lc['entry'][a].nodes:
            for i in lc['W']:
                if is_intv(i.v):
                    for n, b in enumerate(Es[:3] + Es[-1:]):
                        out.append(('ipow%d_%d_%d' % (cid[id(a)], cid[id(i)], n),
                                    ex.fold('prod', a.v) == ex.pw(val(b), ToReal(i.v - lc['entry'][i]))))
    return out


def expand_spec():
    spec = value_spec()
    spec.templates = spec.templates + [t_ipow]

    def add(qual, hyp=None, post=None, **kw):
        spec.add(Contract(qual, hyp=hyp, post=post, **kw))
    A = 'tsym::@baseptrlistfct::'
    same = lambda c, o, n, r: [('defined', dfd(r)), ('value', val(r) == val(o[0]))]
    # the list of arguments equals scalar*product of sums
    add(A + 'defScalarAndSums', hyp=lambda c, o: foldv(c, 'def', [o[0], o[2]]),
        post=lambda c, o, n, r: [('defined', foldv(c, 'def', [n[1], n[2]])),
                                 ('value', foldv(c, 'prod', [n[1], n[2]]) == foldv(c, 'prod', [o[0], o[2]]))])
    add(A + 'expandProductOf', nargs=1, hyp=lambda c, o: foldv(c, 'def', [o[0]]), pre=lambda c, o: [('non-empty', c.length(o[0]) > 0)],
        post=lambda c, o, n, r: [('defined', dfd(r)), ('value', val(r) == foldv(c, 'prod', [o[0]]))])
    add(A + 'expandProductOf', nargs=2, hyp=defs(), pre=lambda c, o: [('sum', K(o[1]) == SUM)],
        post=lambda c, o, n, r: [('defined', dfd(r)), ('value', val(r) == foldv(c, 'prod', o))])
    for f in ('expandIntegerExponent', 'expandSumBaseIntExp'):
        add('tsym::Power::' + f, hyp=lambda c, o: dfd(o[0]), post=same,
            pre=lambda c, o: [('integer exponent', And(hasnum(exp(o[0])), nevrat(exp(o[0])), IsInt(nev(exp(o[0])))))])
    return spec


def fields_fun(spec):
    f = spec.fields
    f['type'] = lambda ex, e: (touch_fun(ex, e), ename(e))[1]
    f['arg'] = f['arg1'] = lambda ex, e: (touch_fun(ex, e), hd(ops(e)))[1]
    f['arg2'] = lambda ex, e: (touch_fun(ex, e), ex.touch(last(ops(e))), last(ops(e)))[1]
    f['positive'] = lambda ex, e: possym(e)
    for nm, fn in (('sin', vsin), ('cos', vcos), ('tan', vtan), ('asin', vasin), ('acos', vacos), ('atan', vatan), ('log', vlog)):
        spec.builtin['std:' + nm] = (lambda fn: lambda ex, a, n: (fn(rv(ex.asnum(ex.ev(a[0])).v))))(fn)
    spec.builtin['std:atan2'] = lambda ex, a, n: vatan2(rv(ex.ev(a[0])), rv(ex.ev(a[1])))


def t_sign(ex, lc, pfx, cid):
    out = []
    for a in lc['W']:
        if is_intv(a.v):
            i = cid[id(a)]
            out.append(('srange%d' % i, And(a.v >= -1, a.v <= 1)))
            out.append(('sunit%d' % i, Or(a.v == -1, a.v == 1)))
            for j, p, et in pfx:
                if et == 'E':
                    for fl in ('sum', 'prod', 'ssym'):
                        t = ex.fold(fl, p)
                        out.append(('s%s%d_%d' % (fl, i, j), And(Implies(a.v == 1, t > 0), Implies(a.v == -1, t < 0))))
                        out.append(('z%s%d_%d' % (fl, i, j), Implies(a.v == 0, t == 0)))
        if isinstance(a.v, NumV):
            for j, p, et in pfx:
                if et == 'E':
                    out.append(('nsnum%d_%d' % (cid[id(a)], j), a.v.v == lc['entry'][a].v + ex.fold('snum', p)))
    return out


def sign_spec():
    spec = value_spec()
    fields_fun(spec)
    spec.folds = ('sum', 'prod', 'def', 'snum', 'ssym')
    spec.templates = [t_sign]
    spec.foldlemmas = [('sum of numeric and symbolic parts', lambda F: Implies(F('def'), F('sum') == F('snum') + F('ssym')))]

    def add(qual, hyp=None, post=None, **kw):
        spec.add(Contract(qual, hyp=hyp, post=post, **kw))
    d = lambda c, o: dfd(o[0])
    pos = lambda c, o, n, r: [('positive', Implies(r, val(o[0]) > 0))]
    neg = lambda c, o, n, r: [('negative', Implies(r, val(o[0]) < 0))]
    sgn = lambda c, o, n, r: [('sign', And(Implies(r == 1, val(o[0]) > 0), Implies(r == -1, val(o[0]) < 0)))]
    add('tsym::Base::isPositive', hyp=d, post=pos)
    add('tsym::Base::isNegative', hyp=d, post=neg)
    add('tsym::Numeric::isPositive', post=lambda c, o, n, r: [('positive', r == (val(o[0]) > 0))])
    add('tsym::Numeric::isNegative', post=lambda c, o, n, r: [('negative', r == (val(o[0]) < 0))])
    add('tsym::Symbol::isPositive', post=lambda c, o, n, r: [('positive', r == possym(o[0]))])
    add('tsym::Symbol::isNegative', post=lambda c, o, n, r: [('negative', Not(r))])
    add('tsym::Sum::sign', hyp=d, post=sgn)
    add('tsym::Product::sign', hyp=d, post=sgn)
    add('tsym::Sum::signOfNumericParts', hyp=d, post=lambda c, o, n, r: [
        ('sign', r == If(FOLDS['snum'].fn(ops(o[0])) < 0, IntVal(-1), If(FOLDS['snum'].fn(ops(o[0])) > 0, IntVal(1), IntVal(0))))])
    add('tsym::Sum::signOfSymbolicParts', hyp=d, post=lambda c, o, n, r: [
        ('sign', And(r >= -1, r <= 1, Implies(r == 1, FOLDS['ssym'].fn(ops(o[0])) > 0), Implies(r == -1, FOLDS['ssym'].fn(ops(o[0])) < 0)))])
    spec.pwhooks = [lambda ex, t, b, x: ex.assume(Implies(And(b < 0, IsInt(x), x == ToReal(numf(x))), And((t > 0) == (numf(x) % 2 == 0), t != 0)))]
    # monotone elementary functions
    spec.lemmas = spec.lemmas + [mono]
    return spec


def mono(ex, goal):
    out = []
    for v in list(ex.trigterms.values()):
        out += [(vatan(v) > 0) == (v > 0), (vatan(v) < 0) == (v < 0), Implies(v > 0, And((vlog(v) > 0) == (v > 1), (vlog(v) < 0) == (v < 1)))]
    return out


def eval_spec():
    spec = value_spec()
    fields_fun(spec)

    def add(qual, hyp=None, post=None, **kw):
        spec.add(Contract(qual, hyp=hyp, post=post, **kw))

    spec.folds = ('sum', 'prod', 'def', 'hn')
    spec.templates = [lambda ex, lc, pfx, cid: [('hn%d' % j, ex.fold('hn', p)) for j, p, et in pfx if et == 'E']]
    HN = FOLDS['hn'].fn

    def ev(c, o, n, r):
        e = o[0]
        k = K(e)
        out = [('evaluable exactly without symbols', r.has == If(k == POW, And(hasnum(base(e)), hasnum(exp(e))), If(Or(k == SYM, k == UNDEF), BoolVal(False), HN(ops(e)))))]
        if r.val is None:
            return out
        return out + [('value', Implies(r.has, r.val.v == val(o[0])))]
    add('tsym::Base::numericEval', hyp=lambda c, o: dfd(o[0]), post=ev)
    add('tsym::Undefined::numericEval', post=ev)
    return spec


def rep(v):
    return v.f['rep'].v


def var_spec():
    """the public wrapper class"""
    spec = value_spec()
    fields_fun(spec)

    def add(qual, hyp=None, post=None, **kw):
        spec.add(Contract(qual, hyp=hyp, post=post, **kw))
    two = lambda c, o: And(dfd(rep(o[0])), dfd(rep(o[1])))
    div = lambda c, o: And(dfd(rep(o[0])), dfd(rep(o[1])), val(rep(o[1])) != 0)

    def op(f, inplace):
        def post(c, o, n, r):
            a, b = val(rep(o[0])), val(rep(o[1]))
            out = [('defined', dfd(rep(r))), ('value', f(a, b, val(rep(r))))]
            if inplace:
                out.append(('this holds the result', rep(n[0]) == rep(r)))
            return out
        return post
    for nm, f in (('+', lambda a, b, r: r == a + b), ('-', lambda a, b, r: r == a - b), ('*', lambda a, b, r: r == a * b), ('/', lambda a, b, r: r * b == a)):
        spec.add(Contract('tsym::Var::operator' + nm + '=', hyp=div if nm == '/' else two, post=op(f, True), verifyonly=True))
        add('tsym::operator' + nm, nargs=2, sig='Var', hyp=div if nm == '/' else two, post=op(f, False))
    spec.add(Contract('tsym::Var::operator-', nargs=0, hyp=lambda c, o: dfd(rep(o[0])), post=lambda c, o, n, r: [
        ('defined', dfd(rep(r))), ('value', val(rep(r)) == -val(rep(o[0])))]))
    add('tsym::Var::operator double', hyp=lambda c, o: dfd(rep(o[0])), post=lambda c, o, n, r: [('value', r == val(rep(o[0])))])
    spec.c['tsym::Var::operator double'][0].throws = lambda c, o, w: [('only if not evaluable', Not(hasnum(rep(o[0]))))]
    lim = 2 ** 31
    add('tsym::Var::operator int', hyp=lambda c, o: dfd(rep(o[0])), post=lambda c, o, n, r: [('value', ToReal(r) == val(rep(o[0]))), ('in range', And(r >= -lim, r < lim))])
    spec.c['tsym::Var::operator int'][0].throws = lambda c, o, w: [
        ('only if not an integer in range', Or(Not(hasnum(rep(o[0]))), Not(nevrat(rep(o[0]))), Not(IsInt(val(rep(o[0])))), val(rep(o[0])) >= lim, val(rep(o[0])) < -lim))]
    spec.builtin['tsym::fitsInto'] = lambda ex, a, n: And(a[0] >= -lim, a[0] < lim)
    add('tsym::operator==', nargs=2, sig='Var', post=lambda c, o, n, r: [('equal', r == (rep(o[0]) == rep(o[1])))])
    add('tsym::operator!=', nargs=2, sig='Var', post=lambda c, o, n, r: [('different', r == (rep(o[0]) != rep(o[1])))])
    spec.c['tsym::isInteger'][0].post = lambda c, o, n, r: [('integer', r == And(hasnum(o[0]), nevrat(o[0]), IsInt(nev(o[0]))))]
    return spec


def none_und(ex, s, f):
    x = ex.freshE('x')
    if ex.prove(Implies(K(x) == UNDEF, ex.pred_formula(f, x)), 1000)[0] == 'proved':
        ex.assume(Not(FOLDS['und'].fn(s)))


def undef_spec():
    """an undefined operand always gives the undefined expression"""
    spec = value_spec()
    fields_fun(spec)
    spec.folds = ('sum', 'prod', 'def', 'und')
    spec.templates = []
    spec.partition_hooks = []
    spec.none_hooks = [none_und]

    def put(qual, post, hyp=None, **kw):
        old = spec.c.pop(qual, [None])[0]
        spec.add(Contract(qual, hyp=hyp, post=post, pre=old.pre if old else None, **kw))

    def arg(c, o, n, r, *more):
        return [('undefined operand', Implies(Or(foldv(c, 'und', o), *more), K(r) == UNDEF))]
    for q in ('Sum::create', 'Product::create', 'Product::minus'):
        put('tsym::' + q, arg, mutates=False)
    isn = lambda e: K(e) == NUM
    put('tsym::Power::create', lambda c, o, n, r: arg(c, o, n, r, And(isn(o[0]), val(o[0]) == 0, isn(o[1]), val(o[1]) < 0)))
    put('tsym::Power::createNotUndefined', lambda c, o, n, r: [('division by zero', Implies(And(isn(o[0]), val(o[0]) == 0, isn(o[1]), val(o[1]) < 0), K(r) == UNDEF))])
    put('tsym::Power::oneOver', lambda c, o, n, r: arg(c, o, n, r, And(isn(o[0]), val(o[0]) == 0)))
    put('tsym::Power::sqrt', arg)
    T = 'tsym::Trigonometric::'
    ty = lambda *ns: (lambda e: Or([e == name_id(x) for x in ns]))
    out1 = lambda e: And(hasnum(e), Or(nev(e) < -1, nev(e) > 1))
    for q in ('Sin', 'Cos', 'Tan', 'Atan', 'Atan2'):
        put(T + 'create' + q, arg)
    for q in ('Asin', 'Acos'):
        put(T + 'create' + q, lambda c, o, n, r: arg(c, o, n, r, out1(o[0])))
    put(T + 'create', lambda c, o, n, r: [('undefined operand', Implies(Or(K(o[1]) == UNDEF, And(Or(o[0] == name_id('asin'), o[0] == name_id('acos')), out1(o[1]))), K(r) == UNDEF))])
    put('tsym::Logarithm::create', lambda c, o, n, r: arg(c, o, n, r, And(isn(o[0]), val(o[0]) <= 0), And(negq(o[0]), K(o[0]) != POW)))
    for q in ('createFromFunction', 'createBySymmetry', 'createNumerically', 'doesSymmetryApply', 'createAtan2Numerically'):
        put(T + q, lambda c, o, n, r: [])
    for q in ('createNumerically', 'createFromConstant', 'createFromPower'):
        put('tsym::Logarithm::' + q, lambda c, o, n, r: [])
    me = lambda c, o, n, r: [('undefined operand', Implies(K(o[0]) == UNDEF, K(r) == UNDEF))]
    put('tsym::Base::expand', me)
    put('tsym::Base::diffWrtSymbol', me)
    put('tsym::Base::diff', lambda c, o, n, r: [('undefined operand or no symbol', Implies(Or(K(o[0]) == UNDEF, K(o[1]) != SYM), K(r) == UNDEF))])
    put('tsym::Base::subst', lambda c, o, n, r: [('undefined operand', Implies(And(K(o[0]) == UNDEF, K(o[1]) != UNDEF), K(r) == UNDEF))])
    put('tsym::Base::coeff', lambda c, o, n, r: [])

    def op(c, o, n, r):
        return [('undefined operand', Implies(Or([K(rep(x)) == UNDEF for x in o]), K(rep(r)) == UNDEF))]
    for nm in '+-*/':
        spec.add(Contract('tsym::Var::operator' + nm + '=', nargs=1, post=op, verifyonly=True))
        put('tsym::operator' + nm, op, nargs=2, sig='Var')
    spec.add(Contract('tsym::Var::operator-', nargs=0, post=op))
    put('tsym::Undefined::create', lambda c, o, n, r: [('undefined', K(r) == UNDEF)])
    return spec


# ------------------------------------------------------------------ derivatives
SYMB = Const('symbol', E)


def tf(ty, v):
    r = vatan(v)
    for nm, f in (('sin', vsin), ('cos', vcos), ('tan', vtan), ('asin', vasin), ('acos', vacos)):
        r = If(ty == name_id(nm), f(v), r)
    return r


def tdom(ty, v):
    return And(ty != name_id('atan2'), Implies(ty == name_id('tan'), vcos(v) != 0), Implies(Or(ty == name_id('asin'), ty == name_id('acos')), And(v >= -1, v <= 1)))


def touch_diff(ex, e):
    k = K(e)
    o = ops(e)
    FD = FOLDS
    ex.assume(Implies(Or(k == NUM, k == CONSTK), And(D(e) == 0, dif(e))), Implies(k == SYM, And(dif(e), D(e) == If(e == SYMB, RealVal(1), RealVal(0)))))
    ex.assume(Implies(k == SUM, And(D(e) == FD['sumd'].fn(o), dif(e) == FD['dif'].fn(o))))
    ex.assume(Implies(k == PROD, And(D(e) == FD['dual'].fn(o).d, dif(e) == FD['dif'].fn(o))))


def touch_diff_pow(ex, e):
    b, x = base(e), exp(e)
    B_, X = val(b), val(x)
    ex.touch(dx(x))
    ex.assume(Implies(And(K(e) == POW, dif(e)), And(dif(b), dif(x), Or(B_ > 0, And(B_ < 0, dx(x) == ZERO)))))
    ex.assume(Implies(And(K(e) == POW, dif(e), B_ > 0), D(e) * B_ == val(e) * (D(x) * vlog(B_) * B_ + X * D(b))))
    ex.assume(Implies(And(K(e) == POW, dif(e), B_ < 0), D(e) * B_ == val(e) * X * D(b)))


def touch_diff_fun(ex, e):
    touch_fun(ex, e)
    a, l = hd(ops(e)), last(ops(e))
    v, w = val(a), val(l)
    h = RealVal('-1/2')

    def ax(nm, cond, d):
        ex.assume(Implies(And(K(e) == FUN, ename(e) == name_id(nm), dif(e)), And(dif(a), cond, D(e) == d)))
    T = BoolVal(True)
    ax('sin', T, vcos(v) * D(a))
    ax('cos', T, -vsin(v) * D(a))
    ax('tan', T, (1 + vtan(v) * vtan(v)) * D(a))
    ax('atan', T, D(a) / (1 + v * v))
    p = ex.pw(1 - v * v, h)
    ax('asin', And(v > -1, v < 1), p * D(a))
    ax('acos', And(v > -1, v < 1), -p * D(a))
    ax('log', v > 0, D(a) / v)
    ax('atan2', And(w != 0, dif(l)), (D(a) * w - v * D(l)) / (w * w + v * v))
    ex.assume(Implies(And(K(e) == FUN, ename(e) == name_id('atan2'), dfd(e)), And(dfd(a), dfd(l))))


def t_diff(ex, lc, pfx, cid):
    out = []
    its = [c for c in lc['cells'] if isinstance(c.v, IterV)]
    for a in lc['W']:
        if not (isinstance(a.v, ListV) and a.v.et == 'E'):
            continue
        i = cid[id(a)]
        a0 = lc['entry'][a]
        for j, p, et in pfx:
            if et != 'E':
                continue
            out.append(('sumd%d_%d' % (i, j), Implies(ex.fold('dif', p), ex.fold('sum', a.v) == ex.fold('sum', a0) + ex.fold('sumd', p))))
            it = next(c for c in its if cid[id(c)] == j)
            nodes = it.v.cell.v.nodes
            suf = nodes[len(p):]
            out.append(('prodd%d_%d' % (i, j), ex.fold('sum', a.v) == ex.fold('sum', a0) + ex.fold('dual', p).d * ex.fold('prod', suf)))
            for c in its:
                if c.v.cell is it.v.cell and c is not it and c.v.node is not None:
                    q = [n for n in p if n[0] != c.v.node]
                    out.append(('pexcl%d_%d_%d' % (i, j, cid[id(c)]), ex.fold('prod', a.v) == ex.fold('prod', a0) * ex.fold('prod', q)))
    return out


def diff_spec():
    spec = value_spec()
    fields_fun(spec)
    spec.folds = ('sum', 'prod', 'def', 'dual', 'sumd', 'dif')
    spec.partition_hooks = []
    spec.templates = [t_diff]
    spec.touch = spec.touch + [touch_diff]

    def add(qual, hyp=None, post=None, **kw):
        spec.c.pop(qual, None)
        spec.add(Contract(qual, hyp=hyp, post=post, **kw))

    def a_diff(ex, e, args):
        if len(args) == 2 or e is ex.this:
            return NotImplemented
        s = args[0]
        t = dx(e)
        ex.touch(e)
        ex.touch(t)
        ex.oblige('pre:diffWrtSymbol:same symbol', s == SYMB, cls='pre')
        ex.assume(Implies(And(dfd(e), dif(e)), And(dfd(t), val(t) == D(e))))
        ex.called.add('tsym::Base::diffWrtSymbol')
        return t

    def a_diff2(ex, e, args):
        if e is ex.this:
            return NotImplemented
        if not ex.branch(K(args[0]) == SYM):
            return mk_undef(ex, [])
        return a_diff(ex, e, args)
    spec.attr['diffWrtSymbol'] = a_diff
    spec.attr['diff'] = a_diff2

    def extra(c, o):
        c.assume(o[-1] == SYMB, K(SYMB) == SYM)
        touch_diff_fun(c, o[0])
        c.touch_pow(o[0])
        touch_diff_pow(c, o[0])
        if not z3.is_true(z3.simplify(K(o[0]) == POW)):
            pass
    spec.add(Contract('tsym::Base::diffWrtSymbol', nargs=1, hyp=lambda c, o: And(dfd(o[0]), dif(o[0])), extra=extra,
                      post=lambda c, o, n, r: [('defined', dfd(r)), ('derivative', val(r) == D(o[0]))]))
    for cl in ('Numeric', 'Constant'):
        add('tsym::%s::diffWrtSymbol' % cl, extra=extra, post=lambda c, o, n, r: [('zero', And(r == ZERO, dfd(r), val(r) == D(o[0])))])
    T = 'tsym::Trigonometric::'
    spec.add(Contract(T + 'diffWrtSymbol', nargs=1, hyp=lambda c, o: And(dfd(o[0]), dif(o[0])), extra=extra,
                      post=lambda c, o, n, r: [('defined', dfd(r)), ('derivative', val(r) == D(o[0]))]))
    spec.add(Contract(T + 'create', hyp=lambda c, o: And(dfd(o[1]), tdom(o[0], val(o[1]))),
                      post=lambda c, o, n, r: [('defined', dfd(r)), ('value', val(r) == tf(o[0], (trig(c, vsin, val(o[1])), val(o[1]))[1]))]))
    # equal functions have equal derivatives: the quotient built by Product::create has the derivative of the quotient
    spec.add(Contract('tsym::@trigonometric::atan2ArgEval', hyp=lambda c, o: And(dfd(o[0]), dfd(o[1]), val(o[1]) != 0),
                      post=lambda c, o, n, r: [('value', And(dfd(r), val(r) * val(o[1]) == val(o[0]))),
                                               ('derivative', Implies(And(dif(o[0]), dif(o[1])), And(dif(r), D(r) * val(o[1]) * val(o[1]) == D(o[0]) * val(o[1]) - val(o[0]) * D(o[1]))))]))
    return spec


# ------------------------------------------------------------------ substitution
def touch_subst(ex, e):
    k = K(e)
    o = ops(e)
    b, x = base(e), exp(e)
    n = e != FROM
    ex.assume(Implies(e == FROM, And(sv(e) == val(TO), sd(e) == dfd(TO))),
              Implies(And(n, Or(k == NUM, k == SYM, k == CONSTK)), And(sv(e) == val(e), sd(e))),
              Implies(And(n, k == UNDEF), Not(sd(e))),
              Implies(And(n, k == SUM), And(sv(e) == FOLDS['ssum_'].fn(o), sd(e) == FOLDS['sdef_'].fn(o))),
              Implies(And(n, k == PROD), And(sv(e) == FOLDS['sprod_'].fn(o), sd(e) == FOLDS['sdef_'].fn(o))))


def touch_subst_deep(ex, e):
    """powers and functions, at the expression a method is called on"""
    k = K(e)
    b, x = base(e), exp(e)
    n = e != FROM
    ex.touch_pow(e)
    for t in (b, x):
        ex.touch(t)
    ex.assume(Implies(And(n, k == POW), And(sd(e) == And(sd(b), sd(x), pdef(sv(b), sv(x))), Implies(sd(e), sv(e) == ex.pw(sv(b), sv(x))))))
    touch_fun(ex, e)
    a = hd(ops(e))
    v = sv(a)
    dom = dict(tan=vcos(v) != 0, asin=And(v >= -1, v <= 1), acos=And(v >= -1, v <= 1), log=v > 0)
    for nm, f in (('sin', vsin), ('cos', vcos), ('tan', vtan), ('asin', vasin), ('acos', vacos), ('atan', vatan), ('log', vlog)):
        ex.assume(Implies(And(n, k == FUN, ename(e) == name_id(nm)), And(sd(e) == And(sd(a), dom.get(nm, BoolVal(True))), Implies(sd(e), sv(e) == f(v)))))
    # the two-argument arc tangent is left to the bounded stand-in
    ex.assume(Implies(And(n, k == FUN, ename(e) == name_id('atan2')), Not(sd(e))))


def inherits(c, method, e):
    """Base::method runs for the kinds whose class doesn't override it"""
    if c.target.qual == 'tsym::Base::' + method:
        ov = [kc for cl, kc in KINDS.items() if any(f.body is not None for f in c.prog.byqual.get('tsym::%s::%s' % (cl, method), ()))]
        c.assume(*[K(e) != k for k in set(ov)])


def t_subst(ex, lc, pfx, cid):
    out = []
    for a in lc['W']:
        if not (isinstance(a.v, ListV) and a.v.et == 'E'):
            continue
        i = cid[id(a)]
        a0 = lc['entry'][a]
        for j, p, et in pfx:
            if et != 'E':
                continue
            sdp = ex.fold('sdef_', p)
            out.append(('subst%d_%d' % (i, j), Implies(sdp, And(Implies(ex.fold('def', a0), ex.fold('def', a.v)), ex.fold('sum', a.v) == ex.fold('sum', a0) + ex.fold('ssum_', p),
                                                                ex.fold('prod', a.v) == ex.fold('prod', a0) * ex.fold('sprod_', p),
                                                                ex.length(a.v) == ex.length(a0) + ex.length(ListV(p))))))
    return out


def subst_spec():
    spec = value_spec()
    fields_fun(spec)
    spec.folds = ('sum', 'prod', 'def', 'ssum_', 'sprod_', 'sdef_')
    spec.partition_hooks = []
    spec.templates = [t_subst]
    spec.touch = spec.touch + [touch_subst]

    def a_subst(ex, e, args):
        if e is ex.this and ex.target.qual.endswith('::subst'):
            return NotImplemented
        t = sbst(e)
        ex.touch(e)
        ex.touch(t)
        ex.oblige('pre:subst:same replacement', And(args[0] == FROM, args[1] == TO), cls='pre')
        ex.assume(Implies(sd(e), And(dfd(t), val(t) == sv(e))))
        ex.called.add('tsym::Base::subst')
        return t
    spec.attr['subst'] = a_subst

    def extra(c, o):
        c.assume(o[-2] == FROM, o[-1] == TO, K(FROM) != UNDEF)
        c.touch(TO)
        if is_E(o[0]):
            touch_subst_deep(c, o[0])
            inherits(c, 'subst', o[0])
    post = lambda c, o, n, r: [('defined', dfd(r)), ('value', val(r) == sv(o[0]))]
    spec.add(Contract('tsym::Base::subst', hyp=lambda c, o: sd(o[0]), extra=extra, post=post))
    spec.add(Contract('tsym::subst', sig='BasePtrList (const BasePtrList', hyp=lambda c, o: foldv(c, 'sdef_', [o[0]]), extra=extra, mutates=False,
                      pre=lambda c, o: [('same replacement', And(o[1] == FROM, o[2] == TO))],
                      post=lambda c, o, n, r: [('defined', foldv(c, 'def', [r])), ('sum', foldv(c, 'sum', [r]) == foldv(c, 'ssum_', [o[0]])),
                                               ('product', foldv(c, 'prod', [r]) == foldv(c, 'sprod_', [o[0]])), ('length', c.length(r) == c.length(o[0]))]))
    spec.add(Contract('tsym::Trigonometric::create', hyp=lambda c, o: And(dfd(o[1]), tdom(o[0], val(o[1]))),
                      post=lambda c, o, n, r: [('defined', dfd(r)), ('value', val(r) == tf(o[0], (trig(c, vsin, val(o[1])), val(o[1]))[1]))]))
    spec.add(Contract('tsym::Trigonometric::createAtan2', post=lambda c, o, n, r: []))
    return spec


# ------------------------------------------------------------------ structure: equality, containment, symbols
def touch_struct(ex, e):
    k = K(e)
    o = ops(e)
    ex.assume(hasw(e) == And(k != UNDEF, Or(e == WHAT, FOLDS['hasw'].fn(o))), occ(e) == If(k == SYM, e == WSYM, FOLDS['occ'].fn(o)))
    # an undefined operand makes an expression undefined (verified in the group 'undef'), symbols are positive as declared (group 'sign')
    ex.assume(Not(FOLDS['und'].fn(o)), Implies(k == SYM, posq(e) == possym(e)))
    ext(ex, e, WHAT)
    ext(ex, e, WSYM)


def ext(ex, a, b):
    """E is the set of expressions modulo structural identity"""
    if not a.eq(b):
        ex.assume(Implies(identical(a, b), a == b))


def none_struct(ex, s, f):
    """no element of s satisfies f: an Or-fold whose element predicate implies f is false"""
    x = ex.freshE('x')
    p = ex.pred_formula(f, x)
    for nm in ('hasw', 'occ'):
        if ex.prove(Implies(FOLDS[nm].elem(x), p), 1000)[0] == 'proved':
            ex.assume(Not(FOLDS[nm].fn(s)))
    ex.assume(Implies(ex.pred_formula(f, WSYM), FOLDS['cnt'].fn(s) == 0))


def identical(a, b):
    """what makes two expressions the same: kind, number or name or sign attribute, operands in order"""
    k = K(a)
    return And(k == K(b), k != UNDEF, Implies(k == NUM, val(a) == val(b)), Implies(k == SYM, And(ename(a) == ename(b), possym(a) == possym(b))),
               Implies(k == CONSTK, ename(a) == ename(b)), Implies(k == FUN, ename(a) == ename(b)),
               Implies(Or(k == SUM, k == PROD, k == FUN, k == POW), And(ops(a) == ops(b), Not(FOLDS['und'].fn(ops(a))))))


def t_struct(ex, lc, pfx, cid):
    out = []
    for a in lc['W']:
        if isinstance(a.v, ListV) and a.v.et == 'E':
            c0, c1 = ex.fold('cnt', lc['entry'][a]), ex.fold('cnt', a.v)
            for j, p, et in pfx:
                if et == 'E':
                    out.append(('cnt%d_%d' % (cid[id(a)], j), Implies(c0 <= 1, c1 == If(Or(c0 > 0, ex.fold('occ', p)), IntVal(1), IntVal(0)))))
    return out


def struct_spec():
    spec = value_spec()
    fields_fun(spec)
    spec.folds = ('hasw', 'occ', 'cnt', 'und')
    spec.partition_hooks = []
    spec.none_hooks = [none_struct]
    spec.templates = [t_struct]
    spec.foldlemmas = [('counts are not negative', lambda F: F('cnt') >= 0)]
    spec.touch = [touch_kinds, touch_struct]
    spec.lemmas = []
    spec.fields['symbolName'] = lambda ex, e: StrV(ename(e))
    spec.fields['functionName'] = lambda ex, e: StrV(ename(e))

    def put(qual, post, hyp=None, **kw):
        spec.c.pop(qual, None)
        spec.add(Contract(qual, hyp=hyp, post=post, **kw))
    eq = lambda c, o, n, r: [('structurally identical', r == identical(o[0], o[1]))]
    spec.attr['isEqual'] = lambda ex, e, a: (ex.touch(e), ex.touch(a[0]), ext(ex, e, a[0]), identical(e, a[0]))[3] if not (e is ex.this and ex.target.qual.endswith('::isEqual')) else NotImplemented
    spec.attr['isDifferent'] = lambda ex, e, a: NotImplemented if e is ex.this and ex.target.qual.endswith('::isDifferent') else Not(identical(e, a[0]))
    put('tsym::Base::isEqualDifferentBase', eq)
    put('tsym::Base::isEqual', eq, extra=lambda c, o: inherits(c, 'isEqual', o[0]))
    put('tsym::Base::isDifferent', lambda c, o, n, r: [('not identical', r == Not(identical(o[0], o[1])))])
    put('tsym::Base::isEqualByTypeAndOperands', lambda c, o, n, r: [('same kind and operands', r == And(K(o[0]) == K(o[1]), ops(o[0]) == ops(o[1]), Not(FOLDS['und'].fn(ops(o[0])))))])
    put('tsym::areEqual', lambda c, o, n, r: [('equal', r == And(c.listeq(o[0], o[1]), Not(foldv(c, 'und', [o[0]]))))], nargs=2, sig='BasePtrList')
    a_has = lambda ex, e, a: NotImplemented if e is ex.this and ex.target.qual.endswith('::has') else (
        ex.touch(e), ex.oblige('pre:has:same expression', a[0] == WHAT, cls='pre'), hasw(e))[2]
    spec.attr['has'] = a_has

    def extra(c, o):
        c.touch(o[-1])
        c.assume(o[-1] == WHAT)
        inherits(c, 'has', o[0])
    spec.add(Contract('tsym::Base::has', extra=extra, post=lambda c, o, n, r: [('contained', r == hasw(o[0]))]))
    F = 'tsym::@functions::'
    one = lambda c: If(c, IntVal(1), IntVal(0))
    spec.add(Contract(F + 'collectSymbols', nargs=2, hyp=lambda c, o: foldv(c, 'cnt', [o[1]]) <= 1, post=lambda c, o, n, r: [
        ('each symbol that occurs exactly once', foldv(c, 'cnt', [n[1]]) == one(Or(foldv(c, 'cnt', [o[1]]) > 0, occ(o[0]))))]))
    spec.add(Contract(F + 'insertSymbolIfNotPresent', hyp=lambda c, o: foldv(c, 'cnt', [o[1]]) <= 1, pre=lambda c, o: [('symbol', K(o[0]) == SYM)], post=lambda c, o, n, r: [
        ('present once', foldv(c, 'cnt', [n[1]]) == one(Or(foldv(c, 'cnt', [o[1]]) > 0, o[0] == WSYM)))]))
    spec.add(Contract('tsym::collectSymbols', nargs=1, post=lambda c, o, n, r: [('each symbol that occurs exactly once', foldv(c, 'cnt', [r]) == one(occ(rep(o[0]))))]))
    spec.add(Contract('tsym::has', nargs=2, extra=lambda c, o: c.assume(rep(o[1]) == WHAT), post=lambda c, o, n, r: [('contained', r == hasw(rep(o[0])))]))
    return spec


def touch_kinds(ex, e):
    k = K(e)
    ex.assume(Implies(k == FUN, llen(ops(e)) == If(ename(e) == name_id('atan2'), IntVal(2), IntVal(1))))
    touch_const(ex, e)


# ------------------------------------------------------------------ order of operands
def touch_order(ex, e):
    k = K(e)
    o = ops(e)
    ex.assume(sz(e) >= 1, Not(FOLDS['und'].fn(o)), Implies(k == SYM, posq(e) == possym(e)), Implies(k == NUM, And(hasnum(e), nev(e) == val(e))))
    ex.assume(Implies(llen(o) > 0, And(sz(hd(o)) < sz(e), sz(last(o)) < sz(e), K(hd(o)) != UNDEF, K(last(o)) != UNDEF)))
    ex.assume(Implies(k == POW, And(sz(base(e)) + sz(exp(e)) < sz(e), K(base(e)) != UNDEF, K(exp(e)) != UNDEF)))
    ex.assume(Implies(Or(k == SUM, k == PROD), llen(o) >= 2))
    ex.assume(Implies(And(k == NUM, val(e) == 1), e == ONE), sz(ONE) == 1, K(ONE) == NUM, val(ONE) == 1)


def ih_order(ex, x, y):
    ex.assume(Implies(And(K(x) != UNDEF, K(y) != UNDEF), And(Implies(x != y, perm(x, y) == Not(perm(y, x))), Implies(x == y, Not(perm(x, y))))))


def ext_order(ex, a, b):
    k = K(a)
    o, p = ops(a), ops(b)
    ex.assume(Implies(And(k == K(b), k != UNDEF, Implies(k == NUM, val(a) == val(b)), Implies(k == SYM, And(ename(a) == ename(b), possym(a) == possym(b))),
                          Implies(Or(k == CONSTK, k == FUN), ename(a) == ename(b)), Implies(Or(k == SUM, k == PROD, k == FUN), o == p),
                          Implies(k == POW, And(base(a) == base(b), exp(a) == exp(b)))), a == b))
    # a function has one or two operands
    ex.assume(Implies(And(k == FUN, K(b) == FUN, llen(o) == llen(p), hd(o) == hd(p), last(o) == last(p)), o == p))


def order_spec():
    spec = value_spec()
    fields_fun(spec)
    spec.folds = ('und',)
    spec.partition_hooks = []
    spec.templates = []
    spec.lemmas = []
    spec.touch = [touch_kinds, touch_order]

    def swapped(ex, a, b):
        f = ex.target
        st, ex.stack = ex.stack, []
        ex.permdepth = getattr(ex, 'permdepth', 0) + 1
        if ex.permdepth > 3:
            ex.oblige('recursion on the same operands ends', BoolVal(False), cls='safety')
            raise PathEnd()
        try:
            r = ex.run_body(f.qual, {p['id']: Cell(v, p['type']['qualType'], p.get('name', '')) for p, v in zip(f.params, (a, b))}, f.body, None, f.tu, f.sig)
        finally:
            ex.stack = st
            ex.permdepth -= 1
        return ex.to_bool(r.v if isinstance(r, (Cell, ElemCell)) else r)

    def call(ex, args, n):
        x, y = [v.v if isinstance(v, (Cell, ElemCell)) else v for v in args]
        a, b = ex.old
        if (x.eq(a) and y.eq(b)) or (x.eq(b) and y.eq(a)):
            return swapped(ex, x, y)
        ex.touch(x)
        ex.touch(y)
        ex.oblige('operands of a recursive call are smaller', sz(x) + sz(y) < sz(a) + sz(b), cls='safety')
        ih_order(ex, x, y)
        return perm(x, y)
    spec.builtin['tsym::doPermute'] = call

    def lex(ex, l1, l2, rev, f):
        x, y = ex.freshE('x'), ex.freshE('y')
        # operands are smaller than the expressions they belong to, and never undefined
        hyp = And(K(x) != UNDEF, K(y) != UNDEF)
        ex.assume(Implies(hyp, And(perm(x, y) == Not(perm(y, x)), x != y)) if False else BoolVal(True))
        p = lambda u, v: ex.merged(lambda: (ex.assume(hyp, sz(u) + sz(v) < sz(ex.old[0]) + sz(ex.old[1])), ex.to_bool_cell(ex.apply(f, [Cell(u), Cell(v)])))[1])
        xy, yx, xx = p(x, y), p(y, x), p(x, x)
        ih_order(ex, x, y)
        ih_order(ex, x, x)
        ex.oblige('element order is total and asymmetric', Implies(hyp, And(Implies(x != y, xy == Not(yx)), Not(xx))))
        a, b = ex.lterm(l1), ex.lterm(l2)
        g = lexr if rev else lexf
        # theorem on lexicographical comparison with a total asymmetric element order
        for u, v in ((a, b), (b, a)):
            ex.assume(Implies(u != v, g(u, v) == Not(g(v, u))), Implies(u == v, Not(g(u, v))))
        return g(a, b)
    spec.lexcompare = lex

    def extra(c, o):
        a, b = o
        for t in (a, b):
            c.touch(t)
            c.touch_pow(t)
            touch_order(c, t)
        ext_order(c, a, b)
    spec.add(Contract('tsym::doPermute', hyp=lambda c, o: And(K(o[0]) != UNDEF, K(o[1]) != UNDEF), extra=extra, post=lambda c, o, n, r: [
        ('exactly one order for different operands', Implies(o[0] != o[1], Not(r) == swapped(c, o[1], o[0]))), ('no order against an equal operand', Implies(o[0] == o[1], Not(r)))]))
    spec.add(Contract('tsym::isCorrect', verifyonly=True, post=lambda c, o, n, r: [('negation', r == Not(perm(o[0], o[1])))]))
    return spec


# ------------------------------------------------------------------ numeric/non-numeric and const/non-const parts
def parts(c, e):
    """values of the four parts; numeric*non-numeric = const*non-const = the expression"""
    k = K(e)
    o = ops(e)
    h = hd(o)
    one = RealVal(1)
    firstnum = K(h) == NUM
    n = If(k == NUM, val(e), If(And(k == PROD, firstnum), val(h), one))
    nn = If(k == NUM, one, If(And(k == PROD, firstnum), FOLDS['prod'].fn(tl(o)), val(e)))
    co = If(k == NUM, val(e), If(k == PROD, FOLDS['pcon'].fn(o), If(k == FUN, one, If(isconst(e), val(e), one))))
    nc = If(k == NUM, one, If(k == PROD, FOLDS['pncon'].fn(o), If(k == FUN, val(e), If(isconst(e), one, val(e)))))
    return n, nn, co, nc


def congr_const(ex, s, a, b, f):
    x = ex.freshE('x')
    p = ex.pred_formula(f, x)
    for u, v, q in ((a, b, p), (b, a, Not(p))):
        if ex.prove(Implies(q, isconst(x)), 1000)[0] == 'proved':
            ex.assume(FOLDS['pcon'].fn(u) == FOLDS['prod'].fn(u), FOLDS['pncon'].fn(u) == 1)
        if ex.prove(Implies(q, Not(isconst(x))), 1000)[0] == 'proved':
            ex.assume(FOLDS['pcon'].fn(u) == 1, FOLDS['pncon'].fn(u) == FOLDS['prod'].fn(u))


def terms_spec():
    spec = value_spec()
    fields_fun(spec)
    spec.folds = ('prod', 'def', 'pcon', 'pncon')
    spec.partition_hooks = [congr_const]
    spec.templates = []
    spec.foldlemmas = [('const and non-const parts', lambda F: F('pcon') * F('pncon') == F('prod'))]

    def add(q, i, more=None):
        def extra(c, o):
            inherits(c, q, o[0])
            c.touch(hd(ops(o[0])))
            c.touchL(ops(o[0]))
            c.touchL(tl(ops(o[0])))
            c.assume(Implies(K(o[0]) == PROD, And(llen(ops(o[0])) >= 2)))

        def post(c, o, n, r):
            out = [('defined', dfd(r)), ('value', val(r) == parts(c, o[0])[i])]
            if i == 0:
                out.append(('a number', K(r) == NUM))
            # the two parts multiply to the expression
            p = parts(c, o[0])
            out.append(('the parts multiply to the expression', p[i & 2] * p[i | 1] == val(o[0])))
            return out
        spec.add(Contract('tsym::Base::' + q, hyp=lambda c, o: dfd(o[0]), extra=extra, post=post))
    for i, q in enumerate(('numericTerm', 'nonNumericTerm', 'constTerm', 'nonConstTerm')):
        add(q, i)
        h = spec.attr[q]
        spec.attr[q] = (lambda h: lambda ex, e, a: NotImplemented if e is ex.this else h(ex, e, a))(h)
    return spec
