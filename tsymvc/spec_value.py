"""Contracts of the value layer: every constructor and simplification preserves the mathematical value.

Reading: hyp = the inputs are defined at the (arbitrary) assignment of the symbols, post = the result is defined there
and has the value prescribed.  A callee is used through its contract only.
"""
import z3
from z3 import And, Or, Not, Implies, If, RealVal, IntVal, BoolVal, ToReal, IsInt, Const, Function
from theory import *
import theory
from engine import *

nt = Function('numericTerm', E, E)
nnt = Function('nonNumericTerm', E, E)
ct = Function('constTerm', E, E)
nct = Function('nonConstTerm', E, E)
K = theory.kind


def allE(vals):
    out = []
    for v in vals:
        if isinstance(v, ListV):
            out += [(n[1], n[2]) for n in v.nodes]
        elif is_E(v):
            out.append(('e', v))
    return out


def foldv(ex, name, vals):
    f = FOLDS[name]
    acc = None
    for k, t in allE(vals):
        x = f.elem(t) if k == 'e' else f.fn(t)
        acc = x if acc is None else f.comb(acc, x)
    return f.unit if acc is None else acc


def defs(*names):
    """all arguments (elements of list arguments included) are defined"""
    def h(c, old):
        return foldv(c, 'def', old)
    return h


def is_op(cb):
    return lambda c, old, new, res: [('defined', foldv(c, 'def', [res])), ('value', cb(c, old, res))]


def out_val(c, res, name):
    return foldv(c, name, [res])


# ------------------------------------------------------------------ lemmas on real powers
def pw_lemmas(ex, goal):
    """ground instances of the laws of real powers at the power terms of the path"""
    out = []
    ts = list(ex.pwterms.values())
    if not ts or len(ts) > 24:
        return out

    def dist(t):
        return t
    for t, b, x in ts:
        # defined powers of a non-zero base are non-zero, inverse, even exponents
        out.append(Implies(And(b != 0, pdef(b, x)), t != 0))
        out.append(Implies(x == -1, Implies(b != 0, t * b == 1)))
        out.append(Implies(x == 2, t == b * b))
        out.append(Implies(And(x == RealVal('1/2'), b >= 0), And(t >= 0, t * t == b)))
    for i, (t1, b1, x1) in enumerate(ts):
        for j, (t2, b2, x2) in enumerate(ts):
            if i == j:
                continue
            out.append(Implies(And(b1 == b2, x1 == x2), t1 == t2))
            if z3.is_to_real(x1) or z3.is_to_real(x2):
                out.append(Implies(And(b1 == b2, x2 == x1 + 1, b1 != 0, pdef(b1, x1)), t2 == t1 * b1))
            if i < j:
                out.append(Implies(And(b1 == b2, b1 != 0, x1 == -x2, pdef(b1, x1)), t1 * t2 == 1))
                out.append(Implies(And(b1 * b2 == 1, x1 == -x2, pdef(b1, x1)), t1 == t2))
                out.append(Implies(And(b1 * b2 == 1, x1 == x2, pdef(b1, x1)), t1 * t2 == 1))
    n = len(ts)
    if n <= 9:
        for i in range(n):
            for j in range(n):
                for k in range(n):
                    t1, b1, x1 = ts[i]
                    t2, b2, x2 = ts[j]
                    t3, b3, x3 = ts[k]
                    if i <= j:
                        # A1 addition of exponents
                        if k != i and k != j:
                            out.append(Implies(And(b1 == b2, b2 == b3, x3 == x1 + x2, b1 != 0, pdef(b1, x1), pdef(b1, x2)),
                                               And(t3 == t1 * t2, pdef(b3, x3))))
                            # A3 product of bases
                            out.append(Implies(And(x1 == x2, x2 == x3, b3 == b1 * b2, pdef(b1, x1), pdef(b2, x2)),
                                               And(t3 == t1 * t2, pdef(b3, x3))))
                            out.append(Implies(And(x1 == x2, x2 == x3, b3 == b1 * b2, b1 > 0, pdef(b3, x3)),
                                               And(t3 == t1 * t2, pdef(b2, x2))))
                            out.append(Implies(And(x1 == x2, x2 == x3, b3 == b1 * b2, b2 > 0, pdef(b3, x3)),
                                               And(t3 == t1 * t2, pdef(b1, x1))))
                    if i != j and k != i and k != j:
                        # A3' quotient of bases
                        out.append(Implies(And(x1 == x3, x2 == -x1, b3 * b2 == b1, b2 != 0, pdef(b1, x1), pdef(b2, x2)),
                                           And(t3 == t1 * t2, pdef(b3, x3))))
                    if i != j and k != j:
                        # A2 power of a power: t2 = (t1)^x2, t3 = b1^(x1*x2)
                        out.append(Implies(And(b2 == t1, b3 == b1, x3 == x1 * x2, b1 > 0), t3 == t2))
                        out.append(Implies(And(b2 == t1, b3 == b1, x3 == x1 * x2, IsInt(x1), IsInt(x2), pdef(b1, x1),
                                               pdef(b2, x2)), And(t3 == t2, pdef(b3, x3))))
                        # b1 < 0, even x1: |b1|^(x1*x2)
                        ev = And(IsInt(x1), IsInt(x1 / 2))
                        out.append(Implies(And(b2 == t1, b3 == -b1, x3 == x1 * x2, b1 < 0, ev), t3 == t2))
                        out.append(Implies(And(b2 == t1, b3 == b1, x3 == x1 * x2, b1 < 0, ev, IsInt(x3 / 2), IsInt(x3)), t3 == t2))
                        out.append(Implies(And(b2 == t1, b1 < 0, ev), b2 > 0))
                        out.append(Implies(And(b2 == t1, b1 < 0, IsInt(x1), Not(IsInt(x1 / 2))), b2 < 0))
    return out


# ------------------------------------------------------------------ axioms on touched expressions
def touch_value(ex, e):
    k = K(e)
    # equal exact numbers are equal expressions
    ex.assume(Implies(And(k == NUM, val(e) == 1), e == ONE), Implies(And(k == NUM, val(e) == 0), e == ZERO))
    # generic assignment: no power has a vanishing base (DESIGN.md, assumption G)
    ex.assume(Implies(k == POW, val(base(e)) != 0))
    # sign queries (contract of isPositive/isNegative)
    ex.assume(Implies(And(posq(e), dfd(e)), val(e) > 0), Implies(And(negq(e), dfd(e)), val(e) < 0))
    ex.assume(Implies(k == NUM, And(posq(e) == (val(e) > 0), negq(e) == (val(e) < 0))))
    ex.assume(Implies(And(hasnum(e), dfd(e)), nev(e) == val(e)))
    # functions have one operand, atan2 has two
    ex.assume(Implies(k == FUN, llen(ops(e)) == If(ename(e) == name_id('atan2'), IntVal(2), IntVal(1))))
    touch_const(ex, e)


def touch_fun(ex, e):
    key = ('fun', e.get_id())
    if key in ex.touched:
        return
    ex.touched[key] = e
    a = hd(ops(e))
    v = val(a)
    nm = ename(e)
    k = K(e)

    def ax(n, df, vv):
        ex.assume(Implies(And(k == FUN, nm == name_id(n)), And(dfd(e) == And(dfd(a), df), Implies(dfd(e), val(e) == vv))))
    ex.touch(a)
    if v.get_id() not in ex.trigterms:
        ex.trigterms[v.get_id()] = v
        ex.assume(vsin(v) * vsin(v) + vcos(v) * vcos(v) == 1, Implies(vcos(v) != 0, vtan(v) * vcos(v) == vsin(v)))
    o = ops(e)
    l = last(o)
    ex.touch(l)
    for f in ex.folds.values():
        ex.assume(Implies(And(k == FUN, llen(o) == 1), And(f.fn(o) == f.elem(a), l == a)), Implies(And(k == FUN, llen(o) == 2), f.fn(o) == f.comb(f.elem(a), f.elem(l))))
    ax('sin', BoolVal(True), vsin(v))
    ax('cos', BoolVal(True), vcos(v))
    ax('tan', vcos(v) != 0, vtan(v))
    ax('asin', And(v >= -1, v <= 1), vasin(v))
    ax('acos', And(v >= -1, v <= 1), vacos(v))
    ax('atan', BoolVal(True), vatan(v))
    ax('log', v > 0, vlog(v))


# ------------------------------------------------------------------ attributes of expressions
def a_kindstr(ex, e, args):
    return StrV(IntVal(1000) + K(e))


def a_numericEval(ex, e, args):
    ex.touch(e)
    return OptV(hasnum(e), NumV(nev(e), nevrat(e)))


def a_ops(ex, e, args):
    ex.touch(e)
    key = ('opsl', e.get_id())
    if key not in ex.callcache:
        ex.callcache[key] = Cell(ListV([ex.newnode('s', ops(e))]), 'const BasePtrList &', 'ops')
    return ex.callcache[key]


def a_base(ex, e, args):
    ex.touch_pow(e)
    return base(e)


def a_exp(ex, e, args):
    ex.touch_pow(e)
    return exp(e)


def a_isEqual(ex, e, args):
    ex.touch(e)
    ex.touch(args[0])
    return And(e == args[0], K(e) != UNDEF)


def a_isDifferent(ex, e, args):
    return Not(a_isEqual(ex, e, args))


def a_clone(ex, e, args):
    return e


def boolattr(f):
    def h(ex, e, args):
        ex.touch(e)
        return f(e)
    return h


def a_name(ex, e, args):
    ex.touch(e)
    touch_fun(ex, e)
    return StrV(ename(e))


def terms(ex, e):
    """numeric/non-numeric and const/non-const parts multiply to the expression"""
    key = ('terms', e.get_id())
    if key in ex.touched:
        return
    ex.touched[key] = e
    ex.touch(e)
    for t in (nt(e), nnt(e), ct(e), nct(e)):
        ex.touch(t)
    ex.assume(K(nt(e)) == NUM)
    ex.assume(Implies(dfd(e), And(dfd(nnt(e)), dfd(ct(e)), dfd(nct(e)), val(e) == val(nt(e)) * val(nnt(e)),
                                  val(e) == val(ct(e)) * val(nct(e)))))


def a_term(f):
    def h(ex, e, args):
        if ex.target.qual.split('::')[-1] in ('numericTerm', 'nonNumericTerm', 'constTerm', 'nonConstTerm') and e is ex.this:
            return NotImplemented
        terms(ex, e)
        return f(e)
    return h


def attrs(spec):
    a = spec.attr
    a['typeStr'] = a_kindstr
    a['numericEval'] = a_numericEval
    a['operands'] = a_ops
    a['base'] = a_base
    a['exp'] = a_exp
    a['isEqual'] = a_isEqual
    a['isDifferent'] = a_isDifferent
    a['clone'] = a_clone
    a['shared_from_this'] = a_clone
    a['name'] = a_name
    a['isPositive'] = boolattr(posq)
    a['isNegative'] = boolattr(negq)
    a['isConst'] = boolattr(isconst)
    a['numericTerm'] = a_term(nt)
    a['nonNumericTerm'] = a_term(nnt)
    a['constTerm'] = a_term(ct)
    a['nonConstTerm'] = a_term(nct)
    f = spec.fields
    f['ops'] = lambda ex, e: a_ops(ex, e, [])
    f['baseRef'] = lambda ex, e: a_base(ex, e, [])
    f['expRef'] = lambda ex, e: a_exp(ex, e, [])
    f['number'] = lambda ex, e: (ex.touch(e), NumV(val(e), rat(e)))[1]
    for nm, kc in (('numeric', NUM), ('symbol', SYM), ('constant', CONSTK), ('undefined', UNDEF), ('sum', SUM),
                   ('product', PROD), ('power', POW), ('function', FUN)):
        spec.builtin['var:' + nm] = (lambda kc: lambda ex: StrV(IntVal(1000 + kc)))(kc)


# ------------------------------------------------------------------ object creation
def mk_list(kc):
    def h(ex, args):
        e = ex.freshE('obj')
        l = ex.lterm(args[0])
        n = ex.length(args[0])
        ex.oblige('at-least-two-operands', n >= 2, cls='safety')
        ex.assume(K(e) == kc, ops(e) == l)
        for k, f in ex.folds.items():
            ex.assume(f.fn(ops(e)) == ex.fold(k, args[0]))
        return e
    return h


def mk_num(ex, args):
    e = ex.freshE('num')
    n = ex.asnum(args[0])
    ex.assume(K(e) == NUM, val(e) == n.v, rat(e) == n.rat)
    return e


def mk_pow(ex, args):
    e = ex.freshE('pow')
    ex.assume(K(e) == POW, base(e) == args[0], exp(e) == args[1])
    ex.touch_pow(e)
    return e


def mk_undef(ex, args):
    e = ex.freshE('undef')
    ex.assume(K(e) == UNDEF)
    return e


def mk_trig(ex, args):
    e = ex.freshE('trig')
    l = args[0]
    ex.assume(K(e) == FUN, ops(e) == ex.lterm(l), ename(e) == args[1])
    ex.oblige('number-of-arguments', ex.length(l) == If(args[1] == name_id('atan2'), IntVal(2), IntVal(1)), cls='safety')
    for k, f in ex.folds.items():
        ex.assume(f.fn(ops(e)) == ex.fold(k, l))
    touch_fun(ex, e)
    return e


def mk_log(ex, args):
    e = ex.freshE('logf')
    ex.assume(K(e) == FUN, ops(e) == ex.lterm(ListV([ex.newnode('e', args[0])])), ename(e) == name_id('log'))
    touch_fun(ex, e)
    return e


# ------------------------------------------------------------------ contracts
def kindpred(kc):
    return lambda c, old, new, res: [('kind', res == (K(old[0]) == kc))]


def numconst(v):
    def post(c, old, new, res):
        return [('number', And(K(res) == NUM, val(res) == v, rat(res)))]
    return post


def touch_const(ex, e):
    ex.assume(Implies(And(K(e) == CONSTK, ename(e) == name_id('e')), val(e) == EUL),
              Implies(And(K(e) == CONSTK, ename(e) == name_id('pi')), val(e) == PI),
              Implies(K(e) == CONSTK, Or(ename(e) == name_id('e'), ename(e) == name_id('pi'))))


def congruence(ex, s, a, b, f):
    """folds with elementwise equal terms are equal (a: all satisfy f, b: none does)"""
    if 'pnum' not in ex.folds:
        return
    x = ex.freshE('x')
    p = ex.pred_formula(f, x)
    if ex.prove(Implies(p, K(x) == NUM), 1000)[0] == 'proved':
        ex.assume(FOLDS['pnum'].fn(a) == FOLDS['prod'].fn(a))
    if ex.prove(Implies(Not(p), K(x) != NUM), 1000)[0] == 'proved':
        ex.assume(FOLDS['pnum'].fn(b) == 1)


def t_pnum(ex, lc, pfx, cid):
    if 'pnum' not in ex.folds:
        return []
    out = []
    for a in lc['W']:
        if isinstance(a.v, NumV):
            for j, p, et in pfx:
                if et == 'E':
                    out.append(('npnum%d_%d' % (cid[id(a)], j), a.v.v == lc['entry'][a].v * ex.fold('pnum', p)))
    return out


def t_prodbase(ex, lc, pfx, cid):
    """two lists that split a prefix: one holds x-th powers (total Q^x, Q ghost), the other the remaining factors as they are"""
    out = []
    accL = [c for c in lc['W'] if isinstance(c.v, ListV) and c.v.et == 'E']
    if len(accL) != 2 or any(lc['entry'][a].nodes for a in accL):
        return out
    Es = []
    for c in lc['cells']:
        if is_E(c.v) and c not in lc['W'] and all(not c.v.eq(d) for d in Es):
            Es.append(c.v)
    if len(Es) > 4:
        return out
    for a in accL:
        b = accL[1] if a is accL[0] else accL[0]
        for j, p, et in pfx:
            if et != 'E':
                continue
            for n, x in enumerate(Es):
                Q = Const('ghostQ%s_%d_%d' % (lc['key'], cid[id(a)], n), R)

                def inv(q):
                    return And(ex.fold('def', a.v), ex.fold('prod', a.v) == ex.pw(q, val(x)), q * ex.fold('prod', b.v) == ex.fold('prod', p),
                               Or(q > 0, IsInt(val(x))), Implies(val(x) < 0, q != 0), Implies(ex.length(a.v) == 0, q == 1))
                if lc['phase'] == 'entry':
                    g = inv(RealVal(1))
                elif lc['phase'] == 'assume' or not p or p[-1][1] != 'e':
                    g = inv(Q)
                else:
                    g = Or(inv(Q), inv(Q * val(p[-1][2])))
                out.append(('pb%d_%d_%d_%d' % (cid[id(a)], cid[id(b)], j, n), g))
    return out


def contract_pre(c, o):
    """check(f1, f2) implies that simpl(f1, f2) is a list with the product of the two factors"""
    check, simpl = o[1], o[2]
    if check.kind == 'unknown':
        return []

    def thunk():
        x, y = c.freshE('f1'), c.freshE('f2')
        c.assume(dfd(x), dfd(y))
        r = c.apply(check, [Cell(x), Cell(y)])
        r = c.to_bool(r.v if isinstance(r, Cell) else r)
        if not c.branch(r):
            return []
        l = c.apply(simpl, [Cell(x), Cell(y)])
        l = l.v if isinstance(l, Cell) else l
        return [And(foldv(c, 'def', [l]), foldv(c, 'prod', [l]) == val(x) * val(y))]
    return [('the contraction preserves the product of two factors that pass the check', c.forall_paths(thunk))]


def unknown_call(ex, f, vals, n):
    if 'bool' in f.a.split('(')[0]:
        return Const(ex.name('check'), B)
    l = ex.freshL('contr')
    ex.assume(Implies(And(dfd(vals[0]), dfd(vals[1])), And(ex.fold('def', l), ex.fold('prod', l) == val(vals[0]) * val(vals[1]))))
    return l


def il_payload(ex, n):
    items = n.get('inner', ())
    vals = []
    for c in items:
        c2 = strip(c)
        vals.append(NumV(RealVal(1), BoolVal(True)) if c2['kind'] == 'CXXDefaultInitExpr' else ex.asnum(ex.ev(c)))
    while len(vals) < 3:
        vals.append(NumV(RealVal(1), BoolVal(True)))
    return StructV('Payload', dict(base=Cell(vals[0]), exp=Cell(vals[1]), preFactor=Cell(vals[2])))


def mk_nps(ex, n, args):
    """contract of NumPowerSimpl (verified for C12): preFactor*newBase^newExp equals the input"""
    p = ex.ev(args[0])
    if not (isinstance(p, StructV) and p.ty == 'Payload'):
        return p
    b, x, f = p.f['base'].v, p.f['exp'].v, p.f['preFactor'].v
    nb, ne, nf = ex.fresh('N', 'newBase'), ex.fresh('N', 'newExp'), ex.fresh('N', 'preFactor')
    ex.assume(Implies(pdef(b.v, x.v), And(pdef(nb.v, ne.v), nf.v * ex.pw(nb.v, ne.v) == f.v * ex.pw(b.v, x.v))))
    return StructV('NumPowerSimpl', dict(getNewBase=Cell(nb), getNewExp=Cell(ne), getPreFactor=Cell(nf)))


def numplist(c, o, n, r):
    b, x = r.nodes[0][2], r.nodes[1][2]
    return [('two elements', c.length(r) == 2), ('defined', And(dfd(b), dfd(x), pdef(val(b), val(x)))),
            ('value', c.pw(val(b), val(x)) == c.pw(o[0].v, o[1].v))]


def function_contracts(spec, add):
    """elementary functions: the contracts the group 'trig' verifies"""
    add('tsym::options::getMaxPrimeResolution', post=lambda c, o, n, r: [])
    spec.builtin['tsym::fitsInto'] = lambda ex, a, n: Const(ex.name('fits'), B)
    for nm, v in (('createE', EUL), ('createPi', PI)):
        add('tsym::Constant::' + nm, post=lambda c, o, n, r, v=v: [('constant', And(K(r) == CONSTK, val(r) == v, dfd(r)))])

    def f1(nm, f, dom):
        add('tsym::Trigonometric::create' + nm, hyp=lambda c, o: And(dfd(o[0]), dom(val(o[0]))),
            post=lambda c, o, n, r: [('defined', dfd(r)), ('value', val(r) == trig(c, f, val(o[0])))])
    T = lambda v: BoolVal(True)
    f1('Sin', vsin, T)
    f1('Cos', vcos, T)
    f1('Tan', vtan, lambda v: vcos(v) != 0)
    f1('Asin', vasin, lambda v: And(v >= -1, v <= 1))
    f1('Acos', vacos, lambda v: And(v >= -1, v <= 1))
    f1('Atan', vatan, T)
    add('tsym::Logarithm::create', hyp=lambda c, o: And(dfd(o[0]), val(o[0]) > 0),
        post=lambda c, o, n, r: [('defined', dfd(r)), ('value', val(r) == logv(c, val(o[0])))])


def trig(ex, f, v):
    if v.get_id() not in ex.trigterms:
        ex.trigterms[v.get_id()] = v
        ex.assume(vsin(v) * vsin(v) + vcos(v) * vcos(v) == 1, Implies(vcos(v) != 0, vtan(v) * vcos(v) == vsin(v)))
    return f(v)


def logv(ex, v):
    k = ('log', v.get_id())
    if k not in ex.touchedL:
        ex.touchedL[k] = v
        # exp(log v) = v
        p = ex.pw(EUL, vlog(v))
        ex.pw(EUL, vlog(v))
        ex.assume(Implies(v > 0, p == v), vlog(RealVal(1)) == 0, vlog(EUL) == 1)
    return vlog(v)


def value_spec():
    spec = Spec()
    spec.lemmas = [pw_lemmas]
    spec.touch = [touch_value]
    attrs(spec)
    ms = spec.make_shared
    ms['Sum'] = mk_list(SUM)
    ms['Product'] = mk_list(PROD)
    ms['Numeric'] = mk_num
    ms['Power'] = mk_pow
    ms['Undefined'] = mk_undef
    ms['Trigonometric'] = mk_trig
    ms['Logarithm'] = mk_log
    spec.builtin['tsym::Logger::getInstance'] = lambda ex, a, n: Opaque('logger')
    spec.builtin['tsym::Base::setDebugString'] = lambda ex, a, n: None
    spec.builtin['tsym::doPermute'] = lambda ex, a, n: Const(ex.name('permute'), B)

    spec.folds = ('sum', 'prod', 'def', 'pnum')
    spec.partition_hooks = [congruence]
    spec.templates = [t_pnum, t_prodbase]

    def add(qual, hyp=None, post=None, **kw):
        spec.add(Contract(qual, hyp=hyp, post=post, **kw))
    function_contracts(spec, add)

    for nm, kc in (('isConstant', CONSTK), ('isFunction', FUN), ('isNumeric', NUM), ('isPower', POW),
                   ('isProduct', PROD), ('isSum', SUM), ('isSymbol', SYM), ('isUndefined', UNDEF)):
        add('tsym::' + nm, post=kindpred(kc))
    add('tsym::isOne', post=lambda c, o, n, r: [('is one', r == And(K(o[0]) == NUM, val(o[0]) == 1))])
    add('tsym::isZero', post=lambda c, o, n, r: [('is zero', r == And(K(o[0]) == NUM, val(o[0]) == 0))])
    add('tsym::isNumericPower', post=lambda c, o, n, r: [
        ('numeric power', r == And(K(o[0]) == POW, K(base(o[0])) == NUM, K(exp(o[0])) == NUM))])
    add('tsym::sameType', post=lambda c, o, n, r: [('same', r == (K(o[0]) == K(o[1])))])
    add('tsym::isNegativeNumeric', post=lambda c, o, n, r: [
        ('negative number', r == And(K(o[0]) == NUM, val(o[0]) < 0))])
    add('tsym::isInteger', post=lambda c, o, n, r: [
        ('integer', Implies(r, And(hasnum(o[0]), nevrat(o[0]), IsInt(nev(o[0])))))])
    add('tsym::isFractionNumeric', post=lambda c, o, n, r: [
        ('fraction', Implies(r, And(hasnum(o[0]), nevrat(o[0]), Not(IsInt(nev(o[0]))))))])
    for nm, v in (('zero', 0), ('one', 1), ('two', 2), ('three', 3), ('four', 4), ('mOne', -1)):
        add('tsym::Numeric::' + nm, post=numconst(RealVal(v)))
    for nm, v in (('half', 2), ('third', 3), ('fourth', 4)):
        add('tsym::Numeric::' + nm, post=numconst(RealVal('1/%d' % v)))
    add('tsym::Numeric::create', sig='(Number)', nargs=1, post=lambda c, o, n, r: [
        ('number', And(K(r) == NUM, val(r) == o[0].v, rat(r) == o[0].rat))])
    add('tsym::Undefined::create', post=lambda c, o, n, r: [('undefined', K(r) == UNDEF)])

    sumeq = lambda c, o, n, r: [('defined', foldv(c, 'def', [r])), ('value', foldv(c, 'sum', [r]) == foldv(c, 'sum', o))]
    for f in ('Sum::create', 'Sum::createSimplifiedSum', 'simplifySum'):
        add('tsym::' + f, hyp=defs(), post=sumeq, mutates=False)
    prodeq = lambda c, o, n, r: [('defined', foldv(c, 'def', [r])), ('value', foldv(c, 'prod', [r]) == foldv(c, 'prod', o))]
    for f in ('Product::create', 'Product::createSimplifiedProduct', 'simplifyProduct'):
        add('tsym::' + f, hyp=defs(), post=prodeq, mutates=False)
    add('tsym::Product::minus', hyp=defs(), mutates=False, post=lambda c, o, n, r: [
        ('defined', dfd(r)), ('value', val(r) == -foldv(c, 'prod', o))])
    add('tsym::expandAsProduct', hyp=defs(), post=prodeq)

    # ---- powers
    def powhyp(c, o):
        return And(dfd(o[0]), dfd(o[1]), pdef(val(o[0]), val(o[1])))

    def poweq(c, o, n, r):
        return [('defined', dfd(r)), ('value', val(r) == c.pw(val(o[0]), val(o[1])))]
    for f in ('Power::create', 'Power::createNotUndefined', 'Power::createNonTrivial'):
        add('tsym::' + f, hyp=powhyp, post=poweq)
    add('tsym::Power::oneOver', hyp=lambda c, o: And(dfd(o[0]), val(o[0]) != 0),
        post=lambda c, o, n, r: [('defined', dfd(r)), ('value', And(val(r) * val(o[0]) == 1, val(r) == c.pw(val(o[0]), RealVal(-1))))])
    add('tsym::Power::sqrt', hyp=lambda c, o: And(dfd(o[0]), val(o[0]) >= 0),
        post=lambda c, o, n, r: [('defined', dfd(r)), ('value', And(val(r) >= 0, val(r) * val(r) == val(o[0])))])

    # ---- virtual functions of the value layer: one contract, every override is verified against it
    same = lambda c, o, n, r: [('defined', dfd(r)), ('value', val(r) == val(o[0]))]
    add('tsym::Base::expand', hyp=lambda c, o: dfd(o[0]), post=same)
    add('tsym::Base::normal', nargs=0, hyp=lambda c, o: dfd(o[0]), post=same)
    # ---- lists
    add('tsym::areEqual', nargs=2, sig='BasePtrList', post=lambda c, o, n, r: [('equal', r == c.listeq(o[0], o[1]))])
    # ---- numbers
    add('tsym::isInt', post=lambda c, o, n, r: [('integer', r == c.isint(o[0]))])
    add('tsym::isEvenInt', post=lambda c, o, n, r: [('even', r == And(o[0].rat, IsInt(o[0].v), IsInt(o[0].v / 2)))])
    add('tsym::isOddInt', post=lambda c, o, n, r: [('odd', r == And(o[0].rat, IsInt(o[0].v), Not(IsInt(o[0].v / 2))))])
    add('tsym::isFraction', post=lambda c, o, n, r: [('fraction', r == And(o[0].rat, Not(IsInt(o[0].v))))])
    add('tsym::abs', sig='Number', post=lambda c, o, n, r: [('absolute value', And(r.v == If(o[0].v < 0, -o[0].v, o[0].v), r.rat == o[0].rat))])
    add('tsym::sign', sig='Number', post=lambda c, o, n, r: [('sign', r == If(o[0].v < 0, IntVal(-1), If(o[0].v > 0, IntVal(1), IntVal(0))))])

    # ---- internal helpers of sumsimpl.cpp
    A = 'tsym::@sumsimpl::'
    two = lambda c, o: [('two-or-more', c.length(o[0]) >= 2)]
    for f in ('simplWithoutCache', 'simplTwoSummands', 'simplTwoSummandsWithSum', 'merge', 'mergeNonEmpty',
              'simplTwoSummandsWithoutSum', 'simplTwoNumerics', 'simplNSummands'):
        pre = None
        if f == 'simplTwoNumerics':
            pre = lambda c, o: [('numeric', And(K(o[0]) == NUM, K(o[1]) == NUM))]
        if f == 'mergeNonEmpty':
            pre = lambda c, o: [('non-empty', And(c.length(o[0]) > 0, c.length(o[1]) > 0))]
        if f == 'simplWithoutCache':
            pre = two
        if f == 'simplNSummands':
            pre = lambda c, o: [('three-or-more', c.length(o[0]) >= 3)]
        if f == 'simplTwoSummands':
            add(A + f, hyp=defs(), post=sumeq, sig='BasePtrList &)', pre=lambda c, o: [('two', c.length(o[0]) == 2)])
        add(A + f, hyp=defs(), post=sumeq, pre=pre)
    spec.c['tsym::simplifySum'][0].pre = two
    spec.c['tsym::Sum::createSimplifiedSum'][0].pre = two
    spec.c['tsym::Sum::create'][0].pre = lambda c, o: [('non-empty', c.length(o[0]) >= 1)] if isinstance(o[0], ListV) else []

    # ---- internal helpers of productsimpl.cpp
    A = 'tsym::@productsimpl::'
    bothnum = lambda c, o: [('numeric', And(K(o[0]) == NUM, K(o[1]) == NUM))]

    def ispow(e):
        return And(K(e) == POW, K(base(e)) == NUM, K(exp(e)) == NUM)

    def inplace(c, o, n, r):
        return [('defined', foldv(c, 'def', [n[0]])), ('value', foldv(c, 'prod', [n[0]]) == foldv(c, 'prod', [o[0]]))]
    first = lambda c, o: foldv(c, 'def', [o[0]])
    for f in ('simplifyWithoutCache', 'simplTwoFactors', 'simplTwoFactorsWithProduct', 'merge', 'mergeNonEmpty',
              'simplTwoFactorsWithoutProduct', 'simplTwoConst', 'simplTwoNumerics', 'simplNumAndConst',
              'simplTwoEqualBases', 'simplTwoEqualExp', 'simplTwoZeroSumExp', 'simplTwoEqualExpDenom',
              'simplNFactors', 'simplPreparedFactors', 'simplNPreparedFactors', 'contractTrigFctPowers'):
        pre = None
        if f == 'simplTwoNumerics':
            pre = bothnum
        if f == 'mergeNonEmpty':
            pre = lambda c, o: [('non-empty', And(c.length(o[0]) > 0, c.length(o[1]) > 0))]
        if f == 'simplNumAndConst':
            pre = lambda c, o: [('numeric and const', And(K(o[0]) == NUM, isconst(o[1])))]
        if f == 'simplTwoConst':
            pre = lambda c, o: [('const', And(isconst(o[0]), isconst(o[1])))]
        if f == 'simplTwoEqualBases':
            pre = lambda c, o: [('equal bases', base(o[0]) == base(o[1]))]
        if f == 'simplTwoEqualExp':
            pre = lambda c, o: [('numeric powers with equal exponents', And(ispow(o[0]), ispow(o[1]), exp(o[0]) == exp(o[1])))]
        if f == 'simplTwoZeroSumExp':
            pre = lambda c, o: [('numeric powers with opposite exponents', And(ispow(o[0]), ispow(o[1]), val(exp(o[0])) == -val(exp(o[1]))))]
        if f == 'simplTwoEqualExpDenom':
            pre = lambda c, o: [('numeric powers', And(ispow(o[0]), ispow(o[1])))]
        if f == 'simplTwoFactors':
            add(A + f, hyp=defs(), post=prodeq, sig='BasePtrList &)', pre=lambda c, o: [('two', c.length(o[0]) == 2)])
        add(A + f, hyp=defs(), post=prodeq, pre=pre)
    for f in ('prepare', 'extractProducts', 'contractTrigonometrics', 'prepareConst', 'contractNumerics', 'contractConst', 'contract'):
        pre = None
        if f == 'contract':
            pre = contract_pre
        add(A + f, hyp=first, post=inplace, pre=pre)
    add(A + 'simplNumAndNumPow', sig='Number', hyp=lambda c, o: pdef(o[1].v, o[2].v),
        post=lambda c, o, n, r: [('defined', foldv(c, 'def', [r])), ('value', foldv(c, 'prod', [r]) == o[0].v * c.pw(o[1].v, o[2].v))])
    add(A + 'simplNumAndNumPow', hyp=defs(), post=prodeq, pre=lambda c, o: [('numeric and numeric power', And(K(o[0]) == NUM, ispow(o[1])))])
    spec.unknown_call = unknown_call
    spec.make_shared['construct:NumPowerSimpl'] = mk_nps
    spec.make_shared['initlist:NumPowerSimpl::Payload'] = il_payload
    spec.make_shared['initlist:Payload'] = il_payload
    for nm in ('getNewBase', 'getNewExp', 'getPreFactor'):
        spec.builtin['method:NumPowerSimpl::' + nm] = (lambda nm: lambda ex, o, a, n: o.v.f[nm].v if isinstance(o, (Cell, ElemCell)) else o.f[nm].v)(nm)

    # ---- internal helpers of powersimpl.cpp
    A = 'tsym::@powersimpl::'

    def plist(c, o, n, r):
        """the two-element list {b, e} stands for b^e"""
        l = r
        cell = Cell(l)
        c.materialize_front(cell, 0)
        c.materialize_front(cell, 1)
        ns = cell.v.nodes
        if len(ns) < 2 or ns[0][1] != 'e' or ns[1][1] != 'e':
            return [('two elements', BoolVal(False))]
        b, x = ns[0][2], ns[1][2]
        p = c.pw(val(b), val(x))
        return [('two elements', c.length(l) == 2), ('defined', And(dfd(b), dfd(x), pdef(val(b), val(x)))),
                ('value', p == c.pw(val(o[0]), val(o[1])))]

    def fresh2(c, o):
        return ListV([c.newnode('e', c.freshE('pb')), c.newnode('e', c.freshE('pe'))])
    for f in ('simplifyNumericBase', 'simplifyPowerBase', 'simplifyProductBase', 'simplifyConstantBase', 'simplifyNumericPower'):
        pre = None
        if f == 'simplifyNumericPower':
            add(A + f, sig='Number', hyp=lambda c, o: pdef(o[0].v, o[1].v), post=numplist, result=fresh2)
            pre = bothnum
        if f == 'simplifyNumericBase':
            pre = lambda c, o: [('numeric base', K(o[0]) == NUM)]
        if f == 'simplifyPowerBase':
            pre = lambda c, o: [('power base', K(o[0]) == POW)]
        if f == 'simplifyProductBase':
            pre = lambda c, o: [('product base', K(o[0]) == PROD)]
        add(A + f, hyp=powhyp, post=plist, pre=pre, result=fresh2)
    add('tsym::simplifyPower', hyp=powhyp, post=plist, result=fresh2)

    # ---- caches: a cached result satisfies the contract of the function it was stored for
    def cache_list(fold):
        def inv(ex, key, value):
            k = key.f['first'].v if isinstance(key, StructV) else key
            if value is None:
                value = ex.freshL('cached')
            return value, Implies(ex.fold('def', k), And(ex.fold('def', value), ex.fold(fold, value) == ex.fold(fold, k)))
        return inv

    def cache_prodE(ex, key, value):
        if value is None:
            value = ex.freshE('cached')
        return value, Implies(ex.fold('def', key), And(dfd(value), val(value) == ex.fold('prod', key)))

    def cache_same(ex, key, value):
        if value is None:
            value = ex.freshE('cached')
        return value, Implies(dfd(key), And(dfd(value), val(value) == val(key)))
    ci = spec.cacheinv
    ci['tsym::simplifySum'] = cache_list('sum')
    ci['tsym::simplifyProduct'] = cache_list('prod')
    ci['tsym::expandAsProduct'] = cache_prodE
    ci['tsym::Base::normalViaCache'] = cache_same
    return spec
