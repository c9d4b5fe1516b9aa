"""Logical vocabulary of the contracts: sorts, abstraction functions and the (ground) axioms instantiated for them.

E  = expressions modulo structural equality, L = finite sequences of expressions.
All axioms are instantiated at the terms that occur on a path, every verification condition is quantifier free.
"""
import z3
from z3 import (And, Or, Not, Implies, If, Function, RealSort, IntSort, BoolSort, DeclareSort, Const, RealVal, IntVal,
                BoolVal, ToReal, IsInt, Consts)

E = DeclareSort('E')
L = DeclareSort('L')
R, I, B = RealSort(), IntSort(), BoolSort()

NUM, SYM, CONSTK, UNDEF, SUM, PROD, POW, FUN = range(8)
KINDS = dict(Numeric=NUM, Symbol=SYM, Constant=CONSTK, Undefined=UNDEF, Sum=SUM, Product=PROD, Power=POW,
             Function=FUN, Logarithm=FUN, Trigonometric=FUN)
KINDNAME = {NUM: 'Numeric', SYM: 'Symbol', CONSTK: 'Constant', UNDEF: 'Undefined', SUM: 'Sum', PROD: 'Product',
            POW: 'Power', FUN: 'Function'}

kind = Function('kind', E, I)
val = Function('val', E, R)
dfd = Function('def', E, B)
base = Function('base', E, E)
exp = Function('exp', E, E)
ops = Function('ops', E, L)
rat = Function('rat', E, B)          # a Numeric holding an exact rational
hasnum = Function('hasnum', E, B)    # numericEval() engaged
nev = Function('nev', E, R)
nevrat = Function('nevrat', E, B)
ename = Function('ename', E, I)
posq = Function('posq', E, B)        # isPositive()
negq = Function('negq', E, B)        # isNegative()
isconst = Function('isconst', E, B)
possym = Function('possym', E, B)    # symbol declared positive

ONE = Const('ONE', E)
ZERO = Const('ZERO', E)

nil = Const('nil', L)
cons = Function('cons', E, L, L)
app = Function('app', L, L, L)
hd = Function('hd', L, E)
tl = Function('tl', L, L)
last = Function('last', L, E)
init = Function('init', L, L)
llen = Function('llen', L, I)

pw = Function('pw', R, R, R)
numf = Function('numerator', R, I)
denf = Function('denominator', R, I)

vsin = Function('sin', R, R)
vcos = Function('cos', R, R)
vtan = Function('tan', R, R)
vasin = Function('asin', R, R)
vacos = Function('acos', R, R)
vatan = Function('atan', R, R)
vatan2 = Function('atan2', R, R, R)
vlog = Function('log', R, R)
PI = Const('pi', R)
EUL = Const('euler', R)


def pdef(b, x):
    """real power b^x is defined"""
    return Or(b > 0, And(b < 0, IsInt(x)), And(b == 0, x > 0))


class Fold:
    def __init__(self, name, elem, comb, unit, sort, ctx=None):
        self.name = name
        self.fn = Function('l' + name, L, sort)
        self.elem = elem
        self.comb = comb
        self.unit = unit


FOLDS = {}


def deffold(name, elem, comb, unit, sort):
    FOLDS[name] = Fold(name, elem, comb, unit, sort)
    return FOLDS[name]


deffold('sum', lambda e: val(e), lambda a, b: a + b, RealVal(0), R)
deffold('prod', lambda e: val(e), lambda a, b: a * b, RealVal(1), R)
deffold('def', lambda e: dfd(e), lambda a, b: And(a, b), BoolVal(True), B)

deffold('pnum', lambda e: If(kind(e) == NUM, val(e), RealVal(1)), lambda a, b: a * b, RealVal(1), R)

_names = {}


def name_id(s):
    if s not in _names:
        _names[s] = len(_names) + 1
    return IntVal(_names[s])


for _n in ('', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'log', 'pi', 'e'):
    name_id(_n)


def rv(x):
    """coerce to a z3 Real"""
    if isinstance(x, (int, float)):
        return RealVal(x)
    if z3.is_int(x):
        return ToReal(x)
    return x


TRIGNAMES = ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2')
ENUMS = dict(SIN='sin', COS='cos', TAN='tan', ASIN='asin', ACOS='acos', ATAN='atan', ATAN2='atan2', PI='pi', E='e')

deffold('snum', lambda e: If(hasnum(e), nev(e), RealVal(0)), lambda a, b: a + b, RealVal(0), R)
deffold('ssym', lambda e: If(hasnum(e), RealVal(0), val(e)), lambda a, b: a + b, RealVal(0), R)
deffold('hn', lambda e: hasnum(e), lambda a, b: And(a, b), BoolVal(True), B)
deffold('und', lambda e: kind(e) == UNDEF, lambda a, b: Or(a, b), BoolVal(False), B)


class Dual:
    """value and derivative of a product; the value part is the fold 'prod'"""

    def __init__(self, v, d):
        self.v, self.d = v, d

    def __eq__(self, o):
        return self.d == o.d


D = Function('derivative', E, R)
dif = Function('differentiable', E, B)
dx = Function('diffWrtSymbol', E, E)
deffold('dual', lambda e: Dual(val(e), D(e)), lambda a, b: Dual(a.v * b.v, a.d * b.v + a.v * b.d), Dual(RealVal(1), RealVal(0)), R)
dprodf = FOLDS['dual'].fn
FOLDS['dual'].fn = lambda l: Dual(FOLDS['prod'].fn(l), dprodf(l))
deffold('sumd', lambda e: D(e), lambda a, b: a + b, RealVal(0), R)
deffold('dif', lambda e: dif(e), lambda a, b: And(a, b), BoolVal(True), B)

# ---- substitution: value and definedness with FROM standing for the value of TO
sv = Function('substvalue', E, R)
sd = Function('substdefined', E, B)
sbst = Function('subst', E, E)
FROM = Const('from', E)
TO = Const('to', E)
deffold('ssum_', lambda e: sv(e), lambda a, b: a + b, RealVal(0), R)
deffold('sprod_', lambda e: sv(e), lambda a, b: a * b, RealVal(1), R)
deffold('sdef_', lambda e: sd(e), lambda a, b: And(a, b), BoolVal(True), B)

# ---- structure: containment of an arbitrary expression WHAT, occurrence of an arbitrary symbol
WHAT = Const('what', E)
hasw = Function('contains', E, B)
occ = Function('occurs', E, B)
WSYM = Const('anysymbol', E)
deffold('hasw', lambda e: hasw(e), lambda a, b: Or(a, b), BoolVal(False), B)
deffold('occ', lambda e: occ(e), lambda a, b: Or(a, b), BoolVal(False), B)
deffold('cnt', lambda e: If(e == WSYM, IntVal(1), IntVal(0)), lambda a, b: a + b, IntVal(0), I)

# ---- order
nrank = Function('namerank', I, I)
perm = Function('doPermute', E, E, B)
lexf = Function('lexicographical', L, L, B)
lexr = Function('lexicographicalreversed', L, L, B)
sz = Function('size', E, I)

# ---- numeric and constant parts
deffold('pcon', lambda e: If(isconst(e), val(e), RealVal(1)), lambda a, b: a * b, RealVal(1), R)
deffold('pncon', lambda e: If(isconst(e), RealVal(1), val(e)), lambda a, b: a * b, RealVal(1), R)
