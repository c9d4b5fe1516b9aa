from spec_value import *


def find_targets(prog, qual, sig=None):
    out = []
    for f in prog.byqual.get(qual, ()):
        if f.body is None:
            continue
        s = f.sig
        if ('T &&' in s or '...' in s or 'auto' in s) and not f.targs:
            continue
        if sig is not None and sig not in s:
            continue
        out.append(f)
    return out


def base_contract(spec, f):
    return spec.find('tsym::Base::' + f.qual.split('::')[-1], f.sig, len(f.params))


GROUPS = {}


def group(name, files, spec, targets):
    GROUPS[name] = dict(files=files, spec=spec, targets=targets)


group('sum', ['sumsimpl.cpp', 'sum.cpp', 'baseptrlistfct.cpp', 'basefct.cpp', 'numeric.cpp', 'numberfct.cpp'], value_spec,
      [('tsym::isSum',), ('tsym::isNumeric',), ('tsym::isOne',), ('tsym::isZero',), ('tsym::isInteger',), ('tsym::isFractionNumeric',),
       ('tsym::isNumericPower',), ('tsym::isNegativeNumeric',), ('tsym::Numeric::one',), ('tsym::Numeric::half',), ('tsym::Numeric::create', '(Number)'),
       ('tsym::@sumsimpl::simplTwoNumerics',),
       ('tsym::@sumsimpl::simplTwoSummandsWithoutSum',), ('tsym::@sumsimpl::mergeNonEmpty',), ('tsym::@sumsimpl::merge',),
       ('tsym::@sumsimpl::simplTwoSummandsWithSum',), ('tsym::@sumsimpl::simplTwoSummands',),
       ('tsym::@sumsimpl::simplNSummands',), ('tsym::@sumsimpl::simplWithoutCache',), ('tsym::simplifySum',),
       ('tsym::Sum::createSimplifiedSum',), ('tsym::Sum::create',)])

A = 'tsym::@productsimpl::'
SLOW = {'simplTwoEqualExpDenom': dict(max_time=20), 'contract': dict(max_time=90)}
group('product', ['productsimpl.cpp', 'product.cpp', 'baseptrlistfct.cpp', 'basefct.cpp', 'numeric.cpp', 'numberfct.cpp'], value_spec,
      [(A + x, None, SLOW.get(x)) for x in ('simplTwoNumerics', 'simplNumAndNumPow', 'simplNumAndConst', 'simplTwoEqualBases', 'simplTwoEqualExp', 'simplTwoZeroSumExp',
                          'simplTwoEqualExpDenom', 'simplTwoConst', 'simplTwoFactorsWithoutProduct', 'mergeNonEmpty', 'merge',
                          'simplTwoFactorsWithProduct', 'simplTwoFactors', 'contractTrigFctPowers', 'contract', 'contractTrigonometrics',
                          'extractProducts', 'prepare', 'contractNumerics', 'contractConst', 'prepareConst', 'simplNPreparedFactors', 'simplPreparedFactors',
                          'simplNFactors', 'simplifyWithoutCache')] +
      [('tsym::simplifyProduct',), ('tsym::Product::createSimplifiedProduct',), ('tsym::Product::create', '(const BasePtrList &)'), ('tsym::Product::create',), ('tsym::Product::minus',)])

A = 'tsym::@powersimpl::'
group('power', ['powersimpl.cpp', 'power.cpp', 'baseptrlistfct.cpp', 'basefct.cpp', 'numeric.cpp', 'numberfct.cpp'], value_spec,
      [(A + x, None, dict(max_time=20) if x == 'simplifyProductBase' else None) for x in ('simplifyNumericPower', 'simplifyNumericBase', 'simplifyPowerBase', 'simplifyProductBase', 'simplifyConstantBase')] +
      [('tsym::simplifyPower',), ('tsym::Power::createNonTrivial',), ('tsym::Power::createNotUndefined',), ('tsym::Power::create',),
       ('tsym::Power::oneOver',), ('tsym::Power::sqrt',)])

import spec_more
B_ = 'tsym::@baseptrlistfct::'
group('expand', ['baseptrlistfct.cpp', 'sum.cpp', 'product.cpp', 'power.cpp', 'base.cpp', 'basefct.cpp', 'function.cpp', 'logarithm.cpp', 'trigonometric.cpp'], spec_more.expand_spec,
      [(B_ + 'defScalarAndSums',), (B_ + 'expandProductOf',), ('tsym::expandAsProduct',), ('tsym::Sum::expand',), ('tsym::Product::expand',), ('tsym::Base::expand',),
       ('tsym::Power::expand',), ('tsym::Power::expandIntegerExponent',), ('tsym::Power::expandSumBaseIntExp',)])

CLS = ('Sum', 'Product', 'Power', 'Numeric', 'Symbol', 'Constant', 'Trigonometric', 'Logarithm', 'Undefined')
ALLCPP = ['sum.cpp', 'product.cpp', 'power.cpp', 'numeric.cpp', 'symbol.cpp', 'constant.cpp', 'trigonometric.cpp', 'logarithm.cpp', 'undefined.cpp', 'function.cpp', 'base.cpp',
          'basefct.cpp', 'baseptrlistfct.cpp']


def overrides(*names):
    return [('tsym::%s::%s' % (c, n),) for n in names for c in CLS]


group('sign', ALLCPP, spec_more.sign_spec, overrides('isPositive', 'isNegative') +
      [('tsym::Sum::sign',), ('tsym::Product::sign',), ('tsym::Sum::signOfNumericParts',), ('tsym::Sum::signOfSymbolicParts',)])
group('eval', ALLCPP, spec_more.eval_spec, overrides('numericEval'))
group('var', ['var.cpp', 'sum.cpp', 'product.cpp', 'power.cpp', 'basefct.cpp', 'numeric.cpp'], spec_more.var_spec,
      [('tsym::Var::operator+=',), ('tsym::Var::operator-=',), ('tsym::Var::operator*=',), ('tsym::Var::operator/=',), ('tsym::Var::operator-', 'Var ()'), ('tsym::operator+', 'Var'), ('tsym::operator-', 'Var'),
       ('tsym::operator*', 'Var'), ('tsym::operator/', 'Var'), ('tsym::Var::operator int',), ('tsym::Var::operator double',), ('tsym::operator==', 'const Var'), ('tsym::operator!=', 'const Var'), ('tsym::isInteger',)])
U = 'tsym::Undefined::'
group('undef', ALLCPP + ['var.cpp'], spec_more.undef_spec,
      [('tsym::Sum::create',), ('tsym::Product::create',), ('tsym::Product::minus',), ('tsym::Power::create',), ('tsym::Power::createNotUndefined',), ('tsym::Power::oneOver',), ('tsym::Power::sqrt',)] +
      [('tsym::Trigonometric::create' + x,) for x in ('Sin', 'Cos', 'Tan', 'Asin', 'Acos', 'Atan', 'Atan2', '')] + [('tsym::Logarithm::create',), ('tsym::Base::expand',),
       (U + 'diffWrtSymbol',), (U + 'subst',), ('tsym::Base::diff',)] +
      [('tsym::Var::operator%s=' % x,) for x in '+-*/'] + [('tsym::operator' + x, 'Var') for x in '+-*/'] + [('tsym::Var::operator-', 'Var ()'), (U + 'create',)])
group('diff', ALLCPP, spec_more.diff_spec, [('tsym::%s::diffWrtSymbol' % c, '(const Base &) const') for c in CLS if c != 'Undefined'])
group('subst', ALLCPP, spec_more.subst_spec, [('tsym::Base::subst',), ('tsym::subst', 'BasePtrList (const BasePtrList')] +
      [('tsym::%s::subst' % c,) for c in CLS if c not in ('Numeric', 'Symbol', 'Constant', 'Undefined')])
group('equal', ALLCPP + ['var.cpp'], spec_more.struct_spec, [('tsym::%s::isEqualDifferentBase' % c,) for c in CLS if c not in ('Trigonometric', 'Logarithm')] + [('tsym::Function::isEqualDifferentBase',), ('tsym::Base::isEqual',), ('tsym::Undefined::isEqual',), ('tsym::Base::isDifferent',),
      ('tsym::Base::isEqualByTypeAndOperands',), ('tsym::areEqual', 'BasePtrList'), ('tsym::sameType',)])
group('contains', ALLCPP + ['functions.cpp', 'var.cpp'], spec_more.struct_spec, [('tsym::Base::has',), ('tsym::Undefined::has',), ('tsym::@functions::collectSymbols',), ('tsym::@functions::insertSymbolIfNotPresent',),
      ('tsym::collectSymbols',), ('tsym::has', 'Var')])
group('order', ['order.cpp', 'basefct.cpp', 'numeric.cpp'], spec_more.order_spec, [('tsym::doPermute',)])
group('terms', ALLCPP, spec_more.terms_spec, [('tsym::Base::' + q,) for q in ('numericTerm', 'nonNumericTerm', 'constTerm', 'nonConstTerm')] +
      [('tsym::%s::%s' % (c, q),) for c in ('Numeric', 'Product') for q in ('numericTerm', 'nonNumericTerm', 'constTerm', 'nonConstTerm')] +
      [('tsym::Function::constTerm',), ('tsym::Function::nonConstTerm',)])

import spec_trig
T_ = 'tsym::Trigonometric::'
N_ = 'tsym::NumTrigoSimpl::'
TRIGCPP = ['trigonometric.cpp', 'logarithm.cpp', 'numtrigosimpl.cpp', 'basefct.cpp', 'numeric.cpp']
group('trig', TRIGCPP, spec_trig.trig_spec,
      [(T_ + x,) for x in ('create', 'createFromFunction', 'createFromTrigo', 'createFromTrigoNoInverse', 'createBySymmetry', 'createNumerically', 'createNumericallyBySymmetry', 'shiftArgIntoRange',
                           'createSin', 'createCos', 'createTan', 'createAsin', 'createAcos', 'createAtan', 'createAtan2')] +
      [('tsym::@trigonometric::' + x,) for x in ('normalFrac', 'atan2ArgEval', 'timesPi')] + [('tsym::@numtrigosimpl::' + x,) for x in ('timesPi', 'sineTable', 'tanTable')] +
      [('tsym::Logarithm::' + x,) for x in ('create', 'createNumerically', 'createFromConstant', 'createFromPower')] +
      [(N_ + x,) for x in ('simplify', 'sin', 'adjustArgRange')] + [('tsym::isDoubleNumeric',), ('tsym::isRationalNumeric',)])

import spec_number
NB = 'tsym::Number::'
group('number', ['number.cpp', 'numberfct.cpp'], spec_number.number_spec,
      [('tsym::operator==', 'Number'), ('tsym::operator<', 'Number')] + [(NB + 'operator%s=' % x,) for x in '+-*/'] + [(NB + 'operator-',)] +
      [(NB + x,) for x in ('Number', 'numerator', 'denominator', 'tryDoubleToFraction', 'toThe', 'computeTrivialPower', 'computeMinusOneToThe', 'computeNegBasePower', 'computeIrrationalPower',
                           'computeRationalPower', 'computeNumPower', 'computeDenomPower')] + [('tsym::@number::tryGetBase',)] +
      [('tsym::' + x,) for x in ('isInt', 'isOddInt', 'isEvenInt', 'isFraction', 'abs', 'sign')])

import spec_poly
PO = 'tsym::@poly::'
group('division', ['poly.cpp', 'basefct.cpp', 'baseptrlistfct.cpp'], spec_poly.division_spec,
      [(PO + x,) for x in ('divideEmptyList', 'divideNonEmpty', 'pseudoDivideChecked', 'pseudoDivideImpl')] + [('tsym::poly::divide',), ('tsym::poly::pseudoDivide',)])
