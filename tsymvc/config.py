"""which groups of functions and which bounded stand-in decide a property"""

TRUSTED = [
    'clang 18 as front end (the AST of the translation units compiled from /repo)',
    'tsymvc/engine.py: semantics of the C++ subset, including std::list, std::optional, std::shared_ptr, lambdas and <algorithm> calls',
    'z3 (every obligation is quantifier free; axioms are instantiated at the terms of a path)',
    'laws of real powers, sine/cosine/tangent instantiated by tsymvc/spec_value.py',
]
ASSUMPTIONS = [
    'partial correctness: termination and recursion depth are not proved',
    'floating point numbers are treated as real numbers, integers as mathematical integers (boost multiprecision)',
    'assumption G: no power has a base of value zero at the assignment considered',
    'memory exhaustion and exceptions of the standard library are not considered',
]


def z3version():
    import z3
    return z3.get_version_string()


PROPS = {}


def prop(pid, groups, harness='value', level='proof', **kw):
    PROPS[pid] = dict(groups=groups, harness=harness, level=level, **kw)


prop('C01', ['sum', 'terms', 'var'])
prop('C02', ['product', 'terms', 'var'])
prop('C03', ['power'])
prop('C04', ['expand'])
prop('C06', ['diff'])
prop('C07', ['subst'])
prop('C08', ['sign'])
prop('C09', ['equal', 'var'])
prop('C10', ['order'])
prop('C13', ['eval', 'var'])
prop('C16', ['trig'])
prop('C17', ['undef'])
prop('C18', ['contains'])
for _p in ('C05', 'C15'):
    prop(_p, [], level='exploration')

prop('C11', ['number'], harness='num')
prop('C12', [], harness='num', level='exploration')
prop('C14', [], harness='poly', level='exploration')
prop('C19', [], harness='hist', level='exploration')
prop('C20', [], harness='text', level='exploration')

TECH = 'contracts on the C++ functions, obligations generated from the clang AST on every run, discharged by z3; bounded stand-in for the rest'
NOTE = 'every obligation of the functions listed in the evidence is discharged for all inputs; assumptions, trusted base and functions covered by the bounded stand-in only are listed there'
NA = {}
