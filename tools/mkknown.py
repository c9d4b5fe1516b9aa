"""writes known_findings.txt: findings are recorded by hand below, fixed entries get their commits from /repo's history"""
import subprocess, os
P = [('product of a tangent', 'C02'), ('contraction of const factors', 'C02'), ('tsym::normal was declared', 'C05'), ('contraction of trigonometric powers', 'C02'),
     ('product was lost', 'C02'), ('primes occurring', 'C12'), ('negative arguments of unclear sign', 'C16'), ('atan of a negative', 'C16'), ('asin and acos', 'C16'),
     ('atan2 of a tangent', 'C16'), ('expansion of a product of sums', 'C04'), ('trigonometric functions of sums', 'C16'), ('logarithm of a numerically', 'C16'),
     ('derivative of a power', 'C06'), ('functions that differ', 'C10'), ('order of two powers', 'C10'), ('least complexity', 'C15'), ('coefficients equal to zero', 'C15'),
     ('integral powers of numbers', 'C11'), ('ordering of integers', 'C11'), ('logarithm of an even', 'C16'), ('roots of numerically', 'C17'),
     ('normalization of a root', 'C05'), ('hashing an exact number', 'C11'),
     ('roots without exact', 'C11'), ('converting an exact', 'C11'), ('pseudo-quotient', 'C14'), ('symbol names starting', 'C20'), ('integers with leading', 'C20'),
     ('cached results', 'C19'), ('numeric powers with large', 'C13'), ('simplification never ended', 'C05'), ('numeric powers with a very', 'C12')]
FIND = """finding: property=C16 atan2(y, x) of two numerically evaluable arguments with x < 0, whose ratio is not the tangent of a tabulated angle, is simplified to atan(y/x) without the quadrant increment of pi, e.g. atan2(5, -7); pinned by the unit test atan2FourthQuadrantNonResolvable (call site: src/trigonometric.cpp, createAtan2)
finding: property=C10 the product of two numeric powers with equal exponent denominators, whose combined base exceeds the prime resolution limit, keeps the order of the factors, so 2^(..)*3^(..) in either order are not equal; pinned by the unit test TestProduct/numPowEqualDenomInMixedSignExp (call site: src/productsimpl.cpp, simplTwoEqualExpDenom)
"""
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', 'e4a03a7..HEAD'], stdout=subprocess.PIPE).stdout.decode().splitlines()
out = FIND
for l in log:
    h, m = l.split(' ', 1)
    if not m.startswith('fix: '):
        continue
    m = m[5:]
    p = [b for a, b in P if m.startswith(a)]
    assert p, m
    out += 'fixed: property=%s %s %s\n' % (p[0], h, m)
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.txt'), 'w').write(out)
