/* C11, C12: exact rational arithmetic; oracle: fractions of arbitrary size built on boost::multiprecision::cpp_int only */
#include <numeric>
#include <stdexcept>
#include "core.h"
#include "rational.h"
#include "numberfct.h"
#include "primefac.h"
#include "numpowersimpl.h"
using namespace h;
using tsym::Int;
using tsym::Number;

namespace {
std::string s(const Q& q) { std::ostringstream o; o << q.n; if (q.d != 1) o << "/" << q.d; return o.str(); }
std::string s(const Number& n) { std::ostringstream o; if (n.isDouble()) { o.precision(17); o << "double " << n.toDouble(); } else o << n.numerator() << "/" << n.denominator(); return o.str(); }

Int anyInt(Rng& r)
{
    static const char* specials[] = {"0", "1", "2", "3", "10", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551616",
        "9007199254740993", "10000000000000000000000000", "340282366920938463463374607431768211456", "999999999989", "1000", "1001", "997", "1009"};
    const unsigned c = r.below(10);
    Int v = 0;
    if (c < 4) v = r.below(30);
    else if (c < 5) v = r.below(2000000);
    else if (c < 7) { v = Int(specials[r.below(20)]); if (r.chance(30)) v += 1; }
    else { const unsigned w = 1 + r.below(5); for (unsigned i = 0; i < w; ++i) v = v * Int(1ull << 40) + (r.next() >> 24); }
    return r.chance(45) ? Int(-v) : v;
}
Q anyQ(Rng& r)
{
    const Int n = anyInt(r);
    if (r.chance(35)) return {n};
    Int d = anyInt(r);
    if (d == 0) d = 7;
    if (r.chance(25)) { const Int f = 1 + r.below(60); return {n * f, d * f}; }
    return {n, d};
}
Number num(const Q& q) { return Number(q.n, q.d); }
void expect(Ctx& c, const std::string& what, const Q& want, const Number& got)
{
    if (!got.isRational() || got.numerator() != want.n || got.denominator() != want.d) c.fail(what + " is " + s(want) + ", got " + s(got));
    if (!(got == num(want)) || got != num(want)) c.fail(what + ": equality of equal numbers " + s(want));
    c.count("compared");
}
void expectVar(Ctx& c, const std::string& what, const Q& want, const Var& got)
{
    if (got.type() != T::INT && got.type() != T::FRACTION) c.fail(what + " isn't an exact number: " + str(got));
    const auto n = *got.get()->numericEval();
    expect(c, what, want, n);
    if ((got.type() == T::INT) != (want.d == 1)) c.fail(what + " has the wrong type");
}
template <class F> void throws(Ctx& c, const std::string& what, F f)
{
    std::string r;
    try { r = s(f()); } catch (const std::exception&) { c.count("compared"); return; }
    c.fail(what + " must be rejected, got " + r);
}

void arithmetic(Ctx& c)
{
    Rng& r = c.rng;
    const Q a = anyQ(r), b = r.chance(10) ? a : r.chance(10) ? -a : anyQ(r);
    const Number x = num(a), y = num(b);
    const std::string sx = s(a), sy = s(b);
    expect(c, sx, a, x);
    expect(c, sx + " + " + sy, a + b, x + y);
    expect(c, sx + " - " + sy, a + -b, x - y);
    expect(c, sx + " * " + sy, a * b, x * y);
    expect(c, "-" + sx, -a, -x);
    expect(c, "+" + sx, a, +x);
    Number z = x; z += y; expect(c, sx + " += " + sy, a + b, z);
    z = x; z -= y; expect(c, sx + " -= " + sy, a + -b, z);
    z = x; z *= y; expect(c, sx + " *= " + sy, a * b, z);
    z = x; z += z; expect(c, sx + " += itself", a + a, z);
    z = x; z *= z; expect(c, sx + " *= itself", a * a, z);
    z = x; z -= z; expect(c, sx + " -= itself", Q(0), z);
    if (b.n != 0) {
        expect(c, sx + " / " + sy, a * Q(b.d, b.n), x / y);
        z = x; z /= y; expect(c, sx + " /= " + sy, a * Q(b.d, b.n), z);
    }
    throws(c, sx + " / 0", [&]() { return x / Number(0); });
    throws(c, sx + " / (" + sy + " - itself)", [&]() { Number w = y; w -= y; return x / w; });
    if ((x == y) != (a == b) || (x != y) != !(a == b)) c.fail("equality of " + sx + " and " + sy);
    if ((x < y) != (a < b) || (y < x) != (b < a) || (x > y) != (b < a) || (x <= y) != !(b < a) || (x >= y) != !(a < b)) c.fail("order of " + sx + " and " + sy);
    if (tsym::isInt(x) != (a.d == 1) || tsym::isFraction(x) != (a.d != 1) || tsym::isOddInt(x) != (a.d == 1 && a.n % 2 != 0) || tsym::isEvenInt(x) != (a.d == 1 && a.n % 2 == 0))
        c.fail("kind of " + sx);
    if (tsym::sign(x) != (a.n > 0) - (a.n < 0)) c.fail("sign of " + sx);
    expect(c, "abs " + sx, a.n < 0 ? -a : a, tsym::abs(x));
    if ((x == y) && std::hash<Number>{}(x) != std::hash<Number>{}(y)) c.fail("hash of " + sx);
}
Var var(Rng& r, const Q& q)
{
    std::ostringstream n, d;
    n << q.n; d << q.d;
    if (q.n < 0 && r.chance(50)) { std::ostringstream m; m << -q.n; n.swap(m); return -Var(n.str().c_str()) / Var(d.str().c_str()); }
    if (q.d == 1) { return q.n < 0 ? Var(0) - Var(n.str().substr(1).c_str()) : Var(n.str().c_str()); }
    const Var v = q.n < 0 ? -Var(n.str().substr(1).c_str()) : Var(n.str().c_str());
    return v / Var(d.str().c_str());
}
void variables(Ctx& c)
{
    Rng& r = c.rng;
    const Q a = anyQ(r), b = anyQ(r);
    const Var x = var(r, a), y = var(r, b);
    const std::string sx = s(a), sy = s(b);
    expectVar(c, sx, a, x);
    expectVar(c, sx + " + " + sy, a + b, x + y);
    expectVar(c, sx + " - " + sy, a + -b, x - y);
    expectVar(c, sx + " * " + sy, a * b, x * y);
    expectVar(c, "-" + sx, -a, -x);
    if (b.n != 0) expectVar(c, sx + " / " + sy, a * Q(b.d, b.n), x / y);
    else if ((x / y).type() != T::UNDEFINED) c.fail(sx + " / 0 isn't undefined");
    if ((x == y) != (a == b)) c.fail("equality of " + sx + " and " + sy);
    const int e = (int)r.below(9) - 4;
    if (a.n != 0 || e > 0) expectVar(c, sx + " ^ " + std::to_string(e), qpow(a, e), tsym::pow(x, Var(e)));
}
void powers(Ctx& c)
{
    Rng& r = c.rng;
    const Q a = anyQ(r);
    const Number x = num(a);
    const long e = (long)r.below(31) - 15;
    const std::string w = s(a) + " ^ " + std::to_string(e);
    if (a.n == 0 && e < 0) throws(c, w, [&]() { return x.toThe(Number((int)e)); });
    else if (a.n == 0) { if (e > 0) expect(c, w, Q(0), x.toThe(Number((int)e))); }
    else expect(c, w, qpow(a, e), x.toThe(Number((int)e)));
    if (a.n < 0) {
        const Number h((int)r.below(20) * 2 - 19, 2 << r.below(3));
        throws(c, s(a) + " ^ " + s(h), [&]() { return x.toThe(h); });
    }
    if (a.n == 0) { throws(c, s(a) + " ^ (-1/2)", [&]() { return x.toThe(Number(-1, 2)); }); throws(c, s(a) + " ^ -1.2345678", [&]() { return x.toThe(Number(-1.23456789)); }); }
}
/* a rational result r of b^(p/q) satisfies r^q = b^p, r >= 0 */
void roots(Ctx& c)
{
    Rng& r = c.rng;
    const int q = 2 + (int)r.below(r.chance(80) ? 4 : 9), p0 = (int)r.below(13) - 6;
    const int g = std::gcd(p0, q);
    const int p = p0 / g, qq = q / g;
    Q b = anyQ(r);
    if (b.n < 0) b = -b;
    if (b.n == 0) b = Q(12);
    if (r.chance(50)) { b = qpow(b, qq); if (r.chance(30)) b = b + Q((int)r.below(3) - 1); if (r.chance(15)) b = b * Q(1 + (int)r.below(3), 1 + (int)r.below(3)); }
    if (b.n <= 0) return;
    const Number res = num(b).toThe(Number(p, qq));
    const std::string w = s(b) + " ^ (" + std::to_string(p) + "/" + std::to_string(qq) + ")";
    if (res.isRational()) {
        const Q v(res.numerator(), res.denominator());
        c.count("compared");
        if (!(qpow(v, qq) == qpow(b, p)) || v.n <= 0) c.fail(w + " isn't " + s(v));
    } else {
        const ld want = expl((logl(b.n.convert_to<ld>()) - logl(b.d.convert_to<ld>())) * p / qq);
        const Q bp = qpow(b, p);
        if (bp.n.convert_to<ld>() > 1e300L || bp.d.convert_to<ld>() > 1e300L) return;
        c.count("compared");
        if (std::isfinite(want) && want > 1e-300L && want < 1e300L && fabsl(res.toDouble() - want) > 1e-11L * want) { std::ostringstream o; o.precision(18); o << w << " is " << want << ", got " << res.toDouble(); c.fail(o.str()); }
    }
}
bool small(const Q& q) { return q.n < 100000000 && q.n > -100000000 && q.d < 100000000; }
}
namespace {
void rootsOfVariables(Ctx& c)
{
    Rng& r = c.rng;
    Q b = anyQ(r);
    if (b.n < 0) b = -b;
    if (b.n == 0) return;
    const int q = 2 + (int)r.below(3);
    if (r.chance(40)) b = qpow(b, q);
    const Var res = tsym::pow(var(r, b), Var(1, q));
    if (res.type() == T::INT || res.type() == T::FRACTION) {
        const auto n = *res.get()->numericEval();
        c.count("compared");
        if (!(qpow(Q(n.numerator(), n.denominator()), q) == b)) c.fail(s(b) + " ^ (1/" + std::to_string(q) + ") isn't " + s(n));
    }
}
Reg r1("C11", "arithmetic", arithmetic), r2("C11", "variables", variables), r3("C11", "powers", powers), r4("C11", "roots", roots), r5("C11", "roots of variables", rootsOfVariables);

/* ---------------------------------------------------------------- C12 */
Q smallQ(Rng& r)
{
    static const int ps[] = {2, 2, 2, 3, 3, 5, 7, 11, 13, 31, 97, 101, 997};
    auto f = [&]() { Int v = 1; const unsigned k = r.below(6); for (unsigned i = 0; i < k; ++i) { v *= ps[r.below(r.chance(70) ? 7 : 13)]; if (v > 1000000) break; } return r.chance(20) ? Int(1 + r.below(1500)) : v; };
    const Int n = f();
    return r.chance(55) ? Q(n) : Q(n, f());
}
Q val(const tsym::PrimeFac& f)
{
    Int n = 1, d = 1;
    for (const auto& p : f.getNumPrimes()) n *= p;
    for (const auto& p : f.getDenomPrimes()) d *= p;
    return {n, d};
}
bool prime(const Int& p) { if (p < 2) return false; for (Int i = 2; i * i <= p; ++i) if (p % i == 0) return false; return true; }
void wellFormed(Ctx& c, const std::string& what, const tsym::PrimeFac& f)
{
    for (const auto* v : {&f.getNumPrimes(), &f.getDenomPrimes()}) {
        for (size_t i = 1; i < v->size(); ++i) if ((*v)[i] < (*v)[i - 1]) c.fail(what + ": primes aren't sorted");
        for (const auto& p : *v) if (!prime(p)) c.fail(what + ": not a prime number " + s(Q(p)));
    }
    for (const auto& p : f.getNumPrimes()) for (const auto& q : f.getDenomPrimes()) if (p == q) c.fail(what + ": common prime " + s(Q(p)));
    expect(c, what + " (evaluated)", val(f), f.eval());
}
void factors(Ctx& c)
{
    Rng& r = c.rng;
    const Q a = smallQ(r), b = smallQ(r);
    const tsym::PrimeFac f{num(a)};
    wellFormed(c, "factors of " + s(a), f);
    expect(c, "factors of " + s(a), a, f.eval());
    tsym::PrimeFac g(f);
    if (r.chance(50)) g.multiply(num(b)); else g.multiply(tsym::PrimeFac(num(b)));
    wellFormed(c, "factors of " + s(a) + " times " + s(b), g);
    expect(c, "factors of " + s(a) + " times " + s(b), a * b, g.eval());
    const int e = (int)r.below(9) - 4;
    tsym::PrimeFac h(f);
    h.toThe(Int(e));
    wellFormed(c, "factors of " + s(a) + " to the " + std::to_string(e), h);
    expect(c, "factors of " + s(a) + " to the " + std::to_string(e), qpow(a, e), h.eval());
    /* extraction: before^(p/q) = returned * after^(p/q) */
    const int p = 1 + (int)r.below(4), q = 1 + (int)r.below(5);
    const Number ex(p, q);
    const long P = (long)ex.numerator(), Qd = (long)ex.denominator();
    if (Qd > 1) {
        tsym::PrimeFac k(g);
        const auto out = k.extract(ex);
        wellFormed(c, "rest", k);
        wellFormed(c, "extracted", out);
        if (!(qpow(a * b, P) == qpow(val(out), Qd) * qpow(val(k), P))) c.fail("extraction of (" + s(a * b) + ")^(" + s(ex) + ") gives " + s(val(out)) + " and " + s(val(k)));
        c.count("compared");
        /* what remains can't be extracted */
        tsym::PrimeFac k2(k);
        if (!(val(k2.extract(ex)) == Q(1))) c.fail("incomplete extraction of (" + s(a * b) + ")^(" + s(ex) + ")");
    }
    tsym::PrimeFac m(g);
    const Q before = val(m);
    const Number ne = m.collectToNewExp(ex);
    const Q after = val(m);
    wellFormed(c, "collected", m);
    if (before == Q(1)) { if (!(after == Q(1))) c.fail("collecting one"); }
    else {
        const long N = (long)ne.numerator(), D = (long)ne.denominator();
        if (N * 1 > 60 || N < 1) c.fail("collecting (" + s(before) + ")^(" + s(ex) + ") gives exponent " + s(ne));
        /* before^(P/Qd) = after^(N/D) */
        if (!(qpow(before, P * D) == qpow(after, N * Qd))) c.fail("collecting (" + s(before) + ")^(" + s(ex) + ") gives (" + s(after) + ")^(" + s(ne) + ")");
        c.count("compared");
    }
}
/* pf*b^e = pf1*b1^e1 */
void numPower(Ctx& c)
{
    Rng& r = c.rng;
    Q b = smallQ(r), pf = smallQ(r);
    if (r.chance(15)) b = qpow(b, 2);
    const bool neg = r.chance(25);
    const int q = neg ? 1 : 1 + (int)r.below(6);
    int p = (int)r.below(17) - 8;
    if (p == 0) p = 1;
    const Number e(p, q);
    if (neg) b = -b;
    if (r.chance(30)) pf = -pf;
    if (r.chance(30)) pf = Q(r.chance(50) ? 1 : -1);
    if (r.chance(25) && !neg && small(b)) pf = pf * qpow(b, (int)r.below(5) - 2);
    static const int limits[] = {1000, 1000, 1000, 10, 50, 2, 5000};
    const int lim = limits[r.below(7)];
    std::ostringstream w;
    w << s(pf) << " * (" << s(b) << ")^(" << s(e) << ") with limit " << lim;
    const tsym::NumPowerSimpl::Payload in{num(b), e, num(pf)};
    const tsym::NumPowerSimpl np(in, Int(lim));
    if (!np.isInputValid()) c.fail(w.str() + " is reported invalid");
    const Number &nb = np.getNewBase(), &ne = np.getNewExp(), &npf = np.getPreFactor();
    w << " gives " << s(npf) << " * (" << s(nb) << ")^(" << s(ne) << ")";
    if (nb.isDouble() || ne.isDouble() || npf.isDouble()) c.fail(w.str());
    const long P = (long)e.numerator(), D = (long)e.denominator(), N = (long)ne.numerator(), M = (long)ne.denominator();
    if (std::abs(N) > 200 || M > 200) c.fail(w.str());
    const Q rb(nb.numerator(), nb.denominator()), rp(npf.numerator(), npf.denominator());
    if (rb.n == 0 || rp.n == 0) c.fail(w.str());
    if (rb.n < 0 && M != 1) c.fail(w.str());
    auto sgn = [](const Q& p, const Q& b, long n) { return ((p.n < 0) != (b.n < 0 && n % 2 != 0)) ? -1 : 1; };
    if (sgn(pf, b, P) != sgn(rp, rb, N)) c.fail(w.str() + ": sign");
    const long L = std::lcm(D, M);
    auto ab = [](const Q& x) { return x.n < 0 ? -x : x; };
    if (!(qpow(ab(pf), L) * qpow(ab(b), P * (L / D)) == qpow(ab(rp), L) * qpow(ab(rb), N * (L / M)))) c.fail(w.str());
    c.count("compared");
}
void varPower(Ctx& c)
{
    Rng& r = c.rng;
    const Q b = smallQ(r), pf = smallQ(r);
    const int q = 2 + (int)r.below(5), p = (int)r.below(13) - 6;
    const Var v = var(r, pf) * tsym::pow(var(r, b), Var(p, q));
    const ld want = pf.n.convert_to<ld>() / pf.d.convert_to<ld>() * powl(b.n.convert_to<ld>() / b.d.convert_to<ld>(), (ld)p / q);
    c.same(s(pf) + " * (" + s(b) + ")^(" + std::to_string(p) + "/" + std::to_string(q) + ")", [&](const Env&) { return h::num(want, fabsl(want) * 1e-17L); }, v);
}
Reg r6("C12", "prime factors", factors), r7("C12", "numeric power", numPower), r8("C12", "numeric power", numPower), r9("C12", "power of variables", varPower);
}
