/* C14: polynomial division and gcd; oracle: polynomials as maps from exponents to exact fractions */
#include "core.h"
#include "rational.h"
#include "gcd.h"
#include "poly.h"
#include "polyinfo.h"
#include "primitivegcd.h"
#include "subresultantgcd.h"
#include "numeric.h"
#include "symbol.h"
#include "sum.h"
#include "product.h"
#include "power.h"
using namespace h;
using tsym::BasePtr;
using tsym::BasePtrList;

namespace {
constexpr int NV = 3;
using Mono = std::array<int, NV>;
struct P {
    std::map<Mono, Q, std::greater<Mono>> t;
    bool zero() const { return t.empty(); }
};
P constant(const Q& q) { P p; if (q.n != 0) p.t[Mono{}] = q; return p; }
P operator+(const P& a, const P& b)
{
    P r = a;
    for (const auto& [m, q] : b.t) {
        auto it = r.t.find(m);
        if (it == r.t.end()) r.t[m] = q;
        else { it->second = it->second + q; if (it->second.n == 0) r.t.erase(it); }
    }
    return r;
}
P operator*(const P& a, const P& b)
{
    P r;
    for (const auto& [m, q] : a.t) {
        P s;
        for (const auto& [n, u] : b.t) { Mono k; for (int i = 0; i < NV; ++i) k[i] = m[i] + n[i]; s.t[k] = q * u; }
        r = r + s;
    }
    return r;
}
P operator-(const P& a) { return a * constant(Q(-1)); }
P raise(const P& a, int n) { P r = constant(Q(1)); while (n-- > 0) r = r * a; return r; }
bool same(const P& a, const P& b) { return (a + -b).zero(); }
/* b divides a: reduction by the leading monomial */
bool divides(const P& b, P a)
{
    if (b.zero()) return a.zero();
    const auto& [lm, lq] = *b.t.begin();
    while (!a.zero()) {
        const auto& [m, q] = *a.t.begin();
        P f;
        Mono k;
        for (int i = 0; i < NV; ++i) { k[i] = m[i] - lm[i]; if (k[i] < 0) return false; }
        f.t[k] = q * Q(lq.d, lq.n);
        a = a + -(f * b);
    }
    return true;
}
int deg(const P& p, int x) { int d = 0; for (const auto& [m, q] : p.t) d = std::max(d, m[x]); return d; }
P coeff(const P& p, int x, int n) { P r; for (const auto& [m, q] : p.t) if (m[x] == n) { Mono k = m; k[x] = 0; r.t[k] = q; } return r; }

const char* names[NV] = {"a", "b", "c"};
BasePtr sym(int i) { static const std::vector<BasePtr> s{tsym::Symbol::create("a"), tsym::Symbol::create("b"), tsym::Symbol::create("c")}; return s[i]; }

struct Bad { std::string s; };
P read(const BasePtr& u)
{
    const auto n = tsym::Var(u);
    switch (n.type()) {
        case T::INT: case T::FRACTION: { const auto v = *u->numericEval(); return constant(Q(v.numerator(), v.denominator())); }
        case T::SYMBOL: for (int i = 0; i < NV; ++i) if (tsym::name(n) == names[i]) { P p; Mono m{}; m[i] = 1; p.t[m] = Q(1); return p; } throw Bad{"unknown symbol"};
        case T::SUM: { P r; for (const auto& o : u->operands()) r = r + read(o); return r; }
        case T::PRODUCT: { P r = constant(Q(1)); for (const auto& o : u->operands()) r = r * read(o); return r; }
        case T::POWER: { const auto e = u->exp()->numericEval(); if (!e || e->denominator() != 1 || e->numerator() < 0 || e->numerator() > 60) throw Bad{"power"}; return raise(read(u->base()), (int)e->numerator()); }
        default: throw Bad{"not a polynomial"};
    }
}
BasePtr write(const P& p)
{
    BasePtr r = tsym::Numeric::zero();
    for (const auto& [m, q] : p.t) {
        BasePtr t = tsym::Numeric::create(tsym::Number(q.n, q.d));
        for (int i = 0; i < NV; ++i) t = tsym::Product::create(t, tsym::Power::create(sym(i), tsym::Numeric::create(m[i])));
        r = tsym::Sum::create(r, t);
    }
    return r;
}
std::string s(const BasePtr& u) { return str(tsym::Var(u)); }
P readOr(Ctx& c, const std::string& what, const BasePtr& u)
{
    try { return read(u); } catch (const Bad&) { c.fail(what + " gives " + s(u) + ", not a polynomial"); }
}
Q coef(Rng& r, bool frac)
{
    int n = (int)r.below(r.chance(80) ? 13 : 200) - 6;
    if (n == 0) n = 1;
    return frac && r.chance(30) ? Q(n, 1 + (int)r.below(6)) : Q(n);
}
P any(Rng& r, int nv, unsigned terms, int maxdeg, bool frac)
{
    P p;
    const unsigned n = 1 + r.below(terms);
    for (unsigned i = 0; i < n; ++i) {
        P t; Mono m{};
        for (int j = 0; j < nv; ++j) m[j] = (int)r.below(maxdeg + 1);
        t.t[m] = coef(r, frac);
        p = p + t;
    }
    return p.zero() ? constant(Q(3)) : p;
}
struct Pair { P u, v, common; BasePtr bu, bv; };
Pair pair(Ctx& c)
{
    Rng& r = c.rng;
    const bool frac = r.chance(25);
    const int nv = r.chance(45) ? 1 : r.chance(70) ? 2 : 3;
    const int md = nv == 1 ? 3 : nv == 2 ? 2 : 1;
    auto any = [&](unsigned t) { const P p = ::any(r, nv, t, md, frac); return p; };
    Pair p;
    p.common = r.chance(60) ? any(3) : constant(Q(1));
    P u = any(3), v = r.chance(12) ? constant(coef(r, false)) : any(2);
    if (r.chance(20)) u = u * v;
    if (r.chance(5)) v = u;
    p.u = u * p.common; p.v = v * p.common;
    p.bu = write(p.u); p.bv = write(p.v);
    if (r.chance(25)) { const BasePtr k = tsym::Product::create(write(u), write(p.common)); p.bu = k; }
    return p;
}
}
namespace {
void division(Ctx& c)
{
    const Pair p = pair(c);
    const std::string w = "division of " + s(p.bu) + " by " + s(p.bv);
    const auto d = tsym::poly::divide(p.bu, p.bv);
    if (d.size() != 2) c.fail(w + ": no quotient and remainder");
    const P q = readOr(c, w, d.front()), r = readOr(c, w, d.back());
    if (!same(p.u, q * p.v + r)) c.fail(w + " gives quotient " + s(d.front()) + " and remainder " + s(d.back()));
    c.count("compared");
    if (divides(p.v, p.u) != r.zero()) c.fail(w + (r.zero() ? ": remainder is zero" : ": exact division leaves the remainder ") + s(d.back()));
    /* zero dividend */
    const auto z = tsym::poly::divide(tsym::Numeric::zero(), p.bv);
    if (!readOr(c, "0/" + s(p.bv), z.front()).zero() || !readOr(c, "0/" + s(p.bv), z.back()).zero()) c.fail("division of zero by " + s(p.bv));
}
void pseudo(Ctx& c)
{
    const Pair p = pair(c);
    const int x = (int)c.rng.below(NV);
    const BasePtr u = p.bu, v = p.bv;
    const std::string w = "pseudo division of " + s(u) + " by " + s(v) + " w.r.t. " + names[x];
    const auto d = tsym::poly::pseudoDivide(u, v, sym(x));
    const P q = readOr(c, w, d.front()), r = readOr(c, w, d.back());
    const int m = deg(p.u, x), n = deg(p.v, x);
    const P lc = coeff(p.v, x, n);
    if (!same(raise(lc, std::max(m - n + 1, 0)) * p.u, q * p.v + r)) c.fail(w + " gives quotient " + s(d.front()) + " and remainder " + s(d.back()));
    if (n > 0 && !r.zero() && deg(r, x) >= n) c.fail(w + ": degree of the remainder " + s(d.back()));
    const auto pr = tsym::poly::pseudoRemainder(u, v, sym(x));
    if (!same(readOr(c, w, pr), r)) c.fail(w + ": pseudo remainder is " + s(pr));
    c.count("compared");
}
void gcds(Ctx& c)
{
    const Pair p = pair(c);
    static const tsym::PrimitiveGcd prim;
    static const tsym::SubresultantGcd sub;
    for (int i = 0; i < 3; ++i) {
        const BasePtr g = i == 0 ? tsym::poly::gcd(p.bu, p.bv) : tsym::poly::gcd(p.bu, p.bv, i == 1 ? (const tsym::Gcd&)prim : sub);
        const std::string w = std::string(i == 0 ? "" : i == 1 ? "primitive " : "subresultant ") + "gcd of " + s(p.bu) + " and " + s(p.bv) + " is " + s(g);
        const P q = readOr(c, w, g);
        if (q.zero() || !divides(q, p.u) || !divides(q, p.v)) c.fail(w + ": doesn't divide both");
        if (!divides(p.common, q)) c.fail(w + ": isn't divided by the common divisor " + s(write(p.common)));
        c.count("compared");
        const auto d = tsym::poly::divide(p.bu, g);
        if (!readOr(c, w, d.back()).zero()) c.fail(w + ": leaves the remainder " + s(d.back()));
    }
    const BasePtr zg = tsym::poly::gcd(p.bu, tsym::Numeric::zero());
    const P z = readOr(c, "gcd of " + s(p.bu) + " and 0", zg);
    if (!divides(z, p.u) || !divides(p.u, z)) c.fail("gcd of " + s(p.bu) + " and 0 is " + s(zg));
}
void parts(Ctx& c)
{
    Rng& r = c.rng;
    const P p = any(r, 1 + (int)r.below(NV), 5, 3, r.chance(30));
    const BasePtr u = write(p);
    for (int x = 0; x < NV; ++x) {
        const int n = deg(p, x);
        const std::string w = s(u) + " w.r.t. " + names[x];
        if (u->degree(*sym(x)) != n) c.fail("degree of " + w + " is reported as " + std::to_string(u->degree(*sym(x))));
        if (!same(readOr(c, w, u->leadingCoeff(*sym(x))), coeff(p, x, n))) c.fail("leading coefficient of " + w + " is reported as " + s(u->leadingCoeff(*sym(x))));
        for (int i = 0; i <= n + 1; ++i)
            if (!same(readOr(c, w, u->coeff(*sym(x), i)), coeff(p, x, i))) c.fail("coefficient " + std::to_string(i) + " of " + w + " is reported as " + s(u->coeff(*sym(x), i)));
        int md = n;
        for (const auto& [m, q] : p.t) md = std::min(md, m[x]);
        if (tsym::poly::minDegree(*u, *sym(x)) != md) c.fail("minimal degree of " + w);
        c.count("compared");
        if (n > 0) {
            const BasePtr ct = tsym::poly::content(u, sym(x));
            const P q = readOr(c, w, ct);
            for (int i = 0; i <= n; ++i) if (q.zero() || !divides(q, coeff(p, x, i))) c.fail("content of " + w + " is reported as " + s(ct));
        }
    }
}
Reg r1("C14", "division", division), r2("C14", "pseudo division", pseudo), r3("C14", "gcd", gcds), r4("C14", "degree, coefficient, content", parts);
}
