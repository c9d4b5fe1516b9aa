/* cases of the properties that are stated on values of expressions; public interface only (plus the numeric evaluation) */
#include <set>
#include <stdexcept>
#include "core.h"
#include "plaintextprintengine.h"
#include "numberfct.h"
using namespace h;
using tsym::pi;
using tsym::euler;

namespace {
std::string s2(const char* op, const Var& u, const Var& v) { return std::string(op) + "(" + str(u) + ", " + str(v) + ")"; }
std::string s1(const char* op, const Var& u) { return std::string(op) + "(" + str(u) + ")"; }

int depth(Ctx& c) { return c.rng.chance(60) ? 1 + (int)c.rng.below(2) : 2 + (int)c.rng.below(2); }

/* related operands: terms that are likely to interact (equal bases, equal non-constant parts, inverse factors) */
Var argOf(Gen& g, const Var& u) { return Gen::moderate(u, 300) && !Gen::bigNumber(u) ? u : g.symbol(); }
std::pair<Var, Var> related(Ctx& c, Gen& g)
{
    const Var u = g.good(depth(c), 25), w = argOf(g, u);
    Rng& r = c.rng;
    auto k = [&]() { return r.chance(50) ? g.number() : r.chance(60) ? g.irr() : g.number() * g.irr(); };
    switch (r.below(13)) {
        case 0: return {k() * u, k() * u};
        case 1: return {g.raise(u, g.exponent(1)), g.raise(u, g.exponent(1))};
        case 2: { const Var e = g.exponent(1); return {g.raise(u, e), g.raise(g.good(2, 15), e)}; }
        case 3: { const Var e = g.exponent(1); return {g.raise(u, e), g.raise(g.good(2, 15), -e)}; }
        case 4: return {k() * pow(sin(w), Var(2)), k() * pow(cos(w), Var(2))};
        case 5: { const Var f = r.chance(30) ? sin(w) : r.chance(50) ? cos(w) : tan(w); const Var f2 = r.chance(30) ? sin(w) : r.chance(50) ? cos(w) : tan(w);
                  return {pow(f, g.exponent(0)), k() * pow(f2, g.exponent(0))}; }
        case 6: return {u + k(), k() - u};
        case 7: return {u, u};
        case 8: return {k() * g.raise(u, g.exponent(0)), k() * u * g.symbol()};
        case 9: return {pow(Var(2 + (int)r.below(8)), Var(1 + (int)r.below(5), 2 + (int)r.below(5))) * u, pow(Var(2 + (int)r.below(8), 1 + (int)r.below(3)), Var((int)r.below(9) - 4, 2 + (int)r.below(5)))};
        case 10: return {g.number(), k()};
        case 11: return {g.irr() * g.symbol(), g.irr() * g.irr()};
        default: return {u, g.good(depth(c), 25)};
    }
}
template <class F> void retry(Ctx& c, Gen& g, F f)
{
    for (int i = 0; i < 20; ++i) {
        auto [u, v] = related(c, g);
        if (hasUndefined(u) || hasUndefined(v)) continue;
        f(u, v);
        return;
    }
}
V inv(const V& a) { return power(a, num(-1)); }

void sums(Ctx& c)
{
    Gen g(c.rng); g.doubles = c.rng.chance(10);
    retry(c, g, [&](const Var& u, const Var& v) {
        const ld ex = hasDouble(u) || hasDouble(v) ? 1e-8L : 0;
        c.same(s2("sum", u, v), [&](const Env& e) { return add(eval(u, e), eval(v, e)); }, u + v, ex);
        c.same(s2("difference", u, v), [&](const Env& e) { return add(eval(u, e), neg(eval(v, e))); }, u - v, ex);
        Var w = u; w += v;
        c.same(s2("compound sum", u, v), [&](const Env& e) { return add(eval(u, e), eval(v, e)); }, w, ex);
    });
}
void manySums(Ctx& c)
{
    Gen g(c.rng);
    std::vector<Var> ts, base;
    const unsigned nb = 1 + c.rng.below(3), n = 3 + c.rng.below(5);
    for (unsigned i = 0; i < nb; ++i) base.push_back(g.good(c.rng.below(3), 12));
    for (unsigned i = 0; i < n; ++i) { const Var t = (c.rng.chance(50) ? g.number() : g.irr()) * (c.rng.chance(80) ? c.rng.pick(base) : Var(1)); if (!hasUndefined(t)) ts.push_back(t); }
    if (ts.empty()) return;
    Var s;
    std::string d = "sum of";
    for (const auto& t : ts) { s += t; d += " " + str(t); }
    auto want = [&](const Env& e) { V r = num(0); for (const auto& t : ts) r = add(r, eval(t, e)); return r; };
    c.same(d, want, s);
    Var l, rr;
    for (size_t i = 0; i < ts.size(); ++i) (i % 2 ? l : rr) += ts[i];
    c.same(d + " (as two sums)", want, l + rr);
    c.same(d + " (as difference)", [&](const Env& e) { V r = num(0); for (size_t i = 0; i < ts.size(); ++i) r = add(r, i % 2 ? neg(eval(ts[i], e)) : eval(ts[i], e)); return r; }, rr - l);
}
void prods(Ctx& c)
{
    Gen g(c.rng); g.doubles = c.rng.chance(10);
    retry(c, g, [&](const Var& u, const Var& v) {
        const ld ex = hasDouble(u) || hasDouble(v) ? 1e-8L : 0;
        trace("factors", u, &v);
        c.same(s2("product", u, v), [&](const Env& e) { return mul(eval(u, e), eval(v, e)); }, u * v, ex);
        c.same(s2("quotient", u, v), [&](const Env& e) { return mul(eval(u, e), inv(eval(v, e))); }, u / v, ex);
        c.same(s1("negation", u), [&](const Env& e) { return neg(eval(u, e)); }, -u, ex);
    });
}
void manyProds(Ctx& c)
{
    Gen g(c.rng);
    std::vector<Var> ts, base;
    const unsigned nb = 1 + c.rng.below(3), n = 2 + c.rng.below(5);
    const unsigned mode = c.rng.below(3);
    for (unsigned i = 0; i < nb; ++i) { const Var b = argOf(g, g.good(c.rng.below(2), 10)); base.push_back(b); if (mode == 1) { base.push_back(sin(b)); base.push_back(cos(b)); base.push_back(tan(b)); } if (mode == 2) base.push_back(g.irr()); }
    for (unsigned i = 0; i < n; ++i) { const Var t = c.rng.chance(85) ? g.raise(c.rng.pick(base), g.exponent(0)) : c.rng.chance(50) ? g.number() : g.irr(); if (!hasUndefined(t)) ts.push_back(t); }
    Var s(1);
    std::string d = "product of";
    for (const auto& t : ts) { s *= t; d += " " + str(t); }
    auto want = [&](const Env& e) { V r = num(1); for (const auto& t : ts) r = mul(r, eval(t, e)); return r; };
    c.same(d, want, s);
    Var l(1), rr(1);
    for (size_t i = 0; i < ts.size(); ++i) (i % 2 ? l : rr) *= ts[i];
    c.same(d + " (as two products)", want, l * rr);
    if (!hasUndefined(l)) c.same(d + " (as quotient)", [&](const Env& e) { V r = num(1); for (size_t i = 0; i < ts.size(); ++i) r = mul(r, i % 2 ? inv(eval(ts[i], e)) : eval(ts[i], e)); return r; }, rr / l);
}
bool tamePower(const Var& u, const Var& x) { return Gen::tame(x) && Gen::raisable(u, x); }
void powers(Ctx& c)
{
    Gen g(c.rng); g.doubles = c.rng.chance(5);
    const Var u = g.good(depth(c), 25), x = c.rng.chance(80) ? g.exponent(1) : g.good(1, 8);
    if (hasUndefined(x) || !tamePower(u, x)) return;
    const ld ex = hasDouble(u) || hasDouble(x) ? 1e-8L : 0;
    c.same(s2("power", u, x), [&](const Env& e) { return power(eval(u, e), eval(x, e)); }, pow(u, x), ex);
    c.same(s1("sqrt", u), [&](const Env& e) { return power(eval(u, e), num(0.5L)); }, sqrt(u), ex);
}
void powers2(Ctx& c)
{
    Gen g(c.rng);
    Rng& r = c.rng;
    Var u;
    switch (r.below(6)) {
        case 0: u = g.raise(g.good(1, 8), g.exponent(0)); break;
        case 1: u = g.number() * pow(g.symbol(), g.exponent(0)) * pow(g.symbol(), g.exponent(0)); break;
        case 2: u = g.irr() * g.irr() * g.symbol(); break;
        case 3: u = g.number() * g.irr(); break;
        case 4: u = r.chance(50) ? euler() : g.number(); break;
        default: u = pow(pow(g.symbol(), g.exponent(0)), g.exponent(0)) * g.irr(); break;
    }
    Var x = r.chance(75) ? g.exponent(1) : r.chance(50) ? log(g.good(1, 8)) : g.number() * log(g.good(1, 8));
    if (hasUndefined(u) || hasUndefined(x) || !tamePower(u, x)) return;
    c.same(s2("power", u, x), [&](const Env& e) { return power(eval(u, e), eval(x, e)); }, pow(u, x));
    const Var w = pow(u, x), y = g.exponent(0);
    if (!hasUndefined(w) && tamePower(w, y)) c.same(s2("power", w, y), [&](const Env& e) { return power(eval(w, e), eval(y, e)); }, pow(w, y));
}
void expands(Ctx& c)
{
    Gen g(c.rng);
    Var u = g.good(depth(c), 25);
    if (c.rng.chance(50)) { u = g.raise(g.good(1, 10) + g.good(1, 10), Var((int)c.rng.below(9) - 4)) * g.good(1, 10); if (c.rng.chance(40)) u *= g.good(1, 8) - g.good(1, 8); }
    if (c.rng.chance(20)) u = g.raise(g.good(1, 8) * (g.good(1, 8) + g.number()), g.exponent(0));
    if (hasUndefined(u) || size(u) > 60) return;
    c.same(s1("expand", u), [&](const Env& e) { return eval(u, e); }, expand(u));
}
bool hasTmp(const Var& u)
{
    if (u.type() == T::SYMBOL && tsym::name(u).find("tmp") != std::string::npos) return true;
    for (const auto& o : tsym::operands(u)) if (hasTmp(o)) return true;
    return false;
}
Var normalArg(Ctx& c)
{
    Gen g(c.rng);
    Rng& r = c.rng;
    g.bigs = false;
    auto lin = [&]() { Var s = g.symbol() * Var(1 + (int)r.below(3)) + (r.chance(50) ? g.symbol() : Var((int)r.below(7) - 3)); return s; };
    switch (r.below(6)) {
        case 5: {
            /* even roots of even powers of what may be negative */
            Var f;
            switch (r.below(5)) { case 0: f = log(g.symbol()); break; case 1: f = sin(g.symbol()); break; case 2: f = g.symbol(); break; case 3: f = pow(g.symbol(), Var(1, 3)); break; default: f = log(lin()); }
            const Var k(2 * (1 + (int)r.below(2)));
            const Var w = pow(pow(f, k) * (r.chance(40) ? pow(g.symbol(), Var(2)) : Var(1)), Var(1) / k);
            return r.chance(40) ? w + lin() : r.chance(50) ? w / lin() : w * lin() + f;
        }
        case 0: { const Var f = lin(), q = lin(), w = lin(); return (expand(f * q)) / (r.chance(50) ? f : expand(f * w)); }
        case 1: return lin() / lin() + g.number() / lin();
        case 2: { const Var f = r.chance(50) ? sin(g.symbol()) : r.chance(50) ? sqrt(g.symbol()) : pi(); return (pow(f, Var(2)) - pow(g.symbol(), Var(2))) / (f + g.symbol()) + lin(); }
        case 3: { const Var x = pow(lin() / lin(), r.chance(50) ? Var((int)r.below(5) - 2) : Var((int)r.below(7) - 3, 2)); return x * lin() + g.irr(); }
        default: { const Var u = g.good(2, 12); return u; }
    }
}
void normals(Ctx& c)
{
    const Var u = normalArg(c);
    if (hasUndefined(u) || size(u) > 32) return;
    const Var n = Var(u.get()->normal());
    if (hasTmp(n)) c.fail("temporary symbol left in " + s1("normal", u) + " = " + str(n));
    c.same(s1("normal", u), [&](const Env& e) { return eval(u, e); }, n, 0, true);
}
void simplifies(Ctx& c)
{
    const Var u = normalArg(c);
    if (hasUndefined(u) || size(u) > 28) return;
    const Var n = simplify(u);
    if (hasTmp(n)) c.fail("temporary symbol left in " + s1("simplify", u) + " = " + str(n));
    c.same(s1("simplify", u), [&](const Env& e) { return eval(u, e); }, n, 0, true);
}
void numdenom(Ctx& c)
{
    const Var u = normalArg(c);
    if (hasUndefined(u) || size(u) > 28) return;
    const Var n = numerator(u), d = denominator(u);
    if (hasTmp(n) || hasTmp(d)) c.fail("temporary symbol left in numerator/denominator of " + str(u));
    if (hasUndefined(n) || hasUndefined(d)) c.fail("undefined numerator/denominator of " + str(u));
    for (const auto& e : c.envs) {
        const V w = eval(u, e), q = mul(eval(n, e), inv(eval(d, e)));
        if (q.st == St::UNDEF) { c.count("skipped"); continue; }
        const Cmp r = compare(w, q);
        if (r == Cmp::SKIP) { c.count("skipped"); continue; }
        c.count("compared");
        if (r == Cmp::DIFFER) c.fail("numerator/denominator of " + str(u) + " are " + str(n) + " and " + str(d));
    }
}
void diffs(Ctx& c)
{
    Gen g(c.rng);
    const Var u = g.good(depth(c), 25);
    const Var x = g.symbol();
    Var d = diff(u, x);
    for (auto e : c.envs) {
        e.der[symkey(x)] = 1;
        V w = eval(u, e);
        if (w.st != St::OK || !w.dok) { c.count("skipped"); continue; }
        V want = num(w.d, w.de);
        const V dv = eval(d, e);
        if (dv.st == St::UNDEF && !hasUndefined(d)) { c.count("skipped"); continue; }
        const Cmp r = compare(want, dv);
        if (r == Cmp::SKIP) { c.count("skipped"); continue; }
        c.count("compared");
        if (r == Cmp::DIFFER) {
            std::ostringstream s;
            s.precision(18);
            s << "diff(" << str(u) << ", " << str(x) << ") yields " << str(d) << ", expected value " << want.v << " at";
            for (const auto& [k, v] : e.val) s << " " << k << "=" << (double)v;
            c.fail(s.str());
        }
    }
    const Var ns = c.rng.chance(50) ? g.number() : c.rng.chance(50) ? g.irr() : g.good(2, 10);
    if (ns.type() != T::SYMBOL && diff(u, ns).type() != T::UNDEFINED) c.fail("derivative of " + str(u) + " w.r.t. " + str(ns) + " is not undefined");
}
bool contains(const Var& u, const Var& s)
{
    if (str(u) == str(s)) return true;
    for (const auto& o : tsym::operands(u)) if (contains(o, s)) return true;
    return false;
}
bool substable(const Var& u);
void substs(Ctx& c)
{
    Gen g(c.rng);
    const Var u = g.good(depth(c), 25), x = g.symbol();
    Var t = c.rng.chance(40) ? Var((int)c.rng.below(13) - 6, 1 + (int)c.rng.below(4)) : g.good(1, 10);
    if (hasUndefined(t) || Gen::bigNumber(t) || !Gen::moderate(t, 100) || !substable(u)) return;
    const bool pos = symkey(x).back() == '+';
    const Var w = subst(u, x, t);
    c.same("subst(" + str(u) + ", " + str(x) + ", " + str(t) + ")", [&](const Env& e) {
        const V tv = eval(t, e);
        if (tv.st != St::OK) return bad(St::UNSURE);
        if (pos && !(tv.v > 0)) return bad(St::UNSURE);
        Env f = e; f.val[symkey(x)] = tv.v;
        V r = eval(u, f);
        r.e += 1e-16L * fabsl(r.v) + 1e3L * tv.e;
        return r; }, w, 0, true);
    if (!hasUndefined(w) && !contains(t, x) && contains(w, x)) c.fail("subst(" + str(u) + ", " + str(x) + ", " + str(t) + ") still contains the symbol: " + str(w));
}
void collectSub(const Var& u, std::vector<Var>& out) { out.push_back(u); for (const auto& o : tsym::operands(u)) collectSub(o, out); }
void substs2(Ctx& c)
{
    /* replacing a sub-expression by a fresh symbol of the same value */
    Gen g(c.rng);
    const Var u = g.good(depth(c), 25);
    std::vector<Var> sub;
    collectSub(u, sub);
    const Var f = c.rng.chance(80) ? c.rng.pick(sub) : g.good(1, 8);
    if (f.type() == T::INT || f.type() == T::FRACTION) return;
    const Var z("z");
    const Var w = subst(u, f, z);
    for (auto e : c.envs) {
        const V fv = eval(f, e);
        if (fv.st != St::OK) continue;
        e.val["z"] = fv.v;
        V want = eval(u, e);
        want.e += 1e-16L * fabsl(want.v) + 1e3L * fv.e;
        const V got = eval(w, e);
        if (got.st == St::UNDEF) continue;
        const Cmp r = compare(want, got);
        if (r == Cmp::SKIP) { c.count("skipped"); continue; }
        c.count("compared");
        if (r == Cmp::DIFFER) c.fail("subst(" + str(u) + ", " + str(f) + ", z) yields " + str(w));
    }
    if (contains(w, f) && f.type() != T::DOUBLE) c.fail("subst(" + str(u) + ", " + str(f) + ", z) still contains the expression: " + str(w));
}
Var signArg(Ctx& c)
{
    Gen g(c.rng);
    Rng& r = c.rng;
    const Var u = g.good(depth(c), 25);
    const Var p("p", Var::Sign::POSITIVE), q("q", Var::Sign::POSITIVE);
    switch (r.below(9)) {
        case 0: return g.irr() * g.number() + g.irr() * g.number() + g.number();
        case 1: return pow(u, Var(2 * ((int)r.below(5) - 2))) + g.number() * p;
        case 2: return g.number() * p + g.number() * q * pow(g.symbol(), g.exponent(0)) + g.irr() * g.number();
        case 3: return pow(p + g.number(), g.exponent(1));
        case 4: return (r.chance(50) ? log(g.number() * p + g.number()) : r.chance(50) ? asin(g.smallArg()) : acos(g.smallArg())) * g.number() + (r.chance(40) ? g.irr() : Var(0));
        case 5: return tan(argOf(g, g.number())) * g.irr() - g.number();
        case 6: return atan(g.number() * p) + g.number();
        case 7: return log(g.irr() * g.number()) * g.number();
        default: return u;
    }
}
void signs(Ctx& c)
{
    Gen g(c.rng);
    const Var u = signArg(c);
    if (hasUndefined(u) || hasDouble(u)) return;
    const bool p = isPositive(u), n = isNegative(u);
    if (p && n) c.fail(str(u) + " is reported both positive and negative");
    if (p || n) c.count("decided");
    for (const auto& e : c.envs) {
        const V v = eval(u, e);
        if (v.st != St::OK) { c.count("skipped"); continue; }
        c.count("compared");
        const ld tol = 100 * v.e + 1e-12L;
        if ((p && v.v < -tol) || (n && v.v > tol)) { std::ostringstream s; s << str(u) << " is reported " << (p ? "positive" : "negative") << " but has the value " << v.v << " at"; for (const auto& [k, w] : e.val) s << " " << k << "=" << (double)w; c.fail(s.str()); }
    }
    const Var k = g.number();
    const V kv = eval(k, c.envs[0]);
    if (isPositive(k) != (kv.v > 0) || isNegative(k) != (kv.v < 0)) c.fail("sign of the number " + str(k));
}
bool substable(const Var& u);
bool hasSym(const Var& u) { if (u.type() == T::SYMBOL) return true; for (const auto& o : tsym::operands(u)) if (hasSym(o)) return true; return false; }
bool hasSymExp(const Var& u);
/* substitution of numbers must not give huge arguments of trigonometric functions or huge exponents */
bool substable(const Var& u)
{
    if (Gen::bigNumber(u)) return false;
    const auto o = tsym::operands(u);
    if (u.type() == T::FUNCTION && size(o[0]) > 8) return false;
    if (u.type() == T::POWER && o[1].type() != T::INT && o[1].type() != T::FRACTION && (size(o[1]) > 1 || size(o[0]) > 4 || hasSymExp(o[0]))) return false;
    if (u.type() == T::POWER && (size(o[1]) > 3 || (o[1].type() == T::INT && (str(o[1]).size() > 2 || str(o[1]) > "6")))) return false;
    for (const auto& w : o) if (!substable(w)) return false;
    if (u.type() == T::FUNCTION) for (const auto& w : o) { Env e; for (const char* n : {"a", "b", "c", "x", "a+", "p+", "q+"}) e.val[n] = 7; const V v = eval(w, e); if (v.st == St::OK && fabsl(v.v) > 100) return false; }
    return true;
}
bool hasSymExp(const Var& u)
{
    const auto o = tsym::operands(u);
    if (u.type() == T::POWER && o[1].type() != T::INT && o[1].type() != T::FRACTION) return true;
    for (const auto& w : o) if (hasSymExp(w)) return true;
    return false;
}
void evals(Ctx& c)
{
    Gen g(c.rng);
    g.doubles = c.rng.chance(30);
    Var u = g.good(depth(c), 25);
    if (c.rng.chance(80)) {
        for (const auto& s : collectSymbols(u)) if (!substable(u)) return; else u = subst(u, s, c.rng.chance(50) || hasSymExp(u) ? Var((int)c.rng.below(13) - 6, 1 + (int)c.rng.below(4)) : g.irr());
        if (hasUndefined(u)) return;
    }
    const auto ne = u.get()->numericEval();
    V v = eval(u, c.envs[0]);
    const bool sym = hasSym(u);
    if (sym && ne) c.fail(str(u) + " has a symbol but is numerically evaluable");
    if (v.st == St::UNDEF || v.st == St::UNSURE) { c.count("skipped"); return; }
    if (!sym && !ne) c.fail(str(u) + " is not numerically evaluable");
    bool threw = false;
    double d = 0;
    try { d = static_cast<double>(u); } catch (const std::domain_error&) { threw = true; }
    if (sym != threw) c.fail("conversion of " + str(u) + (threw ? " throws" : " does not throw"));
    if (sym) { c.count("compared"); return; }
    v.e = v.e * 8192 + 1e-15L * (fabsl(v.v) + 1);
    const V n1 = num(ne->toDouble(), 1e-14L * fabsl(ne->toDouble()) + 1e-14L), n2 = num(d, 1e-14L * fabsl(d) + 1e-14L);
    if (compare(v, n1, 1e-12L) == Cmp::DIFFER || compare(v, n2, 1e-12L) == Cmp::DIFFER) { std::ostringstream s; s.precision(18); s << str(u) << " has the value " << v.v << ", numerical evaluation " << ne->toDouble() << ", conversion " << d; c.fail(s.str()); }
    c.count("compared");
}
void intConv(Ctx& c)
{
    Gen g(c.rng);
    Rng& r = c.rng;
    Var u = g.number();
    if (r.chance(40)) { static const char* b[] = {"2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "4294967297", "9223372036854775808"}; u = Var(b[r.below(7)]); if (r.chance(50)) u = -u; u += Var((int)r.below(3) - 1); }
    else if (r.chance(50)) u = g.good(1, 10);
    bool threw = false;
    int i = 0;
    try { i = static_cast<int>(u); } catch (const std::exception&) { threw = true; }
    if (u.type() != T::INT && u.type() != T::FRACTION && u.type() != T::DOUBLE) { const V v = eval(u, c.envs[0]); if (!hasSym(u) && (v.st != St::OK || fabsl(v.v - roundl(v.v)) < 1e-9L)) return; }
    const bool isint = u.type() == T::INT;
    bool in = false;
    long long val = 0;
    if (isint) { const auto n = u.get()->numericEval()->numerator(); in = n <= 2147483647ll && n >= -2147483648ll; if (in) val = n.convert_to<long long>(); }
    if (in == threw) c.fail("conversion of " + str(u) + " to int " + (threw ? "throws" : "does not throw"));
    if (in && i != val) c.fail("conversion of " + str(u) + " to int gives " + std::to_string(i));
    c.count("compared");
}
/* ------------------------------------------------------------ trigonometric and logarithm */
Var trigArg(Ctx& c)
{
    Gen g(c.rng);
    Rng& r = c.rng;
    switch (r.below(9)) {
        case 0: case 1: { static const int q[] = {1, 2, 3, 4, 5, 6, 8, 10, 12, 15}; return pi() * Var((int)r.below(121) - 60, q[r.below(10)]); }
        case 2: { const Var s = g.good(1, 8); return r.chance(50) ? -s : s; }
        case 3: { const Var s = argOf(g, g.good(1, 8)); switch (r.below(6)) { case 0: return asin(s); case 1: return acos(s); case 2: return atan(s); case 3: return sin(s); case 4: return cos(s); default: return tan(s); } }
        case 4: return g.number() + g.number() * g.irr();
        case 5: { static const int q[] = {1, 2, 3, 4, 6}; return pi() * Var((int)r.below(61) - 30, q[r.below(5)]) + (r.chance(50) ? g.symbol() : Var(0)); }
        case 6: return g.number();
        default: return g.good(2, 15);
    }
}
void trigs(Ctx& c)
{
    static const char* fs[] = {"sin", "cos", "tan", "atan"};
    Gen g(c.rng);
    const Var u = trigArg(c);
    if (hasUndefined(u) || !Gen::moderate(u, 300) || Gen::bigNumber(u)) return;
    const std::string f = fs[c.rng.below(4)];
    const Var w = g.apply(f, u, 0);
    c.same(s1(f.c_str(), u), [&](const Env& e) { return fun(f, eval(u, e)); }, w);
}
Var tableValue(Ctx& c)
{
    /* values of sine, cosine and tangent at multiples of pi/60 and neighbours */
    Rng& r = c.rng;
    static const int q[] = {1, 2, 3, 4, 5, 6, 8, 10, 12};
    const Var a = pi() * Var((int)r.below(49) - 24, q[r.below(9)]);
    const Var w = r.chance(34) ? sin(a) : r.chance(50) ? cos(a) : tan(a);
    return r.chance(80) ? w : r.chance(50) ? w * Var(1 + (int)r.below(3), 2) : expand(w);
}
void arcs(Ctx& c)
{
    static const char* fs[] = {"asin", "acos", "atan"};
    Gen g(c.rng);
    Var u = c.rng.chance(50) ? tableValue(c) : c.rng.chance(50) ? g.smallArg() : trigArg(c);
    if (hasUndefined(u) || !Gen::moderate(u, 300) || Gen::bigNumber(u)) return;
    const std::string f = fs[c.rng.below(3)];
    const Var w = g.apply(f, u, 0);
    c.same(s1(f.c_str(), u), [&](const Env& e) { return fun(f, eval(u, e)); }, w);
    if (f != "atan" && !hasSym(u)) {
        const V v = eval(u, c.envs[0]);
        if (v.st == St::OK && fabsl(v.v) > 1 + 1e-9L + 10 * v.e && w.type() != T::UNDEFINED) c.fail(s1(f.c_str(), u) + " is not undefined: " + str(w));
    }
}
const ld PI = acosl(-1);
bool piMultiple(const Var& w) { const auto o = tsym::operands(w); return str(w) == "pi" || str(w) == "0" || (w.type() == T::PRODUCT && o.size() == 2 && str(o[1]) == "pi" && (o[0].type() == T::INT || o[0].type() == T::FRACTION)); }
void atan2s(Ctx& c)
{
    Gen g(c.rng); g.bigs = false;
    Rng& r = c.rng;
    Var y, x;
    switch (r.below(4)) {
        case 0: { static const int q[] = {1, 2, 3, 4, 6, 12}; const Var a = pi() * Var((int)r.below(25) - 12, q[r.below(6)]); const Var k = r.chance(50) ? Var(1) : Var(1 + (int)r.below(4), 1 + (int)r.below(3)); y = k * sin(a); x = k * cos(a); break; }
        case 1: y = g.number(); x = g.number(); break;
        case 2: y = g.good(1, 8); x = g.good(1, 8); break;
        default: y = g.number() * g.irr(); x = g.number() * g.irr(); break;
    }
    if (hasUndefined(x) || hasUndefined(y) || Gen::bigNumber(x) || Gen::bigNumber(y)) return;
    const Var w = atan2(y, x);
    const bool numeric = !hasSym(y) && !hasSym(x);
    if (hasUndefined(w)) {
        const V a = eval(y, c.envs[0]), b = eval(x, c.envs[0]);
        c.count("compared");
        if (numeric && a.st == St::OK && b.st == St::OK && (fabsl(a.v) > 1e-9L + 100 * a.e || fabsl(b.v) > 1e-9L + 100 * b.e)) c.fail(s2("atan2", y, x) + " is undefined");
        return;
    }
    for (const auto& e : c.envs) {
        V want = fatan2(eval(y, e), eval(x, e));
        const V got = eval(w, e);
        if (want.st == St::OK && got.st == St::OK) want.v += 2 * PI * roundl((got.v - want.v) / (2 * PI));
        const Cmp r = compare(want, got);
        if (r == Cmp::SKIP) { c.count("skipped"); continue; }
        c.count("compared");
        if (r == Cmp::SAME) continue;
        /* known finding: no quadrant increment for numeric arguments with negative x and a ratio that isn't tabulated */
        const V xv = eval(x, e);
        const bool plainAtan = numeric && !piMultiple(w);
        if (numeric && xv.st == St::OK && xv.v < 0 && plainAtan && got.st == St::OK && fabsl(fabsl(got.v - want.v) - PI) < 1e-9L) { c.count("known finding: atan2 without quadrant increment"); continue; }
        std::ostringstream s; s.precision(18); s << s2("atan2", y, x) << " yields " << str(w) << ", expected " << want.v << " got " << got.v;
        c.fail(s.str());
    }
}
void logs(Ctx& c)
{
    Gen g(c.rng);
    Rng& r = c.rng;
    Var u;
    switch (r.below(5)) {
        case 0: u = g.number(); break;
        case 1: u = pow(r.chance(50) ? euler() : g.irr(), g.exponent(1)); break;
        case 2: u = pow(g.symbol(), g.exponent(1)) * (r.chance(50) ? g.irr() : Var(1)); break;
        case 3: u = g.number() * g.irr(); break;
        default: u = g.good(2, 15);
    }
    if (hasUndefined(u) || !Gen::moderate(u, 1e6)) return;
    const Var w = log(u);
    for (const auto& e : c.envs) {
        const V want = fun("log", eval(u, e)), got = eval(w, e);
        /* log(x^2) = 2*log(x) has a smaller domain: compared where both are defined */
        if (got.st == St::UNDEF && w.type() != T::UNDEFINED) { c.count("skipped"); continue; }
        const Cmp k = compare(want, got);
        if (k == Cmp::SKIP) { c.count("skipped"); continue; }
        c.count("compared");
        if (k == Cmp::DIFFER) c.fail(s1("log", u) + " yields " + str(w));
    }
    if (!hasSym(u)) {
        const V v = eval(u, c.envs[0]);
        if (v.st == St::OK && v.v < -1e-9L && w.type() != T::UNDEFINED) c.fail(s1("log", u) + " is not undefined: " + str(w));
    }
    if (u.type() == T::INT && eval(u, c.envs[0]).v == 0 && w.type() != T::UNDEFINED) c.fail("log(0) is not undefined");
}
/* ------------------------------------------------------------ undefined */
void undefineds(Ctx& c)
{
    Gen g(c.rng);
    Rng& r = c.rng;
    const Var z(0);
    Var n;
    switch (r.below(5)) {
        case 0: n = g.number() / z; break;
        case 1: n = tan(pi() / 2); break;
        case 2: n = log(Var(-1 - (int)r.below(5))); break;
        case 3: n = sqrt(Var(-1 - (int)r.below(5))); break;
        default: n = asin(Var(2 + (int)r.below(5))); break;
    }
    if (n.type() != T::UNDEFINED) c.fail("undefined operation gives " + str(n));
    const Var u = g.good(depth(c), 20);
    auto chk = [&](const char* what, const Var& w) { c.count("compared"); if (w.type() != T::UNDEFINED) c.fail(std::string(what) + " with " + str(u) + " and undefined gives " + str(w)); };
    chk("u+n", u + n); chk("n+u", n + u); chk("u-n", u - n); chk("n-u", n - u); chk("u*n", u * n); chk("n*u", n * u);
    chk("0*n", z * n); chk("n*0", n * z); chk("u/n", u / n); chk("n/u", n / u); chk("0/n", z / n); chk("n-n", n - n); chk("n/n", n / n);
    chk("u^n", pow(u, n)); chk("n^u", pow(n, u)); chk("n^0", pow(n, z)); chk("1^n", pow(Var(1), n)); chk("0^n", pow(z, n)); chk("-n", -n); chk("sqrt", sqrt(n));
    chk("sin", sin(n)); chk("cos", cos(n)); chk("tan", tan(n)); chk("asin", asin(n)); chk("acos", acos(n)); chk("atan", atan(n)); chk("atan2(n,u)", atan2(n, u)); chk("atan2(u,n)", atan2(u, n)); chk("atan2(n,0)", atan2(n, z)); chk("atan2(0,n)", atan2(z, n)); chk("log", log(n));
    chk("expand", expand(n)); chk("normal", Var(n.get()->normal())); chk("simplify", simplify(n)); chk("diff", diff(n, g.symbol())); chk("diff wrt", diff(u, n));
    chk("subst n", subst(n, g.symbol(), u)); chk("sub symbol by n", subst(Var("a"), Var("a"), n)); chk("sub in sum", subst(Var("a") + g.number() * Var("b"), Var("a"), n)); chk("sub in product", subst(Var("a") * Var("b"), Var("a"), n)); chk("sub in power", subst(pow(Var("a"), Var(3)), Var("a"), n)); chk("sub in function", subst(sin(Var("a")), Var("a"), n));
    chk("u/0", u / z); chk("0^-1", pow(z, Var(-1 - (int)r.below(4)))); chk("0^(-p/q)", pow(z, Var(-1 - (int)r.below(4), 2 + (int)r.below(4))));
    chk("even root", pow(Var(-1 - (int)r.below(50)), Var(1 + 2 * (int)r.below(4), 2 * (1 + (int)r.below(4)))));
    chk("fraction /0", Var(1 + (int)r.below(9), 0));
    Var acc = u; acc += n; chk("u+=n", acc); acc = u; acc *= n; chk("u*=n", acc); acc = n; acc -= n; chk("n-=n", acc); acc = n; acc /= u; chk("n/=u", acc);
    if (isPositive(n) || isNegative(n)) c.fail("undefined has a sign");
    if (n.get()->numericEval()) c.fail("undefined has a numeric value");
    bool threw = false;
    try { (void)static_cast<double>(n); } catch (const std::exception&) { threw = true; }
    if (!threw) c.fail("undefined converts to double");
    if (n == Var(0) / Var(0)) c.fail("two undefined expressions are equal");
}
/* ------------------------------------------------------------ structure */
Var rebuild(const Var& u)
{
    const auto o = tsym::operands(u);
    switch (u.type()) {
        case T::SUM: { Var r; for (const auto& x : o) r += rebuild(x); return r; }
        case T::PRODUCT: { Var r(1); for (const auto& x : o) r *= rebuild(x); return r; }
        case T::SYMBOL: return tsym::isPositive(u) ? Var(tsym::name(u), Var::Sign::POSITIVE) : Var(tsym::name(u));
        default: return u;
    }
}
/* the same expression with one operand somewhere replaced */
Var mutate(Gen& g, const Var& u)
{
    const auto o = tsym::operands(u);
    if (o.empty() || g.r.chance(15)) {
        if (u.type() == T::SYMBOL && g.r.chance(30)) return tsym::isPositive(u) ? Var(tsym::name(u)) : Var(tsym::name(u), Var::Sign::POSITIVE);
        return g.r.chance(60) ? g.symbol() : g.number();
    }
    const unsigned k = g.r.below((unsigned)o.size());
    std::vector<Var> p(o.begin(), o.end());
    p[k] = mutate(g, p[k]);
    if (hasUndefined(p[k])) return u;
    switch (u.type()) {
        case T::SUM: { Var r; for (const auto& x : p) r += x; return r; }
        case T::PRODUCT: { Var r(1); for (const auto& x : p) r *= x; return r; }
        case T::POWER: return g.raise(p[0], p[1]);
        case T::FUNCTION: if (!Gen::moderate(p[0], 100) || Gen::bigNumber(p[0])) return u; if (p.size() == 2) return atan2(p[0], p[1]); return g.apply(tsym::name(u), p[0], 0);
        default: return u;
    }
}
void equality(Ctx& c)
{
    Gen g(c.rng);
    g.atan2 = c.rng.chance(40);
    const Var u = g.good(depth(c), 20);
    Var v;
    switch (c.rng.below(8)) {
        case 5: case 6: case 7: v = mutate(g, u); break;
        case 0: v = rebuild(u); break;
        case 1: { const auto s = collectSymbols(u); v = s.empty() ? g.good(1, 8) : subst(u, s[0], g.symbol()); break; }
        case 2: v = u * g.number(); break;
        case 3: v = subst(subst(u, Var("a"), Var("a", Var::Sign::POSITIVE)), Var("b"), Var("a")); break;
        default: v = g.good(depth(c), 20);
    }
    if (hasUndefined(v)) return;
    const bool eq = u == v;
    c.count(eq ? "equal" : "different"); c.count("compared");
    if (eq != (str(u) == str(v))) c.fail(str(u) + (eq ? " == " : " != ") + str(v) + " is reported");
    if ((v == u) != eq) c.fail("equality of " + str(u) + " and " + str(v) + " is not symmetric");
    if ((u != v) == eq) c.fail("inequality of " + str(u) + " and " + str(v) + " is not the negation of equality");
    if (!(u == u) || !(v == v)) c.fail("equality is not reflexive for " + str(u));
    if (eq && std::hash<Var>{}(u) != std::hash<Var>{}(v)) c.fail("equal expressions " + str(u) + " with different hashes");
    const Var w = rebuild(u);
    if (str(w) == str(u) && std::hash<Var>{}(u) != std::hash<Var>{}(w)) c.fail("equal expressions " + str(u) + " with different hashes (rebuilt)");
}
void containment(Ctx& c)
{
    Gen g(c.rng);
    const Var u = g.good(depth(c), 25);
    std::vector<Var> sub;
    collectSub(u, sub);
    for (const auto& s : sub) if (!has(u, s)) c.fail(str(u) + " does not have its part " + str(s));
    for (int i = 0; i < 6; ++i) {
        const Var q = i < 2 ? g.symbol() : i < 4 ? g.number() : g.good(1, 8);
        c.count("compared");
        if (!hasUndefined(q) && has(u, q) != contains(u, q)) c.fail("has(" + str(u) + ", " + str(q) + ") is " + (has(u, q) ? "true" : "false"));
    }
    std::set<std::string> want, got;
    for (const auto& s : sub) if (s.type() == T::SYMBOL) want.insert(symkey(s));
    const auto cs = collectSymbols(u);
    for (const auto& s : cs) { if (s.type() != T::SYMBOL) c.fail("collected symbol is none: " + str(s)); got.insert(symkey(s)); }
    if (want != got || got.size() != cs.size()) c.fail("collected symbols of " + str(u) + ": " + std::to_string(cs.size()) + " instead of " + std::to_string(want.size()));
    for (const auto& s : sub) {
        const auto n = tsym::name(s);
        const bool named = s.type() == T::SYMBOL || s.type() == T::FUNCTION || s.type() == T::CONSTANT;
        if (named == n.empty()) c.fail("name of " + str(s) + " is '" + n + "'");
        const size_t k = tsym::operands(s).size();
        const bool ok = s.type() == T::SUM || s.type() == T::PRODUCT ? k >= 2 : s.type() == T::POWER ? k == 2 : s.type() == T::FUNCTION ? k == (n == "atan2" ? 2u : 1u) : k == 0;
        if (!ok) c.fail("number of operands of " + str(s));
    }
    /* the operands rebuild the expression */
    const Var p = pow(Var("x") + Var("b"), Var("c"));
    const auto o = tsym::operands(p);
    if (o.size() != 2 || str(o[0]) != str(Var("x") + Var("b")) || str(o[1]) != "c") c.fail("operands of a power");
    const Var at = atan2(Var("x"), Var("y"));
    const auto ao = tsym::operands(at);
    if (ao.size() != 2 || str(ao[0]) != "x" || str(ao[1]) != "y") c.fail("operands of atan2");
}
/* known finding: two numeric powers with equal exponent denominator that exceed the prime resolution limit aren't sorted */
bool onlyNumPowersDiffer(const Var& p, const Var& q)
{
    const auto a = tsym::operands(p), b = tsym::operands(q);
    if (p.type() != q.type() || a.size() != b.size()) return false;
    if (p.type() != T::PRODUCT) {
        if (a.empty()) return str(p) == str(q);
        for (size_t i = 0; i < a.size(); ++i) if (str(a[i]) != str(b[i]) && !onlyNumPowersDiffer(a[i], b[i])) return false;
        return true;
    }
    std::multiset<std::string> l, r;
    int n = 0;
    auto numpow = [](const Var& u) { if (u.type() != T::POWER) return false; const auto o = tsym::operands(u); return (o[0].type() == T::INT || o[0].type() == T::FRACTION) && o[1].type() == T::FRACTION; };
    for (size_t i = 0; i < a.size(); ++i) {
        if (str(a[i]) == str(b[i])) continue;
        if (numpow(a[i]) && numpow(b[i]) && tsym::operands(a[i])[1].get()->numericEval()->denominator() == tsym::operands(b[i])[1].get()->numericEval()->denominator()) { l.insert(str(a[i])); r.insert(str(b[i])); ++n; }
        else if (!onlyNumPowersDiffer(a[i], b[i])) return false;
    }
    return l == r;
}
void commutes(Ctx& c)
{
    Gen g(c.rng);
    retry(c, g, [&](const Var& u, const Var& v) {
        if (hasDouble(u) || hasDouble(v)) return;
        const Var s1 = u + v, s2 = v + u, p1 = u * v, p2 = v * u;
        c.count("compared");
        if (!hasUndefined(s1) && str(s1) != str(s2)) c.fail(str(u) + " + " + str(v) + " depends on the order: " + str(s1) + " and " + str(s2));
        if (!hasUndefined(p1) && str(p1) != str(p2) && onlyNumPowersDiffer(p1, p2)) c.count("known finding: order of numeric powers with equal exponent denominator");
        else if (!hasUndefined(p1) && str(p1) != str(p2)) c.fail(str(u) + " * " + str(v) + " depends on the order: " + str(p1) + " and " + str(p2));
    });
}
/* ------------------------------------------------------------ linear systems */
Var entry(Ctx& c, int mode)
{
    Rng& r = c.rng;
    static const Var a("a"), b("b");
    if (mode == 0 || r.chance(50)) return Var((int)r.below(11) - 5, 1 + (int)r.below(r.chance(70) ? 1 : 4));
    if (mode == 2 && r.chance(30)) return sqrt(Var(2 + (int)r.below(4)));
    return r.chance(50) ? a : r.chance(50) ? b + Var((int)r.below(3)) : a * Var((int)r.below(5) - 2);
}
using M = std::vector<std::vector<Var>>;
V detEval(const std::vector<std::vector<V>>& m)
{
    const size_t n = m.size();
    if (n == 0) return num(1);
    if (n == 1) return m[0][0];
    V s = num(0);
    for (size_t j = 0; j < n; ++j) {
        std::vector<std::vector<V>> sub;
        for (size_t i = 1; i < n; ++i) { sub.emplace_back(); for (size_t k = 0; k < n; ++k) if (k != j) sub.back().push_back(m[i][k]); }
        V t = mul(m[0][j], detEval(sub));
        s = add(s, j % 2 ? neg(t) : t);
    }
    return s;
}
void linear(Ctx& c)
{
    Rng& r = c.rng;
    const int n = 1 + (int)r.below(4), mode = n > 3 ? 0 : (int)r.below(n > 2 ? 2 : 3);
    M A(n, std::vector<Var>(n));
    std::vector<Var> b(n), x(n, Var("q"));
    for (auto& row : A) for (auto& e : row) e = r.chance(25) ? Var(0) : entry(c, mode);
    if (r.chance(30)) { const int i = (int)r.below(n), j = (int)r.below(n), k = (int)r.below(n); if (i != j) for (int l = 0; l < n; ++l) A[i][l] = A[j][l] * 2 + (k != i && k != j ? A[k][l] : Var(0)); }
    for (auto& e : b) e = entry(c, mode);
    std::vector<bool> skip(n, false);
    if (r.chance(30) && n > 1) { skip[r.below(n)] = true; if (r.chance(20)) skip[r.below(n)] = true; }
    bool anyleft = false;
    for (bool s : skip) anyleft = anyleft || !s;
    if (!anyleft) return;
    const auto algo = r.chance(50) ? tsym::Algo::Gauss : tsym::Algo::GaussLCPivot;
    const M A0 = A;
    const auto b0 = b;
    std::string d = "matrix";
    for (auto& row : A) { d += " ["; for (auto& e : row) d += str(e) + " "; d += "]"; }
    d += " rhs"; for (auto& e : b) d += " " + str(e);
    d += " skip"; for (bool s : skip) d += s ? " 1" : " 0";
    d += algo == tsym::Algo::Gauss ? " Gauss" : " LCPivot";
    auto sub = [&](const Env& e) { std::vector<std::vector<V>> m; for (int i = 0; i < n; ++i) { if (skip[i]) continue; m.emplace_back(); for (int j = 0; j < n; ++j) if (!skip[j]) m.back().push_back(eval(A0[i][j], e)); } return m; };
    bool zero = true;
    for (const auto& e : c.envs) { const V v = detEval(sub(e)); if (v.st != St::OK || fabsl(v.v) > 1e-9L + 100 * v.e) zero = false; }
    const bool nonzero = !zero;
    bool threw = false;
    try { const Var det = tsym::determinant(A, skip, n, algo); c.same(d + " determinant", [&](const Env& e) { return detEval(sub(e)); }, det, 0, true); } catch (const std::invalid_argument&) { threw = true; }
    if (threw && nonzero) c.fail(d + " is not singular but its determinant is rejected");
    threw = false;
    try { tsym::solve(A, b, x, skip, n, algo); } catch (const std::invalid_argument&) { threw = true; }
    for (int i = 0; i < n; ++i) { if (str(b[i]) != str(b0[i])) c.fail(d + " right hand side modified"); for (int j = 0; j < n; ++j) if (str(A[i][j]) != str(A0[i][j])) c.fail(d + " matrix modified"); }
    if (threw && nonzero) c.fail(d + " is not singular but rejected");
    if (!threw && zero) c.fail(d + " is singular but not rejected by solve");
    if (!threw) for (int i = 0; i < n; ++i) {
        if (skip[i]) { if (str(x[i]) != "q") c.fail(d + " modified the skipped solution entry"); continue; }
        for (const auto& e : c.envs) {
            V s = num(0);
            for (int j = 0; j < n; ++j) if (!skip[j]) s = add(s, mul(eval(A0[i][j], e), eval(x[j], e)));
            const Cmp k = compare(eval(b0[i], e), s);
            if (k == Cmp::SKIP) { c.count("skipped"); continue; }
            c.count("compared");
            if (k == Cmp::DIFFER) c.fail(d + " equation " + std::to_string(i) + " is not satisfied, solution entry " + str(x[i]));
        }
    }
    threw = false;
    M B = A;
    try { tsym::invert(B, skip, n, algo); } catch (const std::invalid_argument&) { threw = true; }
    if (threw && nonzero) c.fail(d + " is not singular but inversion is rejected");
    if (!threw && zero) c.fail(d + " is singular but not rejected by invert");
    if (!threw) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        if (skip[i] || skip[j]) { if (str(B[i][j]) != str(A0[i][j])) c.fail(d + " inversion modified a skipped entry"); continue; }
        for (const auto& e : c.envs) {
            V s = num(0);
            for (int k = 0; k < n; ++k) if (!skip[k]) s = add(s, mul(eval(A0[i][k], e), eval(B[k][j], e)));
            if (s.st != St::OK || s.e > 1e-7L) { c.count("skipped"); continue; }
            c.count("compared");
            if (fabsl(s.v - (i == j)) > 1e-6L + 100 * s.e) c.fail(d + " times its inverse is not the identity");
        }
    }
}
Reg r01("C01", "two summands", sums), r01b("C01", "several summands", manySums);
Reg r02("C02", "two factors", prods), r02b("C02", "several factors", manyProds);
Reg r03("C03", "power", powers), r03b("C03", "power of structured base", powers2);
Reg r04("C04", "expand", expands);
Reg r05("C05", "normal", normals), r05b("C05", "simplify", simplifies), r05c("C05", "numerator and denominator", numdenom);
Reg r06("C06", "derivative", diffs);
Reg r07("C07", "symbol", substs), r07b("C07", "expression", substs2);
Reg r08("C08", "sign", signs);
Reg r09("C09", "equality and hash", equality);
Reg r10("C10", "commuted operands", commutes);
Reg r13("C13", "numeric evaluation", evals), r13b("C13", "conversion to int", intConv);
Reg r15("C15", "linear system", linear);
Reg r16("C16", "sin cos tan atan", trigs), r16b("C16", "arc functions", arcs), r16c("C16", "atan2", atan2s), r16d("C16", "log", logs);
Reg r17("C17", "absorbing", undefineds);
Reg r18("C18", "containment", containment);
}
