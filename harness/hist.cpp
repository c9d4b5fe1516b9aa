/* C19: the same operations in a different history give equal results, existing expressions never change */
#include <algorithm>
#include <stdexcept>
#include "core.h"
#include "cache.h"
#include "options.h"
#include "poly.h"
using namespace h;

namespace {
struct Op { unsigned kind; unsigned a, b; };
struct Program { std::vector<Var> start; std::vector<Op> ops; };

Var applyOp(const Op& o, const std::vector<Var>& pool)
{
    const Var &u = pool[o.a % pool.size()], &v = pool[o.b % pool.size()];
    if (size(u) > 45 || size(v) > 45) return Var(1);
    switch (o.kind % 14) {
        case 0: return u + v;
        case 1: return u - v;
        case 2: case 3: return u * v;
        case 4: return v.type() == T::UNDEFINED ? v : Gen::bigNumber(v) ? u : u / v;
        case 5: { static const int e[] = {2, 3, -1, -2}; const Var x(e[o.b % 4]); return Gen::raisable(u, x) ? tsym::pow(u, x) : u; }
        case 6: { const Var x(1 + (int)(o.b % 3), 2 + (int)(o.b % 2)); return Gen::raisable(u, x) ? tsym::pow(u, x) : u; }
        case 7: return tsym::expand(u);
        case 8: return size(u) < 25 && !hasDouble(u) ? tsym::simplify(u) : u;
        case 9: return tsym::diff(u, Var("a"));
        case 10: return size(v) < 10 ? tsym::subst(u, Var("a"), v) : u;
        case 11: return Gen::moderate(u, 100) && !Gen::bigNumber(u) ? (o.b % 2 ? tsym::sin(u) : tsym::cos(u)) : u;
        case 12: return size(u) < 25 && !hasDouble(u) ? tsym::normal(u) : u;
        default: return size(u) < 25 && !hasDouble(u) ? tsym::numerator(u) : u;
    }
}
std::vector<Var> run(const Program& p)
{
    std::vector<Var> pool = p.start;
    for (const auto& o : p.ops) pool.push_back(applyOp(o, pool));
    return pool;
}
std::vector<std::string> text(const std::vector<Var>& v) { std::vector<std::string> r; for (const auto& u : v) r.push_back(str(u)); return r; }
const char* opNames[] = {"sum", "difference", "product", "product", "quotient", "power", "root", "expand", "simplify", "diff", "subst", "sin/cos", "normal", "numerator"};

Program program(Ctx& c, unsigned n)
{
    Gen g(c.rng);
    Program p;
    for (int i = 0; i < 4; ++i) p.start.push_back(g.good(1 + (int)c.rng.below(2), 14));
    p.start.push_back(Var("a"));
    for (unsigned i = 0; i < n; ++i) p.ops.push_back({c.rng.below(1000), c.rng.below(1000), c.rng.below(1000)});
    return p;
}
void check(Ctx& c, const Program& p, const std::vector<Var>& first, const std::vector<std::string>& want, const char* when)
{
    const auto again = run(p);
    for (size_t i = 0; i < again.size(); ++i)
        if (str(again[i]) != want[i] || (again[i].type() != T::UNDEFINED && !(again[i] == first[i]))) {
            std::string how;
            if (i >= p.start.size()) { const Op& o = p.ops[i - p.start.size()]; how = std::string(opNames[o.kind % 14]) + " of " + want[o.a % i] + " and " + want[o.b % i] + " (selector " + std::to_string(o.b) + ")"; }
            c.fail(how + " is " + want[i] + " first and " + str(again[i]) + " " + when);
        }
    const auto now = text(first);
    for (size_t i = 0; i < now.size(); ++i) if (now[i] != want[i]) c.fail("existing expression " + want[i] + " changed to " + now[i] + " " + when);
    c.count("compared");
}
void history(Ctx& c)
{
    Rng& r = c.rng;
    const tsym::Int limit = tsym::options::getMaxPrimeResolution();
    const Program p = program(c, 6 + r.below(10)), q = program(c, 6 + r.below(10));
    if (r.chance(60)) tsym::clearRegisteredCaches();
    const auto first = run(p);
    const auto want = text(first);
    check(c, p, first, want, "when served from caches");
    /* the same operations in a different order in between */
    Program rev = p;
    rev.start.assign(first.begin(), first.end());
    for (auto& o : rev.ops) std::swap(o.a, o.b);
    run(rev);
    run(q);
    check(c, p, first, want, "after other operations");
    static const int limits[] = {2, 5, 10, 30, 100, 100000};
    tsym::options::setMaxPrimeResolution(tsym::Int(limits[r.below(6)]));
    if (r.chance(50)) tsym::clearRegisteredCaches();
    run(p);
    run(q);
    tsym::options::setMaxPrimeResolution(limit);
    check(c, p, first, want, "after the prime resolution has been changed and changed back");
    tsym::clearRegisteredCaches();
    check(c, p, first, want, "after caches have been cleared");
}
/* same objects: results for equal but different objects, positive and other symbols of the same name */
void namesakes(Ctx& c)
{
    Rng& r = c.rng;
    Gen g(r);
    g.posSyms = false;
    const Var a("a"), ap("a", Var::Sign::POSITIVE);
    const Var u = g.good(2, 14);
    auto ops = [&](const Var& x, bool reverse) {
        std::vector<Var> v;
        for (int i = 0; i < 6; ++i) {
            const int k = reverse ? 5 - i : i;
            Var w;
            switch (k) {
                case 0: w = tsym::sqrt(tsym::pow(x, Var(2))) * u; break;
                case 1: w = tsym::pow(x * u, Var(1, 2)) * tsym::sqrt(x); break;
                case 2: w = x * u + 2 * x * u + x; break;
                case 3: w = size(u) < 12 ? tsym::simplify((x * x - 1) / (x - 1) + u) : u; break;
                case 4: w = tsym::expand((x + u) * (x - 1)); break;
                default: w = tsym::diff(tsym::sqrt(x) * u + x * x, x); break;
            }
            v.push_back(w);
        }
        if (reverse) std::reverse(v.begin(), v.end());
        return v;
    };
    tsym::clearRegisteredCaches();
    const auto w1 = ops(a, false); const auto w2 = ops(ap, true);
    tsym::clearRegisteredCaches();
    const auto z2 = ops(ap, false); const auto z1 = ops(a, true);
    for (size_t i = 0; i < w1.size(); ++i) {
        if (str(w1[i]) != str(z1[i])) c.fail("operation " + std::to_string(i) + " on a and " + str(u) + ": " + str(w1[i]) + " and, after the same with positive a, " + str(z1[i]));
        if (str(w2[i]) != str(z2[i])) c.fail("operation " + std::to_string(i) + " on positive a and " + str(u) + ": " + str(z2[i]) + " and, after the same with a, " + str(w2[i]));
    }
    c.count("compared");
}
/* polynomial operations are cached, too */
void polynomials(Ctx& c)
{
    Rng& r = c.rng;
    auto poly = [&]() { Var p; for (unsigned i = 0; i < 2 + r.below(2); ++i) p += Var((int)r.below(9) + 1) * tsym::pow(Var("a"), Var((int)r.below(4))) * (r.chance(40) ? Var("b") : Var(1)); return tsym::expand(p); };
    const Var f = poly(), u = tsym::expand(poly() * f), v = tsym::expand(poly() * f), w = poly();
    const auto A = Var("a").get(), B = Var("b").get();
    const tsym::BasePtrList ab{A, B}, ba{B, A};
    auto pair = [](const tsym::BasePtrList& d) { std::string s; for (const auto& x : d) s += str(Var(x)) + " "; return s; };
    constexpr int n = 14;
    auto all = [&](bool rev) {
        std::vector<std::string> o(n);
        for (int i = 0; i < n; ++i) {
            const int k = rev ? n - 1 - i : i;
            std::string s;
            switch (k) {
                case 0: s = str(Var(tsym::poly::gcd(u.get(), v.get()))); break;
                case 1: s = pair(tsym::poly::divide(u.get(), v.get())); break;
                case 2: s = pair(tsym::poly::divide(v.get(), u.get())); break;
                case 3: s = str(Var(tsym::poly::gcd(v.get(), u.get()))); break;
                case 4: s = pair(tsym::poly::divide(u.get(), w.get())); break;
                case 5: s = pair(tsym::poly::divide(u.get(), w.get(), ab)); break;
                case 6: s = pair(tsym::poly::divide(u.get(), w.get(), ba)); break;
                case 7: s = str(Var(tsym::poly::pseudoRemainder(u.get(), w.get(), A))); break;
                case 8: s = pair(tsym::poly::pseudoDivide(u.get(), w.get(), A)); break;
                case 9: s = str(Var(tsym::poly::content(u.get(), A))); break;
                case 10: s = str(Var(tsym::poly::content(u.get(), B))); break;
                case 11: s = str(Var(tsym::poly::gcd(u.get(), w.get()))); break;
                case 12: s = str(tsym::expand(u * w)); break;
                default: s = str(tsym::normal(u / v + w)); break;
            }
            o[k] = s;
        }
        return o;
    };
    tsym::clearRegisteredCaches();
    const auto x = all(false), y = all(true);
    tsym::clearRegisteredCaches();
    const auto z = all(true);
    for (int i = 0; i < n; ++i)
        if (x[i] != y[i] || x[i] != z[i]) c.fail("polynomial operation " + std::to_string(i) + " on " + str(u) + " and " + str(v) + ": " + x[i] + ", " + y[i] + " (cached), " + z[i] + " (other order)");
    c.count("compared");
}
Reg r1("C19", "history", history), r2("C19", "symbols of equal name", namesakes), r3("C19", "history", history), r4("C19", "polynomials", polynomials);
}
