/* Replay search and bounded stand-in: an evaluator of expression trees that is independent of the library's own
 * simplification, differentiation and evaluation code, with rigorous error propagation, plus a generator. */
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include "tsym.h"
#include "base.h"
#include "number.h"

namespace h {
using tsym::Var;
using T = Var::Type;
using ld = long double;
constexpr ld EPS = 1.1e-19L;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { for (int i = 0; i < 4; ++i) next(); }
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
    unsigned below(unsigned n) { return (unsigned)((next() >> 20) % n); }
    bool chance(unsigned percent) { return below(100) < percent; }
    ld unit() { return (ld)(next() >> 11) / (ld)(1ull << 53); }
    template <class C> const auto& pick(const C& c) { return c[below((unsigned)c.size())]; }
};

/* ---------------------------------------------------------------- values with error bounds and derivative */
enum class St { OK, UNDEF, UNSURE };
struct V {
    ld v = 0, e = 0;   // value, error bound
    ld d = 0, de = 0;  // derivative w.r.t. the chosen symbol, its error bound
    St st = St::OK;
    bool dok = true;   // derivative meaningful
};
inline V bad(St s) { V r; r.st = s; return r; }
inline V num(ld v, ld e = 0) { V r; r.v = v; r.e = e; return r; }
inline bool worst(const V& a, const V& b, V& out)
{
    if (a.st == St::UNDEF || b.st == St::UNDEF) { out = bad(St::UNDEF); return true; }
    if (a.st == St::UNSURE || b.st == St::UNSURE) { out = bad(St::UNSURE); return true; }
    return false;
}
inline V chk(V r)
{
    if (!std::isfinite(r.v) || !std::isfinite(r.e) || fabsl(r.v) > 1e300L) return bad(St::UNSURE);
    if (!std::isfinite(r.d) || !std::isfinite(r.de)) r.dok = false;
    return r;
}
inline V add(const V& a, const V& b)
{
    V r;
    if (worst(a, b, r)) return r;
    r.v = a.v + b.v; r.e = a.e + b.e + EPS * fabsl(r.v);
    r.d = a.d + b.d; r.de = a.de + b.de + EPS * (fabsl(a.d) + fabsl(b.d)); r.dok = a.dok && b.dok;
    return chk(r);
}
inline V mul(const V& a, const V& b)
{
    V r;
    if (worst(a, b, r)) return r;
    r.v = a.v * b.v; r.e = fabsl(a.v) * b.e + fabsl(b.v) * a.e + a.e * b.e + EPS * fabsl(r.v);
    r.d = a.d * b.v + a.v * b.d;
    r.de = fabsl(a.d) * b.e + a.de * (fabsl(b.v) + b.e) + fabsl(a.v) * b.de + a.e * (fabsl(b.d) + b.de) + EPS * (fabsl(a.d * b.v) + fabsl(a.v * b.d));
    r.dok = a.dok && b.dok;
    return chk(r);
}
inline V neg(const V& a) { return mul(num(-1), a); }
/* f(a) with derivative f1 of f and a bound on |f''| nearby */
inline V comp(const V& a, ld f, ld f1, ld f2)
{
    V r;
    r.v = f; r.e = (fabsl(f1) + fabsl(f2) * a.e) * a.e + 4 * EPS * (fabsl(f) + fabsl(a.v * f1)) + EPS * EPS;
    r.d = f1 * a.d; r.de = fabsl(f1) * a.de + (fabsl(f2) * a.e + 8 * EPS * fabsl(f1)) * (fabsl(a.d) + a.de) + EPS * fabsl(r.d);
    r.dok = a.dok;
    return chk(r);
}
inline V power(const V& b, const V& x)
{
    V r;
    if (worst(b, x, r)) return r;
    const bool xint = x.v == rintl(x.v) && x.e == 0;
    if (b.v > 0 && b.v > 2 * b.e) {
        const ld lb = logl(b.v), f = powl(b.v, x.v);
        r.v = f;
        const ld rel = 1.5L * (fabsl(x.v) * b.e / b.v + fabsl(lb) * x.e) + 4 * EPS * (1 + fabsl(x.v * lb));
        if (!(rel < 0.1L)) return bad(St::UNSURE);
        r.e = fabsl(f) * rel;
        const ld t1 = x.d * lb, t2 = x.v * b.d / b.v;
        r.d = f * (t1 + t2);
        const ld tde = x.de * fabsl(lb) + (fabsl(x.d) + x.de) * (b.e / b.v * 2 + EPS) + (x.e * fabsl(b.d) + (fabsl(x.v) + x.e) * b.de) / b.v
          + fabsl(t2) * 2 * b.e / b.v + 4 * EPS * (fabsl(t1) + fabsl(t2));
        r.de = fabsl(f) * tde + r.e * (fabsl(t1 + t2) + tde);
        r.dok = b.dok && x.dok;
        return chk(r);
    }
    if (b.v < 0 && -b.v > 2 * b.e) {
        if (xint) {
            V nb = b; nb.v = -b.v; nb.d = -b.d;
            V q = power(nb, x);
            if (x.d != 0) q.dok = false;
            return fmodl(fabsl(x.v), 2) == 1 ? neg(q) : q;
        }
        if (fabsl(x.v - rintl(x.v)) <= 4 * x.e + 1e-15L * (1 + fabsl(x.v))) return bad(St::UNSURE);
        return bad(St::UNDEF);
    }
    if (b.v == 0 && b.e == 0) {
        if (x.v > x.e) { r.v = 0; r.dok = false; if (xint && x.v >= 2) { r.dok = b.dok && x.d == 0; } if (xint && x.v == 1) { r.d = b.d; r.de = b.de; r.dok = b.dok && x.d == 0; } return r; }
        if (fabsl(x.v) <= x.e && x.e > 0) return bad(St::UNSURE);
        return bad(St::UNDEF);
    }
    if (xint && x.v == 1) return b;
    if (xint && x.v > 1 && x.v < 20) { V q = b; for (int i = 1; i < (int)x.v; ++i) q = mul(q, b); return q; }
    return bad(St::UNSURE);
}
inline V fun(const std::string& n, const V& a)
{
    if (a.st != St::OK) return a;
    const ld s = sinl(a.v), c = cosl(a.v);
    if (n == "sin") return fabsl(a.v) > 1e9L ? bad(St::UNSURE) : comp(a, s, c, 1);
    if (n == "cos") return fabsl(a.v) > 1e9L ? bad(St::UNSURE) : comp(a, c, -s, 1);
    if (n == "tan") {
        if (fabsl(a.v) > 1e9L || fabsl(c) < 1e-6L + 10 * a.e) return bad(St::UNSURE);
        return comp(a, s / c, 1 / (c * c), 4 / fabsl(c * c * c));
    }
    if (n == "asin" || n == "acos") {
        const ld q = 1 - a.v * a.v;
        const bool as = n == "asin";
        if (fabsl(a.v) == 1 && a.e == 0) { V r = num(as ? asinl(a.v) : acosl(a.v), 1e-19L); r.dok = false; return r; }
        if (fabsl(a.v) > 1 + a.e + 1e-15L) return bad(St::UNDEF);
        if (q < 1e-6L + 10 * a.e) return bad(St::UNSURE);
        const ld f1 = 1 / sqrtl(q);
        return comp(a, as ? asinl(a.v) : acosl(a.v), as ? f1 : -f1, 2 / (q * sqrtl(q)));
    }
    if (n == "atan") return comp(a, atanl(a.v), 1 / (1 + a.v * a.v), 1);
    if (n == "log") {
        if (a.v > 2 * a.e) return comp(a, logl(a.v), 1 / a.v, 2 / (a.v * a.v));
        if (a.v < -2 * a.e || (a.v == 0 && a.e == 0)) return bad(St::UNDEF);
        return bad(St::UNSURE);
    }
    return bad(St::UNSURE);
}
inline V fatan2(const V& y, const V& x)
{
    V r;
    if (worst(y, x, r)) return r;
    if (y.v == 0 && x.v == 0 && y.e == 0 && x.e == 0) return bad(St::UNDEF);
    const ld q = x.v * x.v + y.v * y.v;
    if (q <= 16 * (x.e * x.e + y.e * y.e) || (x.v < 2 * x.e && fabsl(y.v) <= 2 * y.e && y.e > 0)) return bad(St::UNSURE);
    r.v = atan2l(y.v, x.v);
    r.e = 4 * (x.e + y.e) / sqrtl(q) + 4 * EPS;
    r.d = (x.v * y.d - y.v * x.d) / q;
    r.de = 8 * ((fabsl(y.d) + fabsl(x.d)) * (x.e + y.e) / q + (x.de + y.de) / sqrtl(q)) + 8 * EPS * fabsl(r.d) + EPS * (fabsl(x.v * y.d) + fabsl(y.v * x.d)) / q;
    r.dok = x.dok && y.dok && !(x.v <= 0 && y.v == 0);
    return chk(r);
}

/* ---------------------------------------------------------------- assignments and evaluation */
struct Env {
    std::map<std::string, ld> val;
    std::map<std::string, ld> der;
};
inline std::string symkey(const Var& s) { return tsym::name(s) + (tsym::isPositive(s) ? "+" : ""); }

inline V evalNumber(const tsym::Number& n)
{
    if (n.isDouble()) return num(n.toDouble(), 1e-9L * fabsl(n.toDouble()) + 1e-13L);
    const tsym::Int p = n.numerator(), q = n.denominator();
    const ld lp = p.convert_to<ld>(), lq = q.convert_to<ld>();
    if (q == 1) return chk(num(lp, fabsl(lp) < 1e18L ? 0 : EPS * fabsl(lp)));
    return chk(num(lp / lq, 3 * EPS * fabsl(lp / lq)));
}
inline V eval(const Var& u, const Env& env)
{
    switch (u.type()) {
        case T::INT: case T::FRACTION: case T::DOUBLE: return evalNumber(*u.get()->numericEval());
        case T::UNDEFINED: return bad(St::UNDEF);
        case T::CONSTANT: return tsym::name(u) == "pi" ? num(3.14159265358979323846264338327950288L, EPS) : num(2.71828182845904523536028747135266250L, EPS);
        case T::SYMBOL: {
            const auto k = symkey(u);
            const auto it = env.val.find(k);
            if (it == env.val.end()) return bad(St::UNSURE);
            V r = num(it->second);
            const auto d = env.der.find(k);
            if (d != env.der.end()) r.d = d->second;
            return r;
        }
        case T::SUM: {
            V r = num(0);
            for (const auto& o : tsym::operands(u)) r = add(r, eval(o, env));
            return r;
        }
        case T::PRODUCT: {
            V r = num(1);
            for (const auto& o : tsym::operands(u)) r = mul(r, eval(o, env));
            return r;
        }
        case T::POWER: {
            const auto o = tsym::operands(u);
            return power(eval(o.at(0), env), eval(o.at(1), env));
        }
        case T::FUNCTION: {
            const auto o = tsym::operands(u);
            if (tsym::name(u) == "atan2") return fatan2(eval(o.at(0), env), eval(o.at(1), env));
            return fun(tsym::name(u), eval(o.at(0), env));
        }
    }
    return bad(St::UNSURE);
}
/* expressions containing doubles carry rounding errors of the library's double arithmetic */
inline bool hasDouble(const Var& u)
{
    if (u.type() == T::DOUBLE) return true;
    for (const auto& o : tsym::operands(u)) if (hasDouble(o)) return true;
    return false;
}
inline bool hasUndefined(const Var& u)
{
    if (u.type() == T::UNDEFINED) return true;
    for (const auto& o : tsym::operands(u)) if (hasUndefined(o)) return true;
    return false;
}
inline unsigned size(const Var& u)
{
    unsigned n = 1;
    for (const auto& o : tsym::operands(u)) n += size(o);
    return n;
}

inline std::string str(const Var& u)
{
    std::ostringstream s;
    std::function<void(const Var&)> rec = [&](const Var& w) {
        switch (w.type()) {
            case T::INT: case T::FRACTION: case T::DOUBLE: {
                const auto n = *w.get()->numericEval();
                if (n.isDouble()) s << n.toDouble();
                else { s << n.numerator(); if (n.denominator() != 1) s << "/" << n.denominator(); }
                break;
            }
            case T::UNDEFINED: s << "undef"; break;
            case T::SYMBOL: s << symkey(w); break;
            case T::CONSTANT: s << tsym::name(w); break;
            default: {
                s << (w.type() == T::SUM ? "Sum" : w.type() == T::PRODUCT ? "Prod" : w.type() == T::POWER ? "Pow" : tsym::name(w)) << "(";
                bool first = true;
                for (const auto& o : tsym::operands(w)) { if (!first) s << ", "; rec(o); first = false; }
                s << ")";
            }
        }
    };
    rec(u);
    return s.str();
}

inline void trace(const char* what, const Var& u, const Var* v = nullptr)
{
    static const bool on = getenv("HARNESS_TRACE") != nullptr;
    if (!on) return;
    printf("trace %s(%s%s%s)\n", what, str(u).c_str(), v ? ", " : "", v ? str(*v).c_str() : "");
    fflush(stdout);
}
struct Failure { std::string what; };

/* comparison of a prescribed value and the value of a result */
enum class Cmp { SAME, DIFFER, SKIP };
inline Cmp compare(const V& want, const V& got, ld extra = 0)
{
    if (want.st != St::OK || got.st == St::UNSURE) return Cmp::SKIP;
    const ld sc = fmaxl(fabsl(want.v), 1e-3L);
    const ld tol0 = 100 * want.e + (extra + 1e-13L) * sc;
    if (tol0 > 1e-4L * sc) return Cmp::SKIP;
    if (got.st == St::UNDEF) return Cmp::DIFFER;
    const ld tol = tol0 + 100 * got.e + (extra + 1e-13L) * fabsl(got.v);
    if (tol > 1e-3L * fmaxl(fabsl(got.v), sc)) return Cmp::SKIP;
    return fabsl(want.v - got.v) <= tol ? Cmp::SAME : Cmp::DIFFER;
}

struct Ctx {
    Rng rng;
    uint64_t idx;
    int tier = 0;
    std::map<std::string, uint64_t> counters;
    std::vector<Env> envs;
    explicit Ctx(uint64_t seed, uint64_t idx) : rng(seed * 1000003ull + idx * 7919ull + 17), idx(idx) { makeEnvs(); }
    void count(const std::string& k) { ++counters[k]; }
    void makeEnvs()
    {
        static const char* names[] = {"a", "b", "c", "x", "y", "z", "a+", "b+", "x+", "y+", "p+", "q+"};
        for (int i = 0; i < 8; ++i) {
            Env e;
            for (const char* n : names) {
                ld v = rng.below(4) == 0 ? 0.05L + 0.9L * rng.unit() : 0.3L + 2.2L * rng.unit();
                if (rng.below(10) == 0) v += 4 + rng.below(5);
                const bool pos = std::string(n).back() == '+';
                const bool flip = i == 0 ? false : i == 1 ? true : rng.below(2) == 0;
                e.val[n] = !pos && flip ? -v : v;
            }
            envs.push_back(e);
        }
    }
    [[noreturn]] void fail(const std::string& s) { throw Failure{s}; }
    /* value of the result is the prescribed one at every sampled assignment where that is defined */
    void same(const std::string& what, const std::function<V(const Env&)>& want, const Var& got, ld extra = 0, bool whereDefined = false)
    {
        const bool dbl = hasDouble(got);
        for (const auto& e : envs) {
            const V w = want(e), g = eval(got, e);
            if (whereDefined && g.st == St::UNDEF && !hasUndefined(got)) { count("skipped"); continue; }
            const Cmp c = compare(w, g, extra + (dbl ? 1e-8L : 0));
            if (c == Cmp::SKIP) { count("skipped"); continue; }
            count("compared");
            if (c == Cmp::DIFFER) {
                std::ostringstream s;
                s.precision(20);
                s << what << " yields " << str(got) << "; at";
                for (const auto& [k, v] : e.val) s << " " << k << "=" << (double)v;
                s << " expected " << w.v << ", got ";
                if (g.st == St::OK) s << g.v; else s << "undefined";
                fail(s.str());
            }
        }
    }
};

/* ---------------------------------------------------------------- generator */
struct Gen {
    Rng& r;
    bool trig = true, doubles = false, bigs = true, atan2 = false, fracexp = true, symexp = true, posSyms = true;
    explicit Gen(Rng& r) : r(r) {}
    Var ratio(int n, int d) { return Var(n, d); }
    Var number()
    {
        static const int ints[] = {0, 1, -1, 2, -2, 3, -3, 4, 5, 6, -5, 7, 8, 9, 10, 12, 16, 18, 25, 27, 32, 50, 72, 100, 101, -8, -27, 1001, 1009, 997, 10403, 65536};
        static const int dens[] = {2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 25, 27};
        const unsigned c = r.below(20);
        if (c < 12) return Var(ints[r.below(r.chance(70) ? 13 : 32)]);
        if (c < 18 || (!bigs && !doubles)) return Var((int)r.below(25) - 12, dens[r.below(r.chance(70) ? 6 : 12)]);
        if (doubles && r.chance(60)) { static const double ds[] = {0.123456789, -1.987654321, 3.33333333, 0.7123456789, 12.3456789012}; return Var(ds[r.below(5)]); }
        if (bigs && !doubles) { static const char* b[] = {"2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "100000000000000000000", "1000003"}; Var v(b[r.below(7)]); return r.chance(40) ? -v : v; }
        return Var(2);
    }
    Var symbol()
    {
        static const std::vector<Var> s{Var("a"), Var("b"), Var("c"), Var("x")};
        static const std::vector<Var> p{Var("p", Var::Sign::POSITIVE), Var("q", Var::Sign::POSITIVE), Var("a", Var::Sign::POSITIVE)};
        return posSyms && r.chance(30) ? r.pick(p) : s[r.below(r.chance(70) ? 2 : 4)];
    }
    Var irr()
    {
        const unsigned c = r.below(10);
        if (c < 2) return tsym::pi();
        if (c < 3) return tsym::euler();
        if (c < 7) { static const int b[] = {2, 3, 5, 6, 7, 10}; return tsym::sqrt(Var(b[r.below(6)])); }
        static const int b[] = {2, 3, 4, 5, 9, 12};
        return tsym::pow(Var(b[r.below(6)]), Var((int)r.below(9) - 4, 2 + (int)r.below(5)));
    }
    Var leaf()
    {
        const unsigned c = r.below(10);
        return c < 5 ? symbol() : c < 8 ? number() : irr();
    }
    /* exponents with huge numerators or denominators can't be represented as powers */
    static bool tame(const Var& x)
    {
        if (x.type() == T::INT || x.type() == T::FRACTION) {
            const auto n = *x.get()->numericEval();
            return abs(n.numerator()) < 40 && n.denominator() < 40;
        }
        for (const auto& o : tsym::operands(x)) if (!tame(o)) return false;
        return true;
    }
    Var exponent(int d)
    {
        const Var x = rawExponent(d);
        return tame(x) ? x : Var(2);
    }
    Var rawExponent(int d)
    {
        const unsigned c = r.below(20);
        if (c < 9) { static const int e[] = {2, 3, -1, -2, 4, -3, 5, 6, 1, 0, -4}; return Var(e[r.below(11)]); }
        if (c < 15 && fracexp) { static const int n[] = {1, -1, 3, 2, -2, -3, 5, 4, -4}; static const int q[] = {2, 2, 3, 4, 5, 6}; return Var(n[r.below(9)], q[r.below(6)]); }
        if (c < 17 && symexp) return symbol();
        if (c < 18 && symexp && d > 0) { const Var x = expr(d - 1); return size(x) < 12 ? x : Var(3); }
        if (c < 19 && fracexp) return irr();
        return Var(2);
    }
    Var function(int d)
    {
        static const char* fs[] = {"sin", "cos", "tan", "log", "asin", "acos", "atan", "atan2"};
        const unsigned k = r.below(r.chance(60) ? 4 : atan2 ? 8 : 7);
        return apply(fs[k], k >= 4 && r.chance(50) ? smallArg() : expr(d - 1), d);
    }
    Var smallArg() { static const int q[] = {2, 3, 4, 5}; Var v((int)r.below(3) - 1, q[r.below(4)]); return r.chance(30) ? v * tsym::sqrt(Var(2 + (int)r.below(2))) : v; }
    static bool moderate(const Var& u, ld lim)
    {
        const V v = eval(u, Env{});
        return v.st != St::OK || (fabsl(v.v) <= lim && (v.v == 0 || fabsl(v.v) >= 1 / lim / lim));
    }
    static bool bigNumber(const Var& u)
    {
        if (u.type() == T::INT || u.type() == T::FRACTION) {
            const auto n = *u.get()->numericEval();
            return abs(n.numerator()) > 100000000 || n.denominator() > 100000000;
        }
        for (const auto& o : tsym::operands(u)) if (bigNumber(o)) return true;
        return false;
    }
    static bool tinyDouble(const Var& u)
    {
        if (u.type() == T::DOUBLE) return fabsl((ld)u.get()->numericEval()->toDouble()) < 0.05L;
        for (const auto& o : tsym::operands(u)) if (tinyDouble(o)) return true;
        return false;
    }
    /* Floating point results below the tolerance of the library are rounded to zero, huge exact intermediate results
     * leave the range of a double. Both are limitations of numbers, not of simplification. */
    static bool raisable(const Var& b, const Var& x)
    {
        const V v = eval(x, Env{}), w = eval(b, Env{});
        if (w.st == St::OK && w.v != 0 && (fabsl(w.v) > 1e12L || fabsl(w.v) < 1e-6L)) return false;
        if (tinyDouble(b) || tinyDouble(x)) return false;
        if (bigNumber(b)) return v.st == St::OK && (v.v == 2 || v.v == 0.5L || v.v == 1);
        if (v.st == St::OK && fabsl(v.v) > (hasDouble(b) || hasDouble(x) ? 4 : 20)) return false;
        if (w.st == St::OK && w.v != 0 && v.st == St::OK && fabsl(v.v * logl(fabsl(w.v))) > 60) return false;
        return true;
    }
    /* powers of big numbers get too large, arguments of trigonometric functions are reduced in steps of 2 pi */
    Var raise(const Var& b, const Var& x)
    {
        const V v = eval(x, Env{});
        if (!raisable(b, x)) return b;
        trace("pow", b, &x);
        return tsym::pow(b, x);
    }
    Var apply(const std::string& f, const Var& uu, int d)
    {
        Var u = moderate(uu, 300) && !bigNumber(uu) ? uu : symbol();
        trace(f.c_str(), u);
        if (f == "sin") return tsym::sin(u);
        if (f == "cos") return tsym::cos(u);
        if (f == "tan") return tsym::tan(u);
        if (f == "asin") return tsym::asin(u);
        if (f == "acos") return tsym::acos(u);
        if (f == "atan") return tsym::atan(u);
        if (f == "log") return tsym::log(u);
        return tsym::atan2(u, expr(d - 1));
    }
    Var expr(int d)
    {
        if (d <= 0 || r.chance(12)) return leaf();
        const unsigned c = r.below(trig ? 24 : 20);
        if (c < 6) return expr(d - 1) + expr(d - 1);
        if (c < 8) return expr(d - 1) - expr(d - 1);
        if (c < 14) return expr(d - 1) * expr(d - 1);
        if (c < 16) { const Var n = expr(d - 1), m = expr(d - 1); return bigNumber(m) ? n * m : n / m; }
        if (c < 20) { const Var b = expr(d - 1); return raise(b, exponent(d - 1)); }
        return function(d);
    }
    /* a defined expression of bounded size */
    Var good(int d, unsigned maxsize = 40)
    {
        for (int i = 0; i < 50; ++i) {
            const Var u = expr(d);
            if (!hasUndefined(u) && size(u) <= maxsize) return u;
        }
        return symbol();
    }
};

using Case = std::function<void(Ctx&)>;
std::map<std::string, std::vector<std::pair<std::string, Case>>>& registry();
struct Reg { Reg(const char* p, const char* n, Case c) { registry()[p].push_back({n, std::move(c)}); } };
}
