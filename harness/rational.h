/* fractions of arbitrary size on top of boost::multiprecision::cpp_int, independent of the library's numbers */
#pragma once
#include "int.h"
namespace {
using tsym::Int;
struct Q {
    Int n, d;
    Q(Int a = 0, Int b = 1) : n(std::move(a)), d(std::move(b))
    {
        if (d < 0) { n = -n; d = -d; }
        Int x = n < 0 ? Int(-n) : n, y = d;
        while (y != 0) { Int t = x % y; x = y; y = t; }
        if (x != 0) { n /= x; d /= x; }
    }
    bool operator==(const Q& o) const { return n == o.n && d == o.d; }
    bool operator<(const Q& o) const { return n * o.d < o.n * d; }
};
Q operator+(const Q& a, const Q& b) { return {a.n * b.d + b.n * a.d, a.d * b.d}; }
Q operator*(const Q& a, const Q& b) { return {a.n * b.n, a.d * b.d}; }
Q operator-(const Q& a) { return {-a.n, a.d}; }
Int ipow(Int b, unsigned e) { Int r = 1; for (; e; e >>= 1) { if (e & 1) r *= b; b *= b; } return r; }
Q qpow(const Q& a, long e) { return e >= 0 ? Q(ipow(a.n, (unsigned)e), ipow(a.d, (unsigned)e)) : Q(ipow(a.d, (unsigned)-e), ipow(a.n, (unsigned)-e)); }
}
