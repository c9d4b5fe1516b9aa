/* C20: parsing and printing; oracle: a recursive descent parser that evaluates the text directly */
#include <algorithm>
#include "core.h"
#include "plaintextprintengine.h"
using namespace h;

namespace {
/* Grammar (whitespace between tokens is ignored, names of functions and constants are case-insensitive):
 *   expression = ['+'] summand {('+' | '-') summand}
 *   summand    = signed {('*' | '/') signed}
 *   signed     = ['-'] factor
 *   factor     = operand ['^' factor]                         (right-associative)
 *   operand    = function '(' expression ')' | 'atan2' '(' expression ',' expression ')' | scalar | '(' expression ')'
 *   scalar     = 'pi' | 'euler' | symbol | float | integer */
struct Node {
    char op = 0;  // + - * / ^ m(inus) f(unction) n(umber) s(ymbol)
    std::string name;
    ld value = 0, err = 0;
    std::vector<Node> kids;
};
struct Reject {};
std::string lower(std::string s) { for (auto& c : s) c = (char)tolower(c); return s; }
class Reader {
  public:
    explicit Reader(std::string t) : t(std::move(t)) {}
    Node all() { Node n = expression(); ws(); if (i != t.size()) throw Reject{}; return n; }
  private:
    std::string t;
    size_t i = 0;
    void ws() { while (i < t.size() && isspace((unsigned char)t[i])) ++i; }
    bool is(char c) { ws(); return i < t.size() && t[i] == c; }
    bool take(char c) { if (!is(c)) return false; ++i; return true; }
    void need(char c) { if (!take(c)) throw Reject{}; }
    static Node bin(char op, Node a, Node b) { Node n; n.op = op; n.kids = {std::move(a), std::move(b)}; return n; }
    Node expression()
    {
        take('+');
        Node n = summand();
        for (;;) {
            if (take('+')) n = bin('+', n, summand());
            else if (take('-')) n = bin('-', n, summand());
            else return n;
        }
    }
    Node summand()
    {
        Node n = sign();
        for (;;) {
            if (take('*')) n = bin('*', n, sign());
            else if (take('/')) n = bin('/', n, sign());
            else return n;
        }
    }
    Node sign()
    {
        if (!take('-')) return factor();
        Node n; n.op = 'm'; n.kids = {factor()};
        return n;
    }
    Node factor()
    {
        Node b = operand();
        return take('^') ? bin('^', b, factor()) : b;
    }
    Node operand()
    {
        ws();
        if (take('(')) { Node n = expression(); need(')'); return n; }
        if (i < t.size() && isalpha((unsigned char)t[i])) {
            const size_t s = i;
            while (i < t.size() && isalnum((unsigned char)t[i])) ++i;
            const std::string w = t.substr(s, i - s), l = lower(w);
            static const char* fs[] = {"sin", "cos", "tan", "asin", "acos", "atan", "log", "sqrt", "atan2"};
            const size_t endOfName = i;
            const bool call = is('(');
            i = endOfName;
            for (const char* f : fs) if (l == f && call) {
                Node n; n.op = 'f'; n.name = l;
                need('('); n.kids.push_back(expression());
                if (l == "atan2") { need(','); n.kids.push_back(expression()); }
                need(')');
                return n;
            }
            Node n;
            std::string sub;
            if (i + 1 < t.size() && t[i] == '_') {
                if (isalnum((unsigned char)t[i + 1])) { sub = std::string(1, t[i + 1]); i += 2; }
                else if (t[i + 1] == '{') {
                    size_t j = i + 2;
                    while (j < t.size() && isalnum((unsigned char)t[j])) ++j;
                    if (j > i + 2 && j < t.size() && t[j] == '}') { sub = t.substr(i + 2, j - i - 2); i = j + 1; }
                }
            }
            if (sub.empty() && (l == "pi" || l == "euler")) { n.op = 'c'; n.name = l; return n; }
            n.op = 's'; n.name = w + (sub.empty() ? "" : "_" + sub);
            return n;
        }
        size_t j = i;
        while (j < t.size() && isdigit((unsigned char)t[j])) ++j;
        const size_t ni = j - i;
        Node n; n.op = 'n';
        if (j < t.size() && t[j] == '.') {
            size_t k = j + 1;
            while (k < t.size() && isdigit((unsigned char)t[k])) ++k;
            if (ni + (k - j - 1) == 0) throw Reject{};
            size_t e = k;
            if (e < t.size() && (t[e] == 'e' || t[e] == 'E')) {
                size_t f = e + 1;
                if (f < t.size() && (t[f] == '+' || t[f] == '-')) ++f;
                const size_t d = f;
                while (f < t.size() && isdigit((unsigned char)t[f])) ++f;
                if (f > d) k = f;
            }
            n.value = strtold(t.substr(i, k - i).c_str(), nullptr);
            n.err = fabsl(n.value) * 1e-14L + 1e-15L;
            i = k;
            return n;
        }
        if (ni == 0) throw Reject{};
        if (j < t.size() && (t[j] == 'e' || t[j] == 'E')) {
            size_t f = j + 1;
            if (f < t.size() && (t[f] == '+' || t[f] == '-')) ++f;
            const size_t d = f;
            while (f < t.size() && isdigit((unsigned char)t[f])) ++f;
            if (f > d) { n.value = strtold(t.substr(i, f - i).c_str(), nullptr); n.err = fabsl(n.value) * 1e-14L + 1e-15L; i = f; return n; }
        }
        n.value = strtold(t.substr(i, ni).c_str(), nullptr);
        n.err = fabsl(n.value) < 1e18L ? 0 : EPS * n.value;
        i = j;
        return n;
    }
};
V value(const Node& n, const Env& e)
{
    std::vector<V> k;
    for (const auto& c : n.kids) k.push_back(value(c, e));
    switch (n.op) {
        case '+': return add(k[0], k[1]);
        case '-': return add(k[0], neg(k[1]));
        case '*': return mul(k[0], k[1]);
        case '/': return mul(k[0], power(k[1], num(-1)));
        case '^': return power(k[0], k[1]);
        case 'm': return neg(k[0]);
        case 'n': return num(n.value, n.err);
        case 'c': return n.name == "pi" ? num(3.14159265358979323846264338327950288L, EPS) : num(2.71828182845904523536028747135266250L, EPS);
        case 's': { const auto it = e.val.find(n.name); return it == e.val.end() ? bad(St::UNSURE) : num(it->second); }
        default:
            if (n.name == "atan2") return fatan2(k[0], k[1]);
            if (n.name == "sqrt") return power(k[0], num(0.5L));
            return fun(n.name, k[0]);
    }
}
/* bounds that keep the library's computations small: exponents and arguments of functions */
bool tameNode(const Node& n, const Env& e)
{
    for (const auto& k : n.kids) if (!tameNode(k, e)) return false;
    const V v = value(n, Env{});
    if (v.st == St::OK && (fabsl(v.v) > 1e12L || (v.v != 0 && fabsl(v.v) < 1e-6L))) return false;
    if (n.op == '^') { const V x = value(n.kids[1], Env{}); if (x.st == St::OK && fabsl(x.v) > 12) return false; if (x.st != St::OK && n.kids[1].kids.size() > 0) return false; }
    if (n.op == 'f') { const V x = value(n.kids[0], Env{}); if (x.st == St::OK && fabsl(x.v) > 300) return false; }
    if (n.op == 'n' && n.err != 0 && fabsl(n.value) > 1e6L) return false;
    return true;
}
bool contains(const Node& n, const std::function<bool(const Node&)>& f) { if (f(n)) return true; for (const auto& k : n.kids) if (contains(k, f)) return true; return false; }
std::string sp(Rng& r) { return r.chance(75) ? "" : r.chance(80) ? " " : r.chance(50) ? "\t" : " \n "; }
std::string caseOf(Rng& r, std::string s) { if (r.chance(20)) for (auto& c : s) if (r.chance(50)) c = (char)toupper(c); return s; }
const std::vector<std::string> symbols{"a", "b", "c", "x", "abc", "pivot", "pi2", "euler1", "sine", "atan2x", "alpha", "e", "X", "a1", "x_1", "a_b", "x_{12}", "abc_{ab1}", "pix", "sin", "cosa", "pi_1", "log10"};
std::string gen(Rng& r, int d, int level);
std::string expr(Rng& r, int d)
{
    std::string s = r.chance(5) ? "+" + sp(r) : "";
    const unsigned n = 1 + r.below(3);
    s += gen(r, d, 2);
    for (unsigned i = 1; i < n; ++i) s += sp(r) + (r.chance(50) ? "+" : "-") + sp(r) + gen(r, d, 2);
    return s;
}
std::string gen(Rng& r, int d, int level)
{
    if (level == 2) {
        std::string s = gen(r, d, 1);
        const unsigned n = 1 + (r.chance(50) ? r.below(3) : 0);
        for (unsigned i = 1; i < n; ++i) s += sp(r) + (r.chance(60) ? "*" : "/") + sp(r) + gen(r, d, 1);
        return s;
    }
    if (level == 1) return (r.chance(15) ? "-" + sp(r) : "") + gen(r, d, 0);
    if (level == 0) return gen(r, d, -1) + (r.chance(25) ? sp(r) + "^" + sp(r) + gen(r, d - 1, r.chance(20) ? 0 : -1) : "");
    const unsigned c = r.below(d > 0 ? 10 : 6);
    if (c < 3) return r.pick(symbols);
    if (c < 5) {
        static const char* ns[] = {"0", "1", "2", "3", "4", "7", "10", "12", "123", "0.5", "2.25", ".75", "3.", "1.5e2", "2.5E-1", "1.0e+1", "12e1", "007", "98765432109876543210"};
        return ns[r.below(19)];
    }
    if (c < 6) return caseOf(r, r.chance(70) ? "pi" : "euler");
    if (c < 8) return "(" + sp(r) + expr(r, d - 1) + sp(r) + ")";
    static const char* fs[] = {"sin", "cos", "tan", "log", "sqrt", "asin", "acos", "atan"};
    if (r.chance(12)) return caseOf(r, "atan2") + sp(r) + "(" + expr(r, d - 1) + sp(r) + "," + sp(r) + expr(r, d - 1) + ")";
    return caseOf(r, fs[r.below(8)]) + sp(r) + "(" + expr(r, d - 1) + sp(r) + ")";
}
std::string mutate(Rng& r, std::string s)
{
    static const std::string alphabet = "+-*/^(),. _{}0123456789abexpi#$!=\\\"\xc3";
    for (unsigned k = 1 + r.below(2); k > 0 && !s.empty(); --k) {
        const size_t p = r.below((unsigned)s.size());
        switch (r.below(4)) {
            case 0: s.erase(p, 1); break;
            case 1: s.insert(p, 1, alphabet[r.below((unsigned)alphabet.size())]); break;
            case 2: s[p] = alphabet[r.below((unsigned)alphabet.size())]; break;
            default: s = s.substr(0, p); break;
        }
    }
    return s;
}
std::string nameOf(const Var& s)
{
    /* name with subscript in the notation of the parser */
    return tsym::name(s);
}
void collect(const Var& u, Env& e, Rng& r)
{
    for (const auto& s : tsym::collectSymbols(u)) if (!e.val.count(symkey(s))) e.val[symkey(s)] = 0.3L + 2 * r.unit();
}
void texts(Ctx& c)
{
    Rng& r = c.rng;
    std::string t = expr(r, 1 + (int)r.below(3));
    if (r.chance(40)) t = mutate(r, t);
    if (t.size() > 120) return;
    std::string shown;
    for (char ch : t) shown += ch == '\n' ? std::string("\\n") : ch == '\t' ? std::string("\\t") : std::string(1, ch);
    bool ok = true;
    Node n;
    for (char ch : t) if (ch < 0) ok = false;
    if (ok) { try { n = Reader(t).all(); } catch (const Reject&) { ok = false; } }
    if (ok && (!tameNode(n, Env{}) || (contains(n, [](const Node& k) { return k.op == 'n' && k.value > 1e6L; }) && contains(n, [](const Node& k) { return k.op == '^' || k.op == 'f'; })))) { c.count("skipped"); return; }
    /* decimal exponents beyond the range of a double */
    for (size_t k = 1, n = 0; k + 1 < t.size(); ++k)
        if (lower(t.substr(k, 1)) == "e" && (isdigit((unsigned char)t[k - 1]) || t[k - 1] == '.')) {
            for (n = k + 1; n < t.size() && (t[n] == '+' || t[n] == '-'); ++n) {}
            const size_t b = n;
            while (n < t.size() && isdigit((unsigned char)t[n])) ++n;
            if (n - b > 2) { c.count("skipped"); return; }
        }
    if (!ok) {
        /* what precedes the offending character is evaluated nevertheless: keep that small, too */
        unsigned run = 0, longest = 0;
        for (char ch : t) { run = isdigit((unsigned char)ch) ? run + 1 : 0; longest = std::max(longest, run); }
        if ((longest > 2 || std::count(t.begin(), t.end(), '^') > 1) && t.find('^') != std::string::npos) { c.count("skipped"); return; }
        bool scientific = false;
        for (size_t k = 0; k + 1 < t.size(); ++k) scientific = scientific || ((isdigit((unsigned char)t[k]) || t[k] == '.') && lower(t.substr(k + 1, 1)) == "e");
        if (scientific && t.find('^') != std::string::npos) { c.count("skipped"); return; }
        if (longest > 6 && t.find('(') != std::string::npos) { c.count("skipped"); return; }
    }
    if (getenv("HARNESS_SHOW")) { std::cerr << "text '" << shown << "' " << ok << std::endl; }
    const auto res = tsym::parse(t);
    c.count("parsed");
    if (ok != (bool)res) c.fail("text '" + shown + "' must be " + (ok ? "accepted" : "rejected"));
    if (!ok) { c.count("compared"); return; }
    for (auto& e : c.envs) for (const auto& s : symbols) { std::string k; for (char ch : s) if (ch != '{' && ch != '}') k += ch; const bool flip = r.chance(20); const ld v = 0.2L + 2 * r.unit(); e.val[k] = flip ? -v : v; }
    /* the atan2 of numbers without quadrant increment is the known finding of another property */
    if (lower(t).find("atan2") != std::string::npos) { c.count("skipped"); return; }
    c.same("text '" + shown + "'", [&](const Env& e) { return value(n, e); }, *res, 1e-9L, true);
}
void printed(Ctx& c)
{
    Rng& r = c.rng;
    Gen g(r);
    g.posSyms = false; g.trig = r.chance(60); g.atan2 = r.chance(30);
    const Var u = g.good(1 + (int)r.below(4), 60);
    std::ostringstream o;
    tsym::PlaintextPrintEngine engine(o, tsym::PlaintextPrintEngine::CharSet::ASCII);
    tsym::print(engine, u);
    const auto back = tsym::parse(o.str());
    if (!back) c.fail("printed text '" + o.str() + "' of " + str(u) + " is rejected");
    c.count("printed");
    c.same("text '" + o.str() + "' printed for " + str(u) + ", parsed,", [&](const Env& e) { return eval(u, e); }, *back, 0, true);
    /* also by the independent reader */
    try {
        const Node n = Reader(o.str()).all();
        for (const auto& e : c.envs) if (compare(eval(u, e), value(n, e), 1e-9L) == Cmp::DIFFER) c.fail("printed text '" + o.str() + "' of " + str(u) + " has another value");
    } catch (const Reject&) { c.fail("printed text '" + o.str() + "' of " + str(u) + " doesn't follow the syntax"); }
}
/* names with subscripts */
void names(Ctx& c)
{
    Rng& r = c.rng;
    const std::string s = r.pick(symbols), t = r.pick(symbols);
    const auto u = tsym::parse(s), v = tsym::parse(t);
    if (!u || !v || u->type() != T::SYMBOL || v->type() != T::SYMBOL) c.fail("'" + s + "' or '" + t + "' isn't a symbol");
    if ((*u == *v) != (s == t)) c.fail("symbols '" + s + "' and '" + t + "' are confused");
    std::ostringstream o;
    tsym::PlaintextPrintEngine engine(o, tsym::PlaintextPrintEngine::CharSet::ASCII);
    tsym::print(engine, *u);
    const auto back = tsym::parse(o.str());
    if (!back || !(*back == *u)) c.fail("symbol '" + s + "' is printed as '" + o.str() + "'");
    if (!(Var(s) == *u)) c.fail("variable created from '" + s + "'");
    c.count("compared");
}
Reg r1("C20", "text", texts), r2("C20", "printed", printed), r3("C20", "text", texts), r4("C20", "names", names);
}
