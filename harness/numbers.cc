// Replays the number operators of /repo against exact oracles over a set of
// boundary values, all overloads (copying, moving, in place) and type mixtures.
#include "number.hh"
#include <boost/multiprecision/cpp_int.hpp>
#include <cstdio>
#include <random>
#include <sstream>
#include <vector>

using BI = boost::multiprecision::cpp_int;
using BQ = boost::multiprecision::cpp_rational;

static long cases = 0, fails = 0;

static std::string str(BI const &a) { return a.str(); }
static std::string str(BQ const &a) {
    auto n = numerator(a), d = denominator(a);
    return d == 1 ? n.str() : n.str() + "/" + d.str();
}
template <class T> std::string show(T const &x) {
    std::ostringstream o;
    o << x;
    return o.str();
}
struct Q2 {
    BQ c, k;
};
static std::string str(Q2 const &q) { return "(" + str(q.c) + "," + str(q.k) + ")"; }
static int sgn(BQ const &q) { return q < 0 ? -1 : (q > 0 ? 1 : 0); }
static int cmp(Q2 const &a, Q2 const &b) {
    BQ c = a.c - b.c;
    if (c != 0) { return sgn(c); }
    return sgn(a.k - b.k);
}

static void fail(std::string const &what, std::string const &a, std::string const &b, std::string const &got,
                 std::string const &want) {
    if (++fails <= 20) {
        printf("{\"what\": \"%s\", \"a\": \"%s\", \"b\": \"%s\", \"got\": \"%s\", \"want\": \"%s\"}\n", what.c_str(),
               a.c_str(), b.c_str(), got.c_str(), want.c_str());
    }
}

// reading numbers back without the printing code under test
static BI val(Integer const &a) {
    char *s = fmpz_get_str(nullptr, 10, &a.impl());
    BI r(s);
    flint_free(s);
    return r;
}
static bool canon(Rational const &a) {
    BI n = val(a.num()), d = val(a.den());
    return d > 0 && gcd(abs(n), d) == 1;
}
static BQ val(Rational const &a) { return BQ(val(a.num()), val(a.den())); }
static Q2 split(RationalQ const &a);

// access to the parts of epsilon numbers through their operators only
static Rational part(RationalQ const &a, bool k) {
    static_assert(sizeof(RationalQ) == 2 * sizeof(Rational), "layout");
    return reinterpret_cast<Rational const *>(&a)[k ? 1 : 0];
}
static Q2 split(RationalQ const &a) { return {val(part(a, false)), val(part(a, true))}; }
static bool canon(RationalQ const &a) { return canon(part(a, false)) && canon(part(a, true)); }
static bool canon(Integer const &) { return true; }

static Q2 embed(long a) { return {BQ(a), 0}; }
static Q2 embed(Integer const &a) { return {BQ(val(a)), 0}; }
static Q2 embed(Rational const &a) { return {val(a), 0}; }
static Q2 embed(RationalQ const &a) { return split(a); }

static std::vector<BI> ints;
static std::vector<BQ> rats;
static Integer mk(BI const &x) { return Integer(x.str().c_str(), 10); }
static Rational mk(BQ const &x) { return Rational(mk(BI(numerator(x))), mk(BI(denominator(x)))); }

template <class T> void expect(std::string const &what, Q2 const &a, Q2 const &b, T const &got, Q2 const &want) {
    ++cases;
    Q2 g = embed(got);
    if (g.c != want.c || g.k != want.k) {
        fail(what, str(a), str(b), str(g), str(want));
    } else if (!canon(got)) {
        fail(what + ": not in lowest terms", str(a), str(b), str(g), str(want));
    }
}
template <class T> void same(std::string const &what, T const &x, Q2 const &want, Q2 const &a, Q2 const &b) {
    ++cases;
    Q2 g = embed(x);
    if (g.c != want.c || g.k != want.k) {
        fail(what + ": operand changed", str(a), str(b), str(g), str(want));
    }
}
template <class A, class B> void comparisons(std::string const &t, A const &a, B const &b) {
    Q2 x = embed(a), y = embed(b);
    int c = cmp(x, y);
    auto chk = [&](char const *n, int got, int want) {
        ++cases;
        if (got != want) {
            fail(t + " " + n, str(x), str(y), std::to_string(got), std::to_string(want));
        }
    };
    int r = compare(a, b);
    chk("compare", r < 0 ? -1 : (r > 0 ? 1 : 0), c);
    chk("<", a < b, c < 0);
    chk("<=", a <= b, c <= 0);
    chk(">", a > b, c > 0);
    chk(">=", a >= b, c >= 0);
    chk("==", a == b, c == 0);
    chk("!=", a != b, c != 0);
}
#define ARITH(NAME, OP, FORM)                                                                                          \
    template <class A, class B> void NAME(std::string const &t, A const &a, B const &b) {                              \
        Q2 x = embed(a), y = embed(b), w = FORM;                                                                       \
        expect(t + " " #OP, x, y, a OP b, w);                                                                          \
        same(t + " " #OP, a, x, x, y);                                                                                 \
        same(t + " " #OP, b, y, x, y);                                                                                 \
        {                                                                                                              \
            A c{a};                                                                                                    \
            expect(t + " &&" #OP, x, y, std::move(c) OP b, w);                                                         \
            same(t + " &&" #OP, b, y, x, y);                                                                           \
        }                                                                                                              \
        {                                                                                                              \
            A c{a};                                                                                                    \
            A &r = (c OP## = b);                                                                                       \
            expect(t + " " #OP "=", x, y, c, w);                                                                       \
            if (&r != &c) {                                                                                            \
                fail(t + " " #OP "= result", str(x), str(y), "", "");                                                  \
            }                                                                                                          \
            same(t + " " #OP "=", b, y, x, y);                                                                         \
        }                                                                                                              \
    }
ARITH(plus, +, (Q2{x.c + y.c, x.k + y.k}))
ARITH(minus, -, (Q2{x.c - y.c, x.k - y.k}))
ARITH(times, *, (Q2{x.c * y.c, x.k * y.c}))
ARITH(over, /, (Q2{x.c / y.c, x.k / y.c}))

template <class A> void unary(std::string const &t, A const &a) {
    Q2 x = embed(a), w{-x.c, -x.k};
    expect(t + " unary -", x, x, -a, w);
    same(t + " unary -", a, x, x, x);
    A c{a};
    expect(t + " copy", x, x, c, x);
    A d{std::move(c)};
    expect(t + " move", x, x, d, x);
    A e;
    e = a;
    expect(t + " assign", x, x, e, x);
    e = static_cast<A const &>(e);
    expect(t + " self assign", x, x, e, x);
    A f;
    f = std::move(e);
    expect(t + " move assign", x, x, f, x);
    A g{f};
    A z;
    g.swap(z);
    expect(t + " swap", x, x, z, x);
    expect(t + " swap", x, x, g, Q2{0, 0});
    f += f;
    expect(t + " x += x", x, x, f, Q2{x.c + x.c, x.k + x.k});
    d -= d;
    expect(t + " x -= x", x, x, d, Q2{0, 0});
}
template <class A> void negate(std::string const &t, A const &a) {
    Q2 x = embed(a), w{-x.c, -x.k};
    A c{a};
    expect(t + " neg", x, x, c.neg(), w);
}

int main(int argc, char **argv) {
    unsigned seed = argc > 1 ? atoi(argv[1]) : 1;
    int level = argc > 2 ? atoi(argv[2]) : 1;
    std::mt19937 rng(seed);
    BI one = 1;
    for (int s : {0, 1, 2, 3, 6, 7, 12}) {
        ints.emplace_back(s);
        if (s) { ints.emplace_back(-s); }
    }
    for (int e : {31, 32, 61, 62, 63, 64, 127, 200}) {
        for (int d : {-1, 0, 1}) {
            if (level < 2 && d && (e == 127 || e == 200 || e == 61 || e == 32)) { continue; }
            ints.push_back((one << e) + d);
            ints.push_back(-(one << e) + d);
        }
    }
    for (int i = 0; i < 4 * level; ++i) {
        BI x = 0;
        for (int j = 0; j < 1 + int(rng() % 4); ++j) { x = (x << 32) + rng(); }
        ints.push_back(rng() % 2 ? x : BI(-x));
    }
    std::vector<long> longs{0, 1, -1, 2, -3, 6, 12, 1L << 31, -(1L << 31), (1L << 62), -(1L << 62) - 1,
                            std::numeric_limits<long>::max(), std::numeric_limits<long>::min()};
    for (auto const &n : ints) {
        for (auto const &d : ints) {
            if (d != 0 && rng() % (level > 1 ? 12 : 40) == 0) { rats.emplace_back(n, d); }
        }
    }
    for (int n = -3; n <= 3; ++n) {
        for (int d = 1; d <= 3; ++d) { rats.emplace_back(n, d); }
    }
    std::vector<RationalQ> qs;
    for (auto const &c : rats) {
        qs.emplace_back(mk(c), mk(BQ(0)));
        qs.emplace_back(mk(c), mk(rats[rng() % rats.size()]));
    }
    // equal rational parts with different epsilon parts
    for (int i = -1; i <= 1; ++i) {
        qs.emplace_back(mk(BQ(1, 2)), mk(BQ(i, 3)));
        qs.emplace_back(mk(BQ(one << 100)), mk(BQ(i)));
    }
    // integers
    for (auto const &x : ints) {
        Integer a = mk(x);
        unary("Integer", a);
        negate("Integer", a);
        auto o = a.as_int();
        ++cases;
        bool fits = x >= -(one << 31) && x < (one << 31);
        if (o.has_value() != fits || (fits && BI(*o) != x)) {
            fail("Integer as_int", str(x), "", o ? std::to_string(*o) : "none", fits ? str(x) : "none");
        }
        for (auto l : longs) {
            comparisons("Integer,long", a, l);
            plus("Integer,long", a, l);
            minus("Integer,long", a, l);
            times("Integer,long", a, l);
        }
        for (auto const &y : ints) {
            Integer b = mk(y);
            comparisons("Integer,Integer", a, b);
            plus("Integer,Integer", a, b);
            minus("Integer,Integer", a, b);
            times("Integer,Integer", a, b);
            Q2 xa = embed(a), xb = embed(b);
            expect("gcd", xa, xb, gcd(a, b), Q2{BQ(gcd(abs(x), abs(y))), 0});
            if (x != 0 || y != 0) {
                auto [g, p, q] = gcd_div(a, b);
                BI h = gcd(abs(x), abs(y));
                expect("gcd_div gcd", xa, xb, g, Q2{BQ(h), 0});
                expect("gcd_div first", xa, xb, p, Q2{BQ(x / h), 0});
                expect("gcd_div second", xa, xb, q, Q2{BQ(y / h), 0});
            }
            same("gcd", a, xa, xa, xb);
            same("gcd", b, xb, xa, xb);
            Integer c{b};
            expect("add_mul", xa, xb, c.add_mul(a, b), Q2{BQ(y + x * y), 0});
            expect("add_mul &&", xa, xb, Integer{b}.add_mul(a, b), Q2{BQ(y + x * y), 0});
            if (y != 0) {
                Integer d = mk(BI(x * y));
                expect("divide", xa, xb, d.divide(b), Q2{BQ(x), 0});
                expect("Rational(Integer, Integer)", xa, xb, Rational(a, b), Q2{BQ(x, y), 0});
            }
        }
    }
    for (auto l : longs) {
        expect("Integer(long)", embed(l), embed(l), Integer{l}, embed(l));
        expect("Rational(long)", embed(l), embed(l), Rational{l}, embed(l));
    }
    // rationals
    size_t skip = 0;
    for (auto const &x : rats) {
        Rational a = mk(x);
        unary("Rational", a);
        negate("Rational", a);
        expect("Rational(text)", embed(a), embed(a), Rational(str(x), 10), Q2{x, 0});
        for (auto l : longs) {
            comparisons("Rational,long", a, l);
            plus("Rational,long", a, l);
            minus("Rational,long", a, l);
            times("Rational,long", a, l);
            if (l) { over("Rational,long", a, l); }
        }
        for (auto const &y : ints) {
            Integer b = mk(y);
            comparisons("Rational,Integer", a, b);
            plus("Rational,Integer", a, b);
            minus("Rational,Integer", a, b);
            times("Rational,Integer", a, b);
            if (y != 0) { over("Rational,Integer", a, b); }
        }
        for (auto const &y : rats) {
            if (++skip % 3 && level < 2) { continue; }
            Rational b = mk(y);
            comparisons("Rational,Rational", a, b);
            plus("Rational,Rational", a, b);
            minus("Rational,Rational", a, b);
            times("Rational,Rational", a, b);
            if (y != 0) { over("Rational,Rational", a, b); }
        }
    }
    // epsilon numbers
    for (auto const &a : qs) {
        Q2 x = embed(a);
        unary("RationalQ", a);
        ++cases;
        if (a.is_rational() != (x.k == 0)) { fail("is_rational", str(x), "", "", ""); }
        try {
            Q2 r = embed(a.as_rational());
            if (x.k != 0 || r.c != x.c) { fail("as_rational", str(x), "", str(r), str(x)); }
        } catch (std::runtime_error const &) {
            if (x.k == 0) { fail("as_rational", str(x), "", "exception", str(x)); }
        }
        for (auto l : longs) {
            comparisons("RationalQ,long", a, l);
            plus("RationalQ,long", a, l);
            minus("RationalQ,long", a, l);
            times("RationalQ,long", a, l);
            if (l) { over("RationalQ,long", a, l); }
        }
        for (auto const &y : ints) {
            if (++skip % 4) { continue; }
            Integer b = mk(y);
            comparisons("RationalQ,Integer", a, b);
            plus("RationalQ,Integer", a, b);
            minus("RationalQ,Integer", a, b);
            times("RationalQ,Integer", a, b);
            if (y != 0) { over("RationalQ,Integer", a, b); }
        }
        for (auto const &y : rats) {
            if (++skip % 5 && BQ(x.c) != y) { continue; }
            Rational b = mk(y);
            comparisons("RationalQ,Rational", a, b);
            plus("RationalQ,Rational", a, b);
            minus("RationalQ,Rational", a, b);
            times("RationalQ,Rational", a, b);
            if (y != 0) { over("RationalQ,Rational", a, b); }
        }
        for (auto const &b : qs) {
            if (++skip % 7 && embed(b).c != x.c) { continue; }
            comparisons("RationalQ,RationalQ", a, b);
            plus("RationalQ,RationalQ", a, b);
            minus("RationalQ,RationalQ", a, b);
        }
    }
    printf("{\"cases\": %ld, \"bound\": \"%zu integers up to 2^200, %zu fractions, %zu epsilon numbers, all overloads\", "
           "\"samples\": [\"Integer %s < Integer %s\", \"RationalQ %s + RationalQ %s\"]}\n",
           cases, ints.size(), rats.size(), qs.size(), str(ints[20]).c_str(), str(ints[21]).c_str(),
           str(embed(qs[3])).c_str(), str(embed(qs[5])).c_str());
    return fails ? 1 : 0;
}
