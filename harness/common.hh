// Shared by the replay harnesses: exact oracle numbers, reporting, crashes.
#pragma once
#include "number.hh"
#include <boost/multiprecision/cpp_int.hpp>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <functional>
#include <random>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

using BI = boost::multiprecision::cpp_int;
using BQ = boost::multiprecision::cpp_rational;

static long cases = 0, fails = 0;
static std::string log_; // history leading to the current state

inline std::string str(BI const &a) { return a.str(); }
inline std::string str(BQ const &a) {
    auto n = numerator(a), d = denominator(a);
    return d == 1 ? n.str() : n.str() + "/" + d.str();
}
inline BI val(Integer const &a) {
    char *s = fmpz_get_str(nullptr, 10, &a.impl());
    BI r(s);
    flint_free(s);
    return r;
}
inline BQ val(Rational const &a) { return BQ(val(a.num()), val(a.den())); }
inline Integer mk(BI const &x) {
    auto s = x.str();
    Integer r;
    fmpz_set_str(&r.impl(), s.c_str(), 10);
    return r;
}
inline Rational mk(BQ const &x) { return Rational{mk(BI(numerator(x))), mk(BI(denominator(x)))}; }
inline BQ div(BI const &a, BI const &b) { return b < 0 ? BQ(BI(-a), BI(-b)) : BQ(a, b); }
struct Q2 {
    BQ c{0}, k{0};
};
inline bool operator==(Q2 const &a, Q2 const &b) { return a.c == b.c && a.k == b.k; }
inline bool operator!=(Q2 const &a, Q2 const &b) { return !(a == b); }
inline bool operator<(Q2 const &a, Q2 const &b) { return a.c < b.c || (a.c == b.c && a.k < b.k); }
inline bool operator<=(Q2 const &a, Q2 const &b) { return !(b < a); }
inline Q2 operator+(Q2 const &a, Q2 const &b) { return {BQ(a.c + b.c), BQ(a.k + b.k)}; }
inline Q2 operator-(Q2 const &a, Q2 const &b) { return {BQ(a.c - b.c), BQ(a.k - b.k)}; }
inline Q2 operator*(Q2 const &a, BQ const &b) { return {BQ(a.c * b), BQ(a.k * b)}; }
inline std::string str(Q2 const &q) {
    return q.k == 0 ? str(q.c) : "(" + str(q.c) + "," + str(q.k) + ")";
}
inline Q2 val2(Rational const &a) { return {val(a), 0}; }
inline Q2 val2(RationalQ const &a) {
    static_assert(sizeof(RationalQ) == 2 * sizeof(Rational), "layout");
    auto p = reinterpret_cast<Rational const *>(&a);
    return {val(p[0]), val(p[1])};
}
inline int sgn(BQ const &q) { return q < 0 ? -1 : (q > 0 ? 1 : 0); }

inline std::string esc(std::string const &s) {
    std::string r;
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; }
        if (c == '\n') { r += "\\n"; }
        else if (static_cast<unsigned char>(c) >= 32) { r += c; }
    }
    return r;
}
inline void fail(std::string const &what, std::string const &extra = "") {
    ++fails;
    if (fails <= 20) {
        printf("{\"what\": \"%s\", \"history\": \"%s\"%s}\n", esc(what).c_str(),
               esc(log_.size() > 6000 ? log_.substr(log_.size() - 6000) : log_).c_str(), extra.c_str());
        fflush(stdout);
    }
}
inline void on_crash(int sig) {
    static char buf[9000];
    auto h = log_.size() > 6000 ? log_.substr(log_.size() - 6000) : log_;
    int n = snprintf(buf, sizeof buf, "\n{\"what\": \"the real code %s (signal %d)\", \"history\": \"%s\"}\n",
                     sig == SIGALRM ? "does not terminate" : "crashes", sig, esc(h).c_str());
    if (write(1, buf, n)) {}
    _exit(3);
}
inline void guard(int seconds) {
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGALRM}) { signal(s, on_crash); }
    alarm(seconds);
}
