// Runs the whole system (parsing, preparation, solving, reporting, options)
// with the real clingo on generated programs whose meaning is known exactly.
#include "common.hh"
#include "lp.hh"
#include <algorithm>
#include <atomic>
#include <deque>
#include <cmath>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <set>
#include <shared_mutex>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <clingo.hh>
#define private public
#include "solving.hh"
#undef private
#define private public
#include "clingo-lpx.cc"
#undef private
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

static std::mt19937_64 rng;
static unsigned rnd(unsigned n) { return static_cast<unsigned>(rng() % n); }
static std::string prop;
static std::string appname;
static void bad(char const *id, std::string const &what) {
    if (prop == id || prop == "all") { fail((prop == "all" ? std::string(id) + ": " : std::string()) + what); }
}
static bool want(std::initializer_list<char const *> ids) {
    for (auto i : ids) {
        if (prop == i || prop == "all") { return true; }
    }
    return false;
}

// ---------------------------------------------------------------- terms
using Lin = std::map<std::string, BQ>; // "" is the constant
static void addto(Lin &a, Lin const &b, BQ const &f) {
    for (auto &[v, c] : b) {
        a[v] += c * f;
    }
    for (auto it = a.begin(); it != a.end();) {
        it = it->second == 0 ? a.erase(it) : std::next(it);
    }
}
static bool isconst(Lin const &l) { return l.empty() || (l.size() == 1 && l.count("") > 0); }
static BQ cst(Lin const &l) {
    auto it = l.find("");
    return it == l.end() ? BQ(0) : it->second;
}
enum Ok { Good, Bad, Either };
struct Term_ {
    std::string txt;
    int prec; // of the outermost operator (9: atomic)
    Lin lin;
    Ok ok{Good};
    bool syn{true};   // syntactically constant (no variable occurs)
    std::string canon{}; // text with all parentheses
    std::string key() const { return canon.empty() ? txt : canon; }
};
static Ok comb(Ok a, Ok b) { return a == Bad || b == Bad ? Bad : (a == Either || b == Either ? Either : Good); }

static std::vector<std::pair<std::string, std::string>> const vars_ = { // text, symbol
    {"x", "x"}, {"y", "y"}, {"z", "z"}, {"f(1)", "f(1)"}, {"f(a,b)", "f(a,b)"}, {"(a,1)", "(a,1)"},
    {"\"abc\"", "\"abc\""}, {"f(3-2)", "f(1)"}, {"f(-a)", "f(-a)"}, {"f(\"2\")", "f(\"2\")"}, {"f(6/3*2)", "f(4)"},
    {"g((a,f(2*3)))", "g((a,f(6)))"}, {"\"1.\"", "\"1.\""}, {"\"\"", "\"\""}, {"\"1.5x\"", "\"1.5x\""}, {"f(- -a)", "f(a)"}, {"f(-1)", "f(-1)"},
    {"\"a\\\"b\"", "\"a\\\"b\""}, {"f(-f(a))", "f(-f(a))"}, {"\"-\"", "\"-\""}, {"\".5\"", "\".5\""}, {"(a,)", "(a,)"}, {"()", "()"},
};
static std::vector<std::string> const badvars = {"f(1/2)", "f(a+1)", "f(1/0)", "f(1/(2-2))", "f(-\"a\")", "f(2*a)", "f(-(a,b))",
                                                 "f(a/2)", "f(99999*99999)", "f(1-a)", "f(1/0-1)"};

static Term_ number() {
    Term_ t{"", 9, {}, Good, true};
    BQ v;
    switch (rnd(7)) {
        case 0: case 1: case 2: v = BQ(rnd(10)); t.txt = str(v); break;
        case 3: v = rnd(2) ? BQ(2147483647) : BQ(0); t.txt = str(v); break;
        case 4: { // decimal
            std::string a = std::to_string(rnd(50)), b = std::to_string(rnd(1000));
            if (rnd(3) == 0) { b += "00"; }
            if (rnd(3) == 0) { b = "0" + b; }
            if (rnd(5) == 0) { a = "0" + a; }
            bool neg = rnd(3) == 0;
            BI d = 1;
            for (size_t i = 0; i < b.size(); ++i) { d *= 10; }
            auto nz = [](std::string s) { auto p = s.find_first_not_of('0'); return p == std::string::npos ? std::string("0") : s.substr(p); };
            v = BQ(BI(nz(a))) + BQ(BI(nz(b)), d);
            if (neg) { v = -v; }
            t.txt = "\"" + std::string(neg ? "-" : "") + a + "." + b + "\"";
            break;
        }
        case 5: { // large
            std::string a = "1";
            for (unsigned i = 0, n = 5 + rnd(30); i < n; ++i) { a += static_cast<char>('0' + rnd(10)); }
            bool neg = rnd(2) == 0;
            v = BQ(BI(a));
            if (neg) { v = -v; }
            t.txt = "\"" + std::string(neg ? "-" : "") + a + "\"";
            break;
        }
        default: {
            bool neg = rnd(2) == 0;
            unsigned n = rnd(20);
            v = neg ? -BQ(n) : BQ(n);
            t.txt = "\"" + std::string(neg ? "-" : "") + std::to_string(n) + "\"";
        }
    }
    if (v != 0) { t.lin[""] = v; }
    return t;
}
static unsigned nvars = 3;
static bool exotic = false; // malformed and unusual terms
static Term_ variable() {
    if (exotic && rnd(25) == 0) {
        return {badvars[rnd(badvars.size())], 9, {}, Bad, false};
    }
    auto &v = vars_[exotic ? rnd(vars_.size()) : rnd(nvars)];
    return {v.first, 9, {{v.second, BQ(1)}}, Good, false};
}
static std::string wrap(Term_ const &t, int min) {
    return t.prec < min || (t.prec < 9 && rnd(4) == 0) ? "(" + t.txt + ")" : t.txt;
}
static Term_ term(int depth) {
    if (depth == 0 || rnd(4) == 0) { return rnd(3) == 0 ? number() : variable(); }
    switch (rnd(exotic ? 6 : 5)) {
        case 0: case 1: { // + and -
            bool minus = rnd(2);
            auto a = term(depth - 1), b = term(depth - 1);
            Term_ r{wrap(a, 1) + (minus ? " - " : " + ") + wrap(b, 2), 1, a.lin, comb(a.ok, b.ok), a.syn && b.syn};
            addto(r.lin, b.lin, minus ? BQ(-1) : BQ(1));
            r.canon = "(" + a.key() + (minus ? "-" : "+") + b.key() + ")";
            return r;
        }
        case 2: { // negation
            auto a = term(depth - 1);
            Term_ r{"- " + wrap(a, 3), 3, {}, a.ok, a.syn};
            addto(r.lin, a.lin, BQ(-1));
            r.canon = "(-" + a.key() + ")";
            return r;
        }
        case 3: { // product
            auto a = term(depth - 1);
            auto b = exotic && rnd(6) == 0 ? term(depth - 1) : number();
            if (rnd(2)) { std::swap(a, b); }
            Term_ r{wrap(a, 2) + " * " + wrap(b, 3), 2, {}, comb(a.ok, b.ok), a.syn && b.syn};
            if (r.ok != Bad && !a.syn && !b.syn) { // variables on both sides
                r.ok = isconst(a.lin) || isconst(b.lin) ? Either : Bad;
            }
            if (isconst(a.lin)) { addto(r.lin, b.lin, cst(a.lin)); }
            else { addto(r.lin, a.lin, cst(b.lin)); }
            r.canon = "(" + a.key() + "*" + b.key() + ")";
            return r;
        }
        case 4: { // quotient
            auto a = term(depth - 1), b = exotic && rnd(5) == 0 ? term(depth - 1) : number();
            Term_ r{wrap(a, 2) + " / " + wrap(b, 3), 2, {}, comb(a.ok, b.ok), a.syn && b.syn};
            if (!b.syn) { r.ok = r.ok != Bad && isconst(b.lin) && cst(b.lin) != 0 ? Either : Bad; }
            if (isconst(b.lin) && cst(b.lin) != 0) { addto(r.lin, a.lin, 1 / cst(b.lin)); }
            else if (b.syn && b.ok != Bad) { r.ok = Bad; }
            r.canon = "(" + a.key() + "/" + b.key() + ")";
            return r;
        }
        default: { // nested evaluation and ill-formed shapes
            auto a = term(depth - 1);
            if (rnd(4) == 0) { return {"f(" + a.txt + ") * " + "g(" + a.txt + ")", 2, {}, Bad, false}; }
            return a;
        }
    }
}

// ---------------------------------------------------------------- atoms
struct Cond {
    std::string txt;
    unsigned pos{0}, neg{0}; // masks over the choice atoms
    bool holds(unsigned m) const { return (m & pos) == pos && (m & neg) == 0; }
};
struct Elem {
    Lin lin;
    Cond cond;
    bool conditional{false};
};
struct Lc { // linear constraint lin rel 0
    Lin lin;
    int rel; // 0 <=, 1 >=, 2 =, 3 <, 4 >
};
struct Atom {
    std::string txt;
    std::vector<Elem> elems;   // left side
    Lin rhs;                   // right side
    int rel{0};
    int kind{0};               // 0 constraint, 1 domain, 2 minimize, 3 maximize
    Lin lo, hi;                // domain
    Ok ok{Good};
    unsigned guard{0};         // choice atoms in the body
    std::set<std::string> canon; // terms of the elements
    // equal directives count once
    std::string key() const {
        if (kind < 2) { return txt; }
        std::string r = std::to_string(kind);
        for (auto &c : canon) { r += ";" + c; }
        return r;
    }
};
static char const *relname[] = {"<=", ">=", "=", "<", ">"};
static unsigned nchoice = 3;
static Cond condition() {
    Cond c;
    unsigned n = 1 + rnd(2);
    for (unsigned i = 0; i < n; ++i) {
        unsigned a = rnd(nchoice);
        if ((c.pos | c.neg) & (1U << a)) { continue; }
        bool neg = rnd(3) == 0;
        (neg ? c.neg : c.pos) |= 1U << a;
        c.txt += (c.txt.empty() ? "" : ",") + std::string(neg ? "not c" : "c") + std::to_string(a);
    }
    return c;
}
static void elements(Atom &a, int depth, bool conds) {
    std::vector<std::string> seen;
    unsigned n = 1 + rnd(3);
    if (a.kind == 0 && rnd(12) == 0) { n = 0; }
    for (unsigned i = 0; i < n; ++i) {
        auto t = term(depth);
        Elem e{t.lin, {}, false};
        std::string txt = t.txt;
        if (conds && rnd(3) == 0) {
            e.cond = condition();
            e.conditional = true;
            txt += ":" + e.cond.txt;
        }
        // elements form a set: equal terms with equal conditions count once
        if (std::find(seen.begin(), seen.end(), t.key()) != seen.end()) { continue; }
        seen.push_back(t.key());
        a.canon.insert(t.key());
        a.ok = comb(a.ok, t.ok);
        a.txt += (a.elems.empty() ? " " : "; ") + txt;
        a.elems.push_back(e);
    }
}
static Atom atom(bool strict, int depth, bool conds) {
    Atom a;
    unsigned k = rnd(8);
    int rels = strict ? 5 : 3;
    if (k < 5) {
        a.txt = "&sum{";
        elements(a, depth, conds);
        a.rel = static_cast<int>(rnd(rels));
        auto g = rnd(3) == 0 ? term(depth) : number();
        a.txt += " } " + std::string(relname[a.rel]) + " " + g.txt;
        a.rhs = g.lin;
        a.ok = comb(a.ok, g.ok);
    }
    else if (k == 5) {
        // difference: each side is a variable or an evaluated number
        auto l = rnd(6) == 0 ? number() : variable(), r = rnd(6) == 0 ? number() : variable();
        auto g = rnd(4) == 0 ? term(depth) : number();
        a.rel = static_cast<int>(rnd(rels));
        a.txt = "&diff{ " + l.txt + " - " + r.txt + " } " + relname[a.rel] + " " + g.txt;
        Elem e;
        addto(e.lin, l.lin, BQ(1));
        addto(e.lin, r.lin, BQ(-1));
        a.elems.push_back(e);
        a.rhs = g.lin;
        a.ok = comb(comb(l.ok, r.ok), g.ok);
        if (exotic && rnd(8) == 0) {
            a.txt = "&diff{ " + l.txt + " } " + relname[a.rel] + " " + g.txt;
            a.ok = Bad;
        }
    }
    else {
        a.kind = 1;
        auto con = [&](int d) -> Term_ {
            Term_ t = number();
            for (int i = 0; i < d; ++i) {
                auto u = number();
                switch (rnd(4)) {
                    case 0: t.txt = wrap(t, 1) + " + " + wrap(u, 2); t.prec = 1; addto(t.lin, u.lin, BQ(1)); break;
                    case 1: t.txt = wrap(t, 1) + " - " + wrap(u, 2); t.prec = 1; addto(t.lin, u.lin, BQ(-1)); break;
                    case 2: { t.txt = wrap(t, 2) + " * " + wrap(u, 3); t.prec = 2; Lin l; addto(l, t.lin, cst(u.lin)); t.lin = l; break; }
                    default:
                        t.txt = wrap(t, 2) + " / " + wrap(u, 3); t.prec = 2;
                        if (cst(u.lin) == 0) { t.ok = Bad; }
                        else { Lin l; addto(l, t.lin, 1 / cst(u.lin)); t.lin = l; }
                }
            }
            return t;
        };
        auto lo = con(rnd(3)), hi = con(rnd(3));
        if (!exotic && cst(hi.lin) < cst(lo.lin)) { std::swap(lo, hi); }
        auto v = variable();
        a.txt = "&dom{ " + wrap(lo, 1) + " .. " + wrap(hi, 1) + " } = " + v.txt;
        a.lo = lo.lin;
        a.hi = hi.lin;
        a.rhs = v.lin;
        a.ok = comb(comb(lo.ok, hi.ok), v.ok);
        if (exotic && rnd(8) == 0) {
            a.txt = "&dom{ " + wrap(lo, 1) + " } = " + v.txt;
            a.ok = Bad;
        }
    }
    return a;
}
static Atom objective(int depth, bool conds) {
    Atom a;
    a.kind = 2 + static_cast<int>(rnd(2));
    a.txt = a.kind == 2 ? "&minimize{" : "&maximize{";
    elements(a, depth, conds);
    a.txt += "}";
    return a;
}
static Lin total(Atom const &a, unsigned m) {
    Lin l;
    for (auto &e : a.elems) {
        if (!e.conditional || e.cond.holds(m)) { addto(l, e.lin, BQ(1)); }
    }
    return l;
}
static std::vector<Lc> meaning(Atom const &a, unsigned m) {
    if (a.kind == 1) {
        Lc x{a.rhs, 1}, y{a.rhs, 0};
        addto(x.lin, a.lo, BQ(-1));
        addto(y.lin, a.hi, BQ(-1));
        return {x, y};
    }
    Lc x{total(a, m), a.rel};
    addto(x.lin, a.rhs, BQ(-1));
    return {x};
}
static bool decide(BQ const &v, int rel) {
    switch (rel) {
        case 0: return v <= 0;
        case 1: return v >= 0;
        case 2: return v == 0;
        case 3: return v < 0;
        default: return v > 0;
    }
}
static int turn(int rel) { return rel == 0 ? 1 : rel == 1 ? 0 : rel == 2 ? 2 : rel == 3 ? 4 : 3; }
// normal form: leading coefficient one; trivially true: nothing
static std::optional<std::pair<Lin, int>> normal(Lc c) {
    Lin l;
    addto(l, c.lin, BQ(1));
    if (isconst(l)) {
        return decide(cst(l), c.rel) ? std::nullopt : std::make_optional(std::make_pair(Lin{{"", BQ(1)}}, 9));
    }
    BQ f = 0;
    for (auto &[v, k] : l) {
        if (!v.empty()) {
            f = k;
            break;
        }
    }
    Lin n;
    addto(n, l, 1 / f);
    return std::make_pair(n, f < 0 ? turn(c.rel) : c.rel);
}
static std::string show(std::set<std::pair<Lin, int>> const &s) {
    std::string r;
    for (auto &[l, rel] : s) {
        r += "[";
        for (auto &[v, k] : l) { r += "+(" + str(k) + ")" + v; }
        r += rel == 9 ? " FALSE]" : std::string(" ") + relname[rel] + " 0]";
    }
    return r;
}

// ---------------------------------------------------------------- C11
static Clingo::Logger quiet = [](Clingo::WarningCode, char const *) {};
static void parsing(bool strict) {
    nchoice = 1 + rnd(3);
    nvars = 3;
    exotic = rnd(2) == 0;
    std::vector<Atom> as;
    unsigned n = rnd(3) == 0 ? 2 : 1;
    int depth = static_cast<int>(rnd(5));
    Ok ok = Good;
    std::set<std::string> texts;
    std::string txt = "{";
    for (unsigned i = 0; i < nchoice; ++i) { txt += (i ? ";c" : "c") + std::to_string(i); }
    txt += "}.\n";
    for (unsigned i = 0; i < n; ++i) {
        auto a = rnd(5) == 0 ? objective(depth, true) : atom(strict, depth, true);
        if (!texts.insert(a.key()).second) { continue; }
        ok = comb(ok, a.ok);
        txt += a.txt + ".\n";
        as.push_back(a);
    }
    // elements written differently may still be equal terms: they count once
    Lin obj0;
    for (auto &a : as) {
        if (a.kind >= 2) {
            for (auto &e : a.elems) {
                if (!e.conditional) { addto(obj0, e.lin, BQ(1) * (a.kind == 2 ? BQ(-1) : BQ(1))); }
            }
        }
    }
    if (ok == Good && cst(obj0) != 0) { ok = Bad; }
    log_ = txt;
    ++cases;
    VarMap vm;
    std::vector<Inequality> iqs;
    std::vector<Term> obj;
    Clingo::Control ctl{{}, quiet, 20};
    std::map<int, std::function<bool(unsigned)>> lits;
    bool rejected = false;
    std::string why;
    try {
        ctl.add("base", {}, (std::string(strict ? THEORY_Q : THEORY) + txt).c_str());
        ctl.ground({{"base", {}}});
    }
    catch (std::exception const &e) {
        if (ok == Good) { bad("C11", "clingo does not accept the text"); }
        return;
    }
    std::map<int, unsigned> choice;
    for (unsigned i = 0; i < nchoice; ++i) {
        auto it = ctl.symbolic_atoms().find(Clingo::Id(("c" + std::to_string(i)).c_str()));
        choice[it->literal()] = 1U << i;
    }
    std::map<int, Cond> conds;
    for (auto &&a : ctl.theory_atoms()) {
        for (auto &&e : a.elements()) {
            if (e.condition().empty()) { continue; }
            Cond c;
            for (auto &&l : e.condition()) {
                if (l > 0) { c.pos |= choice[l]; }
                else { c.neg |= choice[-l]; }
            }
            conds[std::abs(e.condition_id())] = e.condition_id() > 0 ? c : Cond{{}, c.neg, c.pos};
        }
    }
    try {
        evaluate_theory(ctl.theory_atoms(), [](Clingo::literal_t l) { return l; }, vm, iqs, obj);
    }
    catch (std::exception const &e) {
        rejected = true;
        why = e.what();
    }
    if (rejected) {
        if (ok == Good) { bad("C11", "a well-formed linear atom is rejected: " + why); }
        return;
    }
    if (ok == Bad) { return bad("C11", "a malformed or non-linear atom is accepted"); }
    for (unsigned m = 0; m < (1U << nchoice); ++m) {
        std::set<std::pair<Lin, int>> expect, got;
        for (auto &a : as) {
            if (a.kind >= 2) { continue; }
            for (auto &c : meaning(a, m)) {
                if (auto r = normal(c)) { expect.insert(*r); }
            }
        }
        auto name = [](Clingo::Symbol s) {
            return s.type() == Clingo::SymbolType::Number ? "#" + s.to_string() : s.to_string();
        };
        std::vector<Lc> act;
        for (auto &q : iqs) {
            auto it = conds.find(std::abs(q.lit));
            if (it != conds.end() && it->second.holds(m) != (q.lit > 0)) { continue; }
            Lc c{{}, static_cast<int>(q.rel == Relation::LessEqual ? 0 : q.rel == Relation::GreaterEqual ? 1 :
                                      q.rel == Relation::Equal ? 2 : q.rel == Relation::Less ? 3 : 4)};
            for (auto &t : q.lhs) { addto(c.lin, {{name(t.var), val(t.co)}}, BQ(1)); }
            addto(c.lin, {{"", val(q.rhs)}}, BQ(-1));
            act.push_back(c);
        }
        Lin o;
        for (auto &t : obj) { addto(o, {{name(t.var), val(t.co)}}, BQ(1)); }
        // eliminate the auxiliary variables by their defining equations
        for (bool again = true; again;) {
            again = false;
            for (size_t i = 0; i < act.size() && !again; ++i) {
                if (act[i].rel != 2) { continue; }
                for (auto &[v, k] : act[i].lin) {
                    if (v[0] != '#') { continue; }
                    Lin def = act[i].lin;
                    BQ f = k;
                    std::string w = v;
                    act.erase(act.begin() + static_cast<long>(i));
                    for (auto &c : act) {
                        if (auto jt = c.lin.find(w); jt != c.lin.end()) { addto(c.lin, def, -jt->second / f); }
                    }
                    if (auto jt = o.find(w); jt != o.end()) { addto(o, def, -jt->second / f); }
                    again = true;
                    break;
                }
            }
        }
        for (auto &c : act) {
            if (auto r = normal(c)) { got.insert(*r); }
        }
        if (got != expect) {
            return bad("C11", "the atoms mean " + show(expect) + " but are turned into " + show(got) +
                              " (choice atoms " + std::to_string(m) + ")");
        }
        Lin eo;
        for (auto &a : as) {
            if (a.kind >= 2) { addto(eo, total(a, m), a.kind == 2 ? BQ(-1) : BQ(1)); }
        }
        if (eo != o) {
            return bad("C11", "the objective means " + show({{eo, 2}}) + " but is turned into " + show({{o, 2}}) +
                              " (choice atoms " + std::to_string(m) + ")");
        }
    }
}

// ---------------------------------------------------------------- numbers as text
static std::optional<BQ> rational(std::string const &s, bool &canonical) {
    auto p = s.find('/');
    std::string a = s.substr(0, p), b = p == std::string::npos ? "1" : s.substr(p + 1);
    auto isint = [&](std::string const &x, bool sign) {
        size_t i = sign && !x.empty() && x[0] == '-' ? 1 : 0;
        if (i == x.size()) { return false; }
        if (x[i] == '0' && (x.size() > i + 1 || i == 1)) { canonical = false; }
        for (; i < x.size(); ++i) {
            if (x[i] < '0' || x[i] > '9') { return false; }
        }
        return true;
    };
    if (!isint(a, true) || !isint(b, false)) { return std::nullopt; }
    BI n(a), d(b);
    if (d == 0) { return std::nullopt; }
    if (p != std::string::npos && (d == 1 || gcd(n < 0 ? BI(-n) : n, d) != 1)) { canonical = false; }
    return BQ(n, d);
}
// an integer or reduced fraction, with the epsilon part when there is one:
// c, c+k*e, c+e, k*e, e
static std::optional<Q2> number(std::string s, bool &canonical) {
    canonical = true;
    if (s.empty() || s.back() != 'e') {
        auto r = rational(s, canonical);
        return r ? std::make_optional(Q2{*r, 0}) : std::nullopt;
    }
    s.pop_back();
    BQ c = 0;
    auto p = s.find('+');
    if (p != std::string::npos) {
        auto r = rational(s.substr(0, p), canonical);
        if (!r) { return std::nullopt; }
        if (*r == 0) { canonical = false; }
        c = *r;
        s = s.substr(p + 1);
    }
    if (s.empty()) { return Q2{c, 1}; }
    if (s.back() != '*') { return std::nullopt; }
    s.pop_back();
    auto r = rational(s, canonical);
    if (!r) { return std::nullopt; }
    if (*r == 0 || *r == 1) { canonical = false; }
    return Q2{c, *r};
}
static BQ small(BQ const &) { return BQ(0); }

// ---------------------------------------------------------------- solving
struct Theory {
    clingolpx_theory_t *t{nullptr};
    Theory() { clingolpx_create(&t); }
    ~Theory() { clingolpx_destroy(t); }
};
struct Model {
    unsigned mask;
    std::map<std::string, Q2> vals;
    std::optional<std::pair<Q2, bool>> obj;
};
struct Handler : Clingo::SolveEventHandler {
    clingolpx_theory_t *t;
    std::vector<Model> models;
    std::vector<std::string> problems; // C13
    std::set<std::string> names, maybe; // variables for sure, all that occur
    bool strict{false};
    size_t step_pivots{0}, step_bounds{0};
    double step[2]{-1, -1}, accu[2]{-1, -1};
    size_t limit{0};
    bool on_model(Clingo::Model &m) override {
        if (!clingolpx_on_model(t, m.to_c())) { problems.push_back("clingolpx_on_model fails"); return false; }
        Model r;
        r.mask = 0;
        for (unsigned i = 0; i < nchoice; ++i) {
            if (m.contains(Clingo::Id(("c" + std::to_string(i)).c_str()))) { r.mask |= 1U << i; }
        }
        auto value = [&](std::string const &s) -> Q2 {
            bool canon = true;
            auto v = number(s, canon);
            if (!v) {
                problems.push_back("the value '" + s + "' is no number");
                return {};
            }
            if (!canon || (!strict && v->k != 0)) { problems.push_back("the value '" + s + "' is not an integer, reduced fraction or epsilon number"); }
            return *v;
        };
        for (auto &s : m.symbols(Clingo::ShowType::Theory)) {
            if (s.match("__lpx", 2)) {
                auto n = s.arguments()[0].to_string();
                if (s.arguments()[0].type() == Clingo::SymbolType::Number) { problems.push_back("an auxiliary variable is reported"); }
                if (!r.vals.emplace(n, value(s.arguments()[1].string())).second) { problems.push_back("variable " + n + " is reported twice"); }
            }
            else if (s.match("__lpx_objective", 2)) {
                if (r.obj) { problems.push_back("the objective is reported twice"); }
                auto b = s.arguments()[1];
                if (b != Clingo::Number(0) && b != Clingo::Number(1)) { problems.push_back("the objective is neither bounded nor unbounded"); }
                r.obj = std::make_pair(value(s.arguments()[0].string()), b == Clingo::Number(1));
            }
        }
        // the functions for iterating and looking up
        auto th = m.thread_id();
        size_t idx = 77;
        clingolpx_assignment_begin(t, th, &idx);
        std::set<std::string> seen;
        std::set<size_t> ids;
        while (clingolpx_assignment_next(t, th, &idx)) {
            if (!ids.insert(idx).second) { problems.push_back("an index is enumerated twice"); break; }
            Clingo::Symbol s{clingolpx_get_symbol(t, idx)};
            auto n = s.to_string();
            if (!seen.insert(n).second) { problems.push_back("variable " + n + " is enumerated twice"); }
            if (s.type() == Clingo::SymbolType::Number) { problems.push_back("an auxiliary variable is enumerated"); }
            size_t j = 0;
            if (!clingolpx_lookup_symbol(t, s.to_c(), &j) || j != idx) { problems.push_back("looking up " + n + " does not give its index"); }
            if (!clingolpx_assignment_has_value(t, th, idx)) { problems.push_back("variable " + n + " has no value"); continue; }
            clingolpx_value_t v{};
            clingolpx_assignment_get_value(t, th, idx, &v);
            if (v.type != clingolpx_value_type_symbol) { problems.push_back("the value of " + n + " has a wrong type"); continue; }
            auto it = r.vals.find(n);
            Clingo::Symbol vs{v.symbol};
            if (vs.type() != Clingo::SymbolType::String) { problems.push_back("the value of " + n + " is no string"); continue; }
            if (it == r.vals.end()) { problems.push_back("variable " + n + " is missing in the answer"); continue; }
            if (value(vs.string()) != it->second) { problems.push_back("different values are reported for " + n); }
        }
        for (auto &n : names) {
            if (!seen.count(n)) { problems.push_back("variable " + n + " is not enumerated"); }
            if (!r.vals.count(n)) { problems.push_back("variable " + n + " is not reported"); }
        }
        for (auto &[n, v] : r.vals) {
            if (!maybe.count(n)) { problems.push_back("the symbol " + n + " is reported but no variable"); }
            if (!seen.count(n)) { problems.push_back("variable " + n + " is reported but not enumerated"); }
        }
        size_t j = 0;
        for (auto s : {Clingo::Id("nosuchvariable"), Clingo::String("nosuchvariable"), Clingo::Function("x", {Clingo::Number(7)}), Clingo::Number(1000)}) {
            if (clingolpx_lookup_symbol(t, s.to_c(), &j)) { problems.push_back("the symbol " + s.to_string() + " is found but no variable"); }
        }
        if (clingolpx_assignment_has_value(t, th, 0) || clingolpx_assignment_has_value(t, th, 100000) ||
            clingolpx_assignment_has_value(t, th, (static_cast<size_t>(1) << 32) + 1)) {
            problems.push_back("an index of no variable has a value");
        }
        models.push_back(r);
        return limit == 0 || models.size() < limit;
    }
    void on_statistics(Clingo::UserStatistics s, Clingo::UserStatistics a) override {
        if (!clingolpx_on_statistics(t, s.to_c(), a.to_c())) { problems.push_back("clingolpx_on_statistics fails"); return; }
        step[0] = s["Simplex"]["Pivots"].value();
        step[1] = s["Simplex"]["Bounds propagated"].value();
        accu[0] = a["Simplex"]["Pivots"].value();
        accu[1] = a["Simplex"]["Bounds propagated"].value();
    }
};

static Q2 at(Lin const &l, std::map<std::string, Q2> const &vals) {
    Q2 r;
    for (auto &[v, k] : l) { r = r + (v.empty() ? Q2{k, 0} : vals.at(v) * k); }
    return r;
}
static bool holds(Q2 const &v, int rel) {
    switch (rel) {
        case 0: return v <= Q2{};
        case 1: return Q2{} <= v;
        case 2: return v == Q2{};
        case 3: return v < Q2{};
        default: return Q2{} < v;
    }
}
static std::string show(Lc const &c) { return show(std::set<std::pair<Lin, int>>{{c.lin, c.rel}}); }

// pivots and propagated bounds, counted independently
static std::atomic<size_t> n_pivots{0};
extern "C" void __real__ZN7Tableau5pivotEjjR7IntegerS1_(void *t, index_t i, index_t j, Integer &a, Integer &d);
extern "C" void __wrap__ZN7Tableau5pivotEjjR7IntegerS1_(void *t, index_t i, index_t j, Integer &a, Integer &d) {
    ++n_pivots;
    __real__ZN7Tableau5pivotEjjR7IntegerS1_(t, i, j, a, d);
}

struct Config {
    bool strict;
    std::vector<std::pair<std::string, std::string>> keys;
    std::optional<Q2> step; // global objective
    unsigned threads{1};
};
static Config config(bool strict, bool global) {
    Config c{strict, {}, {}, 1};
    auto pick = [&](char const *k, std::vector<std::string> vs) {
        if (rnd(3)) { c.keys.emplace_back(k, vs[rnd(vs.size())]); }
    };
    c.keys.emplace_back("strict", strict ? "yes" : "no");
    pick("propagate-conflicts", {"yes", "no"});
    pick("propagate-bounds", {"none", "changed", "full"});
    pick("select", {"none", "match", "conflict"});
    pick("store", {"no", "partial", "total"});
    if (global) {
        static std::vector<std::pair<std::string, Q2>> const steps = {
            {"global", {0, 0}}, {"global,1", {1, 0}}, {"global,1/2", {BQ(1) / 2, 0}}, {"global,3/2", {BQ(3) / 2, 0}}, {"global,e", {0, 1}}};
        auto &s = steps[rnd(strict ? 5 : 4)];
        c.keys.emplace_back("objective", s.first);
        c.step = s.second;
    }
    // several threads that discard models with new bounds: libclingo may report
    // the discarded assignment (see DESIGN.md)
    if (!global && rnd(4) == 0) { c.threads = 2 + rnd(3); }
    return c;
}

static unsigned long current;
static void solving() {
    bool strict = rnd(2);
    nchoice = 2 + rnd(3);
    nvars = 2 + rnd(3);
    exotic = false;
    bool conds = rnd(2) == 0, global = want({"C10", "C19", "all"}) && rnd(3) == 0;
    auto cfg = config(strict, global);
    std::string txt = "{";
    for (unsigned i = 0; i < nchoice; ++i) { txt += (i ? ";c" : "c") + std::to_string(i); }
    txt += "}.\n";
    std::vector<Atom> as, objs;
    std::set<std::string> texts;
    auto more = [&](std::string &out, bool objective_) {
        auto a = objective_ ? objective(1 + static_cast<int>(rnd(2)), conds) : atom(strict, static_cast<int>(rnd(3)), conds);
        if (objective_) {
            Lin l;
            for (auto &x : a.elems) {
                if (!x.conditional) { addto(l, x.lin, BQ(1)); }
            }
            if (cst(l) != 0) { return; }
        }
        // equal directives count once
        if (a.ok != Good || !texts.insert(a.key()).second) { return; }
        out += a.txt;
        if (!objective_) {
            a.guard = rnd(5) == 0 ? 0 : (1U << rnd(nchoice)) | (rnd(3) == 0 ? 1U << rnd(nchoice) : 0);
            std::string body;
            for (unsigned k = 0; k < nchoice; ++k) {
                if (a.guard & (1U << k)) { body += (body.empty() ? " :- c" : ",c") + std::to_string(k); }
            }
            out += body;
        }
        out += ".\n";
        (objective_ ? objs : as).push_back(a);
    };
    bool objectives = want({"C09", "C10", "C13", "C14", "C19", "all"}) && rnd(2);
    for (unsigned i = 0, n = 1 + rnd(6); i < n; ++i) { more(txt, false); }
    if (as.empty()) { return; }
    if (objectives) {
        for (unsigned i = 0, e = 1 + (rnd(4) == 0); i < e; ++i) { more(txt, true); }
    }
    std::string hist = txt;
    for (auto &[k, v] : cfg.keys) { hist += "% " + k + "=" + v + "\n"; }
    hist += "% threads=" + std::to_string(cfg.threads) + "\n% case=" + std::to_string(current) + "\n";
    log_ = hist;
    // variables are those with a non-zero coefficient in some (simplified) term list
    if (cases % 64 == 0) {
        printf("{\"at\": \"%s\"}\n", esc(hist).c_str());
        fflush(stdout);
    }
    ++cases;
    Theory th;
    for (auto &[k, v] : cfg.keys) {
        if (!clingolpx_configure(th.t, k.c_str(), v.c_str())) {
            return bad("C14", "configuration " + k + "=" + v + " is refused");
        }
    }
    if (!clingolpx_validate_options(th.t)) { return bad("C14", "valid options are refused"); }
    Clingo::Control ctl{{}, quiet, 20};
    ctl.configuration()["solve"]["models"] = "0";
    if (cfg.threads > 1) { ctl.configuration()["solve"]["parallel_mode"] = (std::to_string(cfg.threads) + (rnd(2) ? ",compete" : ",split")).c_str(); }
    ctl.configuration()["solver"]["seed"] = std::to_string(rnd(1000)).c_str();
    if (rnd(3) == 0) { ctl.configuration()["solver"]["rand_freq"] = "0.3"; }
    if (rnd(3) == 0) { ctl.configuration()["solver"]["sign_def"] = rnd(2) ? "rnd" : "pos"; }
    if (!clingolpx_register(th.t, ctl.to_c())) { return bad("C14", "the theory cannot be registered"); }
    std::vector<Model> first;
    double accu[2] = {0, 0};
    try {
        ctl.add("base", {}, txt.c_str());
        ctl.ground({{"base", {}}});
        size_t n_base = as.size();
        unsigned calls = rnd(3) == 0 ? 2 : 1;
        for (unsigned call = 0; call < calls; ++call) {
            if (call > 0) {
                std::string extra;
                if (rnd(2)) {
                    for (unsigned i = 0, n = 1 + rnd(3); i < n; ++i) { more(extra, objectives && !conds && rnd(4) == 0); }
                }
                log_ = hist + "% solved, then\n#program more.\n" + extra;
                if (!extra.empty()) {
                    ctl.add("more", {}, extra.c_str());
                    ctl.ground({{"more", {}}});
                }
            }
            Handler h;
            h.t = th.t;
            h.strict = strict;
            {
                Lin osum;
                auto cond = [&](Atom const &a, Lin &l) {
                    for (auto &e : a.elems) {
                        if (!e.conditional) { addto(l, e.lin, a.kind == 2 ? BQ(-1) : BQ(1)); }
                        else { for (auto &[v, k] : e.lin) { h.names.insert(v); } }
                    }
                };
                for (auto &a : objs) { cond(a, osum); }
                for (auto &[v, k] : osum) { h.names.insert(v); }
                // clingo drops added atoms if their body is known to be false
                for (size_t i = 0; i < n_base; ++i) {
                    auto &a = as[i];
                    Lin l;
                    cond(a, l);
                    addto(l, a.rhs, BQ(-1));
                    for (auto &[v, k] : l) { h.names.insert(v); }
                }
                h.names.erase("");
            }
            for (unsigned i = 0; i < nvars; ++i) { h.maybe.insert(vars_[i].second); }
            n_pivots = 0;
            auto res = ctl.solve(Clingo::LiteralSpan{}, &h, false, false).get();
            for (auto &p : h.problems) { return bad("C13", p); }
            if (h.step[0] != static_cast<double>(n_pivots)) {
                bad("C16", "the solve call took " + std::to_string(n_pivots) + " pivots but reports " + std::to_string(h.step[0]));
            }
            for (int k : {0, 1}) {
                accu[k] += h.step[k];
                if (h.accu[k] != accu[k]) { bad("C16", "the accumulated statistics are not the sum over the solve calls"); }
            }
            // expected answers
            std::set<unsigned> expect, got;
            std::map<unsigned, std::pair<LP, std::vector<Lc>>> lps;
            std::set<std::string> all;
            for (auto &a : as) {
                for (auto &e : a.elems) { for (auto &[v, k] : e.lin) { if (!v.empty()) { all.insert(v); } } }
                for (auto &[v, k] : a.rhs) { if (!v.empty()) { all.insert(v); } }
            }
            for (auto &a : objs) { for (auto &e : a.elems) { for (auto &[v, k] : e.lin) { if (!v.empty()) { all.insert(v); } } } }
            std::map<std::string, size_t> pos;
            for (auto &v : all) { pos.emplace(v, pos.size()); }
            for (unsigned m = 0; m < (1U << nchoice); ++m) {
                LP lp{pos.size()};
                std::vector<Lc> cs;
                for (auto &a : as) {
                    if ((m & a.guard) != a.guard) { continue; }
                    for (auto &c : meaning(a, m)) { cs.push_back(c); }
                }
                for (auto &c : cs) {
                    std::vector<BQ> co(pos.size());
                    for (auto &[v, k] : c.lin) { if (!v.empty()) { co[pos[v]] = k; } }
                    BQ r = -cst(c.lin);
                    // bounds on single variables are divided by the coefficient
                    BQ e = 1;
                    if (c.lin.size() - c.lin.count("") == 1) {
                        for (auto &[v, k] : c.lin) { if (!v.empty()) { e = k < 0 ? BQ(-k) : k; } }
                    }
                    switch (c.rel) {
                        case 0: lp.le(co, {r, 0}); break;
                        case 1: lp.ge(co, {r, 0}); break;
                        case 2: lp.eq(co, {r, 0}); break;
                        case 3: lp.le(co, {r, -e}); break;
                        default: lp.ge(co, {r, e});
                    }
                }
                lp.clean();
                if (lp.feasible()) {
                    expect.insert(m);
                    lps.emplace(m, std::make_pair(lp, cs));
                }
            }
            std::optional<std::pair<Q2, bool>> best;
            for (auto &m : h.models) {
                if (!got.insert(m.mask).second) { return bad("C19", "an answer is reported twice"); }
                if (!expect.count(m.mask)) { return bad("C05", "an answer without solution is reported: choice atoms " + std::to_string(m.mask)); }
                auto vals = m.vals;
                for (auto &v : all) { if (!vals.count(v)) { vals[v] = Q2{}; } } // cancelled everywhere: any value
                auto &[lp, cs] = lps.at(m.mask);
                for (auto &c : cs) {
                    if (!holds(at(c.lin, vals), c.rel)) { return bad("C05", "the values reported for choice atoms " + std::to_string(m.mask) + " violate " + show(c)); }
                }
                Lin o;
                for (auto &a : objs) { addto(o, total(a, m.mask), a.kind == 2 ? BQ(-1) : BQ(1)); }
                bool any = false; // an objective stays if some term remains
                for (auto &a : objs) { for (auto &e : a.elems) { any = any || !e.lin.empty(); } }
                if (!m.obj) {
                    if (!o.empty()) { return bad("C09", "no objective is reported"); }
                    continue;
                }
                if (!any) { return bad("C09", "an objective is reported but there is none"); }
                if (m.obj->first != at(o, vals)) { return bad("C09", "the reported objective " + str(m.obj->first) + " is not its value " + str(at(o, vals)) + " under the reported assignment for choice atoms " + std::to_string(m.mask) + (m.obj->second ? " (bounded)" : " (unbounded)")); }
                std::vector<BQ> f(pos.size());
                for (auto &[v, k] : o) { if (!v.empty()) { f[pos[v]] = k; } }
                std::optional<Q2> mx = lp.maximum(f);
                if (mx) { *mx = *mx + Q2{cst(o), 0}; }
                if (m.obj->second != mx.has_value()) { return bad("C09", std::string("the objective is reported as ") + (m.obj->second ? "bounded" : "unbounded") + " for choice atoms " + std::to_string(m.mask)); }
                // with conditional elements the multiple of epsilon depends on the representation
                if (mx && (mx->c != m.obj->first.c || (!conds && mx->k != m.obj->first.k))) { return bad("C09", "the optimum is " + str(*mx) + " but " + str(m.obj->first) + " is reported"); }
                if (cfg.step && best && cfg.threads == 1) {
                    if (!best->second) {
                        if (m.obj->second) { return bad("C10", "a bounded answer is reported after an unbounded one"); }
                    }
                    else if (m.obj->second && m.obj->first < best->first + *cfg.step) {
                        return bad("C10", "the objective " + str(m.obj->first) + " does not improve on " + str(best->first) + " by the step " + str(*cfg.step));
                    }
                }
                if (!best || !m.obj->second || (best->second && best->first < m.obj->first)) { best = m.obj; }
            }
            if (!cfg.step || objs.empty()) {
                if (got != expect) {
                    std::string w;
                    for (auto m : expect) { if (!got.count(m)) { w += " " + std::to_string(m); } }
                    bad("C06", "answers are lost: choice atoms" + w);
                    bad("C08", "answers are lost: choice atoms" + w);
                    bad("C19", "answers are lost: choice atoms" + w);
                    return;
                }
            }
            else if (!expect.empty()) {
                if (got.empty()) { return bad("C10", "no answer is reported although there is one"); }
                // the search ends with an answer that cannot be improved by the step
                std::optional<Q2> top;
                bool unb = false;
                for (auto &[m, l] : lps) {
                    Lin o;
                    for (auto &a : objs) { addto(o, total(a, m), a.kind == 2 ? BQ(-1) : BQ(1)); }
                    std::vector<BQ> f(pos.size());
                    for (auto &[v, k] : o) { if (!v.empty()) { f[pos[v]] = k; } }
                    auto mx = l.first.maximum(f);
                    if (!mx) { unb = true; }
                    else {
                        *mx = *mx + Q2{cst(o), 0};
                        if (!top || *top < *mx) { top = mx; }
                    }
                }
                if (best && !best->second && !unb) { return bad("C10", "an unbounded answer is reported but there is none"); }
                if (best && best->second && unb) { return bad("C10", "the unbounded answer is not found"); }
                if (best && best->second && top && !unb && best->first.c + cfg.step->c < top->c) {
                    return bad("C10", "the best answer has objective " + str(best->first) + " but " + str(*top) + " is possible");
                }
            }
        }
    }
    catch (std::exception const &e) {
        bad("C11", std::string("a well-formed program is rejected: ") + e.what());
    }
}

// ---------------------------------------------------------------- C14
struct Snap {
    bool strict;
    int select, store, prop;
    bool conf;
    bool glob;
    Q2 step;
    bool operator==(Snap const &o) const {
        return strict == o.strict && select == o.select && store == o.store && prop == o.prop && conf == o.conf &&
               glob == o.glob && (!glob || step == o.step);
    }
};
static Snap snap(clingolpx_theory_t *t) {
    Snap s{t->strict, static_cast<int>(t->options.select), static_cast<int>(t->options.store_sat_assignment),
           static_cast<int>(t->options.propagate_mode), t->options.propagate_conflicts, t->options.global_objective.has_value(), {}};
    if (s.glob) { s.step = val2(*t->options.global_objective); }
    return s;
}
static std::string show(Snap const &s) {
    return "strict=" + std::to_string(s.strict) + " select=" + std::to_string(s.select) + " store=" + std::to_string(s.store) +
           " propagate-bounds=" + std::to_string(s.prop) + " propagate-conflicts=" + std::to_string(s.conf) +
           " objective=" + (s.glob ? "global," + str(s.step) : "local");
}
static std::string mixcase(std::string s) {
    for (auto &c : s) {
        if (rnd(3) == 0 && c >= 'a' && c <= 'z') { c = static_cast<char>(c - 32); }
    }
    return s;
}
static std::string lower(std::string s) {
    for (auto &c : s) { if (c >= 'A' && c <= 'Z') { c = static_cast<char>(c + 32); } }
    return s;
}
// the documented meaning; nothing if the value is not accepted
static std::optional<Snap> documented(std::string const &key, std::string const &value, Snap s) {
    auto v = lower(value);
    auto choose = [&](std::vector<std::string> const &vs) -> int {
        auto it = std::find(vs.begin(), vs.end(), v);
        return it == vs.end() ? -1 : static_cast<int>(it - vs.begin());
    };
    if (key == "strict" || key == "propagate-conflicts") {
        bool &b = key == "strict" ? s.strict : s.conf;
        if (v == "yes" || v == "on" || v == "1") { b = true; return s; }
        if (v == "no" || v == "off" || v == "0") { b = false; return s; }
        return std::nullopt;
    }
    int i = -1;
    if (key == "select") { s.select = i = choose({"none", "match", "conflict"}); }
    else if (key == "store") { s.store = i = choose({"no", "partial", "total"}); }
    else if (key == "propagate-bounds") { s.prop = i = choose({"none", "changed", "full"}); }
    else if (key == "objective") {
        if (v == "local") { s.glob = false; return s; }
        if (v == "global") { s.glob = true; s.step = {}; return s; }
        if (v.substr(0, 7) != "global,") { return std::nullopt; }
        auto n = v.substr(7);
        if (n == "e") { s.glob = true; s.step = {0, 1}; return s; }
        auto p = n.find('/');
        auto a = n.substr(0, p), b = p == std::string::npos ? "1" : n.substr(p + 1);
        auto isint = [](std::string const &x, bool sign) {
            size_t i = sign && !x.empty() && x[0] == '-' ? 1 : 0;
            return i < x.size() && x.find_first_not_of("0123456789", i) == std::string::npos;
        };
        if (!isint(a, true) || !isint(b, false)) { return std::nullopt; }
        auto big = [](std::string x) {
            bool neg = x[0] == '-';
            if (neg) { x = x.substr(1); }
            auto p = x.find_first_not_of('0');
            BI r(p == std::string::npos ? std::string("0") : x.substr(p));
            return neg ? BI(-r) : r;
        };
        if (big(b) == 0) { return std::nullopt; }
        s.glob = true;
        s.step = {BQ(big(a), big(b)), 0};
        return s;
    }
    return i < 0 ? std::nullopt : std::make_optional(s);
}
struct OptRun { // an application that only reads the options
    bool ok;
    Snap s;
};
static std::optional<Snap> commandline(std::vector<std::pair<std::string, std::string>> const &opts, bool &valid) {
    struct App : Clingo::Application {
        clingolpx_theory_t *t;
        bool *ran;
        std::optional<Snap> *res;
        bool *valid;
        void register_options(Clingo::ClingoOptions &o) override {
            if (!clingolpx_register_options(t, o.to_c())) { throw std::runtime_error("options"); }
        }
        void validate_options() override {
            *valid = clingolpx_validate_options(t);
            *res = snap(t);
            if (!*valid) { throw std::runtime_error("invalid"); }
        }
        void main(Clingo::Control &, Clingo::StringSpan) override { *ran = true; }
    } app;
    Theory th;
    bool ran = false;
    std::optional<Snap> res;
    app.t = th.t;
    app.ran = &ran;
    app.res = &res;
    app.valid = &valid;
    std::vector<std::string> args{"--outf=3"};
    for (auto &[k, v] : opts) { args.push_back("--" + k + (v.empty() ? "" : "=" + v)); }
    std::vector<char const *> ps;
    for (auto &a : args) { ps.push_back(a.c_str()); }
    fflush(stdout);
    fflush(stderr);
    static int null = open("/dev/null", 1);
    int o1 = dup(1), o2 = dup(2);
    dup2(null, 1);
    dup2(null, 2);
    int rc = Clingo::clingo_main(app, {ps.data(), ps.size()});
    fflush(stdout);
    fflush(stderr);
    std::cout.flush();
    std::cerr.flush();
    dup2(o1, 1);
    dup2(o2, 2);
    close(o1);
    close(o2);
    static_cast<void>(rc);
    if (!ran && valid) { return std::nullopt; }
    return res;
}
static void options(unsigned long no) {
    static std::vector<std::string> const keys = {"strict", "propagate-conflicts", "propagate-bounds", "select", "store", "objective"};
    static std::vector<std::string> const vals = {
        "yes", "no", "on", "off", "0", "1", "none", "changed", "full", "match", "conflict", "partial", "total", "local", "global",
        "global,0", "global,1", "global,-1", "global,1/2", "global,2/4", "global,-6/4", "global,e", "global,1/0", "global,0/0", "global,",
        "global,x", "global,1.5", "global,1/", "global,/2", "global,ee", "global,1e", "globa", "globals", "global1", "global;1", "locals", "loca", "",
        "y", "yess", "noo", "none1", "nonee", "non", "mat", "matchh", "full2", "ful", "true", "false", "2", "01", " yes", "yes ", "totally", "parti",
        "global,12345678901234567890", "global,123456789012345678901/12345678901234567890", "global,--1", "global,+1", "global,1/-2", "global, 1", "n", "o", "global,3/6", "conflicts", "\xc3\xa9"};
    static std::vector<std::string> const badkeys = {"", "Strict", "stric", "strictt", "propagate", "propagate-bound", "propagate_bounds", "objectives", "OBJECTIVE",
                                                     "selects", "stores", "select-", "stor", "heuristic", "help"};
    ++cases;
    Theory th;
    Snap cur = snap(th.t);
    Snap const init{false, 0, 0, 0, false, false, {}};
    log_ = "fresh options";
    if (!(cur == init)) { return bad("C14", "the defaults are not the documented ones: " + show(cur)); }
    std::vector<std::pair<std::string, std::string>> done;
    // every key with every value once, then random sequences
    unsigned steps = no < keys.size() * vals.size() ? 1 : 1 + rnd(6);
    log_.clear();
    for (unsigned i = 0; i < steps; ++i) {
        std::string k = keys[rnd(keys.size())], v = mixcase(vals[rnd(vals.size())]);
        if (no < keys.size() * vals.size()) { k = keys[no / vals.size()]; v = vals[no % vals.size()]; }
        else if (rnd(8) == 0) { k = badkeys[rnd(badkeys.size())]; }
        if (rnd(5) == 0 && steps > 1) { // random start state for the accepted ones
            v = vals[rnd(17)];
        }
        log_ += k + "=" + v + "\n";
        bool known = std::find(keys.begin(), keys.end(), k) != keys.end();
        auto exp = known ? documented(k, v, cur) : std::nullopt;
        clingo_set_error(clingo_error_success, "");
        bool ok = clingolpx_configure(th.t, k.c_str(), v.c_str());
        Snap now = snap(th.t);
        // undocumented spellings of numbers are left open: leading signs and blanks
        bool open_ = known && k == "objective" && !exp && (v.find('+') != std::string::npos || v.find(' ') != std::string::npos || v.find("/-") != std::string::npos);
        if (open_) {
            cur = now;
            if (ok) { return; }
            continue;
        }
        if (ok != exp.has_value()) { return bad("C14", ok ? "the value is accepted" : "the documented value is refused"); }
        if (ok) {
            if (!(now == *exp)) { return bad("C14", "the settings are " + show(now) + " instead of " + show(*exp)); }
            done.emplace_back(k, v);
        }
        else {
            if (!(now == cur)) { return bad("C14", "a refused value changes the settings to " + show(now)); }
            auto const *msg = clingo_error_message();
            if (msg == nullptr || std::string(msg).find("'" + k + "'") == std::string::npos) {
                return bad("C14", "the error does not name the key: " + std::string(msg == nullptr ? "" : msg));
            }
        }
        cur = now;
    }
    // the same settings on the command line (each option at most once)
    if (no < keys.size() * vals.size() || no % 16 == 0) {
        std::string k, v;
        bool valid = true;
        if (no < keys.size() * vals.size()) {
            k = keys[no / vals.size()];
            v = vals[no % vals.size()];
            if (v.empty()) { return; }
            bool flag = k == "strict" || k == "propagate-conflicts";
            auto exp = documented(k, v, init);
            bool open_ = flag || (k == "objective" && !exp && (v.find('+') != std::string::npos || v.find(' ') != std::string::npos || v.find("/-") != std::string::npos));
            if (open_ && !exp) { return; } // flags are parsed by clingo
            log_ = "command line --" + k + "=" + v;
            auto got = commandline({{k, v}}, valid);
            if (flag && !got) { return; }
            if (exp.has_value() != got.has_value()) { return bad("C14", got ? "the value is accepted on the command line" : "the documented value is refused on the command line"); }
            if (exp && !(*exp == *got)) { return bad("C14", "the settings are " + show(*got) + " instead of " + show(*exp)); }
            if (exp && valid != (exp->strict || !exp->glob || exp->step.k == 0)) { return bad("C14", "an epsilon step is only valid in strict mode"); }
        }
        else {
            std::map<std::string, std::string> last;
            for (auto &[a, b] : done) { last[a] = b; }
            Theory t2;
            std::vector<std::pair<std::string, std::string>> opts;
            for (auto &[a, b] : last) {
                std::string w = b;
                if (a == "strict" || a == "propagate-conflicts") { w = lower(b); w = w == "yes" || w == "on" || w == "1" ? "yes" : "no"; }
                clingolpx_configure(t2.t, a.c_str(), w.c_str());
                // flags take no value
                if (a == "strict" || a == "propagate-conflicts") {
                    if (w == "yes") { opts.emplace_back(a, ""); }
                    continue;
                }
                opts.emplace_back(a, w);
            }
            log_ = "command line";
            for (auto &[a, b] : opts) { log_ += " --" + a + "=" + b; }
            bool val2_ = clingolpx_validate_options(t2.t);
            auto got = commandline(opts, valid);
            if (!got) { return bad("C14", "the settings are refused on the command line"); }
            if (!(*got == snap(t2.t))) { return bad("C14", "the command line gives " + show(*got) + " and the configuration function " + show(snap(t2.t))); }
            if (valid != val2_) { return bad("C14", "validation differs"); }
        }
    }
}

int main(int argc, char **argv) {
    prop = argv[1];
    unsigned long seed = std::stoul(argv[2]), n = std::stoul(argv[3]);
    long only = std::stol(argv[4]);
    unsigned limit = std::stoul(argv[5]);
    guard(static_cast<int>(limit) + 100);
    auto t0 = time(nullptr);
    for (unsigned long i = 0; i < n && fails == 0 && time(nullptr) - t0 < static_cast<long>(limit); ++i) {
        if (only >= 0 && i != static_cast<unsigned long>(only)) { continue; }
        rng.seed(seed * 1000003 + i);
        if (want({"C11"})) { parsing(i % 2); }
        if (want({"C14"})) { options(seed % 100 == 0 ? i : i + 100000); }
        current = i;
        if (i % 8 == 0 && want({"C05", "C06", "C08", "C09", "C10", "C13", "C16", "C19"})) { solving(); }
    }
    printf("{\"cases\": %ld, \"bound\": \"generated programs: up to 6 theory atoms over 4 variables and 4 choice atoms, term depth 4, seed %lu\"}\n", cases, seed);
    fflush(stdout);
    _exit(0);
}
