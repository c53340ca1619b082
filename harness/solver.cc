// Replays random histories of the constraint solver (Solver<Value>) against
// exact oracles. The clingo side (assignment, clauses) is played by this
// program: the clingo_* functions defined here take precedence.
#include "common.hh"
#include "lp.hh"
#include <algorithm>
#include <deque>
#include <list>
#include <mutex>
#include <optional>
#include <queue>
#include <set>
#include <shared_mutex>
#include <unordered_map>
#include <unordered_set>
#include <climits>
#include <cmath>
#include <cstddef>
#include <deque>
#include <exception>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <memory>
#include <numeric>
#include <ostream>
#include <stdexcept>
#include <tuple>
#include <type_traits>
#include <utility>
#include <clingo.hh>
// the code under test (included for its templates and private state)
#define private public
#include "solving.cc"
#undef private

static std::mt19937_64 rng;
static unsigned rnd(unsigned n) { return static_cast<unsigned>(rng() % n); }
static std::string prop; // property whose failures count
static bool stop_;       // some property failed in this history

static void bad(char const *id, std::string const &what) {
    stop_ = true;
    if (prop == id || prop == "all") { fail((prop == "all" ? std::string(id) + ": " : std::string()) + what); }
}

// ---------------------------------------------------------------- clingo
using lit_t = clingo_literal_t;
struct Clause {
    std::vector<lit_t> lits;
};
static struct World {
    int level = 0;
    int max_var = 0;
    std::map<int, std::pair<bool, int>> val; // variable -> (sign, level)
    std::vector<lit_t> trail;
    std::vector<lit_t> pending;
    std::vector<Clause> added;
    std::vector<lit_t> implied0; // true from level 0 on
    std::set<lit_t> watched;
    int threads = 1;
    bool truth(lit_t l) const {
        auto it = val.find(std::abs(l));
        return it != val.end() && it->second.first == (l > 0);
    }
    bool open(lit_t l) const { return val.find(std::abs(l)) == val.end(); }
    void assign(lit_t l) {
        val[std::abs(l)] = {l > 0, level};
        trail.push_back(l);
        pending.push_back(l);
    }
    bool unit(Clause const &c) {
        lit_t u = 0;
        int n = 0;
        for (auto l : c.lits) {
            if (truth(l)) { return true; }
            if (open(l)) {
                u = l;
                ++n;
            }
        }
        if (n == 0) { return false; }
        if (n == 1) {
            assign(u);
            if (c.lits.size() == 1) { implied0.push_back(u); }
        }
        return true;
    }
} W;
static size_t pivots_seen;

extern "C" {
uint32_t clingo_assignment_decision_level(clingo_assignment_t const *) { return W.level; }
bool clingo_assignment_level(clingo_assignment_t const *, lit_t l, uint32_t *r) {
    auto it = W.val.find(std::abs(l));
    *r = it == W.val.end() ? 0 : it->second.second;
    return true;
}
bool clingo_assignment_is_false(clingo_assignment_t const *, lit_t l, bool *r) {
    *r = W.truth(-l);
    return true;
}
bool clingo_assignment_is_true(clingo_assignment_t const *, lit_t l, bool *r) {
    *r = W.truth(l);
    return true;
}
bool clingo_assignment_is_fixed(clingo_assignment_t const *, lit_t l, bool *r) {
    auto it = W.val.find(std::abs(l));
    *r = it != W.val.end() && it->second.second == 0;
    return true;
}
bool clingo_assignment_truth_value(clingo_assignment_t const *, lit_t l, clingo_truth_value_t *r) {
    *r = W.open(l) ? clingo_truth_value_free : W.truth(l) ? clingo_truth_value_true : clingo_truth_value_false;
    return true;
}
bool clingo_assignment_is_total(clingo_assignment_t const *) { return false; }
clingo_id_t clingo_propagate_control_thread_id(clingo_propagate_control_t const *) { return 0; }
clingo_assignment_t const *clingo_propagate_control_assignment(clingo_propagate_control_t const *) { return nullptr; }
bool clingo_propagate_control_add_literal(clingo_propagate_control_t *, lit_t *r) {
    *r = ++W.max_var;
    return true;
}
bool clingo_propagate_control_add_watch(clingo_propagate_control_t *, lit_t l) {
    W.watched.insert(l);
    return true;
}
static bool add(lit_t const *c, size_t n) {
    W.added.push_back({std::vector<lit_t>(c, c + n)});
    for (size_t i = 0; i < n; ++i) {
        if (!W.truth(-c[i])) { return true; }
    }
    return false;
}
static bool prop_all() {
    for (size_t i = 0; i < W.added.size(); ++i) {
        if (!W.unit(W.added[i])) { return false; }
    }
    return true;
}
bool clingo_propagate_control_add_clause(clingo_propagate_control_t *, lit_t const *c, size_t n, clingo_clause_type_t, bool *r) {
    *r = add(c, n);
    return true;
}
bool clingo_propagate_control_propagate(clingo_propagate_control_t *, bool *r) {
    *r = prop_all();
    return true;
}
clingo_assignment_t const *clingo_propagate_init_assignment(clingo_propagate_init_t const *) { return nullptr; }
bool clingo_propagate_init_add_clause(clingo_propagate_init_t *, lit_t const *c, size_t n, bool *r) {
    *r = add(c, n);
    return true;
}
bool clingo_propagate_init_propagate(clingo_propagate_init_t *, bool *r) {
    *r = prop_all();
    return true;
}
bool clingo_propagate_init_add_watch(clingo_propagate_init_t *, lit_t l) {
    W.watched.insert(l);
    return true;
}
void __real__ZN7Tableau5pivotEjjR7IntegerS1_(Tableau *, index_t, index_t, Integer &, Integer &);
void __wrap__ZN7Tableau5pivotEjjR7IntegerS1_(Tableau *t, index_t i, index_t j, Integer &a, Integer &d) {
    ++pivots_seen;
    __real__ZN7Tableau5pivotEjjR7IntegerS1_(t, i, j, a, d);
}
}

// ------------------------------------------------------------- constraints
static BI big() {
    BI r = 1;
    r <<= (61 + rnd(4));
    return r + rnd(5) - 2;
}
static int style;
static BQ number(bool nonzero) {
    for (;;) {
        BI n = static_cast<int>(rnd(9)) - 4, d = 1;
        if (style >= 1 && rnd(3) == 0) { d = 1 + rnd(4); }
        if (style >= 2 && rnd(6) == 0) { n = (rnd(2) != 0 ? BI(-1) : BI(1)) * big(); }
        if (style >= 3 && rnd(6) == 0) { d = big(); }
        if (!nonzero || n != 0) { return BQ(n, d); }
    }
}
template <class V> V mkv(Q2 const &q);
template <> Rational mkv<Rational>(Q2 const &q) { return mk(q.c); }
template <> RationalQ mkv<RationalQ>(Q2 const &q) { return RationalQ{mk(q.c), mk(q.k)}; }

static char const *name(Relation r) {
    switch (r) {
        case Relation::LessEqual: return "<=";
        case Relation::GreaterEqual: return ">=";
        case Relation::Equal: return "=";
        case Relation::Less: return "<";
        case Relation::Greater: return ">";
    }
    return "?";
}

struct Con {
    std::vector<BQ> co;
    BQ rhs;
    Relation rel;
    lit_t lit;
    bool objective{false}; // bound on the objective
    // The epsilon of a strict relation over one variable counts for the
    // variable itself.
    Q2 bound() const {
        BQ s = 0;
        int n = 0;
        for (auto &c : co) {
            if (c != 0) {
                s = c < 0 ? BQ(-c) : c;
                ++n;
            }
        }
        if (n != 1) { s = 1; }
        return {rhs, rel == Relation::Less ? BQ(-s) : rel == Relation::Greater ? s : BQ(0)};
    }
    bool constant() const {
        for (auto &c : co) {
            if (c != 0) { return false; }
        }
        return true;
    }
};
struct OCon { // bound added during the search: objective >= value
    Q2 value;
    lit_t lit;
};

template <class V> struct Run {
    size_t nv;
    std::vector<Con> cons;
    std::vector<OCon> ocons;
    std::vector<BQ> obj;
    bool has_obj{false};
    Options opt;
    std::vector<Clingo::Symbol> syms;
    SymbolMap map;
    std::vector<Inequality> iqs;
    std::vector<Term> objective;
    std::optional<Solver<V>> slv;
    std::vector<std::vector<BQ>> expand; // variable -> combination of the problem's variables
    static constexpr bool strict = std::is_same_v<V, RationalQ>;
    std::vector<lit_t> lits; // literals of constraints
    std::set<lit_t> processed;
    Clingo::PropagateControl ctl{nullptr};

    Q2 eval(std::vector<BQ> const &co) {
        Q2 r{};
        for (size_t i = 0; i < nv; ++i) { r = r + val2(slv->get_value(i)) * co[i]; }
        return r;
    }
    bool holds(std::vector<BQ> const &co, Relation rel, Q2 const &b) {
        auto v = eval(co);
        switch (rel) {
            case Relation::Less: return v < b;
            case Relation::LessEqual: return v <= b;
            case Relation::Greater: return b < v;
            case Relation::GreaterEqual: return b <= v;
            case Relation::Equal: break;
        }
        return v == b;
    }
    void add_to(LP &lp, Con const &c) {
        switch (c.rel) {
            case Relation::Less:
            case Relation::LessEqual: lp.le(c.co, c.bound()); break;
            case Relation::Greater:
            case Relation::GreaterEqual: lp.ge(c.co, c.bound()); break;
            case Relation::Equal: lp.eq(c.co, c.bound()); break;
        }
    }
    void add_to(LP &lp, lit_t l) {
        for (auto &c : cons) {
            if (c.lit == l) { add_to(lp, c); }
        }
        for (auto &c : ocons) {
            if (c.lit == l) { lp.ge(obj, c.value); }
        }
    }
    std::string show(Con const &c) {
        std::string r = "[" + std::to_string(c.lit) + "]";
        for (size_t i = 0; i < nv; ++i) {
            if (c.co[i] != 0) { r += " + " + str(c.co[i]) + "*x" + std::to_string(i); }
        }
        return r + " " + name(c.rel) + " " + str(c.rhs) + ";";
    }
    std::string show(std::vector<lit_t> const &c) {
        std::string r;
        for (auto l : c) { r += (r.empty() ? "" : " ") + std::to_string(l); }
        return r;
    }

    // ---------------------------------------------------------- generation
    void generate() {
        nv = 1 + rnd(4);
        style = static_cast<int>(rnd(4));
        W = World{};
        size_t nc = 1 + rnd(8);
        log_ = strict ? "strict;" : "";
        bool plain = rnd(3) == 0; // many bounds on few variables
        for (size_t i = 0; i < nv; ++i) {
            syms.push_back(Clingo::Id(("x" + std::to_string(i)).c_str()));
            map.emplace(syms.back(), i);
        }
        auto dense = 1 + rnd(4);
        for (size_t k = 0; k < nc; ++k) {
            Con c;
            c.co.assign(nv, BQ(0));
            if (plain && rnd(2) != 0) { c.co[rnd(nv)] = number(true); }
            else {
                for (size_t i = 0; i < nv; ++i) {
                    if (rnd(4) < dense) { c.co[i] = number(true); }
                }
            }
            if (!cons.empty() && rnd(4) == 0) {
                // the same left-hand side again
                c.co = cons[rnd(cons.size())].co;
            }
            c.rhs = number(false);
            static Relation const rels[] = {Relation::LessEqual, Relation::GreaterEqual, Relation::Equal, Relation::Less, Relation::Greater};
            c.rel = rels[rnd(strict ? 5 : 3)];
            auto s = rnd(10);
            if (s == 0 && !cons.empty()) { c.lit = cons[rnd(cons.size())].lit; }
            else if (s == 1 && !cons.empty()) { c.lit = -cons[rnd(cons.size())].lit; }
            else { c.lit = (rnd(4) == 0 ? -1 : 1) * ++W.max_var; }
            cons.push_back(c);
            log_ += show(c);
        }
        obj.assign(nv, BQ(0));
        if (rnd(2) != 0) {
            for (size_t i = 0; i < nv; ++i) {
                if (rnd(2) != 0) { obj[i] = number(true); }
            }
            for (auto &c : obj) { has_obj = has_obj || c != 0; }
        }
        opt.select = static_cast<SelectionHeuristic>(rnd(3));
        opt.store_sat_assignment = static_cast<StoreSATAssignments>(rnd(3));
        opt.propagate_mode = static_cast<PropagateMode>(rnd(3));
        opt.propagate_conflicts = rnd(2) != 0;
        if (has_obj && rnd(3) != 0) {
            opt.global_objective = RationalQ{mk(BQ(static_cast<int>(rnd(3)), 1 + rnd(3))), mk(BQ(strict ? 1 : 0))};
        }
        log_ += " select=" + std::to_string(static_cast<int>(opt.select)) + " store=" + std::to_string(static_cast<int>(opt.store_sat_assignment)) +
                " propagate=" + std::to_string(static_cast<int>(opt.propagate_mode)) + " conflicts=" + std::to_string(opt.propagate_conflicts);
        if (has_obj) {
            log_ += " objective:";
            for (size_t i = 0; i < nv; ++i) { log_ += " " + str(obj[i]); }
            if (opt.global_objective) { log_ += " step " + str(val2(*opt.global_objective)); }
        }
        for (auto &c : cons) {
            Inequality q;
            std::vector<size_t> order;
            for (size_t i = 0; i < nv; ++i) {
                if (c.co[i] != 0) { order.push_back(i); }
            }
            std::shuffle(order.begin(), order.end(), rng);
            for (auto i : order) { q.lhs.push_back(Term{mk(c.co[i]), syms[i]}); }
            q.rhs = mk(c.rhs);
            q.rel = c.rel;
            q.lit = c.lit;
            iqs.push_back(q);
        }
        for (size_t i = 0; i < nv; ++i) {
            if (obj[i] != 0) { objective.push_back(Term{mk(obj[i]), syms[i]}); }
        }
        // some literals are fixed in advance
        for (auto &c : cons) {
            if (rnd(12) == 0 && W.open(c.lit)) {
                W.assign(rnd(2) != 0 ? c.lit : -c.lit);
                log_ += " fact(" + std::to_string(W.trail.back()) + ")";
            }
        }
    }

    // --------------------------------------------------------- preparation
    bool prepare() {
        slv.emplace(opt);
        Clingo::PropagateInit init{nullptr};
        auto before = W.val;
        bool master = rnd(6) != 0;
        log_ += master ? "" : " (not the first thread)";
        auto r = slv->prepare(init, map, iqs, objective, master);
        ++cases;
        auto n = std::count_if(W.added.begin(), W.added.end(), [](auto &c) { return c.lits.size() == 1; });
        static_cast<void>(n);
        if (!master && !W.added.empty()) { bad("C12", "clauses are added for another thread than the first"); }
        // constant constraints
        for (auto &c : cons) {
            if (!c.constant()) { continue; }
            bool h = c.rel == Relation::Less ? BQ(0) < c.rhs : c.rel == Relation::LessEqual ? BQ(0) <= c.rhs : c.rel == Relation::Greater ? BQ(0) > c.rhs :
                     c.rel == Relation::GreaterEqual ? BQ(0) >= c.rhs : c.rhs == 0;
            bool f = false;
            for (auto &x : W.added) { f = f || (x.lits.size() == 1 && x.lits[0] == -c.lit); }
            bool was_false = before.count(std::abs(c.lit)) != 0 && before[std::abs(c.lit)].first != (c.lit > 0);
            if (r && master && !h && !f && !was_false) { bad("C12", "constraint without variables does not hold but its literal stays: " + show(c)); }
            for (auto &d : cons) {
                if (d.lit == c.lit && (&d != &c)) { f = false; } // another reason may exist
            }
            if (h && f) { bad("C12", "constraint without variables holds but its literal is made false: " + show(c)); }
        }
        // clauses
        for (auto &x : W.added) { check_clause(x, x.lits.size() == 1 ? "C12" : "C08"); }
        if (!r || stop_) { return false; }
        initial();
        return !stop_;
    }
    void check_clause(Clause const &x, char const *id) {
        LP lp{nv};
        for (auto l : x.lits) { add_to(lp, -l); }
        if (lp.feasible()) { bad(id, "clause {" + show(x.lits) + "} is not implied by the constraints"); }
    }
    // definitions of the basic variables right after the preparation
    void initial() {
        auto nb = slv->n_non_basic_;
        if (nb != nv || slv->variables_.size() != nv + slv->n_basic_) {
            bad("C12", "number of variables");
            return;
        }
        expand.assign(slv->variables_.size(), std::vector<BQ>(nv, BQ(0)));
        for (size_t i = 0; i < nv; ++i) { expand[i][i] = 1; }
        for (size_t i = nv; i < slv->variables_.size(); ++i) {
            for (size_t j = 0; j < nv; ++j) { expand[i][j] = val(slv->tableau_.get(i - nv, j)); }
        }
        // every constraint has an equivalent bound
        std::vector<std::pair<lit_t, typename Solver<V>::Bound const *>> bs;
        for (auto &[l, b] : slv->bounds_) { bs.emplace_back(l, &b); }
        for (auto &c : cons) {
            if (c.constant() || (W.val.count(std::abs(c.lit)) != 0 && !W.truth(c.lit))) { continue; }
            bool found = false;
            for (size_t k = 0; k < bs.size() && !found; ++k) {
                if (bs[k].first == c.lit && bs[k].second->lit == c.lit && equivalent(c, *bs[k].second)) {
                    bs.erase(bs.begin() + static_cast<long>(k));
                    found = true;
                }
            }
            if (!found) { bad("C12", "no bound is equivalent to " + show(c)); }
        }
        for (auto &[l, b] : bs) {
            bool f = false;
            for (auto &c : cons) { f = f || (c.lit == l && W.truth(-l)); }
            if (!f) { bad("C12", "a bound belongs to no constraint: literal " + std::to_string(l)); }
        }
        if (has_obj) {
            auto x = expand[slv->objective_.var];
            if (x != obj) { bad("C12", "the objective variable does not stand for the objective"); }
        }
    }
    bool equivalent(Con const &c, typename Solver<V>::Bound const &b) {
        auto &e = expand[b.variable];
        BQ s = 0;
        for (size_t i = 0; i < nv; ++i) {
            if (e[i] != 0) {
                s = c.co[i] / e[i];
                break;
            }
        }
        if (s == 0) { return false; }
        for (size_t i = 0; i < nv; ++i) {
            if (e[i] * s != c.co[i]) { return false; }
        }
        auto v = val2(b.value);
        using BR = typename Solver<V>::BoundRelation;
        int d = c.rel == Relation::Equal ? 0 : (c.rel == Relation::Less || c.rel == Relation::LessEqual) ? -1 : 1;
        int bd = b.rel == BR::Equal ? 0 : b.rel == BR::LessEqual ? -1 : 1;
        if (d * (s < 0 ? -1 : 1) != bd) { return false; }
        return v.c * s == c.rhs && sgn(v.k * s) == sgn(c.bound().k);
    }

    // ------------------------------------------------------------- checks
    void check_equations(char const *when) {
        ++cases;
        auto n = slv->variables_.size();
        std::vector<int> seen(n, 0);
        for (size_t i = 0; i < n; ++i) {
            auto ix = slv->variables_[i].index;
            if (ix >= n || seen[ix]++ != 0 || slv->variables_[ix].reverse_index != i) {
                bad("C04", std::string(when) + ": positions and variables do not correspond");
                return;
            }
        }
        for (size_t i = nv; i < n; ++i) {
            if (eval(expand[i]) != val2(slv->variables_[i].value)) {
                bad("C04", std::string(when) + ": variable " + std::to_string(i) + " has value " + str(val2(slv->variables_[i].value)) +
                               " but its definition gives " + str(eval(expand[i])));
                return;
            }
        }
        for (size_t i = 0; i < slv->n_basic_; ++i) {
            Q2 s{};
            for (size_t j = 0; j < nv; ++j) {
                s = s + val2(slv->variables_[slv->variables_[j].index].value) * val(slv->tableau_.get(i, j));
            }
            if (s != val2(slv->variables_[slv->variables_[nv + i].index].value)) {
                bad("C04", std::string(when) + ": row " + std::to_string(i) + " of the tableau does not hold");
                return;
            }
        }
    }
    void check_solution(char const *id, char const *when) {
        ++cases;
        for (auto l : processed) {
            for (auto &c : cons) {
                if (c.lit == l && !holds(c.co, c.rel, Q2{c.rhs, 0})) {
                    if (c.constant()) { continue; } // decided in the preparation
                    bad(id, std::string(when) + ": the assignment violates " + show(c));
                    return;
                }
            }
            for (auto &c : ocons) {
                if (c.lit == l && eval(obj) < c.value) {
                    bad(id, std::string(when) + ": the assignment violates objective >= " + str(c.value));
                    return;
                }
            }
        }
    }
    // exactly the bounds of the processed literals are active
    void check_bounds(char const *id, char const *when) {
        ++cases;
        using BR = typename Solver<V>::BoundRelation;
        for (size_t i = 0; i < slv->variables_.size(); ++i) {
            std::optional<Q2> lo, hi;
            for (auto &[l, b] : slv->bounds_) {
                if (b.variable != i || processed.count(l) == 0) { continue; }
                auto v = val2(b.value);
                if (b.rel != BR::LessEqual && (!lo || *lo < v)) { lo = v; }
                if (b.rel != BR::GreaterEqual && (!hi || v < *hi)) { hi = v; }
            }
            auto &x = slv->variables_[i];
            bool ok = lo.has_value() == x.has_lower() && hi.has_value() == x.has_upper();
            if (ok && lo) { ok = *lo == val2(x.lower()) && processed.count(x.lower_bound->lit) != 0; }
            if (ok && hi) { ok = *hi == val2(x.upper()) && processed.count(x.upper_bound->lit) != 0; }
            if (!ok) {
                bad(id, std::string(when) + ": variable " + std::to_string(i) + " has bounds [" + (x.has_lower() ? str(val2(x.lower())) : "-") + ", " +
                            (x.has_upper() ? str(val2(x.upper())) : "-") + "] instead of [" + (lo ? str(*lo) : "-") + ", " + (hi ? str(*hi) : "-") + "]");
                return;
            }
        }
    }

    // -------------------------------------------------------------- search
    std::vector<bool> silent; // per level: no solve call happened
    bool solve() {
        // deliver the pending literals as the solver would
        bool first = true;
        while (!W.pending.empty() || first) {
            first = false;
            std::vector<lit_t> ch;
            for (auto l : W.pending) {
                if (slv->bounds_.count(l) != 0 && processed.count(l) == 0) { ch.push_back(l); }
            }
            W.pending.clear();
            if (ch.empty()) { return true; }
            std::shuffle(ch.begin(), ch.end(), rng);
            log_ += " solve@" + std::to_string(W.level) + "{" + show(ch) + "}";
            if (!silent.empty()) { silent.back() = false; }
            auto n_added = W.added.size();
            auto p0 = slv->statistics().pivots;
            auto b0 = slv->statistics().propagated_bounds;
            auto seen0 = pivots_seen;
            auto r = slv->solve(ctl, {ch.data(), ch.size()});
            for (auto l : ch) { processed.insert(l); }
            if (r) { log_ += "=ok"; }
            else { log_ += "=conflict"; }
            if (slv->statistics().pivots - p0 != pivots_seen - seen0) { bad("C16", "number of pivots is not counted exactly"); }
            size_t nb = slv->statistics().propagated_bounds - b0;
            size_t na = W.added.size() - n_added;
            std::vector<Clause> fresh(W.added.begin() + static_cast<long>(n_added), W.added.end());
            bool conflict_clause = !r && nb == 0;
            if (na != nb + (conflict_clause ? 1 : 0)) {
                if (!r && na == 0) { bad("C06", "a conflict is reported without a clause"); }
                else { bad("C16", "number of propagated bounds is " + std::to_string(nb) + " but " + std::to_string(na) + " clauses were added"); }
            }
            for (auto &x : fresh) {
                bool confl = !r && nb == 0;
                if (confl) {
                    for (auto l : x.lits) {
                        if (processed.count(-l) == 0 || !W.truth(-l)) { bad("C06", "conflict clause {" + show(x.lits) + "} contains literal " + std::to_string(l) + " whose negation is not asserted"); }
                    }
                }
                check_clause(x, confl ? "C06" : "C08");
            }
            check_equations("after solving");
            if (stop_) { return false; }
            if (!r) { return false; }
            check_solution("C05", "after solving");
            check_bounds("C05", "after solving");
            if (stop_) { return false; }
            // bounds just propagated
            if (!prop_all()) { return false; }
        }
        return true;
    }
    void backtrack(int to) {
        while (W.level > to && !stop_) {
            bool s = silent.back();
            silent.pop_back();
            while (!W.trail.empty() && W.val[std::abs(W.trail.back())].second == W.level) {
                W.val.erase(std::abs(W.trail.back()));
                processed.erase(W.trail.back());
                W.trail.pop_back();
            }
            --W.level;
            W.pending.clear();
            if (!s) {
                log_ += " undo";
                slv->undo();
                check_equations("after backtracking");
                check_bounds("C07", "after backtracking");
                check_solution("C07", "after backtracking");
                if (!slv->conflicts_.empty()) { bad("C07", "variables stay in the conflict queue after backtracking"); }
                for (auto &x : slv->variables_) {
                    if (x.queued) { bad("C07", "a variable stays marked as queued after backtracking"); }
                }
            }
        }
        for (auto l : W.implied0) {
            if (W.open(l)) { W.assign(l); }
        }
    }
    std::string state() {
        std::string r;
        for (auto &x : slv->variables_) {
            r += str(val2(x.value)) + "," + std::to_string(x.index) + "," + std::to_string(x.reverse_index) + "," + std::to_string(x.level) + "," +
                 (x.has_lower() ? str(val2(x.lower())) : "-") + "," + (x.has_upper() ? str(val2(x.upper())) : "-") + ";";
        }
        return r;
    }
    void adjust() {
        std::vector<lit_t> ls = lits;
        ls.push_back(W.max_var + 5);
        auto before = state();
        for (auto v : ls) {
            for (lit_t l : {v, -v}) {
                ++cases;
                Clingo::Assignment ass{nullptr};
                auto r = slv->adjust(ass, l);
                bool sat = true, unsat = true, nsat = true, nunsat = true;
                bool any = false;
                for (auto &c : cons) {
                    if (c.constant() || slv->bounds_.count(c.lit) == 0) { continue; }
                    bool h = holds(c.co, c.rel, Q2{c.rhs, 0});
                    if (h != holds(c.co, c.rel, c.bound())) {
                        // satisfied by less than the representing epsilon
                        any = true;
                        sat = unsat = nsat = nunsat = false;
                    }
                    if (c.lit == l) { any = true; (h ? unsat : sat) = false; }
                    if (c.lit == -l) { any = true; (h ? nunsat : nsat) = false; }
                }
                for (auto &c : ocons) {
                    bool h = c.value <= eval(obj);
                    if (c.lit == l) { any = true; (h ? unsat : sat) = false; }
                    if (c.lit == -l) { any = true; (h ? nunsat : nsat) = false; }
                }
                std::string in = " for literal " + std::to_string(l) + " in mode " + std::to_string(static_cast<int>(opt.select));
                if (r != l && r != -l) { bad("C15", "the heuristic returns " + std::to_string(r) + in); }
                if ((opt.select == SelectionHeuristic::None || !any) && r != l) { bad("C15", "the heuristic changes the literal" + in); }
                if (!any || opt.select == SelectionHeuristic::None) { continue; }
                bool match = opt.select == SelectionHeuristic::Match;
                // current assignment agrees with l / with -l
                if (sat && nunsat && r != (match ? l : -l)) { bad("C15", "wrong sign although the assignment agrees with it" + in); }
                if (unsat && nsat && r != (match ? -l : l)) { bad("C15", "wrong sign although the assignment disagrees with it" + in); }
            }
        }
        if (before != state()) { bad("C15", "asking for a sign changes the state"); }
    }
    void optimize() {
        log_ += " optimize";
        slv->optimize();
        check_equations("after optimizing");
        check_solution("C09", "after optimizing");
        check_bounds("C09", "after optimizing");
        ++cases;
        if (stop_) { return; }
        auto o = slv->get_objective();
        if (o.has_value() != has_obj) {
            bad("C09", "an objective is reported although there is none, or the other way around");
            return;
        }
        if (!has_obj) { return; }
        LP lp{nv};
        for (auto l : processed) { add_to(lp, l); }
        for (auto &c : cons) {
            if (c.constant() && processed.count(c.lit) != 0) { return; }
        }
        auto m = lp.maximum(obj);
        // the size of epsilon is a matter of representation
        bool eps = false;
        for (auto &c : ocons) { eps = eps || (processed.count(c.lit) != 0 && c.value.k != 0); }
        if (m.has_value() != o->second) { bad("C09", std::string("the objective is reported ") + (o->second ? "bounded" : "unbounded")); }
        else if (m.has_value() && (m->c != val2(o->first).c || (sgn(m->k) != sgn(val2(o->first).k) && !eps))) { bad("C09", "the reported optimum is " + str(val2(o->first)) + " instead of " + str(*m)); }
        if (val2(o->first) != eval(obj)) { bad("C09", "the reported value is not the value of the objective under the assignment"); }
        // store the assignment as Propagator::check does
        if (opt.store_sat_assignment >= StoreSATAssignments::Partial) {
            log_ += " store";
            slv->store_sat_assignment();
        }
    }
    ObjectiveState<V> state_;
    std::optional<Q2> best;
    bool best_unbounded{false};
    size_t generation_seen{0};

    // a report by some thread
    void report(Q2 v, bool bounded) {
        ++cases;
        log_ += " report(" + str(v) + (bounded ? "" : ",unbounded") + ")";
        state_.update({mkv<V>(v), bounded});
        if (!best_unbounded) {
            if (!bounded) {
                best_unbounded = true;
                best = v;
            } else if (!best || *best < v) { best = v; }
        }
        size_t g = ~size_t(0);
        auto r = state_.value(g);
        if (!r.has_value()) { bad("C10", "the best objective is not handed out"); }
        else if (r->second == best_unbounded || val2(r->first) != *best) {
            bad("C10", "the best objective is " + str(val2(r->first)) + (r->second ? "" : " (unbounded)") + " instead of " + str(*best) + (best_unbounded ? " (unbounded)" : ""));
        }
        auto g2 = g;
        if (state_.value(g2).has_value() || g2 != g) { bad("C10", "an objective already integrated is handed out again"); }
    }
    bool integrate() {
        ++cases;
        auto before = slv->bounds_.size();
        auto n0 = W.added.size();
        log_ += " integrate";
        auto nl = W.max_var;
        auto r = slv->integrate_objective(ctl, state_);
        return integrated(r, before, n0, nl, best && !best_unbounded ? std::optional<Q2>(*best + val2(*opt.global_objective)) : std::nullopt);
    }
    bool integrated(bool r, size_t before, size_t n0, int nl, std::optional<Q2> want) {
        auto n = slv->bounds_.size() - before;
        if (n > 1 || W.added.size() - n0 != n) {
            bad("C10", "more than one bound is added, or it is not asserted");
            return false;
        }
        if (n == 1) {
            lit_t l = nl + 1;
            auto it = slv->bounds_.find(l);
            if (W.max_var != l || it == slv->bounds_.end() || W.watched.count(l) == 0 || W.added.back().lits != std::vector<lit_t>{l}) {
                bad("C10", "the bound on the objective is not tied to a new watched literal that is asserted");
                return false;
            }
            auto &b = it->second;
            using BR = typename Solver<V>::BoundRelation;
            if (!want || expand[b.variable] != obj || b.rel != BR::GreaterEqual || val2(b.value) != *want || b.lit != l) {
                bad("C10", "the bound is >= " + str(val2(b.value)) + " on variable " + std::to_string(b.variable) + " but the objective must be >= " + (want ? str(*want) : "nothing"));
                return false;
            }
            ocons.push_back({*want, l});
            lits.push_back(l);
        }
        taken = n == 1;
        return r;
    }
    bool taken{false};

    void history(size_t len) {
        generate();
        if (!prepare()) { return; }
        for (auto &[l, b] : slv->bounds_) { lits.push_back(l); }
        std::sort(lits.begin(), lits.end());
        lits.erase(std::unique(lits.begin(), lits.end()), lits.end());
        if (lits.empty()) { lits.push_back(W.max_var + 1); }
        W.pending = W.trail;
        check_equations("after preparing");
        state_.reset();
        bool ok = solve();
        if (!ok || stop_) { return; }
        bool first_report = true;
        for (size_t s = 0; s < len && !stop_; ++s) {
            auto what = rnd(12);
            bool conflict = false;
            if (what < 8) {
                // decide
                std::vector<lit_t> open;
                for (auto l : lits) {
                    if (W.open(l)) { open.push_back(l); }
                }
                if (open.empty()) { what = W.level > 0 && rnd(3) != 0 ? 8 : 10; }
                else {
                    ++W.level;
                    silent.push_back(true);
                    auto n = rnd(3) == 0 ? 1 + rnd(3) : 1;
                    for (unsigned k = 0; k < n; ++k) {
                        auto l = open[rnd(open.size())];
                        if (!W.open(l)) { continue; }
                        if (rnd(8) == 0) { l = -l; }
                        W.assign(l);
                    }
                    conflict = !solve();
                }
            }
            if (what == 8 && W.level > 0) {
                backtrack(static_cast<int>(rnd(static_cast<unsigned>(W.level))));
                conflict = !stop_ && !solve();
            }
            if (what == 9) { adjust(); }
            if (what >= 10 && !conflict && !stop_) {
                if (opt.global_objective && rnd(2) == 0) {
                    // another thread reports first
                    if (first_report || rnd(3) == 0) { report({number(false), strict ? number(false) : BQ(0)}, rnd(6) != 0); }
                    first_report = false;
                    auto had = slv->objective_.generation;
                    bool r = integrate();
                    if (!stop_ && best && !best_unbounded && had != slv->objective_.generation && !taken) { bad("C10", "a better objective is not taken over"); }
                    if (!stop_ && !taken && best_unbounded && !slv->objective_.discard_bounded) { bad("C10", "an unbounded objective is not taken over"); }
                    conflict = !r || !solve();
                }
                if (!conflict && !stop_) {
                    optimize();
                    if (!stop_ && has_obj && opt.global_objective) {
                        auto o = slv->get_objective();
                        auto before = slv->bounds_.size();
                        auto n0 = W.added.size();
                        auto nl = W.max_var;
                        bool must = o->second && slv->objective_.discard_bounded;
                        log_ += " discard";
                        auto r = slv->discard_bounded(ctl);
                        r = integrated(r, before, n0, nl, must ? std::optional<Q2>(val2(o->first) + Q2{1, 0}) : std::nullopt);
                        if (!stop_ && must && !taken) { bad("C10", "a bounded solution is not discarded after an unbounded one"); }
                        if (!stop_ && (!r || !solve())) { conflict = true; }
                        else if (!stop_ && must) { bad("C10", "a bounded solution survives after an unbounded one"); }
                        if (!conflict && !stop_ && rnd(2) == 0) { report(val2(o->first), o->second); }
                    }
                }
            }
            while (conflict && !stop_) {
                if (W.level == 0) { return; }
                backtrack(static_cast<int>(W.level - 1 - rnd(static_cast<unsigned>(W.level)) % 2 * (W.level > 1 ? 1 : 0)));
                conflict = !stop_ && !solve();
            }
        }
    }
};

int main(int argc, char **argv) {
    prop = argc > 1 ? argv[1] : "all";
    long seed = argc > 2 ? atol(argv[2]) : 1;
    long n = argc > 3 ? atol(argv[3]) : 1000;
    long only = argc > 4 ? atol(argv[4]) : -1;
    guard(argc > 5 ? atoi(argv[5]) : 600);
    std::string sample;
    long done = 0;
    for (long h = 0; h < n && fails < 5; ++h) {
        if (only >= 0 && h != only) { continue; }
        rng.seed(static_cast<unsigned long>(seed * 1000003 + h));
        stop_ = false;
        size_t len = 5 + rnd(40);
        if (rnd(2) != 0) { Run<RationalQ>{}.history(len); }
        else { Run<Rational>{}.history(len); }
        ++done;
        if (stop_ && only < 0 && prop == "all" && fails < 6) { fprintf(stderr, "history %ld\n", h); }
        if (h == 5) { sample = log_; }
    }
    printf("{\"cases\": %ld, \"bound\": \"%ld random solver histories (up to 4 variables, 8 constraints, 45 steps) with and without strict relations, all options, checked against exact Fourier-Motzkin elimination\", \"samples\": [\"%s\"]}\n",
           cases, done, esc(sample.substr(0, 700)).c_str());
    return fails != 0 ? 1 : 0;
}
