// Exact linear programming oracle: Fourier-Motzkin elimination over the
// rationals extended with an infinitesimal (strict relations become bounds
// shifted by it).
#pragma once
#include "common.hh"
#include <map>
#include <optional>

struct Row { // sum co*x <= rhs (or = rhs)
    std::vector<BQ> co;
    Q2 rhs;
    bool eq{false};
};

struct LP {
    size_t n;
    std::vector<Row> rows;
    bool infeasible{false};

    explicit LP(size_t n) : n{n} {}
    void le(std::vector<BQ> co, Q2 rhs) { rows.push_back({std::move(co), std::move(rhs), false}); }
    void ge(std::vector<BQ> const &co, Q2 const &rhs) {
        auto c = co;
        for (auto &x : c) { x = -x; }
        rows.push_back({c, rhs * BQ(-1), false});
    }
    void eq(std::vector<BQ> co, Q2 rhs) { rows.push_back({std::move(co), std::move(rhs), true}); }

    void eliminate(size_t v) {
        for (size_t r = 0; r < rows.size(); ++r) {
            if (rows[r].eq && rows[r].co[v] != 0) {
                Row e = rows[r];
                rows.erase(rows.begin() + static_cast<long>(r));
                for (auto &x : rows) {
                    if (x.co[v] != 0) {
                        BQ f = x.co[v] / e.co[v];
                        for (size_t i = 0; i < x.co.size(); ++i) { x.co[i] -= f * e.co[i]; }
                        x.rhs = x.rhs - e.rhs * f;
                    }
                }
                clean();
                return;
            }
        }
        std::vector<Row> pos, neg, rest;
        for (auto &x : rows) { (x.co[v] > 0 ? pos : x.co[v] < 0 ? neg : rest).push_back(x); }
        for (auto &p : pos) {
            for (auto &m : neg) {
                Row x = p;
                BQ f = -m.co[v] / p.co[v];
                for (size_t i = 0; i < x.co.size(); ++i) { x.co[i] = p.co[i] * f + m.co[i]; }
                x.rhs = p.rhs * f + m.rhs;
                rest.push_back(x);
            }
        }
        rows = rest;
        clean();
    }
    void clean() {
        std::map<std::vector<BQ>, Q2> best;
        std::vector<Row> out;
        for (auto &x : rows) {
            BQ s = 0;
            for (auto &c : x.co) {
                if (c != 0) {
                    s = c < 0 ? BQ(-c) : c;
                    break;
                }
            }
            if (s == 0) {
                if (x.eq ? x.rhs != Q2{} : x.rhs < Q2{}) { infeasible = true; }
                continue;
            }
            if (x.eq) {
                out.push_back(x);
                continue;
            }
            for (auto &c : x.co) { c /= s; }
            x.rhs = x.rhs * BQ(1 / s);
            auto it = best.find(x.co);
            if (it == best.end()) { best.emplace(x.co, x.rhs); }
            else if (x.rhs < it->second) { it->second = x.rhs; }
        }
        for (auto &[c, r] : best) { out.push_back({c, r, false}); }
        rows = out;
    }
    bool feasible() const {
        LP l = *this;
        l.clean();
        for (size_t v = 0; v < n && !l.infeasible; ++v) { l.eliminate(v); }
        return !l.infeasible;
    }
    // largest value of the function; nothing if unbounded (must be feasible)
    std::optional<Q2> maximum(std::vector<BQ> const &f) const {
        LP l{n + 1};
        for (auto r : rows) {
            r.co.push_back(0);
            l.rows.push_back(r);
        }
        auto c = f;
        for (auto &x : c) { x = -x; }
        c.push_back(1);
        l.eq(c, Q2{});
        l.clean();
        for (size_t v = 0; v < n; ++v) { l.eliminate(v); }
        std::optional<Q2> r;
        for (auto &x : l.rows) {
            if (x.eq || x.co[n] > 0) {
                Q2 b = x.rhs * BQ(1 / x.co[n]);
                if (!r || b < *r) { r = b; }
            }
        }
        return r;
    }
};
