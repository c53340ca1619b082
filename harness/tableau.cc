// Replays random histories of tableau operations against a dense matrix of
// exact rationals. Mode C02: entries and walks; mode C03: pivots.
#include "common.hh"
#define private public
#include "tableau.hh"
#undef private
#include <map>

using Dense = std::vector<std::vector<BQ>>;
static std::mt19937_64 rng;
static unsigned rnd(unsigned n) { return static_cast<unsigned>(rng() % n); }

static BI big() {
    BI r = 1;
    r <<= (60 + rnd(8));
    return r + rnd(5) - 2;
}
static BQ value(int style) {
    BI n = static_cast<int>(rnd(9)) - 4, d = 1;
    if (style >= 1) { d = 1 + rnd(6); }
    if (style >= 2 && rnd(3) == 0) { n = (rnd(2) != 0 ? BI(-1) : BI(1)) * big(); }
    if (style >= 3 && rnd(3) == 0) { d = big(); }
    return BQ(n, d);
}

static void check_get(Tableau const &t, Dense const &m) {
    for (size_t i = 0; i < m.size(); ++i) {
        for (size_t j = 0; j < m[i].size(); ++j) {
            auto g = val(t.get(i, j));
            if (g != m[i][j]) {
                fail("entry (" + std::to_string(i) + "," + std::to_string(j) + ") is " + str(g) + " but should be " + str(m[i][j]));
                return;
            }
        }
    }
}

static void walk(Tableau &t, Dense &m, bool row, size_t a, int change) {
    size_t n = row ? m[0].size() : m.size();
    std::vector<int> seen(n, 0);
    std::string what;
    auto cell = [&](size_t k) -> BQ & { return row ? m[a][k] : m[k][a]; };
    auto f = [&](index_t k, Integer &v, Integer &d) {
        if (k >= n) {
            what = "index " + std::to_string(k) + " is visited";
            return;
        }
        if (++seen[k] > 1) { what = "index " + std::to_string(k) + " is visited twice"; }
        if (val(d) == 0 || val(v) == 0) {
            what = "a zero entry or denominator at " + std::to_string(k);
            return;
        }
        auto q = div(val(v), val(d));
        if (q != cell(k)) {
            what = "index " + std::to_string(k) + " is visited with " + str(q) + " instead of " + str(cell(k));
        } else if (change != 0) {
            v *= Integer{change};
            cell(k) *= change;
        }
    };
    if (row) { t.update_row(a, f); }
    else { t.update_col(a, f); }
    for (size_t k = 0; k < n && what.empty(); ++k) {
        if ((seen[k] != 0) != (cell(k) != 0)) { what = "index " + std::to_string(k) + (seen[k] != 0 ? " is visited" : " is not visited"); }
    }
    if (!what.empty()) { fail(std::string("walking ") + (row ? "row " : "column ") + std::to_string(a) + ": " + what); }
}

static void pivot(Tableau &t, Dense &m, size_t i, size_t j) {
    Dense r = m;
    BQ p = m[i][j];
    for (size_t k = 0; k < m.size(); ++k) {
        for (size_t l = 0; l < m[k].size(); ++l) {
            if (k == i && l == j) { r[k][l] = 1 / p; }
            else if (k == i) { r[k][l] = -m[i][l] / p; }
            else if (l == j) { r[k][l] = m[k][j] / p; }
            else { r[k][l] = m[k][l] - m[k][j] * m[i][l] / p; }
        }
    }
    Integer *a = nullptr, *d = nullptr;
    t.unsafe_get(i, j, a, d);
    t.pivot(i, j, *a, *d);
    m = r;
}

static void history(bool c03, size_t len) {
    size_t rows = 1 + rnd(6), cols = 1 + rnd(7);
    int style = static_cast<int>(rnd(4));
    int dense = 1 + static_cast<int>(rnd(6));
    Dense m(rows, std::vector<BQ>(cols, BQ(0)));
    Tableau t;
    log_ = std::to_string(rows) + "x" + std::to_string(cols) + ":";
    auto set = [&](size_t i, size_t j, BQ const &q) {
        log_ += " set(" + std::to_string(i) + "," + std::to_string(j) + "," + str(q) + ")";
        t.set(i, j, mk(q));
        m[i][j] = q;
    };
    bool sorted = rnd(2) != 0;
    for (size_t i = 0; i < rows; ++i) {
        for (size_t j = 0; j < cols; ++j) {
            if (static_cast<int>(rnd(7)) < dense) {
                if (sorted) { set(i, j, value(style)); }
                else { set(rnd(rows), rnd(cols), value(style)); }
            }
        }
    }
    auto f0 = fails;
    check_get(t, m);
    for (size_t s = 0; s < len && fails == f0; ++s) {
        ++cases;
        size_t i = rnd(rows), j = rnd(cols);
        unsigned op = rnd(c03 ? 10 : 12);
        if (c03 && op < 7 && m[i][j] == 0) {
            for (size_t x = 0; x < rows * cols && m[i][j] == 0; ++x) {
                j = (j + 1) % cols;
                if (j == 0) { i = (i + 1) % rows; }
            }
        }
        if ((c03 ? op < 7 : op < 2) && m[i][j] != 0) {
            log_ += " pivot(" + std::to_string(i) + "," + std::to_string(j) + ")";
            pivot(t, m, i, j);
            // numbers explode over long histories
            if (numerator(m[i][j]) > (BI(1) << 4000)) { return; }
        } else if (op < 7) {
            set(i, j, rnd(4) == 0 ? BQ(0) : value(style));
        } else if (op < 9) {
            int c = rnd(2) != 0 ? 0 : (rnd(2) != 0 ? -1 : 3);
            log_ += " row(" + std::to_string(i) + ",*" + std::to_string(c) + ")";
            walk(t, m, true, i, c);
        } else if (op < 11) {
            int c = rnd(2) != 0 ? 0 : (rnd(2) != 0 ? -1 : 3);
            log_ += " col(" + std::to_string(j) + ",*" + std::to_string(c) + ")";
            walk(t, m, false, j, c);
        } else if (rnd(40) == 0) {
            log_ += " clear()";
            t.clear();
            for (auto &r : m) { r.assign(cols, BQ(0)); }
        }
        check_get(t, m);
    }
    if (fails == f0) {
        log_ += " final walks";
        for (size_t i = 0; i < rows; ++i) { walk(t, m, true, i, 0); }
        for (size_t j = 0; j < cols; ++j) { walk(t, m, false, j, 0); }
        for (size_t j = 0; j < cols; ++j) { walk(t, m, false, j, 0); }
        check_get(t, m);
    }
}

int main(int argc, char **argv) {
    bool c03 = argc > 1 && strcmp(argv[1], "C03") == 0;
    long seed = argc > 2 ? atol(argv[2]) : 1;
    long n = argc > 3 ? atol(argv[3]) : 1000;
    guard(600);
    std::string sample;
    for (long h = 0; h < n && fails < 5; ++h) {
        rng.seed(static_cast<unsigned long>(seed * 1000003 + h));
        history(c03, 1 + rnd(c03 ? 12 : 25));
        if (h == 3) { sample = log_; }
    }
    printf("{\"cases\": %ld, \"bound\": \"%ld random histories over matrices up to 6x7, entries up to 2^68 and fractions of them\", \"samples\": [\"%s\"]}\n",
           cases, n, esc(sample.substr(0, 600)).c_str());
    return fails != 0 ? 1 : 0;
}
