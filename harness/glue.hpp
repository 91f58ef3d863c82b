// Calls into PSLP's public API and copies the results out.
#pragma once
#include "PSLP_API.h"
#include "PSLP_sol.h"
#include "PSLP_stats.h"
#include "hook.hpp"
#include "lp.hpp"
#include "simplex.hpp"
#include <memory>

typedef long double LD;

inline void toSettings(const Stg &s, Settings *t) {
    t->ston_cols = s.ston_cols;
    t->dton_eq = s.dton_eq;
    t->parallel_rows = s.parallel_rows;
    t->parallel_cols = s.parallel_cols;
    t->primal_propagation = s.primal_propagation;
    t->finite_bound_tightening = s.finite_bt;
    t->dual_fix = s.dual_fix;
    t->relax_bounds = s.relax;
    t->max_shift = s.max_shift;
    t->max_time = s.max_time;
    t->verbose = s.verbose;
}

struct Pres {
    Settings *st = nullptr;
    Presolver *p = nullptr;
    int status = -1;
    std::string bad; // structural problem of the reduced LP, if any
    LP red;
    double offset = 0;
    Pres() {}
    Pres(const Pres &) = delete;
    ~Pres() { reset(); }
    void reset() {
        if (p) {
            hk::Scope sc;
            free_presolver(p);
        }
        if (st) free_settings(st);
        p = nullptr;
        st = nullptr;
    }
    bool hasReduced() const { return (status == UNCHANGED || status == REDUCED) && bad.empty(); }

    void create(const LP &lp, const Stg &s) {
        CSR a(lp);
        st = default_settings();
        toSettings(s, st);
        // exact-size heap copies so that a sanitizer sees any overread; freed
        // right after new_presolver because the interface promises deep copies
        auto cp = [](auto &v) {
            typedef typename std::remove_reference<decltype(v[0])>::type E;
            E *q = (E *) malloc(v.size() * sizeof(E) + (v.empty() ? 1 : 0));
            if (!v.empty()) memcpy(q, v.data(), v.size() * sizeof(E));
            return q;
        };
        double *Ax = cp(a.Ax), *l = cp(a.lhs), *r = cp(a.rhs), *lb = cp(a.lb), *ub = cp(a.ub), *c = cp(a.c);
        int *Ai = cp(a.Ai), *Ap = cp(a.Ap);
        {
            hk::Scope sc;
            p = new_presolver(Ax, Ai, Ap, a.m, a.n, a.nnz, l, r, lb, ub, c, st);
        }
        auto scrub = [](void *q, size_t sz) {
            memset(q, 0x7b, sz);
            free(q);
        };
        scrub(Ax, a.Ax.size() * 8);
        scrub(l, a.m * 8);
        scrub(r, a.m * 8);
        scrub(lb, a.n * 8);
        scrub(ub, a.n * 8);
        scrub(c, a.n * 8);
        scrub(Ai, a.Ai.size() * 4);
        scrub(Ap, a.Ap.size() * 4);
    }
    void run(const LP &lp) {
        {
            hk::Scope sc;
            status = (int) run_presolver(p);
        }
        if (status == UNCHANGED || status == REDUCED) fetch(lp);
    }
    void go(const LP &lp, const Stg &s) {
        create(lp, s);
        if (p) run(lp);
    }
    // checks the structure of the reduced LP while copying it
    void fetch(const LP &orig) {
        PresolvedProblem *q = p->reduced_prob;
        char b[200];
        // limits may cross by less than the feasibility tolerance; make them meet
#define CROSS(v) (2e-6 * std::max(1.0, fabs(v)))
#define BAD(...)                                                                        \
    do {                                                                                \
        snprintf(b, sizeof b, __VA_ARGS__);                                             \
        bad = b;                                                                        \
        return;                                                                         \
    } while (0)
        if (!q) BAD("reduced_prob is NULL after a successful run");
        if (q->m > (size_t) orig.m() || q->n > (size_t) orig.n())
            BAD("reduced dims %zux%zu exceed original %dx%d", q->m, q->n, orig.m(), orig.n());
        if (!q->Ap) BAD("Ap is NULL");
        if (q->Ap[0] != 0) BAD("Ap[0] = %d", q->Ap[0]);
        for (size_t i = 0; i < q->m; i++)
            if (q->Ap[i + 1] < q->Ap[i]) BAD("Ap decreases at row %zu", i);
        if ((size_t) q->Ap[q->m] != q->nnz) BAD("Ap[m] = %d but nnz = %zu", q->Ap[q->m], q->nnz);
        LP r;
        r.cols.resize(q->n);
        r.rows.resize(q->m);
        for (size_t j = 0; j < q->n; j++) {
            double lo = q->lbs[j], hi = q->ubs[j], c = q->c[j];
            if (std::isnan(lo) || std::isnan(hi) || std::isnan(c) || std::isinf(c))
                BAD("column %zu: bad number lb=%g ub=%g c=%g", j, lo, hi, c);
            if (lo == INFV || hi == -INFV || lo > hi + CROSS(lo)) BAD("column %zu: lb=%.17g ub=%.17g", j, lo, hi);
            r.cols[j].lb = lo;
            r.cols[j].ub = std::max(lo, hi);
            r.cols[j].c = c;
        }
        for (size_t i = 0; i < q->m; i++) {
            double lo = q->lhs[i], hi = q->rhs[i];
            if (std::isnan(lo) || std::isnan(hi)) BAD("row %zu: NaN side", i);
            if (lo == INFV || hi == -INFV || lo > hi + CROSS(lo)) BAD("row %zu: lhs=%.17g rhs=%.17g", i, lo, hi);
            r.rows[i].l = lo;
            r.rows[i].r = std::max(lo, hi);
            int prev = -1;
            for (int k = q->Ap[i]; k < q->Ap[i + 1]; k++) {
                int j = q->Ai[k];
                double v = q->Ax[k];
                if (j < 0 || (size_t) j >= q->n) BAD("row %zu: column index %d out of range", i, j);
                if (j <= prev) BAD("row %zu: column indices not strictly increasing (%d after %d)", i, j, prev);
                if (v == 0 || std::isnan(v) || std::isinf(v)) BAD("row %zu: coefficient %g", i, v);
                prev = j;
                r.rows[i].a.push_back({j, v});
            }
        }
        if (std::isnan(q->obj_offset) || std::isinf(q->obj_offset)) BAD("obj_offset = %g", q->obj_offset);
        offset = q->obj_offset;
        red = std::move(r);
#undef BAD
#undef CROSS
    }
    void post(const std::vector<double> &x, const std::vector<double> &y, const std::vector<double> &z) {
        // exact-size copies, scrubbed afterwards
        auto cp = [](const std::vector<double> &v) {
            double *q = (double *) malloc(v.size() * 8 + (v.empty() ? 1 : 0));
            if (!v.empty()) memcpy(q, v.data(), v.size() * 8);
            return q;
        };
        double *a = cp(x), *b = cp(y), *c = cp(z);
        {
            hk::Scope sc;
            postsolve(p, a, b, c);
        }
        free(a);
        free(b);
        free(c);
    }
    std::vector<double> X() const { return std::vector<double>(p->sol->x, p->sol->x + p->sol->dim_x); }
    std::vector<double> Y() const { return std::vector<double>(p->sol->y, p->sol->y + p->sol->dim_y); }
    std::vector<double> Z() const { return std::vector<double>(p->sol->z, p->sol->z + p->sol->dim_x); }
};

// ---------------------------------------------------------------- oracle
struct Sol {
    LpStat stat = LpStat::FAIL;
    LD obj = 0, viol = 0, scale = 1; // scale: sum |c_j x_j|
    std::vector<double> x, y, z;
    std::vector<LD> xl;
};

struct Comp {
    LP lp;
    std::vector<int> rows, cols;
};

inline std::vector<Comp> components(const LP &lp) {
    int m = lp.m(), n = lp.n();
    std::vector<int> f(n + m);
    for (int i = 0; i < n + m; i++) f[i] = i;
    auto find = [&](int a) {
        while (f[a] != a) a = f[a] = f[f[a]];
        return a;
    };
    for (int i = 0; i < m; i++)
        for (auto &e : lp.rows[i].a) f[find(e.first)] = find(n + i);
    std::map<int, int> id;
    std::vector<Comp> out;
    std::vector<int> loc(n);
    for (int j = 0; j < n; j++) {
        auto it = id.emplace(find(j), (int) out.size());
        if (it.second) out.emplace_back();
        Comp &c = out[it.first->second];
        loc[j] = (int) c.cols.size();
        c.cols.push_back(j);
        c.lp.cols.push_back(lp.cols[j]);
    }
    for (int i = 0; i < m; i++) {
        auto it = id.emplace(find(n + i), (int) out.size());
        if (it.second) out.emplace_back();
        Comp &c = out[it.first->second];
        c.rows.push_back(i);
        Row r = lp.rows[i];
        for (auto &e : r.a) e.first = loc[e.first];
        c.lp.rows.push_back(r);
    }
    return out;
}

inline LD rowAct(const Row &r, const std::vector<double> &x, LD *sc = nullptr) {
    LD s = 0, a = 0;
    for (auto &e : r.a) {
        LD t = (LD) e.second * x[e.first];
        s += t;
        a += fabsl(t);
    }
    if (sc) *sc = a;
    return s;
}

// worst relative primal violation, with a description of where
inline LD primalViol(const LP &lp, const std::vector<double> &x, std::string *where = nullptr) {
    LD w = 0;
    auto rec = [&](LD v, const char *k, int i, LD a, double b) {
        if (!(v <= w)) {
            w = (v != v) ? (LD) INFV : v;
            if (where) {
                char buf[160];
                snprintf(buf, sizeof buf, "%s %d: value %.12Lg vs limit %.12g", k, i, a, b);
                *where = buf;
            }
        }
    };
    for (int j = 0; j < lp.n(); j++) {
        double v = x[j];
        if (std::isnan(v) || std::isinf(v)) { rec((LD) INFV, "column (not finite)", j, v, 0); continue; }
        double lo = lp.cols[j].lb, hi = lp.cols[j].ub;
        if (!std::isinf(lo)) rec(((LD) lo - v) / (1 + fabsl(lo)), "column lower bound", j, v, lo);
        if (!std::isinf(hi)) rec(((LD) v - hi) / (1 + fabsl(hi)), "column upper bound", j, v, hi);
    }
    for (int i = 0; i < lp.m(); i++) {
        LD sc, a = rowAct(lp.rows[i], x, &sc);
        if (a != a) { rec((LD) INFV, "row (NaN)", i, a, 0); continue; }
        double lo = lp.rows[i].l, hi = lp.rows[i].r;
        LD mx = 1;
        for (auto &e : lp.rows[i].a) mx = std::max(mx, fabsl((LD) e.second));
        if (!std::isinf(lo)) rec((lo - a) / (mx + sc), "row lhs", i, a, lo);
        if (!std::isinf(hi)) rec((a - hi) / (mx + sc), "row rhs", i, a, hi);
    }
    return w;
}

// the unit of the objective: costs may all be small (never taken as more than 1)
inline LD costUnit(const LP &lp) {
    LD u = 0;
    for (auto &c : lp.cols) u = std::max(u, fabsl((LD) c.c));
    return u > 0 && u < 1 ? u : 1;
}
// worst stationarity residual c - A'y - z
inline LD statViol(const LP &lp, const std::vector<double> &y, const std::vector<double> &z, std::string *where = nullptr) {
    std::vector<LD> s(lp.n()), sc(lp.n());
    LD unit = costUnit(lp);
    std::vector<LD> big(lp.n(), 0); // the unit of a column: its largest coefficient, if small
    for (auto &r : lp.rows)
        for (auto &e : r.a) big[e.first] = std::max(big[e.first], fabsl((LD) e.second));
    for (int j = 0; j < lp.n(); j++) {
        s[j] = (LD) lp.cols[j].c - z[j];
        sc[j] = unit * (big[j] > 0 && big[j] < 1 ? big[j] : 1) + fabsl(lp.cols[j].c) + fabsl(z[j]);
    }
    for (int i = 0; i < lp.m(); i++)
        for (auto &e : lp.rows[i].a) {
            s[e.first] -= (LD) e.second * y[i];
            sc[e.first] += fabsl((LD) e.second * y[i]);
        }
    LD w = 0;
    for (int j = 0; j < lp.n(); j++) {
        LD v = fabsl(s[j]) / sc[j];
        if (s[j] != s[j] || std::isinf((double) sc[j])) v = (LD) INFV;
        if (!(v <= w)) {
            w = v;
            if (where) {
                char b[120];
                snprintf(b, sizeof b, "column %d: c - A'y - z = %.9Lg", j, s[j]);
                *where = b;
            }
        }
    }
    return w;
}

// worst dual sign violation: a multiplier whose sign points at an infinite limit
inline LD signViol(const LP &lp, const std::vector<double> &y, const std::vector<double> &z, std::string *where = nullptr) {
    LD w = 0, unit = costUnit(lp);
    auto rec = [&](LD v, const char *k, int i, double val) {
        v /= unit;
        if (v != v) v = (LD) INFV;
        if (v > w) {
            w = v;
            if (where) {
                char b[120];
                snprintf(b, sizeof b, "%s %d: multiplier %.9g points at an infinite limit", k, i, val);
                *where = b;
            }
        }
    };
    for (int j = 0; j < lp.n(); j++) {
        if (std::isnan(z[j]) || std::isinf(z[j])) rec((LD) INFV, "column", j, z[j]);
        if (z[j] > 0 && std::isinf(lp.cols[j].lb)) rec(z[j], "column", j, z[j]);
        if (z[j] < 0 && std::isinf(lp.cols[j].ub)) rec(-z[j], "column", j, z[j]);
    }
    for (int i = 0; i < lp.m(); i++) {
        if (std::isnan(y[i]) || std::isinf(y[i])) rec((LD) INFV, "row", i, y[i]);
        if (y[i] > 0 && std::isinf(lp.rows[i].l)) rec(y[i], "row", i, y[i]);
        if (y[i] < 0 && std::isinf(lp.rows[i].r)) rec(-y[i], "row", i, y[i]);
    }
    return w;
}

// worst complementarity product relative to problem size
inline LD compViol(const LP &lp, const std::vector<double> &x, const std::vector<double> &y, const std::vector<double> &z, std::string *where = nullptr) {
    LD w = 0, unit = costUnit(lp);
    auto one = [&](LD v, double lo, double hi, double mult, LD size, const char *k, int i) {
        LD d = 0;
        if (mult > 0 && !std::isinf(lo)) d = fabsl(v - lo) ;
        else if (mult < 0 && !std::isinf(hi)) d = fabsl(hi - v);
        else return;
        // both the multiplier and the distance have to be clearly nonzero
        LD t = std::min(fabsl((LD) mult) / unit, d / size);
        if (t != t) t = (LD) INFV;
        if (t > w) {
            w = t;
            if (where) {
                char b[200];
                snprintf(b, sizeof b, "%s %d: multiplier %.9g but value %.12Lg in [%.12g,%.12g]", k, i, mult, v, lo, hi);
                *where = b;
            }
        }
    };
    for (int j = 0; j < lp.n(); j++) {
        double lim = z[j] > 0 ? lp.cols[j].lb : lp.cols[j].ub;
        one(x[j], lp.cols[j].lb, lp.cols[j].ub, z[j], 1 + (std::isinf(lim) ? 0 : fabsl(lim)), "column", j);
    }
    for (int i = 0; i < lp.m(); i++) {
        LD sc, a = rowAct(lp.rows[i], x, &sc), mx = 1;
        for (auto &e : lp.rows[i].a) mx = std::max(mx, fabsl((LD) e.second));
        one(a, lp.rows[i].l, lp.rows[i].r, y[i], mx + sc, "row", i);
    }
    return w;
}

inline Sol solveLP(const LP &lp, LD tol = 1e-10L) {
    Sol s;
    s.x.assign(lp.n(), 0);
    s.z.assign(lp.n(), 0);
    s.xl.assign(lp.n(), 0);
    s.y.assign(lp.m(), 0);
    bool inf = false, unb = false, fail = false;
    s.obj = 0;
    s.scale = 0;
    for (auto &c : components(lp)) {
        Simplex<LD> q;
        double top = 0; // costs in a unit of about 1 (a power of two: exact)
        for (auto &d : c.lp.cols) top = std::max(top, fabs(d.c));
        double up = top > 0 && (top < 1 || top > 1e3) ? ldexp(1.0, -ilogb(top)) : 1;
        if (up != 1) for (auto &d : c.lp.cols) d.c *= up;
        LpStat st = q.solve(c.lp, tol);
        if (up != 1) {
            for (auto &d : q.C) d /= up;
            for (auto &d : q.D) d /= up;
        }
        if (st == LpStat::FAIL) { fail = true; continue; }
        if (st == LpStat::INFEAS) { inf = true; s.viol = std::max(s.viol, q.viol); continue; }
        if (st == LpStat::UNBND) { unb = true; }
        for (size_t j = 0; j < c.cols.size(); j++) {
            s.xl[c.cols[j]] = q.X[j];
            s.x[c.cols[j]] = (double) q.X[j];
            s.z[c.cols[j]] = (st == LpStat::OPT) ? (double) q.D[j] : 0;
            s.obj += q.C[j] * q.X[j];
            s.scale += fabsl(q.C[j] * q.X[j]);
        }
        if (st == LpStat::OPT)
            for (size_t i = 0; i < c.rows.size(); i++) s.y[c.rows[i]] = (double) q.D[q.n + i];
    }
    s.stat = inf ? LpStat::INFEAS : fail ? LpStat::FAIL : unb ? LpStat::UNBND : LpStat::OPT;
    // an optimum counts only with a primal-dual certificate
    if (s.stat == LpStat::OPT &&
        (primalViol(lp, s.x) > 1e-8 || statViol(lp, s.y, s.z) > 1e-8 || signViol(lp, s.y, s.z) > 1e-8 || compViol(lp, s.x, s.y, s.z) > 1e-8))
        s.stat = LpStat::FAIL;
    return s;
}

inline LD objOf(const LP &lp, const std::vector<double> &x, LD *scale = nullptr) {
    LD s = 0, a = 0;
    for (int j = 0; j < lp.n(); j++) {
        LD t = (LD) lp.cols[j].c * x[j];
        s += t;
        a += fabsl(t);
    }
    if (scale) *scale = a;
    return s;
}
