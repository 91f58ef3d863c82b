// P27-P30: debug consistency, bound relaxation, effectiveness, verdicts at sight.
#pragma once
#include "props2.hpp"

// ------------------------------------------------------------------ P27
// the debug build (assertions and consistency checks on) never aborts
extern "C" double actcheck_scale __attribute__((weak));
inline Outcome p_debug(const Case &k) {
    Pres p;
    if (&actcheck_scale) {
        actcheck_scale = 1;
        for (auto &r : k.lp.rows)
            for (auto &e : r.a)
                for (double b : {k.lp.cols[e.first].lb, k.lp.cols[e.first].ub})
                    if (!std::isinf(b)) actcheck_scale = std::max(actcheck_scale, fabs(e.second * b));
    }
    p.go(k.lp, k.s);
    if (!p.p) return viol("null", "new_presolver returned NULL");
    if (!p.hasReduced()) return fin(p.status != UNCHANGED, "verdict");
    Sol r = solveLP(p.red);
    if (r.stat == LpStat::OPT) {
        Rng g(k.aux ^ 0x71);
        for (int t = 0; t < 2; t++) {
            std::vector<double> x = r.x, y = r.y, z = r.z, t2, u2;
            if (t && altPrimal(p.red, r, g, t2)) x = t2;
            if (t && altDual(p.red, x, g, t2, u2)) y = t2, z = u2;
            p.post(x, y, z);
        }
    }
    return fin(reducedSomething(p, k.lp), r.stat == LpStat::OPT ? "postsolved" : "reduced");
}

// ------------------------------------------------------------------ P28
// relax_bounds only drops bounds, and only ones that the rest implies
struct ActRange {
    LD mn = 0, mx = 0; // finite part
    int imn = 0, imx = 0;
};
inline ActRange rangeOf(const LP &lp, const Row &r, int skip = -1) {
    ActRange a;
    for (auto &e : r.a) {
        if (e.first == skip) continue;
        const Col &c = lp.cols[e.first];
        double lo = e.second > 0 ? c.lb : c.ub, hi = e.second > 0 ? c.ub : c.lb;
        if (std::isinf(lo)) a.imn++; else a.mn += (LD) e.second * lo;
        if (std::isinf(hi)) a.imx++; else a.mx += (LD) e.second * hi;
    }
    return a;
}
// lower (upper) bound on column j that row r implies from the other columns' bounds
inline LD impliedBound(const LP &lp, const Row &r, int j, double a, bool lower) {
    ActRange s = rangeOf(lp, r, j);
    bool useL = (a > 0) == lower; // a x_j >= l - max(rest)
    if (useL) {
        if (std::isinf(r.l) || s.imx) return lower ? -(LD) INFV : (LD) INFV;
        return (r.l - s.mx) / a;
    }
    if (std::isinf(r.r) || s.imn) return lower ? -(LD) INFV : (LD) INFV;
    return (r.r - s.mn) / a;
}
inline Outcome r_relax(const Case &k0) {
    Case k = k0;
    k.s.max_time = 1e6;
    Pres p, q;
    k.s.relax = false;
    q.go(k.lp, k.s);
    k.s.relax = true;
    p.go(k.lp, k.s);
    if (!p.bad.empty()) return viol("malformed", p.bad);
    if (!q.bad.empty()) return viol("malformed", q.bad);
    if (p.status != q.status) return viol("status", F("status %s with and %s without relax_bounds", sname(p.status), sname(q.status)));
    if (!p.hasReduced()) return fin(false, "verdict");
    const LP &A = p.red, &B = q.red;
    if (A.n() != B.n() || A.m() != B.m() || A.nnz() != B.nnz()) return viol("shape", "relax_bounds changes the dimensions of the reduced problem");
    if (p.offset != q.offset) return viol("offset", "relax_bounds changes the objective offset");
    for (int i = 0; i < A.m(); i++)
        if (A.rows[i].a != B.rows[i].a || A.rows[i].l != B.rows[i].l || A.rows[i].r != B.rows[i].r) return viol("row", F("relax_bounds changes row %d", i));
    int dropped = 0;
    std::vector<std::pair<int, bool>> drop; // column, lower?
    for (int j = 0; j < A.n(); j++) {
        const Col &a = A.cols[j], &b = B.cols[j];
        if (a.c != b.c) return viol("cost", F("relax_bounds changes the cost of column %d", j));
        if (a.lb != b.lb) {
            if (!(std::isinf(a.lb) && a.lb < 0)) return viol("bound", F("relax_bounds changes a lower bound from %.17g to %.17g", b.lb, a.lb));
            drop.push_back({j, true});
        }
        if (a.ub != b.ub) {
            if (!(std::isinf(a.ub) && a.ub > 0)) return viol("bound", F("relax_bounds changes an upper bound from %.17g to %.17g", b.ub, a.ub));
            drop.push_back({j, false});
        }
    }
    dropped = (int) drop.size();
    const Tol tol(k.lp);
    LD f = std::max((LD) 1, std::max(spread(k.lp), spread(A)) / 10);
    // every dropped bound still holds
    for (size_t t = 0; t < drop.size() && t < 4; t++) {
        LP L = A;
        for (auto &c : L.cols) c.c = 0;
        int j = drop[t].first;
        bool lower = drop[t].second;
        double b = lower ? B.cols[j].lb : B.cols[j].ub;
        L.cols[j].c = lower ? 1 : -1;
        Sol s = solveLP(L);
        if (s.stat == LpStat::INFEAS || s.stat == LpStat::FAIL) break;
        if (s.stat == LpStat::UNBND) return viol("lost-bound", F("a finite %s bound %.12g of column %d was dropped but nothing implies any bound", lower ? "lower" : "upper", b, j));
        LD v = lower ? s.obj : -s.obj, d = lower ? b - v : v - b;
        if (d > 1e-3L * f * (1 + fabsl(b)))
            return viol("lost-bound", F("the %s bound %.12g of column %d was dropped but the rest allows %.12Lg", lower ? "lower" : "upper", b, j, v));
    }
    // and no bound of the kind that is looked at remains although a row implies it
    if (spread(A) <= 50)
        for (int i = 0; i < A.m(); i++)
            for (auto &e : A.rows[i].a) {
                int j = e.first;
                const Col &a = A.cols[j], &b = B.cols[j];
                LD mag = 1;
                for (auto &g : A.rows[i].a) mag = std::max(mag, fabsl((LD) g.second));
                if (!std::isinf(a.ub)) {
                    LD u = impliedBound(A, A.rows[i], j, e.second, false);
                    if (!std::isinf((double) u) && u <= a.ub - 1e-4L * (1 + fabsl(a.ub)) * mag)
                        return viol("not-relaxed", F("upper bound %.12g of column %d remains although row %d implies %.12Lg", a.ub, j, i, u));
                } else if (!std::isinf(a.lb) && std::isinf(b.ub)) {
                    LD l = impliedBound(A, A.rows[i], j, e.second, true);
                    if (!std::isinf((double) l) && l >= a.lb + 1e-4L * (1 + fabsl(a.lb)) * mag)
                        return viol("not-relaxed", F("lower bound %.12g of column %d remains although row %d implies %.12Lg", a.lb, j, i, l));
                }
            }
    return fin(dropped > 0, dropped ? "dropped" : "nothing-dropped");
}
inline Outcome p_relax(const Case &k) { return r_relax(k); }

// ------------------------------------------------------------------ P29
// a reduction that is on leaves none of its targets, one stage at a time
static const LD SIGHT = 1e-4L;
struct Target {
    int rows = 0, cols = 0, verdict = 0; // redundant or forcing rows; fixable columns; contradictions
    std::string what;
};
// proportional vectors, compared exactly
inline bool proportional(const std::vector<std::pair<int, double>> &a, const std::vector<std::pair<int, double>> &b) {
    if (a.size() != b.size() || a.empty()) return false;
    for (size_t i = 0; i < a.size(); i++)
        if (a[i].first != b[i].first || (LD) a[i].second * b[0].second != (LD) b[i].second * a[0].second) return false;
    return true;
}
// and equal, bit by bit, once divided by their largest entry: whether rounding separates
// two vectors that are parallel in exact arithmetic is not decided here
inline bool sameScaled(const std::vector<std::pair<int, double>> &a, const std::vector<std::pair<int, double>> &b) {
    double ma = 0, mb = 0;
    for (auto &e : a) ma = std::max(ma, fabs(e.second));
    for (auto &e : b) mb = std::max(mb, fabs(e.second));
    for (size_t i = 0; i < a.size(); i++)
        if (fabs(a[i].second) * (1 / ma) != fabs(b[i].second) * (1 / mb) || fabs(a[i].second) / ma != fabs(b[i].second) / mb) return false;
    return true;
}
inline std::vector<std::vector<std::pair<int, double>>> colsOf(const LP &lp) {
    std::vector<std::vector<std::pair<int, double>>> c(lp.n());
    for (int i = 0; i < lp.m(); i++)
        for (auto &e : lp.rows[i].a) c[e.first].push_back({i, e.second});
    return c;
}
struct LockCnt { int up = 0, dn = 0; };
inline std::vector<LockCnt> locksOf(const LP &lp) {
    std::vector<LockCnt> l(lp.n());
    for (auto &r : lp.rows)
        for (auto &e : r.a) {
            bool L = !std::isinf(r.l), R = !std::isinf(r.r);
            if (e.second > 0 ? R : L) l[e.first].up++;
            if (e.second > 0 ? L : R) l[e.first].dn++;
        }
    return l;
}
inline Outcome p_targets(const Case &k0) {
    Case k = k0;
    Stg s;
    s.ston_cols = s.dton_eq = s.parallel_rows = s.parallel_cols = s.primal_propagation = s.finite_bt = s.dual_fix = s.relax = false;
    Rng g(k.aux ^ 0x73);
    // first only the trivial reductions, which always run
    Pres a;
    a.go(k.lp, s);
    if (!a.bad.empty()) return viol("malformed", a.bad);
    if (!a.hasReduced()) return fin(false, "verdict");
    const LP &A = a.red;
    int stage = g.in(0, 6);
    static const char *nm[] = {"parallel-rows", "parallel-cols", "dual-fix", "doubleton", "singleton-cols", "propagation", "trivial"};
    if (stage == 0) s.parallel_rows = true;
    if (stage == 1) s.parallel_cols = true;
    if (stage == 2) s.dual_fix = true;
    if (stage == 3) s.dton_eq = true, s.max_shift = 1000;
    if (stage == 4) s.ston_cols = true;
    if (stage == 5) s.primal_propagation = true, s.finite_bt = g.p(0.5);
    Pres b;
    // propagation may itself make the deductions of a later trivial round, after which a
    // row is not looked at again: let it start from A
    const LP &in = stage == 5 || g.p(0.5) ? A : k.lp;
    b.go(in, s);
    if (!b.bad.empty()) return viol("malformed", b.bad);
    bool verdict = !b.hasReduced();
    const LP &B = b.red;
    bool had = false; // were there any targets?
    // presolve stops when a cycle removes less than 5% of the nonzeros: only below 20
    // nonzeros, or if nothing was removed, has every stage seen its own result
    bool last = in.nnz() < 20 || (!verdict && B.nnz() == in.nnz());
    auto magOf = [](const Row &r) {
        LD m = 1;
        for (auto &e : r.a) m = std::max(m, fabsl((LD) e.second));
        return m;
    };
    if (stage == 0) {
        // contradictory parallel rows in A
        for (int i = 0; i < A.m(); i++)
            for (int h = i + 1; h < A.m(); h++) {
                const Row &p = A.rows[i], &q = A.rows[h];
                if (!proportional(p.a, q.a)) continue;
                had = true;
                LD f = (LD) p.a[0].second / q.a[0].second; // p = f q
                LD lo = f > 0 ? f * q.l : f * q.r, hi = f > 0 ? f * q.r : f * q.l;
                LD gap = std::max(lo - p.r, p.l - hi), sc = 1;
                for (double v : {p.l, p.r, q.l, q.r}) if (!std::isinf(v)) sc = std::max(sc, fabsl((LD) v));
                sc *= std::max((LD) 1, fabsl(f));
                for (auto &e : p.a) if (fabs(e.second) < 1) sc = std::max(sc, 1 / fabsl((LD) e.second));
                for (auto &e : q.a) if (fabs(e.second) < 1) sc = std::max(sc, fabsl(f) / fabsl((LD) e.second));
                LD big = std::max(magOf(p), fabsl(f) * magOf(q));
                if (gap > 1e-3L * sc * big && !verdict) return viol("parallel-rows", F("rows %d and %d (after trivial reductions) are parallel and contradict each other by %.3Lg, and parallel_rows reports nothing", i, h, gap));
            }
        // rows are found through hashes of their columns and coefficients: a third row
        // with the same coefficients in other columns may hide a pair by a collision
        auto twin = [&](int i, int h) {
            auto v = B.rows[i].a;
            for (int o = 0; o < B.m(); o++) {
                if (o == i || o == h || B.rows[o].a.size() != v.size()) continue;
                auto w = B.rows[o].a;
                bool sup = true;
                for (size_t t = 0; t < w.size(); t++) sup &= w[t].first == v[t].first, w[t].first = v[t].first;
                if (!sup && proportional(v, w)) return true;
            }
            return false;
        };
        if (!verdict)
            for (int i = 0; i < B.m(); i++)
                for (int h = i + 1; h < B.m(); h++)
                    if (proportional(B.rows[i].a, B.rows[h].a) && sameScaled(B.rows[i].a, B.rows[h].a) && !twin(i, h)) return viol("parallel-rows", F("parallel_rows leaves the parallel rows %d and %d", i, h));
    } else if (stage == 1) {
        auto par = [](const LP &L, const std::vector<std::vector<std::pair<int, double>>> &c, int i, int h) {
            return proportional(c[i], c[h]) && (LD) L.cols[i].c * c[h][0].second == (LD) L.cols[h].c * c[i][0].second;
        };
        auto c = colsOf(A);
        for (int i = 0; i < A.n(); i++)
            for (int h = i + 1; h < A.n(); h++) had |= par(A, c, i, h);
        if (!verdict && last) {
            c = colsOf(B);
            auto twin = [&](int i, int h) { // as for rows
                auto v = c[i];
                for (int o = 0; o < B.n(); o++) {
                    if (o == i || o == h || c[o].size() != v.size()) continue;
                    auto w = c[o];
                    bool sup = true;
                    for (size_t t = 0; t < w.size(); t++) sup &= w[t].first == v[t].first, w[t].first = v[t].first;
                    if (!sup && proportional(v, w)) return true;
                }
                return false;
            };
            for (int i = 0; i < B.n(); i++)
                for (int h = i + 1; h < B.n(); h++)
                    if (par(B, c, i, h) && sameScaled(c[i], c[h]) && !twin(i, h)) return viol("parallel-cols", F("parallel_cols leaves the parallel columns %d and %d", i, h));
        }
    } else if (stage == 2) {
        for (int t = 0; t < 2; t++) {
            const LP &L = t ? B : A;
            if (t && (verdict || !last)) break;
            auto l = locksOf(L);
            for (int j = 0; j < L.n(); j++) {
                const Col &c = L.cols[j];
                bool dn = c.c >= 0 && !l[j].dn, up = c.c <= 0 && !l[j].up;
                if (!t && ((c.c > 1e-4 && dn && std::isinf(c.lb)) || (c.c < -1e-4 && up && std::isinf(c.ub))) && !verdict)
                    return viol("dual-fix", F("column %d (after trivial reductions) improves the objective without limit, and dual_fix reports nothing", j));
                if (!(dn || up)) continue;
                had |= !t;
                if (t) return viol("dual-fix", F("dual_fix leaves column %d, which cost %g and no row keeps from its %s bound", j, c.c, dn ? "lower" : "upper"));
            }
        }
    } else if (stage == 3) {
        for (int t = 0; t < 2; t++) {
            const LP &L = t ? B : A;
            if (t && (verdict || !last)) break;
            for (int i = 0; i < L.m(); i++) {
                const Row &r = L.rows[i];
                if (r.a.size() != 2 || r.l != r.r) continue;
                double q = fabs(r.a[0].second / r.a[1].second);
                if (q > 900 || q < 1.0 / 900) continue;
                had |= !t;
                if (t) return viol("doubleton", F("dton_eq leaves the doubleton equality %d although there is room", i));
            }
        }
    } else if (stage == 4) {
        for (int t = 0; t < 2; t++) {
            const LP &L = t ? B : A;
            if (t && (verdict || !last)) break;
            auto c = colsOf(L);
            for (int j = 0; j < L.n(); j++) {
                if (c[j].size() != 1) continue;
                const Row &r = L.rows[c[j][0].first];
                double a = c[j][0].second, ck = L.cols[j].c, lo = L.cols[j].lb, hi = L.cols[j].ub;
                bool fr = std::isinf(lo) && std::isinf(hi);
                bool one = r.l == r.r && (std::isinf(lo) || std::isinf(hi));
                bool down = ck > 0 && (a > 0 ? std::isinf(r.l) : std::isinf(r.r)), up = ck < 0 && (a > 0 ? std::isinf(r.r) : std::isinf(r.l));
                if (!t && !verdict && fabs(ck) > 1e-4 && ((down && std::isinf(lo)) || (up && std::isinf(hi))))
                    return viol("singleton-cols", F("singleton column %d improves the objective without limit, and ston_cols reports nothing", j));
                if (!(fr || one || down || up)) continue;
                had |= !t;
                if (t) return viol("singleton-cols", F("ston_cols leaves the %s singleton column %d", fr ? "free" : one ? "one-sided" : "dual-fixable", j));
            }
        }
    } else if (stage == 5) {
        int gone = 0;
        bool contra = false;
        for (int i = 0; i < A.m(); i++) {
            const Row &r = A.rows[i];
            ActRange s = rangeOf(A, r);
            LD mg = SIGHT * magOf(r) * (1 + (s.imn ? 0 : fabsl(s.mn)) + (s.imx ? 0 : fabsl(s.mx)));
            bool lred = std::isinf(r.l) || (!s.imn && s.mn >= r.l + mg), rred = std::isinf(r.r) || (!s.imx && s.mx <= r.r - mg);
            bool some = !(std::isinf(r.l) && std::isinf(r.r));
            if (lred && rred && some) gone++;
            // an equality row is judged through the bounds it implies, and PSLP does
            // not use bounds of 1e7 and more
            LD tiny = 1;
            for (auto &e : r.a) tiny = std::min(tiny, fabsl((LD) e.second));
            if (r.l == r.r && tiny < 1e-4L * (1 + fabsl((LD) r.r))) continue;
            if ((!s.imn && s.mn > r.r + 10 * mg) || (!s.imx && s.mx < r.l - 10 * mg)) contra = true;
        }
        had = gone || contra;
        if (contra && !verdict) return viol("propagation", "a row (after trivial reductions) cannot reach its sides within the bounds, and primal_propagation reports nothing");
        if (!verdict && A.m() - B.m() < gone) return viol("propagation", F("%d rows (after trivial reductions) are redundant, and primal_propagation removes %d", gone, A.m() - B.m()));
        // a bound that a row implies is taken over if there was none, and with
        // finite_bound_tightening also if it is clearly better (1% and 0.01)
        if (!verdict && A.n() == B.n() && A.m() == B.m())
            for (int i = 0; i < A.m(); i++) {
                ActRange ar = rangeOf(A, A.rows[i]);
                if (ar.imn && ar.imx) continue; // such rows are not looked at
                for (auto &e : A.rows[i].a)
                    for (int lower = 0; lower < 2; lower++) {
                        const Col &ca = A.cols[e.first], &cb = B.cols[e.first];
                        double was = lower ? ca.lb : ca.ub, now = lower ? cb.lb : cb.ub;
                        if (!std::isinf(was) && !s.finite_bt) {
                            if (was != now) return viol("propagation", F("finite_bound_tightening is off but the finite %s bound of column %d changed from %.17g to %.17g", lower ? "lower" : "upper", e.first, was, now));
                            continue;
                        }
                        LD v = impliedBound(A, A.rows[i], e.first, e.second, lower);
                        if (std::isinf((double) v) || fabsl(v) > 1e5) continue;
                        LD mg = SIGHT * (1 + fabsl(v)) * magOf(A.rows[i]) / std::min((LD) 1, fabsl((LD) e.second)) + 0.011L * (1 + fabsl((LD) now));
                        if (!std::isinf(was) && (lower ? v <= was + mg : v >= was - mg)) continue;
                        had = true;
                        if (std::isinf(now) || (s.finite_bt && (lower ? now < v - mg : now > v + mg)))
                            return viol("propagation", F("row %d implies the %s bound %.9Lg of column %d (was %.9g), and primal_propagation leaves %.9g", i, lower ? "lower" : "upper", v, e.first, was, now));
                    }
            }
    } else {
        had = reducedSomething(a, k.lp);
        for (int j = 0; j < A.n(); j++)
            if (A.cols[j].lb == A.cols[j].ub) return viol("trivial", F("column %d is fixed and remains", j));
    }
    return fin(had, std::string(nm[stage]) + (had ? "/had" : "/none"));
}

// ------------------------------------------------------------------ P30
// contradictions and rays that are visible at sight lead to a verdict, whatever
// the settings
inline Outcome p_sight(const Case &k) {
    const LP &lp = k.lp;
    std::string why;
    // bounds of each column from its own bounds and its singleton rows
    std::vector<LD> lo(lp.n()), hi(lp.n());
    std::vector<int> cnt(lp.n());
    for (int j = 0; j < lp.n(); j++) lo[j] = lp.cols[j].lb, hi[j] = lp.cols[j].ub;
    for (auto &r : lp.rows) {
        for (auto &e : r.a) cnt[e.first]++;
        if (r.a.empty() && (r.l > 1e-3 || r.r < -1e-3)) why = "an empty row whose sides exclude 0";
        if (r.a.size() == 1) {
            int j = r.a[0].first;
            LD a = r.a[0].second, t = fabsl(a) < 1 ? 1e-3L : 0; // visible in terms of the row too
            LD l = ((a > 0 ? r.l : r.r) + (a > 0 ? -t : t)) / a, u = ((a > 0 ? r.r : r.l) + (a > 0 ? t : -t)) / a;
            lo[j] = std::max(lo[j], l);
            hi[j] = std::min(hi[j], u);
        }
    }
    for (int j = 0; j < lp.n(); j++) {
        LD sc = 1 + std::min(fabsl(lo[j]), fabsl(hi[j]));
        if (lo[j] > hi[j] + 1e-3L * sc) why = F("contradictory bounds of column %d (singleton rows included)", j);
        const Col &c = lp.cols[j];
        if (!cnt[j] && ((c.c > 1e-4 && std::isinf(c.lb)) || (c.c < -1e-4 && std::isinf(c.ub)))) why = F("the empty column %d improves the objective without limit", j);
    }
    if (k.s.dual_fix) {
        auto l = locksOf(lp);
        for (int j = 0; j < lp.n(); j++) {
            const Col &c = lp.cols[j];
            if ((c.c > 1e-4 && !l[j].dn && std::isinf(c.lb)) || (c.c < -1e-4 && !l[j].up && std::isinf(c.ub))) why = F("column %d improves the objective without limit", j);
        }
    }
    if (why.empty()) return fin(false, "none");
    Pres p;
    p.go(lp, k.s);
    if (p.status == UNCHANGED || p.status == REDUCED) return viol("not-seen", "run_presolver returned " + std::string(sname(p.status)) + " although the LP has " + why);
    if (p.status != INFEASIBLE && p.status != UNBNDORINFEAS) return viol("bad-status", F("undocumented status %d", p.status));
    return fin(true, sname(p.status));
}
