// The properties, as executable checks on one generated case.
#pragma once
#include "gen.hpp"
#include "glue.hpp"
#include <functional>

enum Verdict { OK = 0, VIOL = 1, INCONC = 2 };
struct Outcome {
    Verdict v = OK;
    bool nontrivial = false;
    std::string cls; // classification for the evidence
    std::string msg; // what failed
};

// thresholds: see DESIGN.md ("Tolerances")
static const LD OPT_TOL0 = 2e-4L;  // relative objective mismatch that counts
static const LD PRI_TOL0 = 2e-4L;  // relative primal violation that counts
static const LD DUA_TOL0 = 2e-4L;  // dual residual / complementarity that counts
static const LD INF_CLEAR = 1e-3L; // an LP is clearly infeasible above this

inline Outcome viol(const std::string &cls, const std::string &m) {
    Outcome o;
    o.v = VIOL;
    o.nontrivial = true;
    o.cls = cls;
    o.msg = m;
    return o;
}
inline Outcome fin(bool nt, const std::string &cls, Verdict v = OK) {
    Outcome o;
    o.v = v;
    o.nontrivial = nt;
    o.cls = cls;
    return o;
}
static inline std::string F(const char *f, ...) __attribute__((format(printf, 1, 2)));
#include <cstdarg>
static inline std::string F(const char *f, ...) {
    char b[600];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
inline const char *sname(int s) {
    switch (s) {
    case UNCHANGED: return "UNCHANGED";
    case REDUCED: return "REDUCED";
    case INFEASIBLE: return "INFEASIBLE";
    case UNBNDORINFEAS: return "UNBNDORINFEAS";
    }
    return "OTHER";
}
inline const char *lname(LpStat s) {
    switch (s) {
    case LpStat::OPT: return "opt";
    case LpStat::INFEAS: return "infeasible";
    case LpStat::UNBND: return "unbounded";
    default: return "fail";
    }
}
inline bool reducedSomething(const Pres &p, const LP &lp) {
    return p.status == REDUCED && (p.red.m() < lp.m() || p.red.n() < lp.n() || p.red.nnz() < lp.nnz());
}

// PSLP works with absolute tolerances of 1e-6 on single bounds; a row whose
// coefficients differ by a factor R turns that into R * 1e-6 elsewhere. The
// thresholds grow with R so that only errors far above that count.
inline LD spread(const LP &lp) {
    LD R = 1;
    for (auto &r : lp.rows) {
        LD lo = (LD) INFV, hi = 0;
        for (auto &e : r.a) lo = std::min(lo, fabsl((LD) e.second)), hi = std::max(hi, fabsl((LD) e.second));
        if (hi > 0) R = std::max(R, hi / lo);
    }
    return R;
}
struct Tol {
    LD opt, pri, dua, unit;
    LD ounit; // the unit of objective values
    explicit Tol(const LP &lp) {
        unit = costUnit(lp);
        LD f = std::max((LD) 1, spread(lp) / 10);
        opt = OPT_TOL0 * f;
        // a column whose bounds meet up to PSLP's tolerance counts as fixed
        LD width = 0, c = 0;
        for (auto &q : lp.cols) {
            c = std::max(c, fabsl((LD) q.c));
            if (q.lb < q.ub && q.ub - q.lb <= 2e-9) width += (LD) q.ub - q.lb;
        }
        ounit = unit + c * width / OPT_TOL0;
        pri = PRI_TOL0 * f;
        dua = DUA_TOL0 * f;
    }
};
// all coefficients +-1, all data integral, and no reduction that could create
// other coefficients: every quantity PSLP computes is then an exact integer
inline bool exactArithmetic(const Case &k) {
    if (k.s.dton_eq) return false;
    auto in = [](double v) { return std::isinf(v) || (v == std::floor(v) && fabs(v) < 1e6); };
    for (auto &r : k.lp.rows) {
        if (!in(r.l) || !in(r.r)) return false;
        for (auto &e : r.a)
            if (fabs(e.second) != 1) return false;
    }
    for (auto &c : k.lp.cols)
        if (!in(c.lb) || !in(c.ub)) return false;
    return true;
}
inline LP relaxed(const LP &lp, double d) {
    LP q = lp;
    for (auto &c : q.cols) {
        if (c.lb == c.ub) continue;
        if (!std::isinf(c.lb)) c.lb -= d * (1 + fabs(c.lb));
        if (!std::isinf(c.ub)) c.ub += d * (1 + fabs(c.ub));
    }
    for (auto &r : q.rows) {
        if (r.l == r.r) continue;
        LD mx = 1;
        for (auto &e : r.a) mx = std::max(mx, fabsl((LD) e.second));
        if (!std::isinf(r.l)) r.l -= d * (double) (mx + fabsl((LD) r.l));
        if (!std::isinf(r.r)) r.r += d * (double) (mx + fabsl((LD) r.r));
    }
    return q;
}
// Is some column that may move pinned to (nearly) a point by the constraints?
// PSLP's bound propagation shifts bounds by about 1e-6 on purpose, so on such an
// LP it works at the edge of its own tolerances.
inline bool thin(const LP &whole) {
    for (auto &comp : components(whole)) {
        const LP &lp = comp.lp;
        LD f = std::max((LD) 1, spread(lp) / 10);
        for (int j = 0; j < lp.n(); j++) {
            const Col &c = lp.cols[j];
            if (c.lb == c.ub) continue;
            LP q = lp;
            for (auto &d : q.cols) d.c = 0;
            q.cols[j].c = 1;
            Sol a = solveLP(q);
            if (a.stat == LpStat::UNBND) continue;
            if (a.stat != LpStat::OPT) return true; // cannot tell: be careful
            q.cols[j].c = -1;
            Sol b = solveLP(q);
            if (b.stat == LpStat::UNBND) continue;
            if (b.stat != LpStat::OPT) return true;
            LD w = -b.obj - a.obj;
            if (w < 1e-3L * (1 + fabsl(a.obj)) * f) return true;
        }
    }
    return false;
}
// relax a random part of the inequalities by clear amounts
inline LP partlyRelaxed(const LP &lp, Rng &g) {
    LP q = lp;
    double pr = g.uni(0.1, 0.9);
    for (auto &c : q.cols) {
        if (c.lb == c.ub) continue;
        if (g.p(pr)) c.lb -= g.in(1, 4);
        if (g.p(pr)) c.ub += g.in(1, 4);
    }
    for (auto &r : q.rows) {
        if (r.l == r.r) continue;
        if (g.p(pr)) r.l -= g.in(1, 8);
        if (g.p(pr)) r.r += g.in(1, 8);
    }
    return q;
}
// A disagreement is confirmed, i.e. counts as a violation, unless it can be an
// effect of PSLP's documented tolerances. `again(case)` evaluates the same
// relation on another case. On badly scaled LPs a disagreement counts only if it
// needs no substitution or scaling and the feasible set is not pinned to a point.
// On the others it is confirmed when: bound propagation (the only step that
// perturbs numbers on purpose) is off; or all arithmetic is exact; or the
// disagreement is still there with propagation off; or the feasible set is not
// pinned to a point in any coordinate; or the disagreement is still there on one
// of a number of relaxations of the LP that are not pinned.
inline bool confirmed(const Case &k, const std::function<bool(const Case &)> &again) {
    if (spread(k.lp) > 50) { // badly scaled: nearly parallel rows, growing substitutions
        Case q = k;
        q.s.dton_eq = q.s.parallel_rows = q.s.parallel_cols = false;
        if (!again(q)) return false;
        if (!exactArithmetic(k) && thin(k.lp)) return false;
    }
    if (!k.s.primal_propagation || exactArithmetic(k)) return true;
    {
        Case q = k;
        q.s.primal_propagation = false;
        if (again(q)) return true;
    }
    if (!thin(k.lp)) return true;
    Rng g(case_hash(k));
    for (int t = 0; t < 24; t++) {
        Case q = k;
        q.lp = partlyRelaxed(k.lp, g);
        if (again(q) && !thin(q.lp)) return true;
    }
    return false;
}
inline Outcome confirm(const Case &k, Outcome (*raw)(const Case &)) {
    Outcome o = raw(k);
    if (o.v != VIOL || o.cls == "malformed" || o.cls == "bad-status") return o;
    if (o.cls == "infeasible->feasible") { // no tolerance of PSLP turns this around, except by scale
        if (spread(k.lp) <= 50) return o;
        Case q = k;
        q.s.dton_eq = q.s.parallel_rows = q.s.parallel_cols = q.s.ston_cols = false;
        return raw(q).v == VIOL ? o : fin(false, "tolerance-edge", INCONC);
    }
    if (confirmed(k, [&](const Case &q) { return raw(q).v == VIOL; })) return o;
    return fin(false, "tolerance-edge", INCONC);
}

// Classify an original LP. Robust: returns FAIL when too close to call.
inline Sol classify(const LP &lp) {
    Sol s = solveLP(lp);
    if (s.stat == LpStat::INFEAS && s.viol < INF_CLEAR) s.stat = LpStat::FAIL;
    return s;
}

// ------------------------------------------------------------------ P01
inline Outcome r_optval(const Case &k) {
    const Tol tol(k.lp);
    Sol o = classify(k.lp);
    if (o.stat != LpStat::OPT) return fin(false, std::string("orig-") + lname(o.stat), o.stat == LpStat::FAIL ? INCONC : OK);
    Pres p;
    p.go(k.lp, k.s);
    if (!p.hasReduced()) {
        if (!p.bad.empty()) return viol("malformed", "reduced problem malformed: " + p.bad);
        return viol("verdict", F("LP has optimal value %.10Lg but run_presolver returned %s", o.obj, sname(p.status)));
    }
    Sol r = solveLP(p.red);
    bool nt = reducedSomething(p, k.lp);
    if (r.stat == LpStat::FAIL) return fin(false, "oracle-fail", INCONC);
    if (r.stat == LpStat::INFEAS) {
        if (r.viol < INF_CLEAR / 10) return fin(false, "red-inf-close", INCONC);
        return viol("red-infeasible", F("original has optimal value %.10Lg; reduced problem is infeasible (violation %.3Lg)", o.obj, r.viol));
    }
    if (r.stat == LpStat::UNBND)
        return viol("red-unbounded", F("original has optimal value %.10Lg; reduced problem is unbounded", o.obj));
    LD d = fabsl(r.obj + p.offset - o.obj), sc = tol.ounit + std::max(o.scale, r.scale);
    if (d > tol.opt * sc)
        return viol("value", F("original optimum %.12Lg, reduced optimum %.12Lg + offset %.12g = %.12Lg", o.obj, r.obj, p.offset, r.obj + p.offset));
    return fin(nt, nt ? (p.red.n() == 0 ? "solved" : "reduced") : "unchanged");
}

// ------------------------------------------------------------------ P02/P03
inline Outcome r_infeas_sound(const Case &k) {
    Pres p;
    p.go(k.lp, k.s);
    if (p.status != INFEASIBLE) return fin(false, "no-verdict");
    Sol o = classify(k.lp);
    if (o.stat == LpStat::FAIL) return fin(false, "close-to-call", INCONC);
    if (o.stat == LpStat::INFEAS) return fin(true, "infeasible");
    if (primalViol(k.lp, o.x) > 1e-9) return fin(false, "oracle-fail", INCONC);
    return viol("false-infeasible", F("run_presolver returned INFEASIBLE but the LP is feasible (%s)", lname(o.stat)));
}
inline Outcome r_unb_sound(const Case &k) {
    Pres p;
    p.go(k.lp, k.s);
    if (p.status == UNCHANGED || p.status == REDUCED || p.status == INFEASIBLE) return fin(false, "no-verdict");
    if (p.status != UNBNDORINFEAS) return viol("bad-status", F("run_presolver returned undocumented status %d", p.status));
    Sol o = classify(k.lp);
    if (o.stat == LpStat::FAIL) return fin(false, "close-to-call", INCONC);
    if (o.stat == LpStat::OPT)
        return viol("false-unbounded", F("run_presolver returned UNBNDORINFEAS but the LP has optimal value %.10Lg", o.obj));
    return fin(true, lname(o.stat));
}
// ------------------------------------------------------------------ P04
inline Outcome r_hard_preserved(const Case &k) {
    Sol o = classify(k.lp);
    if (o.stat == LpStat::FAIL) return fin(false, "close-to-call", INCONC);
    if (o.stat == LpStat::OPT) return fin(false, "orig-opt");
    Pres p;
    p.go(k.lp, k.s);
    std::string c = lname(o.stat);
    if (!p.bad.empty()) return viol("malformed", "reduced problem malformed: " + p.bad);
    if (!p.hasReduced()) {
        if (p.status == INFEASIBLE && o.stat == LpStat::UNBND)
            return viol("unbounded->INFEASIBLE", "LP is feasible and unbounded but run_presolver returned INFEASIBLE");
        return fin(true, c + "->verdict");
    }
    Sol r = solveLP(p.red);
    if (r.stat == LpStat::FAIL) return fin(false, "oracle-fail", INCONC);
    if (o.stat == LpStat::INFEAS) {
        if (r.stat != LpStat::INFEAS)
            return viol("infeasible->feasible", F("original LP is infeasible (violation %.3Lg) but the reduced problem is %s", o.viol, lname(r.stat)));
        return fin(p.status == REDUCED, c + "->reduced");
    }
    if (r.stat != LpStat::UNBND) {
        if (r.stat == LpStat::INFEAS && r.viol < INF_CLEAR / 10) return fin(false, "red-inf-close", INCONC);
        return viol("unbounded->" + std::string(lname(r.stat)), F("original LP is feasible and unbounded but the reduced problem is %s", lname(r.stat)));
    }
    return fin(p.status == REDUCED, c + "->reduced");
}

// ------------------------------------------------- samplers for reduced solutions
inline void randomObjective(LP &lp, Rng &g) {
    for (auto &c : lp.cols) c.c = g.p(0.3) ? 0 : g.in(-5, 5);
}
// bound every column so that any objective has an optimum
inline LP boxed(const LP &lp, double around) {
    LP q = lp;
    for (auto &c : q.cols) {
        double lo = c.lb, hi = c.ub;
        if (std::isinf(lo)) c.lb = std::min(-around, std::isinf(hi) ? -around : hi - around);
        if (std::isinf(hi)) c.ub = std::max(around, std::isinf(lo) ? around : lo + around);
    }
    return q;
}
// alternative optimal dual solution: solve with slightly perturbed limits
inline bool altDual(const LP &lp, const std::vector<double> &x, Rng &g, std::vector<double> &y, std::vector<double> &z) {
    LP q = lp;
    for (auto &c : q.cols) {
        double e = 1e-3 * g.uni(), f = 1e-3 * g.uni();
        if (c.lb == c.ub) { c.lb -= e; c.ub = c.lb; continue; }
        c.lb -= e;
        c.ub += f;
    }
    for (auto &r : q.rows) {
        double e = 1e-3 * g.uni(), f = 1e-3 * g.uni();
        if (r.l == r.r) { if (!std::isinf(r.l)) r.l += (e - f); r.r = r.l; continue; }
        r.l -= e;
        r.r += f;
    }
    Sol s = solveLP(q);
    if (s.stat != LpStat::OPT) return false;
    if (compViol(lp, x, s.y, s.z) > 1e-9 || signViol(lp, s.y, s.z) > 1e-9) return false;
    y = s.y;
    z = s.z;
    return true;
}
// alternative optimal primal solution: optimise a random objective over the optimal face
inline bool altPrimal(const LP &lp, const Sol &s, Rng &g, std::vector<double> &x) {
    LP q = lp;
    for (int j = 0; j < lp.n(); j++) {
        if (s.z[j] > 1e-9) q.cols[j].ub = q.cols[j].lb;
        else if (s.z[j] < -1e-9) q.cols[j].lb = q.cols[j].ub;
    }
    for (int i = 0; i < lp.m(); i++) {
        if (s.y[i] > 1e-9) q.rows[i].r = q.rows[i].l;
        else if (s.y[i] < -1e-9) q.rows[i].l = q.rows[i].r;
    }
    q = boxed(q, 50 + 10 * g.uni());
    randomObjective(q, g);
    Sol t = solveLP(q);
    if (t.stat != LpStat::OPT) return false;
    if (primalViol(lp, t.x) > 1e-9 || compViol(lp, t.x, s.y, s.z) > 1e-8) return false;
    x = t.x;
    return true;
}

// ------------------------------------------------------------------ P05
inline Outcome r_primal_opt(const Case &k) {
    const Tol tol(k.lp);
    Sol o = classify(k.lp);
    if (o.stat != LpStat::OPT) return fin(false, std::string("orig-") + lname(o.stat), o.stat == LpStat::FAIL ? INCONC : OK);
    Pres p;
    p.go(k.lp, k.s);
    if (!p.bad.empty()) return viol("malformed", "reduced problem malformed: " + p.bad);
    if (!p.hasReduced()) return fin(false, "verdict"); // P02/P03 decide
    Sol r = solveLP(p.red);
    if (r.stat != LpStat::OPT) return fin(false, "red-not-opt", INCONC); // P01 decides
    Rng g(k.aux ^ 0x51);
    bool nt = reducedSomething(p, k.lp);
    for (int t = 0; t < 3; t++) {
        std::vector<double> x = r.x, y = r.y, z = r.z;
        if (t >= 1) {
            std::vector<double> x2;
            if (!altPrimal(p.red, r, g, x2)) continue;
            if (t == 2) {
                double w = g.uni();
                for (size_t j = 0; j < x.size(); j++) x[j] = w * x[j] + (1 - w) * x2[j];
            } else x = x2;
        }
        p.post(x, y, z);
        std::vector<double> X = p.X();
        std::string w;
        LD pv = primalViol(k.lp, X, &w);
        if (pv > tol.pri)
            return viol("infeasible-x", F("postsolved x violates the original LP by %.3Lg: %s", pv, w.c_str()));
        LD sc, ob = objOf(k.lp, X, &sc);
        if (fabsl(ob - o.obj) > tol.opt * (tol.ounit + std::max(sc, o.scale)))
            return viol("suboptimal-x", F("postsolved x has objective %.12Lg, optimum is %.12Lg", ob, o.obj));
    }
    return fin(nt, nt ? (p.red.n() == 0 ? "solved" : "reduced") : "unchanged");
}

// ------------------------------------------------------------------ P06
inline Outcome r_primal_any(const Case &k) {
    const Tol tol(k.lp);
    Pres p;
    p.go(k.lp, k.s);
    if (!p.bad.empty()) return viol("malformed", "reduced problem malformed: " + p.bad);
    if (!p.hasReduced()) return fin(false, "verdict");
    Rng g(k.aux ^ 0x52);
    bool nt = reducedSomething(p, k.lp);
    std::vector<std::vector<double>> pts;
    int tries = 4;
    for (int t = 0; t < tries; t++) {
        LP q = boxed(p.red, t == 0 ? 7 : 3 + 40 * g.uni());
        randomObjective(q, g);
        Sol s = solveLP(q);
        if (s.stat != LpStat::OPT) continue;
        if (primalViol(p.red, s.x) > 1e-9) continue;
        pts.push_back(s.x);
    }
    if (pts.empty()) return fin(false, "no-feasible-point");
    size_t nv = pts.size();
    for (int t = 0; t < 2 && nv > 1; t++) { // interior points
        std::vector<double> x(p.red.n(), 0);
        double tot = 0;
        std::vector<double> w(nv);
        for (auto &v : w) tot += (v = g.uni());
        for (size_t v = 0; v < nv; v++)
            for (int j = 0; j < p.red.n(); j++) x[j] += w[v] / tot * pts[v][j];
        if (primalViol(p.red, x) < 1e-9) pts.push_back(x);
    }
    std::vector<double> y(p.red.m(), 0), z(p.red.n(), 0);
    for (auto &x : pts) {
        p.post(x, y, z);
        std::vector<double> X = p.X();
        std::string w;
        LD pv = primalViol(k.lp, X, &w);
        if (pv > tol.pri)
            return viol("infeasible-x", F("a feasible point of the reduced LP postsolves to x violating the original by %.3Lg: %s", pv, w.c_str()));
        LD s1, s2, a = objOf(k.lp, X, &s1), b = objOf(p.red, x, &s2) + p.offset;
        if (fabsl(a - b) > tol.opt * (tol.ounit + std::max(s1, s2)))
            return viol("objective", F("objective of postsolved x is %.12Lg, reduced objective + offset is %.12Lg", a, b));
    }
    // the objective carries over for points that are not feasible as well
    for (int t = 0; t < 2; t++) {
        std::vector<double> x(p.red.n());
        for (auto &v : x) v = g.in(-200, 200) / 8.0;
        p.post(x, y, z);
        LD s1, s2, a = objOf(k.lp, p.X(), &s1), b = objOf(p.red, x, &s2) + p.offset;
        if (!(fabsl(a - b) <= tol.opt * (tol.ounit + std::max(s1, s2))))
            return viol("objective-any", F("objective of a postsolved infeasible x is %.12Lg, reduced objective + offset is %.12Lg", a, b));
    }
    return fin(nt, nt ? (p.red.n() == 0 ? "solved" : "reduced") : "unchanged");
}

// ------------------------------------------------------------------ P07-P09 (dual)
// visit optimal primal-dual pairs of the reduced problem, postsolved
inline Outcome dualPairs(const Case &k, const std::function<std::string(Pres &, const std::vector<double> &, const std::vector<double> &, const std::vector<double> &)> &chk, const char *cls) {
    Sol o = classify(k.lp);
    if (o.stat != LpStat::OPT) return fin(false, std::string("orig-") + lname(o.stat), o.stat == LpStat::FAIL ? INCONC : OK);
    Pres p;
    p.go(k.lp, k.s);
    if (!p.bad.empty()) return viol("malformed", "reduced problem malformed: " + p.bad);
    if (!p.hasReduced()) return fin(false, "verdict");
    Sol r = solveLP(p.red);
    if (r.stat != LpStat::OPT) return fin(false, "red-not-opt", INCONC);
    if (statViol(p.red, r.y, r.z) > 1e-8 || signViol(p.red, r.y, r.z) > 1e-8 || compViol(p.red, r.x, r.y, r.z) > 1e-8)
        return fin(false, "oracle-fail", INCONC);
    Rng g(k.aux ^ 0x53);
    bool nt = reducedSomething(p, k.lp);
    for (int t = 0; t < 4; t++) {
        std::vector<double> x = r.x, y = r.y, z = r.z, t2, u2;
        if (t & 1) {
            if (!altPrimal(p.red, r, g, t2)) continue;
            double w = g.p(0.5) ? 0 : g.uni();
            for (size_t j = 0; j < x.size(); j++) x[j] = w * x[j] + (1 - w) * t2[j];
        }
        if (t & 2) {
            if (!altDual(p.red, x, g, t2, u2)) continue;
            y = t2;
            z = u2;
        }
        // exact stationarity in double precision for the pair handed in
        p.post(x, y, z);
        std::string e = chk(p, p.X(), p.Y(), p.Z());
        if (!e.empty()) return viol(cls, e);
    }
    return fin(nt, nt ? (p.red.n() == 0 ? "solved" : "reduced") : "unchanged");
}
inline Outcome r_stationarity(const Case &k) {
    const Tol tol(k.lp);
    return dualPairs(k, [&](Pres &, const std::vector<double> &, const std::vector<double> &Y, const std::vector<double> &Z) -> std::string {
        std::string w;
        LD v = statViol(k.lp, Y, Z, &w);
        if (v > tol.dua) return "postsolved duals are not stationary: " + w;
        return "";
    }, "stationarity");
}
inline Outcome r_dualsign(const Case &k) {
    const Tol tol(k.lp);
    return dualPairs(k, [&](Pres &, const std::vector<double> &, const std::vector<double> &Y, const std::vector<double> &Z) -> std::string {
        std::string w;
        LD v = signViol(k.lp, Y, Z, &w);
        if (v > tol.dua) return "postsolved duals have a wrong sign: " + w;
        return "";
    }, "sign");
}
inline Outcome r_complementarity(const Case &k) {
    const Tol tol(k.lp);
    return dualPairs(k, [&](Pres &, const std::vector<double> &X, const std::vector<double> &Y, const std::vector<double> &Z) -> std::string {
        std::string w;
        LD v = compViol(k.lp, X, Y, Z, &w);
        if (v > tol.dua) return "postsolved pair is not complementary: " + w;
        return "";
    }, "complementarity");
}
// ------------------------------------------------------------------ P10
inline Outcome p_wellformed(const Case &k) {
    Pres p;
    p.go(k.lp, k.s);
    if (!p.p) return viol("null", "new_presolver returned NULL");
    if (!p.bad.empty()) return viol("malformed", p.bad);
    if (!p.hasReduced()) return fin(false, "verdict");
    bool ch = p.red.m() != k.lp.m() || p.red.n() != k.lp.n() || p.red.nnz() != k.lp.nnz();
    if (ch != (p.status == REDUCED))
        return viol("status", F("status %s but dims %dx%d nnz %zu -> %dx%d nnz %zu", sname(p.status), k.lp.m(), k.lp.n(), k.lp.nnz(), p.red.m(), p.red.n(), p.red.nnz()));
    if (!ch) { // nothing removed: the LP itself is still there, and so are its points
        if (p.offset != 0) return viol("unchanged-offset", F("status UNCHANGED but obj_offset %.17g", p.offset));
        for (int j = 0; j < k.lp.n(); j++)
            if (p.red.cols[j].c != k.lp.cols[j].c) return viol("unchanged-costs", F("status UNCHANGED but cost %d is %.17g instead of %.17g", j, p.red.cols[j].c, k.lp.cols[j].c));
        for (int i = 0; i < k.lp.m(); i++)
            if (p.red.rows[i].a != k.lp.rows[i].a) return viol("unchanged-matrix", F("status UNCHANGED but the coefficients of row %d differ", i));
    }
    Rng g(k.aux ^ 0x10);
    std::vector<double> x(p.red.n()), y(p.red.m()), z(p.red.n());
    for (int j = 0; j < p.red.n(); j++) x[j] = g.in(-50, 50) / 8.0;
    p.post(x, y, z);
    if (!p.p->sol) return viol("sol", "no solution after postsolve");
    if ((int) p.p->sol->dim_x != k.lp.n() || (int) p.p->sol->dim_y != k.lp.m())
        return viol("sol-dims", F("solution of dimension %dx%d for an LP with %d rows and %d columns", (int) p.p->sol->dim_y, (int) p.p->sol->dim_x, k.lp.m(), k.lp.n()));
    if (!ch && p.X() != x) return viol("unchanged-x", "status UNCHANGED but postsolve changes the point x");
    return fin(p.status == REDUCED && p.red.n() > 0, p.red.n() ? sname(p.status) : "solved");
}

// the properties proper: the relation, with disagreements confirmed
inline Outcome p_optval(const Case &k) { return confirm(k, r_optval); }
inline Outcome p_infeas_sound(const Case &k) { return confirm(k, r_infeas_sound); }
inline Outcome p_unb_sound(const Case &k) { return confirm(k, r_unb_sound); }
inline Outcome p_hard_preserved(const Case &k) { return confirm(k, r_hard_preserved); }
inline Outcome p_primal_opt(const Case &k) { return confirm(k, r_primal_opt); }
inline Outcome p_primal_any(const Case &k) { return confirm(k, r_primal_any); }
inline Outcome p_stationarity(const Case &k) { return confirm(k, r_stationarity); }
inline Outcome p_dualsign(const Case &k) { return confirm(k, r_dualsign); }
inline Outcome p_complementarity(const Case &k) { return confirm(k, r_complementarity); }
