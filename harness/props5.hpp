// P32: postsolve carries dual feasible solutions (not only optimal ones) over, and a
// lower bound that they prove for the reduced problem is one for the original.
#pragma once
#include "props4.hpp"

// the bound that (y, z) proves: the sum of multiplier times the limit it points at.
// A multiplier that points at an infinite limit makes it -inf, unless it is below tol.
inline LD dualObj(const LP &lp, const std::vector<double> &y, const std::vector<double> &z, LD tol, LD *scale) {
    LD s = 0, a = 0;
    auto add = [&](double mult, double lo, double hi) {
        if (mult == 0) return;
        double lim = mult > 0 ? lo : hi;
        if (std::isinf(lim)) {
            if (fabsl((LD) mult) > tol) s = -(LD) INFV;
            return;
        }
        s += (LD) mult * lim;
        a += fabsl((LD) mult) * (1 + fabsl((LD) lim));
    };
    for (int j = 0; j < lp.n(); j++) add(z[j], lp.cols[j].lb, lp.cols[j].ub);
    for (int i = 0; i < lp.m(); i++) add(y[i], lp.rows[i].l, lp.rows[i].r);
    *scale = a;
    return s;
}
// an LP with the same dual feasible set, and a feasible point: finite sides and bounds move
inline LP shiftedLimits(const LP &lp, Rng &g) {
    LP q = lp;
    std::vector<double> x(lp.n());
    for (int j = 0; j < lp.n(); j++) {
        Col &c = q.cols[j];
        x[j] = g.in(-40, 40) / 4.0;
        if (!std::isinf(c.lb)) c.lb = x[j] - (g.p(0.3) ? 0 : g.in(0, 80) / 8.0);
        if (!std::isinf(c.ub)) c.ub = x[j] + (g.p(0.3) ? 0 : g.in(0, 80) / 8.0);
    }
    for (auto &r : q.rows) {
        double a = (double) rowAct(r, x);
        bool eq = r.l == r.r;
        if (!std::isinf(r.l)) r.l = a - (eq || g.p(0.3) ? 0 : g.in(0, 80) / 8.0);
        if (!std::isinf(r.r)) r.r = a + (eq || g.p(0.3) ? 0 : g.in(0, 80) / 8.0);
    }
    return q;
}
inline Outcome r_dualbound(const Case &k) {
    const Tol tol(k.lp);
    Pres p;
    p.go(k.lp, k.s);
    if (!p.bad.empty()) return viol("malformed", "reduced problem malformed: " + p.bad);
    if (!p.hasReduced()) return fin(false, "verdict");
    Rng g(k.aux ^ 0x32);
    const LP &R = p.red;
    bool nt = reducedSomething(p, k.lp);
    std::vector<double> x(R.n());
    int pairs = 0;
    std::vector<double> y0, z0;
    for (int t = 0; t < 4; t++) {
        std::vector<double> y, z;
        if (t < 3) {
            Sol s = solveLP(shiftedLimits(R, g));
            if (s.stat == LpStat::UNBND) break; // no dual feasible solution
            if (s.stat != LpStat::OPT) continue;
            y = s.y;
            z = s.z;
            if (statViol(R, y, z) > 1e-9 || signViol(R, y, z) > 1e-9) continue;
            if (t == 0) y0 = y, z0 = z;
        } else { // a mixture
            Sol s;
            if (y0.empty() || (s = solveLP(shiftedLimits(R, g))).stat != LpStat::OPT) break;
            double w = g.uni();
            y = y0;
            z = z0;
            for (int i = 0; i < R.m(); i++) y[i] += w * (s.y[i] - y[i]);
            for (int j = 0; j < R.n(); j++) z[j] += w * (s.z[j] - z[j]);
            if (statViol(R, y, z) > 1e-9 || signViol(R, y, z) > 1e-9) break;
        }
        for (auto &v : x) v = g.in(-400, 400) / 16.0;
        LD sr, so, db = dualObj(R, y, z, 1e-8L, &sr) + p.offset;
        p.post(x, y, z);
        pairs++;
        std::vector<double> Y = p.Y(), Z = p.Z();
        std::string w;
        LD v = statViol(k.lp, Y, Z, &w);
        if (v > tol.dua) return viol("stationarity", "a dual feasible solution of the reduced LP postsolves to one that is not stationary: " + w);
        LD mag = 1;
        for (double a : Y) mag = std::max(mag, fabsl((LD) a));
        for (double a : Z) mag = std::max(mag, fabsl((LD) a));
        v = signViol(k.lp, Y, Z, &w);
        if (v > tol.dua * mag) return viol("sign", "a dual feasible solution of the reduced LP postsolves to one with a wrong sign: " + w);
        LD d = dualObj(k.lp, Y, Z, tol.dua * mag, &so);
        if (d < db - tol.opt * (tol.ounit + sr + so + fabsl((LD) p.offset)))
            return viol("bound", F("the reduced dual solution proves %.12Lg (with offset), its postsolved one only %.12Lg", db, d));
    }
    // multipliers without any feasibility: stationarity alone
    for (int t = 0; t < 2; t++) {
        std::vector<double> y(R.m()), z(R.n());
        for (auto &v : y) v = g.p(0.3) ? 0 : g.in(-80, 80) / 8.0;
        for (int j = 0; j < R.n(); j++) z[j] = R.cols[j].c;
        std::vector<LD> zz(z.begin(), z.end());
        for (int i = 0; i < R.m(); i++)
            for (auto &e : R.rows[i].a) zz[e.first] -= (LD) e.second * y[i];
        for (int j = 0; j < R.n(); j++) z[j] = (double) zz[j];
        for (auto &v : x) v = g.in(-400, 400) / 16.0;
        p.post(x, y, z);
        std::string w;
        LD v = statViol(k.lp, p.Y(), p.Z(), &w);
        if (v > tol.dua) return viol("stationarity-any", "multipliers that are stationary for the reduced LP postsolve to ones that are not: " + w);
    }
    if (!pairs) return fin(false, "no-dual-point");
    return fin(nt, nt ? (R.n() == 0 ? "solved" : "reduced") : "unchanged");
}
inline Outcome p_dualbound(const Case &k) { return confirm(k, r_dualbound); }
