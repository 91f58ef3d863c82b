// Reference LP solver: bounded-variable primal simplex on a dense tableau.
// Row activities are extra variables s_i = a_i x with bounds [l_i, r_i].
// Independent of PSLP; used as the oracle for original and reduced problems.
#pragma once
#include "lp.hpp"

enum class LpStat { OPT, INFEAS, UNBND, FAIL };

template <class T> struct Simplex {
    int m = 0, n = 0, N = 0;
    std::vector<T> W;            // m x N
    std::vector<T> L, U, X, C;   // per variable (n structural, m activity)
    std::vector<int> basis, pos; // basis[i] = var, pos[var] = row or -1
    std::vector<signed char> at; // nonbasic: -1 lower, +1 upper, 0 free-at-zero
    std::vector<T> D;
    T ftol, ptol, dtol;
    T viol = 0; // phase-1 optimum (sum of infeasibilities)
    long iters = 0, iterLimit = 0;
    LpStat stat = LpStat::FAIL;
    std::vector<T> ray;

    static T absT(T a) { return a < 0 ? -a : a; }
    static bool isInf(T a) { return a > (T) 1e300 || a < (T) -1e300; }

    void init(const LP &lp, T tol) {
        m = lp.m();
        n = lp.n();
        N = n + m;
        ftol = tol;
        ptol = tol;
        dtol = tol;
        W.assign((size_t) m * N, 0);
        L.assign(N, 0);
        U.assign(N, 0);
        X.assign(N, 0);
        C.assign(N, 0);
        basis.resize(m);
        pos.assign(N, -1);
        at.assign(N, 0);
        for (int j = 0; j < n; j++) {
            L[j] = lp.cols[j].lb;
            U[j] = lp.cols[j].ub;
            C[j] = lp.cols[j].c;
        }
        for (int i = 0; i < m; i++) {
            L[n + i] = lp.rows[i].l;
            U[n + i] = lp.rows[i].r;
            for (auto &e : lp.rows[i].a) W[(size_t) i * N + e.first] -= (T) e.second;
            W[(size_t) i * N + n + i] = 1;
            basis[i] = n + i;
            pos[n + i] = i;
        }
        for (int j = 0; j < n; j++) place(j);
        iterLimit = 2000 + 60L * N;
        computeX();
    }
    void place(int j) {
        bool fl = !isInf(L[j]), fu = !isInf(U[j]);
        if (fl && (!fu || absT(L[j]) <= absT(U[j]))) { at[j] = -1; X[j] = L[j]; }
        else if (fu) { at[j] = 1; X[j] = U[j]; }
        else { at[j] = 0; X[j] = 0; }
    }
    void computeX() {
        for (int i = 0; i < m; i++) {
            T s = 0;
            const T *w = &W[(size_t) i * N];
            for (int j = 0; j < N; j++)
                if (pos[j] < 0 && w[j] != 0 && X[j] != 0) s -= w[j] * X[j];
            X[basis[i]] = s;
        }
    }
    void pivot(int r, int j) {
        T *wr = &W[(size_t) r * N];
        T p = wr[j];
        for (int k = 0; k < N; k++) wr[k] /= p;
        wr[j] = 1;
        for (int i = 0; i < m; i++) {
            if (i == r) continue;
            T *wi = &W[(size_t) i * N];
            T f = wi[j];
            if (f == 0) continue;
            for (int k = 0; k < N; k++)
                if (wr[k] != 0) {
                    wi[k] -= f * wr[k];
                    if (absT(wi[k]) < (T) 1e-17) wi[k] = 0;
                }
            wi[j] = 0;
        }
        int out = basis[r];
        pos[out] = -1;
        basis[r] = j;
        pos[j] = r;
    }
    void pricesFor(const std::vector<T> &c) {
        D = c;
        for (int i = 0; i < m; i++) {
            T cb = c[basis[i]];
            if (cb == 0) continue;
            const T *w = &W[(size_t) i * N];
            for (int k = 0; k < N; k++)
                if (w[k] != 0) D[k] -= cb * w[k];
        }
        for (int i = 0; i < m; i++) D[basis[i]] = 0;
    }
    T btol(T b) const { return ftol * ((T) 1 + std::min(absT(b), (T) 1000)); }
    bool below(int v) const { return !isInf(L[v]) && X[v] < L[v] - btol(L[v]); }
    bool above(int v) const { return !isInf(U[v]) && X[v] > U[v] + btol(U[v]); }

    // one run of the simplex with costs c (phase 2) or infeasibility costs (phase 1)
    // returns 0 optimal for that phase, 1 unbounded, 2 fail
    int loop(bool phase1, const std::vector<T> &c) {
        long local = 0;
        std::vector<T> pc(N);
        while (true) {
            if (++iters > iterLimit) return 2;
            bool bland = ++local > 40 + 2L * N;
            if (phase1) {
                bool any = false;
                std::fill(pc.begin(), pc.end(), (T) 0);
                for (int i = 0; i < m; i++) {
                    int v = basis[i];
                    if (below(v)) { pc[v] = -1; any = true; }
                    else if (above(v)) { pc[v] = 1; any = true; }
                }
                if (!any) return 0;
                pricesFor(pc);
            } else pricesFor(c);
            int ent = -1;
            T best = 0;
            int dir = 0;
            for (int j = 0; j < N; j++) {
                if (pos[j] >= 0) continue;
                if (!isInf(L[j]) && !isInf(U[j]) && L[j] == U[j]) continue;
                T d = D[j];
                int dd = 0;
                if (d < -dtol && at[j] <= 0) dd = 1;
                else if (d > dtol && at[j] >= 0) dd = -1;
                if (!dd) continue;
                if (bland) { ent = j; dir = dd; break; }
                if (absT(d) > best) { best = absT(d); ent = j; dir = dd; }
            }
            if (ent < 0) return 0;
            // ratio test
            T tmax = (isInf(L[ent]) || isInf(U[ent])) ? (T) INFV : U[ent] - L[ent];
            int lr = -1;
            int lside = 0;
            T lpiv = 0;
            for (int i = 0; i < m; i++) {
                T w = W[(size_t) i * N + ent];
                if (absT(w) <= ptol) continue;
                int v = basis[i];
                T rate = -w * dir; // dX_v/dt
                T t;
                int side;
                if (phase1 && below(v)) {
                    if (rate <= 0) continue;
                    t = (L[v] - X[v]) / rate;
                    side = -1;
                } else if (phase1 && above(v)) {
                    if (rate >= 0) continue;
                    t = (U[v] - X[v]) / rate;
                    side = 1;
                } else if (rate > 0) {
                    if (isInf(U[v])) continue;
                    t = (U[v] - X[v]) / rate;
                    side = 1;
                } else {
                    if (isInf(L[v])) continue;
                    t = (L[v] - X[v]) / rate;
                    side = -1;
                }
                if (t < 0) t = 0;
                bool better;
                T eps = (T) 1e-13 * ((T) 1 + (isInf(tmax) ? (T) 0 : absT(tmax)));
                if (isInf(tmax) || t < tmax - eps) better = true;
                else if (lr >= 0 && t <= tmax + eps)
                    better = bland ? v < basis[lr] : absT(w) > lpiv;
                else better = false;
                if (better) { tmax = t; lr = i; lside = side; lpiv = absT(w); }
            }
            if (isInf(tmax)) {
                if (phase1) return 2;
                ray.assign(n, 0);
                if (ent < n) ray[ent] = dir;
                for (int i = 0; i < m; i++)
                    if (basis[i] < n) ray[basis[i]] = -W[(size_t) i * N + ent] * dir;
                return 1;
            }
            if (lr < 0) { // bound flip
                at[ent] = dir > 0 ? 1 : -1;
                X[ent] = dir > 0 ? U[ent] : L[ent];
            } else {
                int out = basis[lr];
                pivot(lr, ent);
                at[out] = (signed char) lside;
                X[out] = lside > 0 ? U[out] : L[out];
            }
            computeX();
        }
    }
    LpStat solve(const LP &lp, T tol) {
        for (auto &c : lp.cols)
            if (c.lb > c.ub) { stat = LpStat::INFEAS; viol = c.lb - c.ub; init(lp, tol); if (viol > tol) return stat; }
        init(lp, tol);
        int r = loop(true, C);
        if (r == 2) return stat = LpStat::FAIL;
        viol = 0;
        bool bad = false;
        for (int i = 0; i < m; i++) {
            int v = basis[i];
            if (below(v)) { viol += L[v] - X[v]; bad = true; }
            else if (above(v)) { viol += X[v] - U[v]; bad = true; }
        }
        if (bad) return stat = LpStat::INFEAS;
        r = loop(false, C);
        if (r == 2) return stat = LpStat::FAIL;
        if (r == 1) return stat = LpStat::UNBND;
        pricesFor(C);
        return stat = LpStat::OPT;
    }
    T obj() const {
        T s = 0;
        for (int j = 0; j < n; j++) s += C[j] * X[j];
        return s;
    }
};
