// Structured LP generator. Every LP produced satisfies the documented input
// contract: CSR rows with strictly increasing column indices, no explicit zeros,
// no duplicates, lb <= ub and lhs <= rhs per row/column unless a class says
// otherwise (it never does), infinities encoded as IEEE infinities.
#pragma once
#include "lp.hpp"

struct Builder {
    Rng &g;
    std::vector<std::map<int, double>> A;
    std::vector<double> l, r;
    std::vector<double> lb, ub, c, x0, y0;
    bool pmOnly = false, nearFixed = false, pure = false; // pure: stay feasible and bounded
    int style = 0; // 0 small ints, 1 +-1 only, 2 decimals, 3 mixed magnitude
    explicit Builder(Rng &g_) : g(g_) {}
    int m() const { return (int) A.size(); }
    int n() const { return (int) lb.size(); }

    double coef() {
        switch (style) {
        case 1: return g.sgn();
        case 2: return g.sgn() * (double) g.in(1, 60) / 8.0 + 0.0;
        case 3: {
            static const double mags[] = {0.5, 1, 2, 4, 5, 8, 10, 20};
            return g.sgn() * mags[g.in(0, 7)];
        }
        case 4: return g.sgn() * (double) g.in(1, 99) / 10.0;
        default: return g.p(0.5) ? g.sgn() : g.sgn() * g.in(1, 5);
        }
    }
    double anchor() { return g.p(0.35) ? 0 : (style == 2 ? g.in(-24, 24) / 4.0 : g.in(-5, 6)); }
    // bounds around an anchor value
    void bounds(double x, double &lo, double &hi) {
        int k = g.in(0, 11);
        double dl = g.p(0.45) ? 0 : g.in(1, 6), du = g.p(0.3) ? 0 : g.in(1, 8);
        lo = x - dl;
        hi = x + du;
        if (lo == hi) hi = lo + g.in(1, 6);
        if (k <= 3) hi = INFV;
        else if (k == 4) lo = -INFV;
        else if (k == 5 || k == 6) lo = -INFV, hi = INFV;
        else if (k == 7) { lo = std::min(0.0, x); hi = INFV; }
        else if (k == 8 && g.p(0.25)) { lo = hi = x; }
    }
    int addCol() {
        double x = anchor(), lo, hi;
        bounds(x, lo, hi);
        lb.push_back(lo);
        ub.push_back(hi);
        c.push_back(0);
        x0.push_back(x);
        return n() - 1;
    }
    int addColB(double lo, double hi, double x) {
        lb.push_back(lo);
        ub.push_back(hi);
        c.push_back(0);
        x0.push_back(x);
        return n() - 1;
    }
    double act(int i) {
        double s = 0;
        for (auto &e : A[i]) s += e.second * x0[e.first];
        return s;
    }
    // place sides around the anchor activity
    void sides(int i) {
        double a = act(i);
        int k = g.in(0, 19);
        double s1 = g.p(0.5) ? 0 : g.in(1, 6), s2 = g.p(0.5) ? 0 : g.in(1, 6);
        if (k < 6) l[i] = r[i] = a;
        else if (k < 11) { l[i] = -INFV; r[i] = a + s1; }
        else if (k < 16) { l[i] = a - s1; r[i] = INFV; }
        else if (k < 19) {
            l[i] = a - s1;
            r[i] = a + s2;
        } else { l[i] = -INFV; r[i] = INFV; }
    }
    int addRowWith(const std::vector<int> &cs) {
        std::map<int, double> row;
        for (int j : cs) row[j] = coef();
        A.push_back(row);
        l.push_back(-INFV);
        r.push_back(INFV);
        sides(m() - 1);
        return m() - 1;
    }
    std::vector<int> sample(int k) {
        std::vector<int> v(n());
        for (int i = 0; i < n(); i++) v[i] = i;
        for (int i = 0; i < n(); i++) std::swap(v[i], v[g.in(i, n() - 1)]);
        if ((int) v.size() > k) v.resize(k);
        return v;
    }
    // shift finite sides of a row so that the anchor slack is unchanged after
    // its activity at the anchor changed by d
    void shift(int i, double d) {
        if (!std::isinf(l[i])) l[i] += d;
        if (!std::isinf(r[i])) r[i] += d;
    }
    void put(int i, int j, double v) { // add new entry keeping the anchor slack
        if (v == 0) return;
        auto it = A[i].find(j);
        if (it != A[i].end()) return;
        A[i][j] = v;
        shift(i, v * x0[j]);
    }

    // ------------------------------------------------------------ core
    void core(int m0, int n0, double dens) {
        int base = n();
        for (int j = 0; j < n0; j++) addCol();
        for (int i = 0; i < m0; i++) {
            std::vector<int> cs;
            for (int j = base; j < n(); j++)
                if (g.p(dens)) cs.push_back(j);
            while ((int) cs.size() < std::min(2, n0)) {
                int j = g.in(base, n() - 1);
                if (std::find(cs.begin(), cs.end(), j) == cs.end()) cs.push_back(j);
            }
            addRowWith(cs);
        }
    }

    // ------------------------------------------------------------ decorations
    void stonRow() {
        if (!n()) return;
        int j = g.in(0, n() - 1);
        int i = addRowWith({j});
        if (!pure && g.p(0.15)) { // move away from the anchor: may make the LP infeasible
            double d = g.in(-8, 8);
            shift(i, d);
        }
    }
    void stonCol() {
        if (!m()) return;
        int i = g.in(0, m() - 1);
        int j = addCol();
        int k = g.in(0, 9);
        if (k < 3) { lb[j] = -INFV; ub[j] = INFV; }
        else if (k < 6) { // slack-like
            if (g.p(0.5)) { lb[j] = x0[j]; ub[j] = INFV; }
            else { lb[j] = -INFV; ub[j] = x0[j] + (g.p(0.5) ? 0 : 2); }
        }
        put(i, j, coef());
    }
    void dton() {
        if (n() < 1) return;
        int a, b;
        if (n() < 2 || g.p(0.4)) { a = g.in(0, n() - 1); b = addCol(); }
        else {
            auto v = sample(2);
            a = v[0];
            b = v[1];
        }
        std::map<int, double> row;
        row[a] = coef();
        row[b] = coef();
        if (!pmOnly && g.p(0.04)) row[a] *= 4096; // beyond the pivot-ratio limit
        A.push_back(row);
        l.push_back(0);
        r.push_back(0);
        int i = m() - 1;
        l[i] = r[i] = act(i);
        if (!pure && g.p(0.06)) shift(i, g.in(-6, 6));
    }
    void dtonChain() {
        int len = g.in(2, 5);
        int prev = n() ? g.in(0, n() - 1) : addCol();
        for (int k = 0; k < len; k++) {
            int b = addCol();
            std::map<int, double> row;
            row[prev] = coef();
            row[b] = coef();
            A.push_back(row);
            l.push_back(0);
            r.push_back(0);
            l[m() - 1] = r[m() - 1] = act(m() - 1);
            if (m() > 1 && g.p(0.6)) put(g.in(0, m() - 2), b, coef());
            prev = g.p(0.7) ? b : prev;
        }
    }
    double ratio() {
        if (style == 1 && pmOnly) return g.sgn();
        static const double rs[] = {1, -1, 2, -2, 0.5, -0.5, 3, -3, 4, -0.25, 1, -1};
        return rs[g.in(0, 11)];
    }
    void parRows() {
        if (!m()) return;
        int i = g.in(0, m() - 1), cnt = g.p(0.6) ? 1 : g.in(2, 4);
        if (A[i].size() < 2) return;
        for (int k = 0; k < cnt; k++) {
            double q = ratio();
            std::map<int, double> row;
            for (auto &e : A[i]) row[e.first] = e.second * q;
            A.push_back(row);
            l.push_back(-INFV);
            r.push_back(INFV);
            int t = m() - 1;
            int kind = g.in(0, 9);
            if (kind < 6) sides(t);
            else if (kind < 8) { // exact copy of sides
                double a = l[i] * q, b = r[i] * q;
                l[t] = std::min(a, b);
                r[t] = std::max(a, b);
            } else { // one side shared, the other moved
                double a = l[i] * q, b = r[i] * q;
                l[t] = std::min(a, b);
                r[t] = std::max(a, b);
                if (l[t] != r[t]) {
                    if (g.p(0.5)) { if (!std::isinf(r[t])) r[t] += g.in(0, 4); }
                    else if (!std::isinf(l[t])) l[t] -= g.in(0, 4);
                }
            }
            if (!pure && g.p(0.06)) shift(t, g.in(-9, 9));
        }
    }
    void parCols() { // costs are handled here: call after costs()
        if (!n()) return;
        int j = g.in(0, n() - 1), cnt = g.p(0.6) ? 1 : g.in(2, 3);
        for (int k = 0; k < cnt; k++) {
            double q = ratio();
            int t = addCol();
            if (g.p(0.5)) { // same kind of bounds
                double x = x0[t];
                bool li = std::isinf(lb[j]), ui = std::isinf(ub[j]);
                lb[t] = li ? -INFV : x - g.in(0, 3);
                ub[t] = ui ? INFV : x + g.in(0, 4);
            }
            bool any = false;
            for (int i = 0; i < m(); i++) {
                auto it = A[i].find(j);
                if (it != A[i].end()) { put(i, t, it->second * q); any = true; }
            }
            (void) any;
            c[t] = c[j] * q;
            if (g.p(0.3)) c[t] += g.sgn() * (double) g.in(1, 3);
            if (pure && g.p(0.9)) {
                if (std::isinf(lb[t])) lb[t] = x0[t] - g.in(0, 3);
                if (std::isinf(ub[t])) ub[t] = x0[t] + g.in(0, 3);
            }
        }
    }
    // bounds on activity
    void actBounds(int i, double &lo, double &hi) {
        lo = hi = 0;
        for (auto &e : A[i]) {
            double a = e.second, p = a > 0 ? lb[e.first] : ub[e.first],
                   q = a > 0 ? ub[e.first] : lb[e.first];
            lo += a * p;
            hi += a * q;
        }
    }
    void forcing() { // tighten/redundant/forcing/near-infeasible row
        if (!m() || !n()) return;
        int i;
        if (g.p(0.6)) {
            auto v = sample(g.in(2, 5));
            for (int j : v) { // bounded columns so that activities are finite
                if (g.p(0.8)) {
                    if (std::isinf(lb[j])) lb[j] = x0[j] - g.in(0, 3);
                    if (std::isinf(ub[j])) ub[j] = x0[j] + g.in(0, 3);
                }
            }
            i = addRowWith(v);
        } else i = g.in(0, m() - 1);
        double lo, hi;
        actBounds(i, lo, hi);
        int k = g.in(0, 9);
        if (k < 3 && !std::isinf(lo)) { l[i] = g.p(0.5) ? lo : -INFV; r[i] = lo; }
        else if (k < 6 && !std::isinf(hi)) { l[i] = hi; r[i] = g.p(0.5) ? hi : INFV; }
        else if (k == 6 && !std::isinf(hi)) { r[i] = hi + g.in(0, 3); }
        else if (k == 7 && !std::isinf(lo)) { l[i] = lo - g.in(0, 3); }
        else if (k == 8 && !std::isinf(lo) && g.p(0.3)) { l[i] = -INFV; r[i] = lo - 1; }
        else if (k == 9 && !std::isinf(hi)) { l[i] = hi - g.in(0, 2); r[i] = INFV; }
        if (l[i] > r[i]) std::swap(l[i], r[i]);
        if (pure && l[i] > act(i)) l[i] = act(i);
        if (pure && r[i] < act(i)) r[i] = act(i);
    }
    void dualFix() { // make a column's locks one-sided
        if (!m() || !n()) return;
        int j = g.p(0.5) ? addCol() : g.in(0, n() - 1);
        int dir = g.sgn(); // +1: wants to go up freely
        int cnt = g.in(1, 4);
        for (int k = 0; k < cnt; k++) {
            int i = g.in(0, m() - 1);
            if (A[i].find(j) == A[i].end()) put(i, j, coef());
        }
        for (int i = 0; i < m(); i++) {
            auto it = A[i].find(j);
            if (it == A[i].end()) continue;
            double s = it->second * dir;
            if (std::isinf(l[i]) && std::isinf(r[i])) continue;
            if (s > 0) { // increasing activity must be free: only lhs
                if (std::isinf(l[i])) l[i] = r[i] - g.in(0, 3);
                r[i] = INFV;
            } else {
                if (std::isinf(r[i])) r[i] = l[i] + g.in(0, 3);
                l[i] = -INFV;
            }
        }
        if (g.p(0.5)) { if (dir > 0) ub[j] = INFV; else lb[j] = -INFV; }
        forceCostDir[j] = dir;
    }
    std::map<int, int> forceCostDir;
    void impliedFree() { // a column whose bounds are implied by one row
        if (!n()) return;
        int j = addCol();
        auto v = sample(g.in(2, 4));
        if (std::find(v.begin(), v.end(), j) == v.end()) v.push_back(j);
        for (int k : v)
            if (k != j) {
                if (std::isinf(lb[k])) lb[k] = x0[k] - g.in(0, 3);
                if (std::isinf(ub[k])) ub[k] = x0[k] + g.in(1, 3);
            }
        int i = addRowWith(v);
        if (g.p(0.6)) l[i] = r[i] = act(i);
        double lo, hi;
        double keepL = lb[j], keepU = ub[j];
        lb[j] = ub[j] = 0;
        actBounds(i, lo, hi);
        lb[j] = keepL;
        ub[j] = keepU;
        double a = A[i][j], s1 = (l[i] - hi) / a, s2 = (r[i] - lo) / a;
        if (a < 0) std::swap(s1, s2);
        if (!std::isinf(s1) && g.p(0.8)) lb[j] = std::floor(s1) - g.in(0, 1);
        if (!std::isinf(s2) && g.p(0.8)) ub[j] = std::ceil(s2) + g.in(0, 1);
        if (lb[j] > x0[j]) lb[j] = x0[j];
        if (ub[j] < x0[j]) ub[j] = x0[j];
    }
    void emptyCol() {
        int j = addCol();
        c[j] = g.p(0.3) ? 0 : g.in(-3, 3);
        keepCost.insert(j);
        if (pure || g.p(0.85)) { // keep bounded in the cost direction
            if (c[j] > 0 && std::isinf(lb[j])) lb[j] = x0[j] - g.in(0, 2);
            if (c[j] < 0 && std::isinf(ub[j])) ub[j] = x0[j] + g.in(0, 2);
        }
    }
    std::set<int> keepCost;
    void emptyRow() {
        A.push_back({});
        l.push_back(g.p(0.5) ? -INFV : -(double) g.in(0, 3));
        r.push_back(g.p(0.5) ? INFV : (double) g.in(0, 3));
        if (!pure && g.p(0.05)) { l.back() = 1; r.back() = 2; }
    }
    void fixedVar() {
        int j = (n() && g.p(0.5)) ? g.in(0, n() - 1) : addCol();
        lb[j] = ub[j] = x0[j];
        if (!pmOnly && g.p(0.15)) ub[j] = lb[j] + 1e-9, nearFixed = true;
        if (m() && g.p(0.7)) put(g.in(0, m() - 1), j, coef());
    }
    void denseRow() {
        if (n() < 2) return;
        addRowWith(sample(g.in(2, n())));
    }
    void newColInRows() {
        if (!m()) return;
        int j = addCol();
        int cnt = g.in(1, 3);
        for (int k = 0; k < cnt; k++) put(g.in(0, m() - 1), j, coef());
    }
    void transfer() { // rows x1 + x2 + ... sharing many columns with dtons
        for (int k = 0; k < 2; k++) dton();
        denseRow();
    }

    // ------------------------------------------------------------ costs
    void costs(int kind = -1) {
        if (kind < 0) kind = g.in(0, 9);
        if (kind == 0) { // zero objective
            for (int j = 0; j < n(); j++)
                if (!keepCost.count(j)) c[j] = 0;
        } else if (kind <= 2) { // random objective
            for (int j = 0; j < n(); j++)
                if (!keepCost.count(j)) c[j] = g.p(0.3) ? 0 : g.in(-4, 4);
        } else { // dual-feasible anchor: bounded objective, x0 optimal
            std::vector<double> y(m(), 0);
            for (int i = 0; i < m(); i++) {
                double a = act(i);
                double v = g.p(0.35) ? 0 : g.in(1, 3);
                bool atl = a == l[i], atr = a == r[i];
                if (atl && atr) y[i] = v * g.sgn();
                else if (atl) y[i] = v;
                else if (atr) y[i] = -v;
            }
            for (int j = 0; j < n(); j++) {
                if (keepCost.count(j)) continue;
                double v = g.p(0.4) ? 0 : g.in(1, 3), z = 0;
                bool atl = x0[j] == lb[j], atu = x0[j] == ub[j];
                if (atl && atu) z = v * g.sgn();
                else if (atl) z = v;
                else if (atu) z = -v;
                c[j] = z;
            }
            for (int i = 0; i < m(); i++)
                if (y[i] != 0)
                    for (auto &e : A[i])
                        if (!keepCost.count(e.first)) c[e.first] += y[i] * e.second;
            y0 = y;
        }
        for (auto &e : forceCostDir)
            if (g.p(0.8)) c[e.first] = g.p(0.5) ? 0 : -e.second * (double) g.in(0, 3);
    }
    void spoil(int what) {
        if (what == 1 && m()) { // push a row's sides away from the anchor
            int i = g.in(0, m() - 1);
            shift(i, g.sgn() * (double) g.in(1, 15));
        } else if (what == 2 && n()) { // move a bound past the anchor
            int j = g.in(0, n() - 1);
            double d = g.in(1, 6);
            if (g.p(0.5)) { lb[j] = x0[j] + d; if (ub[j] < lb[j]) ub[j] = lb[j] + 1; }
            else { ub[j] = x0[j] - d; if (lb[j] > ub[j]) lb[j] = ub[j] - 1; }
        } else if (what == 3 && n()) { // towards unbounded
            for (int k = 0; k < 2; k++) {
                int j = g.in(0, n() - 1);
                if (g.p(0.5)) lb[j] = -INFV;
                else ub[j] = INFV;
                if (g.p(0.5)) c[j] = g.in(-3, 3);
            }
        }
    }
    void scaleRows() {
        static const double f[] = {0.001, 0.1, 10, 1000, 0.25, 8};
        for (int i = 0; i < m(); i++)
            if (g.p(0.3)) {
                double s = f[g.in(0, 5)];
                for (auto &e : A[i]) e.second *= s;
                l[i] *= s;
                r[i] *= s;
            }
    }
    LP finish() {
        int M = m(), N = n();
        std::vector<int> pr(M), pc(N);
        for (int i = 0; i < M; i++) pr[i] = i;
        for (int j = 0; j < N; j++) pc[j] = j;
        for (int i = 0; i < M; i++) std::swap(pr[i], pr[g.in(i, M - 1)]);
        for (int j = 0; j < N; j++) std::swap(pc[j], pc[g.in(j, N - 1)]);
        LP lp;
        lp.rows.resize(M);
        lp.cols.resize(N);
        for (int j = 0; j < N; j++) lp.cols[pc[j]] = {lb[j], ub[j], c[j]};
        for (int i = 0; i < M; i++) {
            Row &R = lp.rows[pr[i]];
            R.l = l[i];
            R.r = r[i];
            for (auto &e : A[i])
                if (e.second != 0) R.a.push_back({pc[e.first], e.second});
            std::sort(R.a.begin(), R.a.end());
        }
        if (!y0.empty()) {
            y0.resize(M);
            lp.hx.resize(N);
            lp.hy.resize(M);
            for (int j = 0; j < N; j++) lp.hx[pc[j]] = x0[j];
            for (int i = 0; i < M; i++) lp.hy[pr[i]] = y0[i];
        }
        // sums of decimal data carry rounding noise; snap it away
        auto snap = [](double &v) {
            if (!std::isinf(v) && fabs(v) < 1e6) v = std::round(v * 1e7) / 1e7;
        };
        for (auto &C : lp.cols) snap(C.c);
        for (auto &R : lp.rows) {
            if (R.l == 0) R.l = 0; // drop negative zeros
            if (R.r == 0) R.r = 0;
        }
        for (auto &C : lp.cols) {
            if (C.lb == 0) C.lb = 0;
            if (C.ub == 0) C.ub = 0;
            if (C.c == 0) C.c = 0;
        }
        return lp;
    }
};

struct GenOpt {
    int minDeco = 0, maxDeco = 7;
    int maxN0 = 7, maxM0 = 6;
    double pSpoil = 0.15;
    bool smallOnly = false;
    bool exactStyles = false; // only integer/dyadic data
    bool pmOnly = false;      // coefficients +-1, integer data
};

inline LP genSmall(Rng &g, const GenOpt &o, std::string &label) {
    Builder b(g);
    static const int st[] = {0, 0, 0, 0, 1, 1, 2, 3, 4, 0};
    b.style = st[g.in(0, o.exactStyles ? 6 : 9)];
    if (o.pmOnly) b.style = 1, b.pmOnly = true;
    int n0 = g.in(1, o.maxN0), m0 = g.in(0, o.maxM0);
    if (g.p(0.05)) n0 = 1;
    b.core(m0, n0, g.uni(0.25, 0.9));
    int nd = g.in(o.minDeco, o.maxDeco);
    int focus = g.in(0, 15);
    static const char *names[] = {"stonRow", "stonCol", "dton",    "dtonChain", "parRows",
                                  "parCols", "forcing", "dualFix", "implFree",  "emptyCol",
                                  "emptyRow", "fixedVar", "denseRow", "newCol", "transfer", "mixed"};
    int lateParCols = 0;
    for (int k = 0; k < nd; k++) {
        int w = (focus < 15 && g.p(0.55)) ? focus : g.in(0, 14);
        switch (w) {
        case 0: b.stonRow(); break;
        case 1: b.stonCol(); break;
        case 2: b.dton(); break;
        case 3: b.dtonChain(); break;
        case 4: b.parRows(); break;
        case 5: lateParCols++; break;
        case 6: b.forcing(); break;
        case 7: b.dualFix(); break;
        case 8: b.impliedFree(); break;
        case 9: b.emptyCol(); break;
        case 10: b.emptyRow(); break;
        case 11: b.fixedVar(); break;
        case 12: b.denseRow(); break;
        case 13: b.newColInRows(); break;
        case 14: b.transfer(); break;
        }
        if (b.n() > 45 || b.m() > 45) break;
    }
    b.costs();
    while (lateParCols-- > 0) b.parCols();
    label = std::string(names[focus]) + "/s" + std::to_string(b.style);
    if (g.p(o.pSpoil)) {
        int w = g.in(1, 3);
        b.spoil(w);
        label += w == 1 ? "/shiftRow" : w == 2 ? "/moveBound" : "/openBounds";
    }
    if (!o.exactStyles && !o.pmOnly && !b.nearFixed && g.p(0.06)) { b.scaleRows(); label += "/scaled"; }
    return b.finish();
}

// block-diagonal union of small LPs, rows and columns interleaved at random
// filter: may reject a block; link: rows that tie the blocks together, feasible at
// the concatenation of the points that the filter reports
inline LP genBlocks(Rng &g, int nb, std::string &label, bool (*filter)(const LP &, std::vector<double> &) = nullptr, int link = 0) {
    std::vector<LP> bl;
    std::vector<std::vector<double>> pt;
    GenOpt o;
    o.maxDeco = 4;
    o.maxN0 = 6;
    o.maxM0 = 5;
    o.pSpoil = 0;
    for (int k = 0; k < nb; k++) {
        std::string l;
        for (int t = 0; t < 20; t++) {
            LP q = genSmall(g, o, l);
            std::vector<double> x;
            if (filter && t < 19 && !filter(q, x)) continue;
            if (x.empty()) link = 0;
            bl.push_back(q);
            pt.push_back(x);
            break;
        }
    }
    int M = 0, N = 0;
    std::vector<int> ro, co;
    for (auto &q : bl) {
        ro.push_back(M);
        co.push_back(N);
        M += q.m();
        N += q.n();
    }
    int M0 = M;
    M += link;
    std::vector<int> pr(M), pc(N);
    for (int i = 0; i < M; i++) pr[i] = i;
    for (int j = 0; j < N; j++) pc[j] = j;
    if (g.p(0.7)) {
        for (int i = 0; i < M; i++) std::swap(pr[i], pr[g.in(i, M - 1)]);
        for (int j = 0; j < N; j++) std::swap(pc[j], pc[g.in(j, N - 1)]);
    }
    LP lp;
    lp.rows.resize(M);
    lp.cols.resize(N);
    for (int k = 0; k < nb; k++) {
        for (int j = 0; j < bl[k].n(); j++) lp.cols[pc[co[k] + j]] = bl[k].cols[j];
        for (int i = 0; i < bl[k].m(); i++) {
            Row &R = lp.rows[pr[ro[k] + i]];
            R = bl[k].rows[i];
            for (auto &e : R.a) e.first = pc[co[k] + e.first];
            std::sort(R.a.begin(), R.a.end());
        }
    }
    for (int t = 0; t < link; t++) {
        Row &R = lp.rows[pr[M0 + t]];
        double act = 0;
        int len = g.in(2, 12);
        for (int i = 0; i < len; i++) {
            int b = g.in(0, (int) bl.size() - 1);
            if (!bl[b].n()) continue;
            int j = g.in(0, bl[b].n() - 1), J = pc[co[b] + j];
            bool dup = false;
            for (auto &e : R.a) dup |= e.first == J;
            double v = g.in(1, 4) * (g.p(0.4) ? -1 : 1);
            if (dup) continue;
            R.a.push_back({J, v});
            act += v * pt[b][j];
        }
        std::sort(R.a.begin(), R.a.end());
        act = std::round(act * 1048576) / 1048576;
        R.l = g.p(0.5) ? -INFV : act - g.in(0, 4) - 0.001;
        R.r = std::isinf(R.l) || g.p(0.4) ? act + g.in(0, 4) + 0.001 : INFV;
    }
    label = link ? "linked-blocks" : "blocks";
    return lp;
}

// LPs in which one structure is repeated `size` times, so that each reduction makes
// the next one possible; feasible, and mostly with an optimum, by construction
inline LP genLong(Rng &g, int size, std::string &label) {
    Builder b(g);
    b.style = g.p(0.7) ? 1 : 0;
    b.pure = g.p(0.9);
    static const char *names[] = {"dtonChain", "stonChain", "propChain", "denseRows", "parRows", "parCols",
                                  "star", "stonCols", "dualCascade", "mixed", "wideCols"};
    int f = g.in(0, 10);
    auto add = [&](const std::map<int, double> &row) {
        b.A.push_back(row);
        b.l.push_back(-INFV);
        b.r.push_back(INFV);
        return b.m() - 1;
    };
    auto eq = [&](int i) { b.l[i] = b.r[i] = b.act(i); };
    auto pm = [&] { return g.p(0.8) ? g.sgn() : b.coef(); };
    auto links = [&](double frac) { // rows with 3-6 entries between near columns
        int n = b.n();
        for (int i = 0; i < (int) (frac * size) + 1 && n > 2; i++) {
            std::map<int, double> row;
            int at = g.in(0, n - 1), len = g.in(3, 6);
            for (int t = 0; t < len; t++) row[std::min(n - 1, std::max(0, at + g.in(-6, 6)))] = b.coef();
            b.sides(add(row));
        }
    };
    switch (f) {
    case 0:
        b.addCol();
        for (int k = 0; k < size; k++) {
            int p = g.p(0.8) ? b.n() - 1 : g.in(0, b.n() - 1), q = b.addCol();
            eq(add({{p, g.sgn()}, {q, g.sgn()}}));
        }
        links(g.p(0.5) ? 0.1 : 0.5);
        break;
    case 1: {
        int p = b.addCol();
        int i = add({{p, pm()}});
        if (g.p(0.7)) eq(i); else b.sides(i);
        for (int k = 0; k < size; k++) {
            int q = b.addCol();
            i = add({{p, g.sgn()}, {q, g.sgn()}});
            if (g.p(0.3)) b.A[i][g.in(0, p)] = g.sgn();
            if (g.p(0.8)) eq(i); else b.sides(i);
            p = q;
        }
        if (g.p(0.5)) links(0.1);
        break;
    }
    case 2: {
        for (int k = 0; k < 2; k++) { double x = b.anchor(); b.addColB(x - g.in(0, 1), x + g.in(0, 2), x); }
        for (int k = 0; k < size; k++) {
            int q = b.addCol();
            if (g.p(0.6)) b.lb[q] = -INFV, b.ub[q] = INFV;
            int i = add({{q - 2, 0.5 * g.sgn()}, {q - 1, 0.5 * g.sgn()}, {q, g.sgn()}});
            double a = b.act(i);
            int t = g.in(0, 3);
            if (t != 1) b.l[i] = a - g.in(0, 1);
            if (t != 2) b.r[i] = a + g.in(0, 1);
        }
        if (g.p(0.3)) links(0.1);
        break;
    }
    case 3:
        for (int k = 0; k < size; k++) b.addCol();
        for (int k = g.in(1, 4); k > 0; k--) b.addRowWith(b.sample(g.p(0.5) ? size : g.in(2, size)));
        if (g.p(0.5)) b.parRows();
        links(0.2);
        break;
    case 4:
        for (int k = 0; k < size / 2 + 2; k++) b.addCol();
        links(0.2);
        for (int k = 0; k < size; k++) b.parRows();
        break;
    case 5:
        for (int k = 0; k < size / 4 + 2; k++) b.addCol();
        links(0.3);
        break; // the columns come after the costs
    case 6: {
        int p = b.addCol();
        for (int k = 0; k < size; k++) {
            int q = b.addCol();
            int i = add({{p, pm()}, {q, pm()}});
            if (g.p(0.7)) eq(i); else b.sides(i);
        }
        links(0.1);
        break;
    }
    case 7:
        for (int k = 0; k < size / 2 + 2; k++) b.addCol();
        links(0.4);
        for (int k = 0; k < size; k++) b.stonCol();
        break;
    case 8:
        for (int k = 0; k <= size; k++) {
            double x = b.anchor();
            b.addColB(g.p(0.7) ? x - g.in(0, 2) : -INFV, g.p(0.7) ? INFV : x + 2, x);
        }
        for (int k = 0; k < size; k++) {
            int i = add({{k, g.in(1, 3)}, {k + 1, -g.in(1, 3)}});
            if (g.p(0.2)) b.A[i][g.in(0, b.n() - 1)] = g.in(1, 2);
            b.r[i] = b.act(i) + g.in(0, 3);
        }
        break;
    case 9: {
        b.core(size / 6 + 1, size / 4 + 2, std::min(0.9, 8.0 / size));
        for (int k = 0; k < size / 2; k++) switch (g.in(0, 9)) {
            case 0: b.stonRow(); break;
            case 1: b.stonCol(); break;
            case 2: b.dton(); break;
            case 3: b.parRows(); break;
            case 4: b.forcing(); break;
            case 5: b.impliedFree(); break;
            case 6: b.fixedVar(); break;
            case 7: b.newColInRows(); break;
            case 8: b.emptyCol(); break;
            case 9: b.emptyRow(); break;
            }
        break;
    }
    case 10: { // a few columns that are in nearly all rows
        for (int k = 0; k < size / 2 + 4; k++) b.addCol();
        int h = g.in(1, 3);
        for (int k = 0; k < size; k++) {
            std::map<int, double> row;
            for (int t = 0; t < h; t++) if (g.p(0.8)) row[t] = b.coef();
            for (int t = g.in(1, 3); t > 0; t--) row[g.in(0, b.n() - 1)] = b.coef();
            b.sides(add(row));
        }
        break;
    }
    }
    b.costs(g.p(0.85) ? 5 : -1);
    if (f == 5 || g.p(0.2))
        for (int k = 0; k < (f == 5 ? std::min(size / 2, 300) : 3); k++) b.parCols();
    label = std::string("long/") + names[f];
    return b.finish();
}

// exactly as many entries, infinite contributions or locks in one place as fit (or just
// do not fit) into a small integer
inline LP genCounts(Rng &g, bool big, std::string &label) {
    Builder b(g);
    b.style = 1;
    b.pure = true;
    static const int at[] = {128, 256, 256, 256, 512, 1024, 32768, 65536, 65536};
    int N = at[g.in(0, big ? 8 : 4)] + (g.p(0.5) ? 0 : g.in(-1, 1)), kind = g.in(0, 3);
    auto add = [&](const std::map<int, double> &row) {
        b.A.push_back(row);
        b.l.push_back(-INFV);
        b.r.push_back(INFV);
        return b.m() - 1;
    };
    auto side = [&](int i, int s) { (s > 0 ? b.r[i] : b.l[i]) = b.act(i) + (g.p(0.7) ? 0 : s * g.in(1, 3)); };
    auto boxed = [&] { double x = b.anchor(); return b.addColB(x - g.in(0, 3), x + g.in(0, 3), x); };
    if (kind <= 1) { // a column with N locks upwards (and some or none downwards)
        double x = b.anchor();
        int p = b.addColB(x - g.in(0, 3), g.p(0.5) ? INFV : x + g.in(0, 3), x), s = g.sgn(), few = g.in(0, 4);
        if (s < 0) { double t = b.lb[p]; b.lb[p] = -b.ub[p]; b.ub[p] = -t; b.x0[p] = -b.x0[p]; }
        int share = g.p(0.5) ? g.in(2, 8) : 0, q0 = b.n();
        for (int t = 0; t < share; t++) boxed();
        for (int k = 0; k < N + few; k++) {
            std::map<int, double> row;
            int up = k < N ? 1 : -1;
            row[p] = g.sgn();
            if (share) { row[q0 + g.in(0, share - 1)] = g.sgn(); row[q0 + g.in(0, share - 1)] = g.in(1, 3); }
            else { int q = boxed(); row[q] = g.sgn(); if (g.p(0.3) && q > 1) row[g.in(1, q - 1)] = g.sgn(); }
            int i = add(row);
            side(i, up * s * (row[p] > 0 ? 1 : -1));
        }
    } else { // a row with N infinite contributions downwards (and some or none upwards)
        int few = g.in(0, 3), bx = g.in(0, 5);
        std::map<int, double> row;
        for (int k = 0; k < N + few + bx; k++) {
            double x = b.anchor(), c = g.sgn();
            int inf = k < N ? -1 : k < N + few ? 1 : 0;
            int q = b.addColB(x - g.in(0, 3), x + g.in(0, 3), x);
            if (inf * c < 0) b.lb[q] = -INFV;
            if (inf * c > 0) b.ub[q] = INFV;
            row[q] = c;
        }
        int i = add(row), t = g.in(0, 3);
        if (t != 0) side(i, 1);
        if (t != 1) side(i, -1);
        for (int k = g.in(0, N < 2000 ? 60 : 5); k > 0; k--) b.addRowWith(b.sample(g.in(2, 4)));
    }
    b.costs(5);
    label = std::string("counts/") + (kind <= 1 ? "locks" : "infinities");
    return b.finish();
}

// unusual numbers: scaled columns, huge bounds, tiny coefficients, nearly parallel rows
inline void unusual(LP &lp, Rng &g, std::string &label) {
    int n = lp.n(), m = lp.m();
    switch (g.in(0, 5)) {
    case 0: {
        std::vector<double> s(n, 1);
        for (auto &v : s) if (g.p(0.4)) v = g.p(0.5) ? pow(2, g.in(-8, 8)) : pow(10, g.in(-5, 2));
        for (int j = 0; j < n; j++) { lp.cols[j].lb /= s[j]; lp.cols[j].ub /= s[j]; lp.cols[j].c *= s[j]; }
        for (auto &r : lp.rows) for (auto &e : r.a) e.second *= s[e.first];
        label += "/colscale";
        break;
    }
    case 1:
        for (auto &c : lp.cols) {
            double v = g.in(1, 9) * pow(10, g.in(5, 8));
            if (g.p(0.25)) { if (g.p(0.5) || std::isinf(c.lb)) c.lb = std::min(c.lb == -INFV ? c.ub : c.lb, -v); }
            if (g.p(0.25)) c.ub = std::max(std::isinf(c.ub) ? c.lb : c.ub, v);
        }
        label += "/hugeBounds";
        break;
    case 2:
        if (!m) break;
        for (int t = g.in(1, 3); t > 0; t--) {
            Row &r = lp.rows[g.in(0, m - 1)];
            if (r.a.empty()) continue;
            auto &e = r.a[g.in(0, (int) r.a.size() - 1)];
            e.second = g.sgn() * g.in(1, 9) * pow(10, -g.in(1, 6));
        }
        label += "/tiny";
        break;
    case 3: {
        if (!m) break;
        Row r = lp.rows[g.in(0, m - 1)];
        if (r.a.size() < 2) break;
        auto &e = r.a[g.in(0, (int) r.a.size() - 1)];
        e.second *= 1 + g.sgn() * pow(10, -g.in(1, 3));
        if (g.p(0.5)) std::isinf(r.l) ? (void) (r.r += 1) : (void) (r.l -= 1);
        lp.rows.push_back(r);
        label += "/nearPar";
        break;
    }
    case 4:
        if (g.p(0.1)) {
            lp.cols.clear();
            for (auto &r : lp.rows) r.a.clear();
            label += "/noCols";
        } else if (g.p(0.1)) {
            lp.rows.clear();
            label += "/noRows";
        } else { // everything in another unit
            double s = pow(10, g.in(-2, 2)), t = pow(10, g.in(-5, 5));
            for (auto &r : lp.rows) { for (auto &e : r.a) e.second *= s; r.l *= s; r.r *= s; }
            for (auto &c : lp.cols) c.c *= t;
            label += "/units";
        }
        break;
    case 5: // limits that nearly meet, nearly cross, nearly agree
        for (int t = g.in(1, 3); t > 0; t--) {
            double d = g.sgn() * g.in(1, 9) * pow(10, -g.in(2, 5));
            if (m && g.p(0.5)) {
                Row &r = lp.rows[g.in(0, m - 1)];
                if (r.l == r.r) { r.l += d; r.r = r.l; }
                else if (g.p(0.5)) r.l = std::min(r.l + d, r.r);
                else r.r = std::max(r.r + d, r.l);
            } else if (n) {
                Col &c = lp.cols[g.in(0, n - 1)];
                if (g.p(0.3) && !std::isinf(c.lb)) c.ub = c.lb + fabs(d);
                else if (g.p(0.5)) c.lb = std::min(c.lb + d, c.ub);
                else c.ub = std::max(c.ub + d, c.lb);
            }
        }
        label += "/fine";
        break;
    }
}

inline Stg genSettings(Rng &g) {
    Stg s;
    int k = g.in(0, 9);
    if (k >= 5) {
        bool *f[] = {&s.ston_cols, &s.dton_eq, &s.parallel_rows, &s.parallel_cols,
                     &s.primal_propagation, &s.finite_bt, &s.dual_fix, &s.relax};
        if (k < 7) for (auto p : f) *p = g.p(0.5);
        else if (k < 9) { // one or two stages only
            for (auto p : f) *p = false;
            *f[g.in(0, 7)] = true;
            if (g.p(0.5)) *f[g.in(0, 7)] = true;
            s.relax = g.p(0.5);
        } else if (g.p(0.4)) for (auto p : f) *p = false;
        else { // all but one
            *f[g.in(0, 7)] = false;
        }
    }
    static const int sh[] = {10, 10, 10, 0, 1, 2, 3, 5, 50, 1000};
    s.max_shift = sh[g.in(0, 9)];
    if (g.p(0.02)) s.max_time = 0;
    return s;
}

inline Case genCase(Rng &g) {
    Case k;
    int w = g.in(0, 99);
    GenOpt o;
    if (w < 25) { o.maxN0 = 4; o.maxM0 = 3; o.maxDeco = 4; }
    else if (w < 80) {}
    else if (w < 93) { o.maxN0 = 14; o.maxM0 = 12; o.maxDeco = 14; }
    else { o.maxN0 = 3; o.maxM0 = 2; o.maxDeco = 2; o.pSpoil = 0.4; }
    k.lp = genSmall(g, o, k.label);
    k.s = genSettings(g);
    bool exactArithOnly = g.p(0.08);
    if (exactArithOnly) { // all arithmetic exact: +-1 coefficients, integers, no doubletons
        o.pmOnly = true;
        k.lp = genSmall(g, o, k.label);
        k.s.dton_eq = false;
        k.label += "/exact";
    }
    if (g.p(0.03)) k.lp = genLong(g, g.in(4, 24), k.label);
    if (!exactArithOnly && g.p(0.06)) unusual(k.lp, g, k.label);
    k.aux = g.next();
    return k;
}

// settings under which the whole feasible set has to survive
inline void primalOnly(Stg &s) {
    s.ston_cols = s.parallel_cols = s.dual_fix = false;
}
