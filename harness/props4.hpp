// P31: with the trivial reductions (and dual fixing, parallel rows) alone, the
// reduced problem is the one that a straightforward reference computes.
#pragma once
#include "props3.hpp"

struct TrivRef {
    int verdict = 0;   // 0 none, 1 no optimum, 2 too close to call
    std::string why;
    std::vector<char> row, col;      // still there
    std::vector<char> known;         // removed column with a value that is forced
    std::vector<LD> lb, ub, l, r, x; // limits of what is there; values of removed columns
    LD offset = 0, big = 1;
};
// rounds = 0: to the fixed point. rounds > 0: what so many rounds of (pinned columns, empty
// columns, one pass of dual fixing, singleton rows as long as there are any, empty rows and
// columns) must at least reach.
inline TrivRef trivialRef(const LP &lp, bool dual, int rounds = 0) {
    const LD eq = 1e-9L, clear = 1e-3L;
    TrivRef t;
    int m = lp.m(), n = lp.n();
    t.row.assign(m, 1); t.col.assign(n, 1); t.known.assign(n, 0); t.x.assign(n, 0);
    for (auto &c : lp.cols) t.lb.push_back(c.lb), t.ub.push_back(c.ub);
    for (auto &r : lp.rows) t.l.push_back(r.l), t.r.push_back(r.r);
    std::vector<std::vector<std::pair<int, double>>> C(n);
    std::vector<int> rs(m, 0), cs(n, 0);
    for (int i = 0; i < m; i++)
        for (auto &e : lp.rows[i].a) C[e.first].push_back({i, e.second}), rs[i]++, cs[e.first]++;
    auto stop = [&](int v, const std::string &w) { if (!t.verdict || v == 2) t.verdict = v, t.why = w; };
    auto dropRow = [&](int i) {
        t.row[i] = 0;
        for (auto &e : lp.rows[i].a) if (t.col[e.first]) cs[e.first]--;
    };
    auto fix = [&](int j, LD v, bool forced) {
        t.col[j] = 0; t.known[j] = forced; t.x[j] = v;
        t.offset += lp.cols[j].c * v;
        t.big = std::max(t.big, fabsl(lp.cols[j].c * v));
        for (auto &e : C[j]) {
            if (!t.row[e.first]) continue;
            rs[e.first]--;
            t.l[e.first] -= e.second * v; // stays infinite
            t.r[e.first] -= e.second * v;
        }
    };
    auto gap = [&](LD lo, LD hi, LD s) { // -1 contradiction, 0 equal, 1 apart, 2 too close to call
        LD d = hi - lo;
        if (d >= clear * s) return 1;
        if (fabsl(d) <= std::max(eq, 1e-16L * s)) return 0;
        return d <= -clear * s ? -1 : 2;
    };
    bool again = true;
    auto singletons = [&](bool fixNow) {
        bool any = false;
        for (int i = 0; i < m && t.verdict != 2; i++) {
            if (!t.row[i]) continue;
            if (rs[i] == 0) {
                LD s = 1;
                for (auto &e : lp.rows[i].a) s = std::max(s, fabsl(e.second * t.x[e.first]));
                int a = std::isinf(t.l[i]) ? 1 : gap(t.l[i], 0, s), b = std::isinf(t.r[i]) ? 1 : gap(0, t.r[i], s);
                if (a == 2 || b == 2) stop(2, "");
                else if (a < 0 || b < 0) stop(1, F("row %d is empty and its sides exclude 0", i));
                dropRow(i);
                any = true;
            } else if (rs[i] == 1) {
                int j = -1; double a = 0;
                for (auto &e : lp.rows[i].a) if (t.col[e.first]) j = e.first, a = e.second;
                LD lo = a > 0 ? t.l[i] / a : t.r[i] / a, hi = a > 0 ? t.r[i] / a : t.l[i] / a;
                if (t.l[i] == -INFV && a > 0) lo = -INFV;
                if (t.r[i] == INFV && a < 0) lo = -INFV;
                if (t.r[i] == INFV && a > 0) hi = INFV;
                if (t.l[i] == -INFV && a < 0) hi = INFV;
                bool eqRow = t.l[i] == t.r[i];
                t.lb[j] = std::max(t.lb[j], lo);
                t.ub[j] = std::min(t.ub[j], hi);
                dropRow(i);
                any = true;
                if (fixNow && eqRow && t.lb[j] == t.ub[j]) fix(j, t.lb[j], true);
            }
        }
        return any;
    };
    auto pinned = [&](int j) { // is column j fixed by its own bounds (or contradictory)?
        int k = std::isinf(t.lb[j]) || std::isinf(t.ub[j]) ? (t.lb[j] > t.ub[j] ? -1 : 1) : gap(t.lb[j], t.ub[j], 1 + fabsl(t.lb[j]));
        if (k == 2) { stop(2, ""); return true; }
        if (k < 0) { stop(1, F("the limits of column %d contradict each other", j)); fix(j, std::isinf(t.lb[j]) ? 0 : t.lb[j], false); return true; }
        if (k == 0) { fix(j, t.lb[j], true); return true; }
        return false;
    };
    auto locks = [&](int j, bool &up, bool &down) {
        up = down = false;
        for (auto &e : C[j]) {
            if (!t.row[e.first]) continue;
            bool L = !std::isinf(t.l[e.first]), R = !std::isinf(t.r[e.first]);
            up |= e.second > 0 ? R : L;
            down |= e.second > 0 ? L : R;
        }
    };
    auto toBound = [&](int j, bool up, bool down) { // nothing keeps column j from a bound
        double c = lp.cols[j].c;
        bool toL = !down && (c > 0 || c == 0), toU = !up && (c < 0 || c == 0);
        if (!toL && !toU) return false;
        LD v = toL ? t.lb[j] : t.ub[j];
        if (std::isinf(v)) {
            if (c != 0) { stop(1, F("column %d improves the objective without limit", j)); v = 0; fix(j, v, false); }
            else { // the rows can be satisfied whatever the others are
                std::vector<int> rows;
                for (auto &e : C[j]) if (t.row[e.first]) rows.push_back(e.first);
                for (int i : rows) dropRow(i);
                fix(j, 0, false);
            }
        } else fix(j, v, c != 0);
        return true;
    };
    if (rounds) {
        auto emptyCols = [&] {
            for (int j = 0; j < n && t.verdict != 2; j++) if (t.col[j] && cs[j] == 0) toBound(j, false, false);
        };
        for (int k = 0; k < rounds && !t.verdict; k++) {
            for (int j = 0; j < n && t.verdict != 2; j++) if (t.col[j]) pinned(j);
            emptyCols();
            if (dual) {
                std::vector<int> u(n, 1), d(n, 1);
                for (int j = 0; j < n; j++) if (t.col[j]) { bool a, b; locks(j, a, b); u[j] = a; d[j] = b; }
                for (int j = 0; j < n && t.verdict != 2; j++) if (t.col[j]) toBound(j, u[j], d[j]);
            }
            while (t.verdict != 2 && singletons(true));
            emptyCols();
        }
        return t;
    }
    while (again && t.verdict != 2) {
        again = singletons(false);
        for (int j = 0; j < n && t.verdict != 2; j++) {
            if (!t.col[j]) continue;
            bool up = false, down = false;
            if (pinned(j)) { again = true; if (t.verdict == 2) break; continue; }
            if (cs[j] > 0) {
                if (!dual) continue;
                locks(j, up, down);
            }
            again |= toBound(j, up, down);
        }
    }
    return t;
}
inline Outcome p_trivial(const Case &k0) {
    Case k = k0;
    bool dual = mix(k.aux, 31) % 3 == 0, par = mix(k.aux, 32) % 3 == 0;
    Stg s;
    s.ston_cols = s.dton_eq = s.parallel_cols = s.primal_propagation = s.relax = false;
    s.dual_fix = dual;
    s.parallel_rows = par;
    s.finite_bt = k.s.finite_bt;
    s.max_shift = k.s.max_shift;
    k.s = s;
    TrivRef t = trivialRef(k.lp, dual);
    Pres p;
    p.go(k.lp, k.s);
    if (!p.bad.empty()) return viol("malformed", p.bad);
    auto left = [&](const TrivRef &r) { int q = 0; for (int j = 0; j < k.lp.n(); j++) q += r.col[j]; return q; };
    // dual fixing goes round by round and may stop before the last round, but there are
    // always two of them
    if (dual && t.verdict != 2 && p.hasReduced() && (t.verdict || p.red.n() > left(t))) {
        TrivRef t2 = trivialRef(k.lp, dual, 2);
        if (t2.verdict == 2) return fin(false, "too-close", INCONC);
        if (t2.verdict) return viol("no-verdict", "there is no optimum (" + t2.why + ") but the status is " + sname(p.status));
        if (p.red.n() > left(t2)) return viol("columns", F("%d columns are left, two rounds of dual fixing leave %d", p.red.n(), left(t2)));
        if (p.red.n() < left(t2)) return fin(false, "dual-rounds", INCONC);
        t = t2;
    }
    if (t.verdict == 2) return fin(false, "too-close", INCONC);
    // canonical form of rows: first coefficient 1, proportional rows merged
    struct CR { std::vector<std::pair<int, double>> a; LD l, r, s; };
    auto canon = [](std::vector<CR> v) {
        for (auto &q : v) {
            double f = q.a[0].second;
            LD mx = 0;
            for (auto &e : q.a) mx = std::max(mx, fabsl((LD) e.second));
            q.s = (mx + std::max(std::isinf(q.l) ? 0 : fabsl(q.l), std::isinf(q.r) ? 0 : fabsl(q.r)) + 1) / fabsl((LD) f);
            for (auto &e : q.a) e.second /= f;
            q.l /= f; q.r /= f;
            if (f < 0) std::swap(q.l, q.r);
        }
        auto cmp = [](const CR &x, const CR &y) { // supports first, then coefficients up to rounding
            if (x.a.size() != y.a.size()) return x.a.size() < y.a.size() ? -1 : 1;
            for (size_t i = 0; i < x.a.size(); i++)
                if (x.a[i].first != y.a[i].first) return x.a[i].first < y.a[i].first ? -1 : 1;
            for (size_t i = 0; i < x.a.size(); i++) {
                LD d = (LD) x.a[i].second - y.a[i].second;
                if (fabsl(d) > 1e-11L * fabsl((LD) x.a[i].second)) return d < 0 ? -1 : 1;
            }
            return 0;
        };
        std::sort(v.begin(), v.end(), [&](const CR &x, const CR &y) { return cmp(x, y) < 0; });
        std::vector<CR> o;
        for (auto &q : v) {
            if (!o.empty() && cmp(o.back(), q) == 0) {
                o.back().l = std::max(o.back().l, q.l);
                o.back().r = std::min(o.back().r, q.r);
                o.back().s = std::max(o.back().s, q.s);
            } else o.push_back(q);
        }
        return o;
    };
    std::vector<int> pos(k.lp.n(), -1);
    int nc = 0;
    for (int j = 0; j < k.lp.n(); j++) if (t.col[j]) pos[j] = nc++;
    std::vector<CR> ref, got;
    for (int i = 0; i < k.lp.m(); i++) {
        if (!t.row[i]) continue;
        CR q{{}, t.l[i], t.r[i], 1};
        for (auto &e : k.lp.rows[i].a) if (t.col[e.first]) q.a.push_back({pos[e.first], e.second});
        ref.push_back(q);
    }
    // dual fixing may or may not take rows without sides along
    auto noFree = [&](std::vector<CR> &v) {
        if (dual) v.erase(std::remove_if(v.begin(), v.end(), [](const CR &q) { return std::isinf(q.l) && std::isinf(q.r); }), v.end());
    };
    noFree(ref);
    size_t plain = ref.size();
    if (!t.verdict) {
        ref = canon(ref);
        if (par)
            for (size_t i = 0; i < ref.size(); i++) {
                if (ref[i].l - ref[i].r > -1e-3L * ref[i].s && !(ref[i].l == ref[i].r)) return fin(false, "parallel-close", INCONC);
                if (i && ref[i].a.size() == ref[i - 1].a.size()) { // nearly proportional?
                    bool near = true;
                    for (size_t e = 0; e < ref[i].a.size(); e++) near &= ref[i].a[e].first == ref[i - 1].a[e].first && fabsl((LD) ref[i].a[e].second - ref[i - 1].a[e].second) < 1e-4L * (1 + fabsl((LD) ref[i].a[e].second));
                    if (near) return fin(false, "parallel-close", INCONC);
                }
            }
    }
    // a column whose bounds meet in the last round stays
    if (p.hasReduced())
        for (auto &c : p.red.cols)
            if (!std::isinf(c.lb) && c.ub - c.lb <= 1e-6 * (1 + fabs(c.lb))) return fin(false, "pinned-late", INCONC);
    if (t.verdict) {
        if (p.hasReduced()) return viol("no-verdict", "there is no optimum (" + t.why + ") but the status is " + sname(p.status));
        return fin(true, "verdict");
    }
    if (!p.hasReduced()) return viol("verdict", F("the trivial reductions lead to a problem with %d columns and %zu rows but the status is %s", nc, ref.size(), sname(p.status)));
    if (p.red.n() != nc) return viol("columns", F("%d columns are left instead of %d", p.red.n(), nc));
    for (auto &r : p.red.rows) got.push_back(CR{r.a, r.l, r.r, 1});
    for (auto &q : got) if (q.a.empty()) return viol("rows", "an empty row is left");
    noFree(got);
    if (!par && got.size() != plain) return viol("rows", F("%zu rows are left instead of %zu", got.size(), plain));
    LD big = t.big;
    for (auto &c : k.lp.cols) big = std::max(big, (LD) fabs(c.c));
    for (int j = 0; j < k.lp.n(); j++) {
        if (pos[j] < 0) continue;
        const Col &c = p.red.cols[pos[j]];
        if (c.c != k.lp.cols[j].c) return viol("cost", F("column %d has cost %.17g instead of %.17g", j, c.c, k.lp.cols[j].c));
        auto same = [](double a, LD b) { return std::isinf(a) || std::isinf(b) ? (LD) a == b : fabsl(a - b) <= 1e-7L * (1 + fabsl(b)); };
        if (!same(c.lb, t.lb[j]) || !same(c.ub, t.ub[j])) return viol("bounds", F("column %d has bounds [%.12g, %.12g] instead of [%.12Lg, %.12Lg]", j, c.lb, c.ub, t.lb[j], t.ub[j]));
    }
    if (fabsl(p.offset - t.offset) > 1e-9L * big * (1 + k.lp.n())) return viol("offset", F("obj_offset is %.12g instead of %.12Lg", p.offset, t.offset));
    got = canon(got);
    if (got.size() != ref.size()) return viol("rows", F("%zu different rows are left instead of %zu", got.size(), ref.size()));
    for (size_t i = 0; i < got.size(); i++) {
        if (got[i].a.size() != ref[i].a.size()) return viol("rows", F("a row has %zu entries instead of %zu", got[i].a.size(), ref[i].a.size()));
        for (size_t e = 0; e < got[i].a.size(); e++)
            if (got[i].a[e].first != ref[i].a[e].first || fabsl((LD) got[i].a[e].second - ref[i].a[e].second) > 1e-10L * fabsl((LD) ref[i].a[e].second)) return viol("rows", "a row that is left has other coefficients");
        auto same = [&](LD a, LD b) { return std::isinf(a) || std::isinf(b) ? a == b : fabsl(a - b) <= 1e-7L * (1 + fabsl(b) + ref[i].s); };
        if (!same(got[i].l, ref[i].l) || !same(got[i].r, ref[i].r))
            return viol("sides", F("a row that is left has sides [%.12Lg, %.12Lg] instead of [%.12Lg, %.12Lg] (scaled to a first coefficient of 1)", got[i].l, got[i].r, ref[i].l, ref[i].r));
    }
    // columns with a forced value are recovered with it
    Rng g(k.aux ^ 0x91);
    Triple w = randTriple(p, g);
    p.post(w.x, w.y, w.z);
    std::vector<double> X = p.X();
    for (int j = 0; j < k.lp.n(); j++) {
        if (pos[j] >= 0) {
            if (X[j] != w.x[pos[j]]) return viol("recovery", F("column %d is recovered with %.12g instead of %.12g", j, X[j], w.x[pos[j]]));
        } else if (t.known[j] && fabsl(X[j] - t.x[j]) > 1e-7L * (1 + fabsl(t.x[j])))
            return viol("recovery", F("column %d is recovered with %.12g instead of %.12Lg", j, X[j], t.x[j]));
    }
    return fin(reducedSomething(p, k.lp), dual ? (par ? "dual+parallel" : "dual") : (par ? "parallel" : "trivial"));
}
