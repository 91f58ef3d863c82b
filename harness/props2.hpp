// Properties about histories, memory, faults, threads, settings and statistics.
#pragma once
#include "hook.hpp"
#include "props.hpp"
#include <functional>
#include <thread>
#include <sys/mman.h>
#include <unistd.h>

// ------------------------------------------------------------ snapshots
typedef std::vector<uint64_t> Bits;
inline void addBits(Bits &b, const void *p, size_t n) {
    const unsigned char *q = (const unsigned char *) p;
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; i++) h = (h ^ q[i]) * 1099511628211ull;
    b.push_back(n);
    b.push_back(h);
}
inline void addVec(Bits &b, const double *v, size_t n) {
    b.push_back(n);
    for (size_t i = 0; i < n; i++) {
        double d = v[i] == 0 ? 0.0 : v[i]; // -0 and 0 are the same number
        uint64_t u;
        memcpy(&u, &d, 8);
        if (std::isnan(d)) u = 0x7ff8dead;
        b.push_back(u);
    }
}
// everything a user can see in the reduced problem
inline Bits snapReduced(const Pres &p) {
    Bits b;
    b.push_back((uint64_t) p.status);
    if (p.status != UNCHANGED && p.status != REDUCED) return b;
    const PresolvedProblem *q = p.p->reduced_prob;
    b.push_back(q->m);
    b.push_back(q->n);
    b.push_back(q->nnz);
    addBits(b, q->Ap, (q->m + 1) * sizeof(int));
    addBits(b, q->Ai, q->nnz * sizeof(int));
    addVec(b, q->Ax, q->nnz);
    addVec(b, q->lhs, q->m);
    addVec(b, q->rhs, q->m);
    addVec(b, q->lbs, q->n);
    addVec(b, q->ubs, q->n);
    addVec(b, q->c, q->n);
    addVec(b, &q->obj_offset, 1);
    return b;
}
inline Bits snapStats(const Pres &p) {
    const PresolveStats *s = p.p->stats;
    return Bits{s->n_rows_original, s->n_cols_original, s->nnz_original,
                s->n_rows_reduced, s->n_cols_reduced, s->nnz_reduced,
                s->nnz_removed_trivial, s->nnz_removed_fast, s->nnz_removed_primal_propagation,
                s->nnz_removed_parallel_rows, s->nnz_removed_parallel_cols};
}
inline Bits snapSol(const Pres &p) {
    Bits b;
    b.push_back(p.p->sol->dim_x);
    b.push_back(p.p->sol->dim_y);
    addVec(b, p.p->sol->x, p.p->sol->dim_x);
    addVec(b, p.p->sol->y, p.p->sol->dim_y);
    addVec(b, p.p->sol->z, p.p->sol->dim_x);
    return b;
}
inline std::string diffBits(const Bits &a, const Bits &b) {
    if (a.size() != b.size()) return "sizes differ";
    for (size_t i = 0; i < a.size(); i++)
        if (a[i] != b[i]) return F("item %zu differs (%016llx vs %016llx)", i, (unsigned long long) a[i], (unsigned long long) b[i]);
    return "";
}
struct Triple {
    std::vector<double> x, y, z;
};
inline Triple randTriple(const Pres &p, Rng &g) {
    Triple t;
    if (!p.hasReduced()) return t;
    auto f = [&](size_t n) {
        std::vector<double> v(n);
        for (auto &q : v) q = g.p(0.3) ? 0 : g.p(0.5) ? g.in(-9, 9) : g.uni(-20, 20);
        return v;
    };
    t.x = f(p.red.n());
    t.y = f(p.red.m());
    t.z = f(p.red.n());
    return t;
}
// an optimal primal-dual triple of the reduced problem if there is one, else random
inline Triple goodTriple(const Pres &p, Rng &g) {
    if (p.hasReduced() && g.p(0.7)) {
        Sol r = solveLP(p.red);
        if (r.stat == LpStat::OPT) return Triple{r.x, r.y, r.z};
    }
    return randTriple(p, g);
}
// a second, unrelated case, derived from the first one's seed
inline Case otherCase(const Case &k, int salt) {
    Rng g(mix(k.aux, 1000 + salt));
    Case o = genCase(g);
    if (g.p(0.4)) o.s = k.s;
    if (g.p(0.15)) o = k; // the very same problem
    return o;
}

// ------------------------------------------------------------------ P11
// inputs: never written, deep-copied
inline Outcome p_inputs(const Case &k) {
    CSR a(k.lp), a0(k.lp);
    auto same = [](const std::vector<double> &u, const std::vector<double> &v) { return u.size() == v.size() && (u.empty() || !memcmp(u.data(), v.data(), u.size() * 8)); };
    Settings *st = default_settings();
    toSettings(k.s, st);
    Settings st0 = *st;
    struct Guard {
        Settings *s;
        Presolver *p = nullptr;
        ~Guard() {
            if (p) free_presolver(p);
            free_settings(s);
        }
    } gd{st};
    Presolver *p = gd.p = new_presolver(a.Ax.data(), a.Ai.data(), a.Ap.data(), a.m, a.n, a.nnz, a.lhs.data(), a.rhs.data(), a.lb.data(), a.ub.data(), a.c.data(), st);
    if (!p) return viol("null", "new_presolver returned NULL");
    auto check = [&](const char *when) -> std::string {
        if (!same(a.Ax, a0.Ax) || a.Ai != a0.Ai || a.Ap != a0.Ap || !same(a.lhs, a0.lhs) || !same(a.rhs, a0.rhs) || !same(a.lb, a0.lb) || !same(a.ub, a0.ub) || !same(a.c, a0.c))
            return std::string("the user's arrays changed during ") + when;
        Settings t = *st;
        if (t.ston_cols != st0.ston_cols || t.dton_eq != st0.dton_eq || t.parallel_rows != st0.parallel_rows || t.parallel_cols != st0.parallel_cols || t.primal_propagation != st0.primal_propagation || t.finite_bound_tightening != st0.finite_bound_tightening || t.dual_fix != st0.dual_fix || t.relax_bounds != st0.relax_bounds || t.max_shift != st0.max_shift || t.max_time != st0.max_time || t.verbose != st0.verbose)
            return std::string("the settings changed during ") + when;
        return "";
    };
    std::string e = check("new_presolver");
    if (!e.empty()) return viol("modified", e);
    Pres q; // the same problem, but its input arrays are overwritten after new_presolver
    q.create(k.lp, k.s);
    Pres keep;
    keep.p = p;
    keep.status = (int) run_presolver(p);
    struct Release {
        Pres &p;
        ~Release() { p.p = nullptr; }
    } rel{keep};
    e = check("run_presolver");
    if (!e.empty()) return viol("modified", e);
    if (keep.status == UNCHANGED || keep.status == REDUCED) keep.fetch(k.lp);
    q.run(k.lp);
    e = diffBits(snapReduced(keep), snapReduced(q));
    if (!e.empty()) return viol("shallow-copy", "result depends on the input arrays after new_presolver returned: " + e);
    if (!keep.hasReduced()) return fin(true, "verdict");
    Rng g(k.aux ^ 0x61);
    Triple t = goodTriple(keep, g), t0 = t;
    postsolve(p, t.x.data(), t.y.data(), t.z.data());
    if (!same(t.x, t0.x) || !same(t.y, t0.y) || !same(t.z, t0.z)) return viol("modified", "postsolve wrote to its inputs");
    e = check("postsolve");
    if (!e.empty()) return viol("modified", e);
    q.post(t0.x, t0.y, t0.z);
    e = diffBits(snapSol(keep), snapSol(q));
    if (!e.empty()) return viol("shallow-copy", "postsolve depends on the input arrays after new_presolver returned: " + e);
    return fin(reducedSomething(keep, k.lp), reducedSomething(keep, k.lp) ? "reduced" : "unchanged");
}

// ------------------------------------------------------------------ P12
// histories over several presolver objects against the isolated run
inline Outcome p_histories(const Case &k) {
    Rng g(k.aux ^ 0x62);
    int nobj = g.in(2, 4);
    std::vector<Case> cs{k};
    for (int i = 1; i < nobj; i++) cs.push_back(otherCase(k, i));
    struct Ref {
        Bits red, st, sol[2];
        Triple t[2];
        bool has = false;
    };
    std::vector<Ref> ref(nobj);
    for (int i = 0; i < nobj; i++) { // isolated runs, zeroed heap
        hk::poison(0x00);
        Pres p;
        p.go(cs[i].lp, cs[i].s);
        if (!p.p) return viol("null", "new_presolver returned NULL");
        ref[i].red = snapReduced(p);
        ref[i].st = snapStats(p);
        ref[i].has = p.hasReduced();
        if (!ref[i].has) continue;
        for (int t = 0; t < 2; t++) {
            ref[i].t[t] = goodTriple(p, g);
            p.post(ref[i].t[t].x, ref[i].t[t].y, ref[i].t[t].z);
            ref[i].sol[t] = snapSol(p);
        }
    }
    // a random interleaving of the operations of all objects
    static const int pat[] = {0xFF, 0x7F, 0x55, 0x01, 0xCD, 0x3F};
    hk::poison(pat[g.in(0, 5)]);
    std::vector<std::unique_ptr<Pres>> ob(nobj);
    std::vector<int> stage(nobj, 0), posts(nobj, 0);
    std::vector<int> tri(nobj, 0);
    std::string hist, err;
    int steps = 0, done = 0;
    bool nt = false;
    while (done < nobj && steps++ < 200) {
        int i = g.in(0, nobj - 1);
        if (stage[i] == 3) continue;
        if (stage[i] == 0) {
            ob[i].reset(new Pres);
            ob[i]->create(cs[i].lp, cs[i].s);
            hist += F(" new%d", i);
            stage[i] = 1;
        } else if (stage[i] == 1) {
            ob[i]->run(cs[i].lp);
            hist += F(" run%d", i);
            std::string e = diffBits(ref[i].red, snapReduced(*ob[i]));
            if (e.empty()) e = diffBits(ref[i].st, snapStats(*ob[i]));
            if (!e.empty()) { err = "reduced problem of object " + std::to_string(i) + " differs from the isolated run: " + e; break; }
            if (ob[i]->status == REDUCED) nt = true;
            stage[i] = ref[i].has ? 2 : 4;
        } else if (stage[i] == 2) {
            int t = g.in(0, 1);
            ob[i]->post(ref[i].t[t].x, ref[i].t[t].y, ref[i].t[t].z);
            hist += F(" post%d.%d", i, t);
            std::string e = diffBits(ref[i].sol[t], snapSol(*ob[i]));
            if (e.empty()) e = diffBits(ref[i].red, snapReduced(*ob[i]));
            if (!e.empty()) { err = "postsolve of object " + std::to_string(i) + " differs from the isolated run: " + e; break; }
            if (++posts[i] >= 1 && g.p(0.4)) stage[i] = 4;
        } else {
            ob[i].reset();
            hist += F(" free%d", i);
            stage[i] = 3;
            done++;
        }
    }
    ob.clear();
    hk::poison(-1);
    if (!err.empty()) return viol("history", err + "; history:" + hist);
    return fin(nt, F("%d objects", nobj));
}

// ------------------------------------------------------------------ P13
inline Outcome p_postsolve_repeat(const Case &k) {
    Pres p, f;
    p.go(k.lp, k.s);
    if (!p.hasReduced()) return fin(false, "verdict");
    Rng g(k.aux ^ 0x63);
    Bits red = snapReduced(p), st = snapStats(p);
    std::vector<Triple> ts;
    std::vector<Bits> first;
    int nt = g.in(2, 4);
    for (int i = 0; i < nt; i++) {
        ts.push_back(i == 0 ? goodTriple(p, g) : g.p(0.5) ? goodTriple(p, g) : randTriple(p, g));
        first.emplace_back();
    }
    int calls = g.in(4, 9);
    for (int c = 0; c < calls; c++) {
        int i = g.in(0, nt - 1);
        p.post(ts[i].x, ts[i].y, ts[i].z);
        Bits b = snapSol(p);
        if (first[i].empty()) {
            Pres fresh; // a presolver on which nothing else was ever postsolved
            fresh.go(k.lp, k.s);
            fresh.post(ts[i].x, ts[i].y, ts[i].z);
            first[i] = snapSol(fresh);
        }
        std::string e = diffBits(first[i], b);
        if (!e.empty()) return viol("repeat", F("postsolve call %d of the same solution gives a different result: ", c) + e);
        if (!(e = diffBits(red, snapReduced(p))).empty()) return viol("reduced-changed", "postsolve changed the reduced problem: " + e);
        if (!(e = diffBits(st, snapStats(p))).empty()) return viol("stats-changed", "postsolve changed the statistics: " + e);
        if (p.p->sol->dim_x != (size_t) k.lp.n() || p.p->sol->dim_y != (size_t) k.lp.m()) return viol("dims", "postsolved solution has wrong dimensions");
    }
    return fin(reducedSomething(p, k.lp), reducedSomething(p, k.lp) ? "reduced" : "unchanged");
}

// ------------------------------------------------------------------ P14
// all API calls; a sanitizer (or a crash) is the oracle, plus leak accounting
inline Outcome p_memory(const Case &k) {
    Rng g(k.aux ^ 0x64);
    long before = hk::live();
    bool nt = false;
    std::string cls;
    {
        int mode = g.in(0, 9);
        Pres p;
        hk::poison(0xA5);
        p.create(k.lp, k.s);
        if (!p.p) return viol("null", "new_presolver returned NULL");
        if (mode == 0) cls = "new,free";
        else {
            p.run(k.lp);
            cls = sname(p.status);
            nt = p.status != UNCHANGED;
            if (!p.bad.empty()) return viol("malformed", p.bad);
            if (p.hasReduced()) {
                int c = g.in(0, 3);
                for (int i = 0; i < c; i++) {
                    Triple t = g.p(0.5) ? goodTriple(p, g) : randTriple(p, g);
                    p.post(t.x, t.y, t.z);
                }
            }
        }
    }
    hk::poison(-1);
    if (hk::live() != before) return viol("leak", F("%ld allocations are still alive after free_presolver", hk::live() - before));
    return fin(nt, cls);
}

// ------------------------------------------------------------------ P15
inline Outcome p_timelimit(const Case &k0) {
    Case k = k0;
    Rng g(k.aux ^ 0x65);
    static const double ts[] = {0, 0, 1e-9, 1e-6, 2e-5, 1e-4};
    k.s.max_time = ts[g.in(0, 5)];
    // the reduction may stop anywhere: value and recovery have to be right all the same
    Outcome o = p_wellformed(k);
    if (o.v == VIOL) return o;
    o = p_optval(k);
    if (o.v == VIOL) return o;
    Outcome q = p_primal_opt(k);
    if (q.v == VIOL) return q;
    q = p_complementarity(k);
    if (q.v == VIOL) return q;
    q = p_stationarity(k);
    if (q.v == VIOL) return q;
    Pres a; // did the limit really cut the reduction short?
    a.go(k.lp, k.s);
    if (k.s.max_time == 0 && a.hasReduced()) { // over after the first phase
        const PresolveStats *st = a.p->stats;
        if (st->nnz_removed_primal_propagation || st->nnz_removed_parallel_rows || st->nnz_removed_parallel_cols || st->time_medium_reductions != 0)
            return viol("limit-ignored", "max_time is 0 but presolve went on to the second phase");
    }
    Stg s = k.s;
    s.max_time = 1e6;
    Pres b;
    b.go(k.lp, s);
    bool cut = diffBits(snapReduced(a), snapReduced(b)) != "";
    return fin(cut, cut ? "cut-short" : "same-as-unlimited", o.v == INCONC ? INCONC : OK);
}

// ------------------------------------------------------------------ P16
// allocation faults in new_presolver: enumerated for each generated LP
inline Outcome p_faults(const Case &k) {
    long count[2];
    {
        Pres p;
        hk::faultNone();
        p.create(k.lp, k.s);
        count[0] = hk::allocCount(0);
        count[1] = hk::allocCount(1);
        if (!p.p) return viol("null", "new_presolver returned NULL without a fault");
    }
    long done = 0;
    for (int th = 0; th < 3; th++) {
        long lim = th < 2 ? count[th] : 1;
        for (long i = 1; i <= lim; i++) {
            std::string at = th < 2 ? F("allocation %ld of the %s thread", i, th ? "helper" : "calling") : std::string("thread creation");
            hk::note(("fault: " + at).c_str());
            long before = hk::live();
            bool hit, null;
            std::string e;
            {
                Pres p;
                if (th < 2) hk::faultAt(th, i);
                else hk::faultThread();
                p.create(k.lp, k.s);
                hit = hk::faultHit();
                null = !p.p;
                hk::faultNone();
                if (hit && !null) { // it may succeed only if it can do without: then it has to work
                    p.run(k.lp);
                    Pres q;
                    q.go(k.lp, k.s);
                    e = diffBits(snapReduced(q), snapReduced(p));
                }
            }
            if (!hit) continue;
            done++;
            if (!e.empty()) return viol("ignored-fault", "new_presolver hid a failed " + at + " and then presolved differently: " + e);
            if (hk::live() != before) return viol("leak", F("%ld allocations leak after a failed ", hk::live() - before) + at);
        }
    }
    return fin(done > 0, done < 30 ? "<30 faults" : done < 40 ? "30-39 faults" : "40+ faults");
}

// ------------------------------------------------------------------ P17
// with the dual reductions off, no feasible point is lost
inline Outcome r_feasset(const Case &k0) {
    Case k = k0;
    primalOnly(k.s);
    const Tol tol(k.lp);
    Rng g(k.aux ^ 0x67);
    std::vector<std::vector<double>> pts;
    for (int t = 0; t < 5; t++) {
        LP q = boxed(k.lp, t == 0 ? 10 : 3 + 60 * g.uni());
        randomObjective(q, g);
        Sol s = solveLP(q);
        if (s.stat == LpStat::OPT && primalViol(k.lp, s.x) < 1e-9) pts.push_back(s.x);
    }
    if (pts.empty()) return fin(false, "no-feasible-point");
    if (pts.size() > 1) {
        std::vector<double> x(k.lp.n(), 0);
        for (auto &p : pts)
            for (int j = 0; j < k.lp.n(); j++) x[j] += p[j] / pts.size();
        pts.push_back(x);
    }
    Pres p;
    p.go(k.lp, k.s);
    if (!p.bad.empty()) return viol("malformed", p.bad);
    if (p.status == INFEASIBLE) return viol("false-infeasible", "run_presolver returned INFEASIBLE but the LP has a feasible point");
    if (!p.hasReduced()) return fin(false, "unbounded");
    // which original column is which reduced column? ask postsolve
    std::vector<double> mark(p.red.n()), y(p.red.m(), 0), z(p.red.n(), 0);
    for (auto &v : mark) v = g.uni(100, 1000);
    p.post(mark, y, z);
    std::vector<double> X = p.X();
    std::vector<int> map(p.red.n(), -1);
    for (int r = 0; r < p.red.n(); r++) {
        int cnt = 0;
        for (int j = 0; j < k.lp.n(); j++)
            if (X[j] == mark[r]) { map[r] = j; cnt++; }
        if (cnt == 0) return viol("column-lost", F("no original column takes the value of reduced column %d", r));
        if (cnt > 1) return fin(false, "ambiguous", INCONC); // x_i = x_j substituted
    }
    std::vector<char> empty(k.lp.n(), 1);
    for (auto &r : k.lp.rows)
        for (auto &e : r.a) empty[e.first] = 0;
    for (auto &x : pts) {
        std::vector<double> xr(p.red.n());
        for (int r = 0; r < p.red.n(); r++) xr[r] = x[map[r]];
        std::string w;
        LD v = primalViol(p.red, xr, &w);
        if (v > tol.pri * 10) return viol("cut-off", F("a feasible point of the original LP violates the reduced LP by %.3Lg: ", v) + w);
    }
    return fin(reducedSomething(p, k.lp), reducedSomething(p, k.lp) ? "reduced" : "unchanged");
}
inline Outcome p_feasset(const Case &k) { return confirm(k, r_feasset); }

// ------------------------------------------------------------------ P18
inline Outcome p_exhaustive(const Case &k) {
    Pres p;
    p.go(k.lp, k.s);
    if (!p.bad.empty()) return viol("malformed", p.bad);
    if (!p.hasReduced()) return fin(false, "verdict");
    std::vector<int> used(p.red.n(), 0);
    for (int i = 0; i < p.red.m(); i++) {
        if (p.red.rows[i].a.empty()) return viol("empty-row", F("row %d of the reduced problem is empty", i));
        if (p.red.rows[i].a.size() == 1) return viol("singleton-row", F("row %d of the reduced problem is a singleton", i));
        for (auto &e : p.red.rows[i].a) used[e.first]++;
    }
    for (int j = 0; j < p.red.n(); j++)
        if (!used[j]) return viol("empty-column", F("column %d of the reduced problem is empty", j));
    bool had = false; // did the input have something to remove?
    std::vector<int> u(k.lp.n(), 0);
    for (auto &r : k.lp.rows) {
        if (r.a.size() < 2) had = true;
        for (auto &e : r.a) u[e.first]++;
    }
    for (int v : u) had |= v == 0;
    return fin(had || reducedSomething(p, k.lp), had ? "had-trivial" : "none");
}

// ------------------------------------------------------------------ P19
// stages that are switched off leave no trace
inline Outcome p_settings(const Case &k) {
    { // the helpers set every switch, whatever it was
        Settings t;
        toSettings(k.s, &t);
        set_settings_false(&t);
        if (t.ston_cols || t.dton_eq || t.parallel_rows || t.parallel_cols || t.primal_propagation || t.finite_bound_tightening || t.dual_fix || t.relax_bounds || t.verbose) return viol("helper", "set_settings_false leaves a switch on");
        toSettings(k.s, &t);
        set_settings_true(&t);
        if (!t.ston_cols || !t.dton_eq || !t.parallel_rows || !t.parallel_cols || !t.primal_propagation || !t.finite_bound_tightening || !t.dual_fix || !t.relax_bounds || !t.verbose) return viol("helper", "set_settings_true leaves a switch off");
        Settings *d = default_settings();
        bool all = d && d->ston_cols && d->dton_eq && d->parallel_rows && d->parallel_cols && d->primal_propagation && d->finite_bound_tightening && d->dual_fix && d->relax_bounds && d->max_time > 0 && d->max_shift > 0;
        if (d) // really set: the byte of every switch is 1 and not what the heap happened to hold
            for (const void *b : {(const void *) &d->ston_cols, (const void *) &d->dton_eq, (const void *) &d->parallel_rows, (const void *) &d->parallel_cols, (const void *) &d->primal_propagation, (const void *) &d->finite_bound_tightening, (const void *) &d->dual_fix, (const void *) &d->relax_bounds})
                all = all && *(const volatile unsigned char *) b == 1;
        free_settings(d);
        if (!all) return viol("helper", "default_settings leaves a reduction off");
        if (t.max_shift != k.s.max_shift || t.max_time != k.s.max_time) return viol("helper", "set_settings_true changes a limit");
    }
    Pres p;
    p.go(k.lp, k.s);
    if (!p.bad.empty()) return viol("malformed", p.bad);
    const PresolveStats *s = p.p->stats;
    if (!k.s.primal_propagation && s->nnz_removed_primal_propagation) return viol("stats", "primal propagation is off but it removed nonzeros according to the statistics");
    if (!k.s.parallel_rows && s->nnz_removed_parallel_rows) return viol("stats", "parallel rows is off but it removed nonzeros according to the statistics");
    if (!k.s.parallel_cols && s->nnz_removed_parallel_cols) return viol("stats", "parallel columns is off but it removed nonzeros according to the statistics");
    if (!p.hasReduced()) return fin(false, "verdict");
    bool off = !k.s.ston_cols && !k.s.dton_eq && !k.s.parallel_rows && !k.s.parallel_cols && !k.s.primal_propagation && !k.s.dual_fix;
    if (!k.s.ston_cols && !k.s.dton_eq && s->nnz_removed_fast) return viol("stats", "fast reductions are off but they removed nonzeros according to the statistics");
    // columns of the reduced problem, identified through postsolve
    Rng g(k.aux ^ 0x69);
    std::vector<double> mark(p.red.n()), y(p.red.m(), 0), z(p.red.n(), 0), ym(p.red.m());
    for (auto &v : mark) v = g.uni(100, 1000);
    p.post(mark, y, z);
    std::vector<double> X = p.X();
    std::vector<int> map(p.red.n(), -1);
    for (int r = 0; r < p.red.n(); r++) {
        int cnt = 0;
        for (int j = 0; j < k.lp.n(); j++)
            if (X[j] == mark[r]) map[r] = j, cnt++;
        if (cnt > 1) return fin(false, "ambiguous", INCONC); // a removed column was recovered with the same value
    }
    for (int r = 0; r < p.red.n(); r++)
        if (map[r] < 0 && !k.s.parallel_cols) return viol("column-lost", F("no original column takes the value of reduced column %d", r));
    bool nt = reducedSomething(p, k.lp);
    if (!k.s.dton_eq && !k.s.ston_cols && !k.s.parallel_cols) {
        // nothing substitutes: kept columns keep their costs
        for (int r = 0; r < p.red.n(); r++)
            if (p.red.cols[r].c != k.lp.cols[map[r]].c) return viol("cost", F("no substitution is on but the cost of column %d changed from %.17g to %.17g", map[r], k.lp.cols[map[r]].c, p.red.cols[r].c));
        // and every reduced row is a row of the original restricted to kept columns
        std::map<int, int> inv;
        for (int r = 0; r < p.red.n(); r++) inv[map[r]] = r;
        std::multiset<std::vector<std::pair<int, double>>> have;
        for (auto &R : k.lp.rows) {
            std::vector<std::pair<int, double>> v;
            for (auto &e : R.a) {
                auto it = inv.find(e.first);
                if (it != inv.end()) v.push_back({it->second, e.second});
            }
            have.insert(v);
        }
        for (int i = 0; i < p.red.m(); i++) {
            auto it = have.find(p.red.rows[i].a);
            if (it == have.end()) return viol("row", F("no substitution is on but row %d of the reduced problem is no row of the original", i));
            have.erase(it);
        }
    }
    if (!k.s.relax && !k.s.parallel_cols)
        // without relax_bounds and merging of columns no bound gets weaker
        for (int r = 0; r < p.red.n(); r++) {
            const Col &a = k.lp.cols[map[r]], &b = p.red.cols[r];
            if (b.lb < a.lb || b.ub > a.ub) return viol("weaker", F("relax_bounds and parallel_cols are off but the bounds of column %d went from [%.12g, %.12g] to [%.12g, %.12g]", map[r], a.lb, a.ub, b.lb, b.ub));
        }
    if (!k.s.primal_propagation && !k.s.dton_eq && !k.s.parallel_cols && !k.s.ston_cols) {
        // bounds may only come from the original bounds or from singleton rows
        bool anySton = false;
        for (auto &R : k.lp.rows) {
            int kept = 0;
            for (auto &e : R.a) kept += !(k.lp.cols[e.first].ub - k.lp.cols[e.first].lb <= 1e-6);
            anySton |= kept <= 1;
        }
        if (!anySton && !k.s.dual_fix && !k.s.parallel_rows)
            for (int r = 0; r < p.red.n(); r++) {
                const Col &a = k.lp.cols[map[r]], &b = p.red.cols[r];
                auto same = [&](double o, double q) { return o == q || (k.s.relax && std::isinf(q)); }; // relax_bounds drops implied bounds
                if (!same(a.lb, b.lb) || !same(a.ub, b.ub)) return viol("bounds", F("no reduction that tightens bounds applies but the bounds of column %d changed", map[r]));
            }
    }
    return fin(nt, off ? "all-off" : "some-off");
}

// ------------------------------------------------------------------ P20
inline Outcome p_stats(const Case &k) {
    auto clk = []() {
        struct timespec q;
        clock_gettime(CLOCK_MONOTONIC, &q);
        return (LD) q.tv_sec + q.tv_nsec * 1e-9L;
    };
    const LD ns = 2e-9L; // rounding of the differences
    Pres p;
    LD t0 = clk();
    p.create(k.lp, k.s);
    LD tInit = clk() - t0;
    if (!p.p) return viol("null", "new_presolver returned NULL");
    auto chkOrig = [&]() -> std::string {
        const PresolveStats *s = p.p->stats;
        if (s->n_rows_original != (size_t) k.lp.m() || s->n_cols_original != (size_t) k.lp.n() || s->nnz_original != k.lp.nnz())
            return F("original size reported as %zu x %zu, %zu nonzeros instead of %d x %d, %zu", s->n_rows_original, s->n_cols_original, s->nnz_original, k.lp.m(), k.lp.n(), k.lp.nnz());
        double t[] = {s->time_init, s->time_fast_reductions, s->time_medium_reductions, s->time_primal_propagation, s->time_parallel_rows, s->time_parallel_cols, s->time_presolve, s->time_postsolve};
        for (double v : t)
            if (!(v >= 0 && v < 1e4)) return F("a time of %g s is reported", v);
        return "";
    };
    std::string e = chkOrig();
    if (!e.empty()) return viol("original", e);
    if (!(p.p->stats->time_init > 0 && p.p->stats->time_init <= tInit + ns)) return viol("time", F("new_presolver took %.9Lg s but reports %.9g s", tInit, p.p->stats->time_init));
    t0 = clk();
    p.run(k.lp);
    LD tRun = clk() - t0;
    e = chkOrig();
    if (!e.empty()) return viol("original", e);
    {
        const PresolveStats *s = p.p->stats;
        LD fast = s->time_fast_reductions, medium = s->time_medium_reductions, parts = (LD) s->time_primal_propagation + s->time_parallel_rows + s->time_parallel_cols;
        LD r = 1e-9L * 1000; // thousands of intervals, each rounded
        if (fast + medium > tRun + r) return viol("time", F("run_presolver took %.9Lg s but reports %.9Lg s for fast and medium reductions", tRun, fast + medium));
        if (parts > medium + r) return viol("time", F("%.9Lg s are reported for the medium reductions but %.9Lg s for their parts", medium, parts));
        if (!k.s.primal_propagation && s->time_primal_propagation) return viol("time", "time is reported for primal propagation, which is off");
        if (!k.s.parallel_rows && s->time_parallel_rows) return viol("time", "time is reported for parallel rows, which is off");
        if (!k.s.parallel_cols && s->time_parallel_cols) return viol("time", "time is reported for parallel columns, which is off");
        if (p.status == UNCHANGED || p.status == REDUCED) {
            if (!(s->time_presolve > 0 && s->time_presolve <= tRun + ns)) return viol("time", F("run_presolver took %.9Lg s but reports %.9g s", tRun, s->time_presolve));
            if (fast + medium > s->time_presolve + r) return viol("time", F("%.9g s are reported for presolve but %.9Lg s for its parts", s->time_presolve, fast + medium));
        }
    }
    if (!p.bad.empty()) return viol("malformed", p.bad);
    if (!p.hasReduced()) return fin(false, "verdict");
    const PresolveStats *s = p.p->stats;
    if (s->n_rows_reduced != (size_t) p.red.m() || s->n_cols_reduced != (size_t) p.red.n() || s->nnz_reduced != p.red.nnz())
        return viol("reduced", F("reduced size reported as %zu x %zu, %zu nonzeros instead of %d x %d, %zu", s->n_rows_reduced, s->n_cols_reduced, s->nnz_reduced, p.red.m(), p.red.n(), p.red.nnz()));
    size_t sum = s->nnz_removed_trivial + s->nnz_removed_fast + s->nnz_removed_primal_propagation + s->nnz_removed_parallel_rows + s->nnz_removed_parallel_cols;
    if (sum != s->nnz_original - s->nnz_reduced)
        return viol("sum", F("per-stage removed nonzeros %ld + %ld + %ld + %ld + %ld do not add up to %ld", (long) s->nnz_removed_trivial, (long) s->nnz_removed_fast, (long) s->nnz_removed_primal_propagation, (long) s->nnz_removed_parallel_rows, (long) s->nnz_removed_parallel_cols, (long) (s->nnz_original - s->nnz_reduced)));
    Rng g(k.aux ^ 0x70);
    Triple t = randTriple(p, g);
    for (int i = 0; i < 2; i++) { // the time of the last call counts
        t0 = clk();
        p.post(t.x, t.y, t.z);
        LD tPost = clk() - t0;
        if (!(s->time_postsolve > 0 && s->time_postsolve <= tPost + ns)) return viol("time", F("postsolve took %.9Lg s but reports %.9g s", tPost, s->time_postsolve));
    }
    e = chkOrig();
    if (!e.empty()) return viol("original", e);
    return fin(reducedSomething(p, k.lp), reducedSomething(p, k.lp) ? "reduced" : "unchanged");
}

// ------------------------------------------------------------------ P21
// presolving the reduced problem again and postsolving twice
inline Outcome r_compose(const Case &k) {
    const Tol tol(k.lp);
    Sol o = classify(k.lp);
    if (o.stat != LpStat::OPT) return fin(false, std::string("orig-") + lname(o.stat), o.stat == LpStat::FAIL ? INCONC : OK);
    Rng g(k.aux ^ 0x71);
    std::vector<std::unique_ptr<Pres>> chain;
    std::vector<LP> lps{k.lp};
    double off = 0;
    int depth = g.in(2, 3);
    Stg s = k.s;
    for (int d = 0; d < depth; d++) {
        chain.emplace_back(new Pres);
        chain.back()->go(lps.back(), s);
        if (!chain.back()->bad.empty()) return viol("malformed", chain.back()->bad);
        if (!chain.back()->hasReduced()) {
            if (d == 0) return fin(false, "verdict");
            return viol("verdict", F("presolving the reduced problem (level %d) returned %s although the original has an optimum", d, sname(chain.back()->status)));
        }
        off += chain.back()->offset;
        lps.push_back(chain.back()->red);
        if (lps.back().n() == 0) break;
        s = g.p(0.5) ? k.s : genSettings(g);
        // what is off stays off, so that confirm() can switch steps off at every level
        s.primal_propagation &= k.s.primal_propagation;
        s.dton_eq &= k.s.dton_eq;
        s.parallel_rows &= k.s.parallel_rows;
        s.parallel_cols &= k.s.parallel_cols;
    }
    if (chain.size() < 2) return fin(false, "solved-at-once");
    Sol r = solveLP(lps.back());
    if (r.stat == LpStat::FAIL || (r.stat == LpStat::INFEAS && r.viol < INF_CLEAR / 10)) return fin(false, "oracle-fail", INCONC);
    if (r.stat != LpStat::OPT) return viol("status", F("the twice reduced problem is %s", lname(r.stat)));
    if (fabsl(r.obj + off - o.obj) > tol.opt * (tol.ounit + std::max(o.scale, r.scale))) return viol("value", F("optimum %.12Lg after %zu rounds plus offsets %.12g, original %.12Lg", r.obj, chain.size(), off, o.obj));
    std::vector<double> x = r.x, y = r.y, z = r.z;
    for (int d = (int) chain.size() - 1; d >= 0; d--) {
        chain[d]->post(x, y, z);
        x = chain[d]->X();
        y = chain[d]->Y();
        z = chain[d]->Z();
    }
    std::string w;
    if (primalViol(k.lp, x, &w) > tol.pri) return viol("primal", "after two postsolves: " + w);
    LD sc, ob = objOf(k.lp, x, &sc);
    if (fabsl(ob - o.obj) > tol.opt * (tol.ounit + std::max(sc, o.scale))) return viol("value", F("after two postsolves the objective is %.12Lg, optimum %.12Lg", ob, o.obj));
    if (statViol(k.lp, y, z, &w) > tol.dua) return viol("dual", "after two postsolves: " + w);
    if (signViol(k.lp, y, z, &w) > tol.dua) return viol("dual", "after two postsolves: " + w);
    if (compViol(k.lp, x, y, z, &w) > tol.dua) return viol("dual", "after two postsolves: " + w);
    bool nt = reducedSomething(*chain[0], k.lp);
    bool nt2 = reducedSomething(*chain[1], lps[1]);
    return fin(nt, nt2 ? "reduced-twice" : nt ? "reduced" : "unchanged");
}
inline Outcome p_compose(const Case &k) { return confirm(k, r_compose); }

// ------------------------------------------------------------------ P22
// everything at once on large block-structured LPs
inline bool affordable(const LP &lp) { // for the dense reference solver
    for (auto &c : components(lp))
        if ((double) c.lp.m() * (c.lp.n() + c.lp.m()) > 4e5) return false;
    return true;
}
// the postsolved pair is its own certificate: no reference solution of the original needed
inline Outcome r_certify(const Case &k) {
    const Tol tol(k.lp);
    // what the generator knows about the LP: a feasible point, or even an optimal pair
    bool feas = (int) k.lp.hx.size() == k.lp.n() && primalViol(k.lp, k.lp.hx) <= 1e-9, known = feas && (int) k.lp.hy.size() == k.lp.m();
    if (known) {
        std::vector<double> hz(k.lp.n());
        for (int j = 0; j < k.lp.n(); j++) hz[j] = k.lp.cols[j].c;
        for (int i = 0; i < k.lp.m(); i++)
            for (auto &e : k.lp.rows[i].a) hz[e.first] -= e.second * k.lp.hy[i];
        known = signViol(k.lp, k.lp.hy, hz) <= 1e-9 && compViol(k.lp, k.lp.hx, k.lp.hy, hz) <= 1e-9;
    }
    Pres p;
    p.go(k.lp, k.s);
    if (!p.bad.empty()) return viol("malformed", "reduced problem malformed: " + p.bad);
    if (!p.hasReduced()) {
        if (known) return viol("verdict", F("run_presolver returned %s but the generator knows an optimal solution", sname(p.status)));
        if (feas && p.status == INFEASIBLE) return viol("verdict", "run_presolver returned INFEASIBLE but the generator knows a feasible point");
        if (!affordable(k.lp)) return fin(false, "verdict-not-judged", INCONC);
        Sol o = classify(k.lp);
        if (o.stat == LpStat::FAIL) return fin(false, "close-to-call", INCONC);
        bool wrong = p.status == INFEASIBLE ? o.stat != LpStat::INFEAS : o.stat == LpStat::OPT;
        return wrong ? viol("verdict", F("run_presolver returned %s but the LP is %s", sname(p.status), lname(o.stat))) : fin(true, sname(p.status));
    }
    bool nt = reducedSomething(p, k.lp);
    if (!affordable(p.red)) return fin(nt, "reduced-too-big", INCONC);
    Sol r = solveLP(p.red);
    if (known && (r.stat == LpStat::INFEAS || r.stat == LpStat::UNBND)) return viol("reduced-verdict", F("the reduced problem is %s but the generator knows an optimal solution of the original", lname(r.stat)));
    if (r.stat != LpStat::OPT) return fin(false, std::string("reduced-") + lname(r.stat), INCONC);
    if (known) {
        LD sc, ob = objOf(k.lp, k.lp.hx, &sc);
        if (fabsl(ob - r.obj - p.offset) > tol.opt * (tol.ounit + std::max(sc, r.scale))) return viol("known-value", F("reduced optimum %.12Lg + offset %.12g, but the generator knows a solution with value %.12Lg", r.obj, p.offset, ob));
    }
    Rng g(k.aux ^ 0x74);
    for (int t = 0; t < 3; t++) {
        std::vector<double> x = r.x, y = r.y, z = r.z, t2, u2;
        if (t == 1 && !altPrimal(p.red, r, g, x)) continue;
        if (t == 2) {
            if (!altDual(p.red, x, g, t2, u2)) continue;
            y = t2;
            z = u2;
        }
        p.post(x, y, z);
        std::vector<double> X = p.X(), Y = p.Y(), Z = p.Z();
        std::string w;
        if (primalViol(k.lp, X, &w) > tol.pri) return viol("primal", "postsolved x infeasible: " + w);
        if (statViol(k.lp, Y, Z, &w) > tol.dua) return viol("stationarity", "postsolved duals are not stationary: " + w);
        if (signViol(k.lp, Y, Z, &w) > tol.dua) return viol("sign", "postsolved duals have a wrong sign: " + w);
        if (compViol(k.lp, X, Y, Z, &w) > tol.dua) return viol("complementarity", "postsolved pair is not complementary: " + w);
        LD sc, ob = objOf(k.lp, X, &sc);
        if (fabsl(ob - r.obj - p.offset) > tol.opt * (tol.ounit + std::max(sc, r.scale)))
            return viol("value", F("objective of postsolved x %.12Lg, reduced optimum %.12Lg + offset %.12g", ob, r.obj, p.offset));
    }
    return fin(nt, nt ? (p.red.n() == 0 ? "solved, certified" : "reduced, certified") : "unchanged");
}
inline Outcome p_large(const Case &k) {
    if (!affordable(k.lp)) {
        for (auto f : {p_wellformed, p_exhaustive, p_stats}) {
            Outcome o = f(k);
            if (o.v == VIOL) return o;
        }
        Outcome o = r_certify(k);
        if (o.v != VIOL || o.cls == "malformed") return o;
        Case q = k;
        q.s.primal_propagation = false;
        if (spread(k.lp) > 50) q.s.dton_eq = q.s.parallel_rows = q.s.parallel_cols = false;
        if (k.s.primal_propagation || spread(k.lp) > 50)
            if (r_certify(q).v != VIOL) return fin(false, "tolerance-edge", INCONC);
        return o;
    }
    Outcome (*fs[])(const Case &) = {p_wellformed, p_optval, p_primal_opt, p_stationarity, p_dualsign, p_complementarity, p_exhaustive, p_stats};
    Outcome first;
    bool inc = false;
    int i = 0;
    for (auto f : fs) {
        Outcome o = f(k);
        if (o.v == VIOL) return o;
        inc |= o.v == INCONC;
        if (i++ == 1) first = o;
    }
    if (inc) first.v = INCONC;
    return first;
}

// ------------------------------------------------------------------ P25
// every call returns; the engine's CPU limit per case is the oracle
inline Outcome p_terminates(const Case &k) {
    Pres p;
    p.go(k.lp, k.s);
    if (!p.p) return viol("null", "new_presolver returned NULL");
    if (!p.hasReduced()) return fin(true, sname(p.status));
    Rng g(k.aux ^ 0x75);
    Triple t = randTriple(p, g);
    p.post(t.x, t.y, t.z);
    return fin(reducedSomething(p, k.lp), sname(p.status));
}

// ------------------------------------------------------------------ P26
// approximately optimal reduced solutions, as iterative solvers deliver them
inline Outcome r_approx(const Case &k) {
    const Tol tol(k.lp);
    Sol o = classify(k.lp);
    if (o.stat != LpStat::OPT) return fin(false, std::string("orig-") + lname(o.stat), o.stat == LpStat::FAIL ? INCONC : OK);
    Pres p;
    p.go(k.lp, k.s);
    if (!p.bad.empty()) return viol("malformed", "reduced problem malformed: " + p.bad);
    if (!p.hasReduced()) return fin(false, "verdict");
    Sol r = solveLP(p.red);
    if (r.stat != LpStat::OPT) return fin(false, "red-not-opt", INCONC);
    Rng g(k.aux ^ 0x76);
    bool nt = reducedSomething(p, k.lp) && p.red.n() > 0;
    for (int t = 0; t < 3; t++) {
        double eps = pow(10, g.uni(-9, -6.5));
        std::vector<double> x = r.x, y = r.y, z = r.z, t2, u2;
        if (t == 1 && altPrimal(p.red, r, g, t2)) {
            double w = g.p(0.5) ? 0 : g.uni();
            for (size_t j = 0; j < x.size(); j++) x[j] = w * x[j] + (1 - w) * t2[j];
        }
        if (t == 2 && altDual(p.red, x, g, t2, u2)) y = t2, z = u2;
        auto noisy = [&](double v, double unit) { return v + eps * g.uni(-1, 1) * (unit + std::min(fabs(v), 1e3)); };
        for (auto &v : x) v = noisy(v, 1);
        for (auto &v : y) v = noisy(v, (double) tol.unit);
        // primal in its bounds, dual signs right, z what is left of the costs
        for (int j = 0; j < p.red.n(); j++) x[j] = std::min(std::max(x[j], p.red.cols[j].lb), p.red.cols[j].ub);
        for (int i = 0; i < p.red.m(); i++) {
            if (y[i] > 0 && std::isinf(p.red.rows[i].l)) y[i] = 0;
            if (y[i] < 0 && std::isinf(p.red.rows[i].r)) y[i] = 0;
        }
        for (int j = 0; j < p.red.n(); j++) z[j] = p.red.cols[j].c;
        for (int i = 0; i < p.red.m(); i++)
            for (auto &e : p.red.rows[i].a) z[e.first] -= e.second * y[i];
        for (int j = 0; j < p.red.n(); j++) {
            if (z[j] > 0 && std::isinf(p.red.cols[j].lb)) z[j] = 0;
            if (z[j] < 0 && std::isinf(p.red.cols[j].ub)) z[j] = 0;
        }
        // huge multipliers turn the noise into a solution that is not even nearly optimal
        if (primalViol(p.red, x) > 1e-5 || statViol(p.red, y, z) > 1e-5 || compViol(p.red, x, y, z) > 1e-5) continue;
        LD rs, ro = objOf(p.red, x, &rs);
        if (fabsl(ro - r.obj) > tol.opt * (tol.ounit + std::max(rs, r.scale))) continue;
        p.post(x, y, z);
        std::vector<double> X = p.X(), Y = p.Y(), Z = p.Z();
        std::string w;
        LD lim = 100, v;
        if ((v = primalViol(k.lp, X, &w)) > lim * tol.pri) return viol("primal", F("noise %.1g: ", eps) + w);
        LD sc, ob = objOf(k.lp, X, &sc);
        if (fabsl(ob - o.obj) > lim * tol.opt * (tol.ounit + std::max(sc, o.scale))) return viol("objective", F("noise %.1g: objective %.12Lg, optimum %.12Lg", eps, ob, o.obj));
        if ((v = statViol(k.lp, Y, Z, &w)) > lim * tol.dua) return viol("stationarity", F("noise %.1g: ", eps) + w);
        if ((v = signViol(k.lp, Y, Z, &w)) > lim * tol.dua) return viol("sign", F("noise %.1g: ", eps) + w);
        if ((v = compViol(k.lp, X, Y, Z, &w)) > lim * tol.dua) return viol("complementarity", F("noise %.1g: ", eps) + w);
    }
    return fin(nt, nt ? "reduced" : p.red.n() ? "unchanged" : "solved");
}
inline Outcome p_approx(const Case &k) { return confirm(k, r_approx); }

// ------------------------------------------------------------------ P24
// verbose off: nothing is written; verbose on: the same results
struct Capture {
    int fd, o1, o2;
    Capture() {
        fflush(stdout);
        fflush(stderr);
        fd = memfd_create("out", 0);
        o1 = dup(1);
        o2 = dup(2);
        dup2(fd, 1);
        dup2(fd, 2);
    }
    std::string end() {
        fflush(stdout);
        fflush(stderr);
        dup2(o1, 1);
        dup2(o2, 2);
        std::string s((size_t) lseek(fd, 0, SEEK_END), 0);
        if (pread(fd, &s[0], s.size(), 0) < 0) s = "";
        close(fd);
        close(o1);
        close(o2);
        return s;
    }
};
inline Outcome p_quiet(const Case &k0) {
    Case k = k0;
    Rng g(k.aux ^ 0x74);
    if (g.p(0.2)) k.s.max_time = 0;
    Bits red[2], st[2], sol[2];
    Triple t;
    std::string out;
    bool nt = false;
    int status = 0;
    for (int v = 0; v < 2; v++) {
        Pres p;
        Capture c;
        k.s.verbose = v;
        p.go(k.lp, k.s);
        if (p.p) {
            red[v] = snapReduced(p);
            st[v] = snapStats(p);
            status = p.status;
            if (p.hasReduced()) {
                if (v == 0) t = goodTriple(p, g);
                if ((size_t) p.red.n() == t.x.size() && (size_t) p.red.m() == t.y.size()) {
                    p.post(t.x, t.y, t.z);
                    sol[v] = snapSol(p);
                }
            }
        }
        p.reset();
        std::string s = c.end();
        if (v == 0) out = s;
    }
    nt = status != UNCHANGED;
    if (!out.empty()) return viol("output", "verbose is off but this was written: " + out.substr(0, 150));
    std::string e = diffBits(red[0], red[1]);
    if (e.empty()) e = diffBits(st[0], st[1]);
    if (e.empty()) e = diffBits(sol[0], sol[1]);
    if (!e.empty()) return viol("verbose", "the verbose setting changes the result: " + e);
    return fin(nt, sname(status));
}

// ------------------------------------------------------------------ P23
// different presolver objects used from different threads at the same time
inline Outcome p_threads(const Case &k) {
    Rng g(k.aux ^ 0x73);
    int nth = g.in(2, 4);
    std::vector<Case> cs{k};
    for (int i = 1; i < nth; i++) cs.push_back(otherCase(k, i));
    struct R {
        Bits red, st, sol;
        Triple t;
    };
    std::vector<R> ref(nth), got(nth);
    bool nt = false;
    for (int i = 0; i < nth; i++) {
        Pres p;
        p.go(cs[i].lp, cs[i].s);
        if (!p.p) return viol("null", "new_presolver returned NULL");
        ref[i].red = snapReduced(p);
        ref[i].st = snapStats(p);
        if (p.hasReduced()) {
            ref[i].t = goodTriple(p, g);
            p.post(ref[i].t.x, ref[i].t.y, ref[i].t.z);
            ref[i].sol = snapSol(p);
            nt |= p.status == REDUCED;
        }
    }
    for (int rep = 0; rep < 3; rep++) {
        std::vector<std::thread> th;
        pthread_barrier_t bar;
        pthread_barrier_init(&bar, nullptr, nth);
        for (int i = 0; i < nth; i++)
            th.emplace_back([&, i] {
                Pres p;
                pthread_barrier_wait(&bar);
                p.go(cs[i].lp, cs[i].s);
                if (!p.p) return;
                got[i].red = snapReduced(p);
                got[i].st = snapStats(p);
                got[i].sol.clear();
                if (p.hasReduced() && (size_t) p.red.n() == ref[i].t.x.size() && (size_t) p.red.m() == ref[i].t.y.size()) {
                    p.post(ref[i].t.x, ref[i].t.y, ref[i].t.z);
                    got[i].sol = snapSol(p);
                }
            });
        for (auto &t : th) t.join();
        pthread_barrier_destroy(&bar);
        for (int i = 0; i < nth; i++) {
            std::string e = diffBits(ref[i].red, got[i].red);
            if (e.empty()) e = diffBits(ref[i].st, got[i].st);
            if (e.empty()) e = diffBits(ref[i].sol, got[i].sol);
            if (!e.empty()) return viol("threads", F("with %d threads, thread %d computes something else than alone: ", nth, i) + e);
        }
    }
    return fin(nt, F("%d threads", nth));
}
