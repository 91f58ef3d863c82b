// P33: what presolve does does not depend on the unit of the objective.
#pragma once
#include "props5.hpp"

inline double scaled2(double v, int e) { return std::isinf(v) ? v : ldexp(v, e); }
inline Outcome r_objunit(const Case &k) {
    Case q = k;
    Rng g(k.aux ^ 0x33);
    int e = g.p(0.5) ? -g.in(1, 30) : g.in(1, 12);
    for (auto &c : q.lp.cols) c.c = ldexp(c.c, e);
    Pres a, b;
    a.go(k.lp, k.s);
    b.go(q.lp, q.s);
    if (!a.bad.empty()) return viol("malformed", a.bad);
    if (!b.bad.empty()) return viol("malformed", b.bad);
    auto w = [&](const std::string &s) { return viol("differs", F("with the objective in another unit (factor 2^%d) ", e) + s); };
    if (a.status != b.status) return w(F("the status is %s instead of %s", sname(b.status), sname(a.status)));
    if (!a.hasReduced()) return fin(true, "verdict");
    const LP &A = a.red, &B = b.red;
    if (A.m() != B.m() || A.n() != B.n() || A.nnz() != B.nnz()) return w(F("the reduced problem has %d rows, %d columns, %zu nonzeros instead of %d, %d, %zu", B.m(), B.n(), B.nnz(), A.m(), A.n(), A.nnz()));
    if (ldexp(a.offset, e) != b.offset) return w(F("the offset is %.17g instead of %.17g", b.offset, ldexp(a.offset, e)));
    for (int j = 0; j < A.n(); j++) {
        if (A.cols[j].lb != B.cols[j].lb || A.cols[j].ub != B.cols[j].ub) return w(F("the bounds of column %d differ", j));
        if (ldexp(A.cols[j].c, e) != B.cols[j].c) return w(F("the cost of column %d is %.17g instead of %.17g", j, B.cols[j].c, ldexp(A.cols[j].c, e)));
    }
    for (int i = 0; i < A.m(); i++) {
        if (A.rows[i].l != B.rows[i].l || A.rows[i].r != B.rows[i].r) return w(F("the sides of row %d differ", i));
        if (A.rows[i].a != B.rows[i].a) return w(F("the coefficients of row %d differ", i));
    }
    Triple t = randTriple(a, g);
    std::vector<double> y2 = t.y, z2 = t.z;
    for (auto &v : y2) v = ldexp(v, e);
    for (auto &v : z2) v = ldexp(v, e);
    a.post(t.x, t.y, t.z);
    b.post(t.x, y2, z2);
    std::vector<double> X = a.X(), Y = a.Y(), Z = a.Z(), X2 = b.X(), Y2 = b.Y(), Z2 = b.Z();
    for (size_t j = 0; j < X.size(); j++) {
        if (X[j] != X2[j]) return w(F("x[%zu] is recovered as %.17g instead of %.17g", j, X2[j], X[j]));
        if (ldexp(Z[j], e) != Z2[j]) return w(F("z[%zu] is recovered as %.17g instead of %.17g", j, Z2[j], ldexp(Z[j], e)));
    }
    for (size_t i = 0; i < Y.size(); i++)
        if (ldexp(Y[i], e) != Y2[i]) return w(F("y[%zu] is recovered as %.17g instead of %.17g", i, Y2[i], ldexp(Y[i], e)));
    return fin(reducedSomething(a, k.lp), "same");
}
inline Outcome p_objunit(const Case &k) { return r_objunit(k); }

