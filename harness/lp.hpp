// Basic types: LP in row-list form, settings, test case, RNG, text serialisation.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

static const double INFV = INFINITY;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int in(int lo, int hi) { // inclusive
        if (hi <= lo) return lo;
        return lo + (int) (next() % (uint64_t) (hi - lo + 1));
    }
    bool p(double prob) { return uni() < prob; }
    double uni() { return (double) (next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * uni(); }
    int sgn() { return (next() & 1) ? 1 : -1; }
    template <class V> auto &pick(V &v) { return v[(size_t) in(0, (int) v.size() - 1)]; }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

struct Row {
    std::vector<std::pair<int, double>> a; // sorted by column, no zeros
    double l = -INFV, r = INFV;
};
struct Col {
    double lb = 0, ub = INFV, c = 0;
};
struct LP {
    std::vector<Row> rows;
    std::vector<Col> cols;
    std::vector<double> hx, hy; // an optimal pair that the generator claims to know (checked before use), or nothing
    int m() const { return (int) rows.size(); }
    int n() const { return (int) cols.size(); }
    size_t nnz() const {
        size_t k = 0;
        for (auto &r : rows) k += r.a.size();
        return k;
    }
};

struct CSR {
    std::vector<double> Ax, lhs, rhs, lb, ub, c;
    std::vector<int> Ai, Ap;
    size_t m = 0, n = 0, nnz = 0;
    explicit CSR(const LP &lp) {
        m = lp.rows.size();
        n = lp.cols.size();
        Ap.push_back(0);
        for (auto &r : lp.rows) {
            for (auto &e : r.a) {
                Ai.push_back(e.first);
                Ax.push_back(e.second);
            }
            Ap.push_back((int) Ai.size());
            lhs.push_back(r.l);
            rhs.push_back(r.r);
        }
        for (auto &cc : lp.cols) {
            lb.push_back(cc.lb);
            ub.push_back(cc.ub);
            c.push_back(cc.c);
        }
        nnz = Ax.size();
    }
};

struct Stg {
    bool ston_cols = true, dton_eq = true, parallel_rows = true, parallel_cols = true,
         primal_propagation = true, finite_bt = true, dual_fix = true, relax = true,
         verbose = false;
    int max_shift = 10;
    double max_time = 1e6;
    std::string str() const {
        char b[200];
        snprintf(b, sizeof b, "%d %d %d %d %d %d %d %d %d %d %a", ston_cols, dton_eq,
                 parallel_rows, parallel_cols, primal_propagation, finite_bt, dual_fix,
                 relax, verbose, max_shift, max_time);
        return b;
    }
};

struct Case {
    LP lp;
    Stg s;
    uint64_t aux = 0;    // seed for the property's own random choices
    std::string label;   // generator class
    int npart = 0;       // number of independent blocks (0 = unknown)
};

inline std::string hexd(double v) {
    if (std::isinf(v)) return v > 0 ? "inf" : "-inf";
    if (std::isnan(v)) return "nan";
    char b[64];
    if (v == (double) (long long) v && std::fabs(v) < 1e15)
        snprintf(b, sizeof b, "%lld", (long long) v);
    else
        snprintf(b, sizeof b, "%a", v);
    return b;
}

inline std::string serialize(const Case &k) {
    std::ostringstream o;
    o << "PSLPCASE 1\n";
    o << "label " << (k.label.empty() ? "-" : k.label) << "\n";
    o << "aux " << k.aux << "\n";
    o << "settings " << k.s.str() << "\n";
    o << "dims " << k.lp.m() << " " << k.lp.n() << "\n";
    for (auto &c : k.lp.cols)
        o << "col " << hexd(c.lb) << " " << hexd(c.ub) << " " << hexd(c.c) << "\n";
    for (auto &r : k.lp.rows) {
        o << "row " << hexd(r.l) << " " << hexd(r.r) << " " << r.a.size();
        for (auto &e : r.a) o << " " << e.first << " " << hexd(e.second);
        o << "\n";
    }
    if (k.lp.m() + k.lp.n() > 200 && (int) k.lp.hx.size() == k.lp.n() && (int) k.lp.hy.size() == k.lp.m()) {
        o << "known";
        for (double v : k.lp.hx) o << " " << hexd(v);
        for (double v : k.lp.hy) o << " " << hexd(v);
        o << "\n";
    }
    o << "end\n";
    return o.str();
}

inline bool deserialize(std::istream &in, Case &k) {
    std::string w, t;
    int ver;
    if (!(in >> w >> ver) || w != "PSLPCASE") return false;
    auto num = [&]() {
        std::string s;
        in >> s;
        return strtod(s.c_str(), nullptr);
    };
    in >> w >> k.label;
    in >> w >> k.aux;
    in >> w;
    int b[9];
    for (int i = 0; i < 9; i++) in >> b[i];
    k.s.ston_cols = b[0]; k.s.dton_eq = b[1]; k.s.parallel_rows = b[2];
    k.s.parallel_cols = b[3]; k.s.primal_propagation = b[4]; k.s.finite_bt = b[5];
    k.s.dual_fix = b[6]; k.s.relax = b[7]; k.s.verbose = b[8];
    in >> k.s.max_shift;
    k.s.max_time = num();
    int m, n;
    in >> w >> m >> n;
    k.lp.cols.resize(n);
    k.lp.rows.resize(m);
    for (auto &c : k.lp.cols) {
        in >> w;
        c.lb = num(); c.ub = num(); c.c = num();
    }
    for (auto &r : k.lp.rows) {
        size_t len;
        in >> w;
        r.l = num(); r.r = num();
        in >> len;
        r.a.resize(len);
        for (auto &e : r.a) {
            in >> e.first;
            e.second = num();
        }
    }
    in >> w;
    if (w == "known") {
        k.lp.hx.resize(n);
        k.lp.hy.resize(m);
        for (auto &v : k.lp.hx) v = num();
        for (auto &v : k.lp.hy) v = num();
        in >> w;
    }
    return w == "end";
}

inline uint64_t case_hash(const Case &k) {
    std::string s = serialize(k);
    // label and aux do not make a case different as an input
    size_t p = s.find("settings");
    uint64_t h = 1469598103934665603ull;
    for (size_t i = p; i < s.size(); i++) h = (h ^ (unsigned char) s[i]) * 1099511628211ull;
    return h;
}

inline std::string human(const Case &k) {
    std::ostringstream o;
    auto num = [&](double v) {
        char b[40];
        snprintf(b, sizeof b, "%.12g", v);
        return std::string(b);
    };
    o << "settings{ston_cols=" << k.s.ston_cols << " dton_eq=" << k.s.dton_eq
      << " par_rows=" << k.s.parallel_rows << " par_cols=" << k.s.parallel_cols
      << " prop=" << k.s.primal_propagation << " fbt=" << k.s.finite_bt
      << " dual_fix=" << k.s.dual_fix << " relax=" << k.s.relax
      << " max_shift=" << k.s.max_shift << " max_time=" << k.s.max_time << "} min";
    for (int j = 0; j < k.lp.n(); j++)
        if (k.lp.cols[j].c != 0) o << " " << (k.lp.cols[j].c > 0 ? "+" : "") << num(k.lp.cols[j].c) << "x" << j;
    o << " s.t.";
    for (auto &r : k.lp.rows) {
        o << " [" << num(r.l) << " <=";
        for (auto &e : r.a) o << " " << (e.second > 0 ? "+" : "") << num(e.second) << "x" << e.first;
        o << " <= " << num(r.r) << "]";
    }
    o << " bounds";
    for (int j = 0; j < k.lp.n(); j++)
        o << " x" << j << " in [" << num(k.lp.cols[j].lb) << "," << num(k.lp.cols[j].ub) << "]";
    return o.str();
}
