// The engine: generates cases, runs one property over them in forked workers,
// shrinks and replays what fails, writes the evidence file.
#include "props6.hpp"
#include <csignal>
#include <chrono>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

// ------------------------------------------------------------ property table
struct Prop {
    const char *id;
    Outcome (*f)(const Case &);
    Case (*gen)(Rng &, bool thorough);
    long nQuick, nThorough;
    int cpu; // CPU seconds one case may take
    bool flaky; // schedule dependent
    const char *rule;
};
static bool blockOk(const LP &q, std::vector<double> &x) {
    Sol s = solveLP(q);
    x = s.x;
    return s.stat == LpStat::OPT;
}
static Case gDefault(Rng &g, bool thorough) {
    if (g.p(thorough ? 0.02 : 0.01)) {
        Case k;
        k.lp = genBlocks(g, g.in(2, thorough ? 40 : 15), k.label, blockOk, g.p(0.5) ? g.in(1, 5) : 0);
        k.s = genSettings(g);
        k.aux = g.next();
        return k;
    }
    return genCase(g);
}
static Case gSpoiled(Rng &g, bool) { // many infeasible and unbounded LPs
    Case k;
    GenOpt o;
    o.pSpoil = 0.75;
    int w = g.in(0, 9);
    if (w < 4) { o.maxN0 = 4; o.maxM0 = 3; o.maxDeco = 4; }
    else if (w == 9) { o.maxN0 = 12; o.maxM0 = 10; o.maxDeco = 12; }
    if (g.p(0.1)) o.pmOnly = true;
    k.lp = genSmall(g, o, k.label);
    k.s = genSettings(g);
    if (o.pmOnly) k.s.dton_eq = false;
    else if (g.p(0.06)) unusual(k.lp, g, k.label);
    k.aux = g.next();
    return k;
}
static Case gMixed(Rng &g, bool t) { return g.p(0.5) ? gSpoiled(g, t) : gDefault(g, t); }
static Case gLarge(Rng &g, bool thorough) {
    Case k;
    double w = g.uni();
    if (w < 0.06) {
        k.lp = genCounts(g, thorough || g.p(0.03), k.label);
        k.s = genSettings(g);
        if (g.p(0.5)) k.s = Stg();
        k.aux = g.next();
        return k;
    }
    if (w > 0.6) {
        bool giant = w > 0.98;
        k.lp = genLong(g, giant ? g.in(1500, thorough ? 30000 : 6000) : g.in(30, thorough ? 400 : 150), k.label);
        if (giant) k.label += "/giant";
        k.s = genSettings(g);
        if (g.p(0.5)) k.s = Stg();
        k.aux = g.next();
        return k;
    }
    bool link = g.p(0.4);
    int nb = link ? g.in(4, thorough ? 40 : 16) : g.in(30, thorough ? 400 : 120);
    k.lp = genBlocks(g, nb, k.label, g.p(0.05) ? nullptr : blockOk, link ? g.in(1, nb) : 0);
    k.s = genSettings(g);
    if (g.p(0.5)) k.s = Stg();
    k.aux = g.next();
    return k;
}
static Case gOff(Rng &g, bool t) { // many stages off
    Case k = gDefault(g, t);
    if (g.p(0.7)) {
        bool *f[] = {&k.s.ston_cols, &k.s.dton_eq, &k.s.parallel_rows, &k.s.parallel_cols, &k.s.primal_propagation, &k.s.finite_bt, &k.s.dual_fix, &k.s.relax};
        double p = g.uni();
        for (auto q : f) *q = g.p(0.5 * p);
    }
    return k;
}
// cycles of rows through which bounds can tighten each other for ever
static Case gLoops(Rng &g, bool thorough) {
    if (g.p(0.01)) return gLarge(g, thorough);
    Case k = g.p(0.3) ? gMixed(g, thorough) : Case();
    if (k.label.empty()) {
        GenOpt o;
        o.maxN0 = 6; o.maxM0 = 3; o.maxDeco = 3;
        k.lp = genSmall(g, o, k.label);
        k.s = g.p(0.6) ? Stg() : genSettings(g);
        k.aux = g.next();
    }
    LP &lp = k.lp;
    int loops = g.in(1, 3);
    for (int l = 0; l < loops && lp.n() > 1; l++) {
        int len = g.in(2, std::min(5, lp.n()));
        std::vector<int> c(lp.n());
        for (int j = 0; j < lp.n(); j++) c[j] = j;
        for (int j = 0; j < len; j++) std::swap(c[j], c[g.in(j, lp.n() - 1)]);
        static const double al[] = {0.5, 0.9, 0.99, 0.999, 0.99999, 0.9999999, 1, 1.001, 2};
        double a = al[g.in(0, 8)], big = pow(10, g.in(0, 9));
        for (int j = 0; j < len; j++) {
            Col &q = lp.cols[c[j]];
            if (g.p(0.7)) q.lb = g.p(0.5) ? 0 : -big;
            if (g.p(0.7)) q.ub = big * g.in(1, 3);
            if (q.lb > q.ub) q.ub = q.lb + big;
            Row r;
            int u = c[j], v = c[(j + 1) % len];
            double s = g.p(0.85) ? 1 : -1;
            r.a = {{u, 1.0}, {v, -s * a}};
            if (g.p(0.2) && lp.n() > len) r.a.push_back({c[len], g.p(0.5) ? 1.0 : -1.0});
            std::sort(r.a.begin(), r.a.end());
            r.r = g.p(0.5) ? 0 : g.in(-3, 3) * g.uni();
            if (g.p(0.1)) r.l = r.r - g.in(0, 5);
            if (g.p(0.15)) { double t = r.l; r.l = -r.r; r.r = -t; for (auto &e : r.a) e.second = -e.second; }
            if (g.p(0.3)) { double f = pow(2, g.in(-6, 6)); for (auto &e : r.a) e.second *= f; r.l *= f; r.r *= f; }
            lp.rows.push_back(r);
        }
    }
    k.label += "/loops";
    return k;
}
static Case gFault(Rng &g, bool t) { // sometimes with lists longer than their initial room
    Case k;
    GenOpt o;
    o.maxN0 = 5; o.maxM0 = 4; o.maxDeco = 4;
    k.lp = genSmall(g, o, k.label);
    k.s = genSettings(g);
    k.aux = g.next();
    if (g.p(t ? 0.1 : 0.06)) {
        int what = g.in(0, 4), len = g.p(0.15) ? g.in(1001, 1100) : g.in(40, 260), n = k.lp.n();
        k.label += "/long" + std::to_string(what);
        for (int i = 0; i < len; i++) {
            Row r;
            r.l = -g.in(0, 9);
            r.r = g.in(0, 9);
            if (what == 0 && n) r.a = {{g.in(0, n - 1), 1}};
            if (what == 1 && n > 1) { int j = g.in(0, n - 2); r.a = {{j, 1}, {g.in(j + 1, n - 1), -1}}; r.l = r.r; }
            if (what == 2) k.lp.rows.push_back(r); // empty
            else if (what < 2) k.lp.rows.push_back(r);
            else {
                Col c;
                c.lb = 0; c.ub = g.in(1, 9); c.c = g.in(-3, 3);
                k.lp.cols.push_back(c);
                if (what == 4 && k.lp.m()) k.lp.rows[g.in(0, k.lp.m() - 1)].a.push_back({k.lp.n() - 1, 1.0});
            }
        }
    }
    return k;
}
static Case gMem(Rng &g, bool t) { // sometimes large enough for every list to grow
    if (!g.p(0.0015)) return gMixed(g, t);
    Case k;
    k.lp = genLong(g, g.in(60, t ? 4000 : 1500), k.label);
    k.s = g.p(0.6) ? Stg() : genSettings(g);
    k.aux = g.next();
    return k;
}
static Case gTiny(Rng &g, bool) {
    Case k;
    GenOpt o;
    o.maxN0 = 5; o.maxM0 = 4; o.maxDeco = 4;
    k.lp = genSmall(g, o, k.label);
    k.s = genSettings(g);
    k.aux = g.next();
    return k;
}
// LPs of which the trivial reductions take a lot
static Case gTrivial(Rng &g, bool t) {
    if (g.p(0.03)) {
        Case k;
        k.lp = genLong(g, g.in(4, t ? 300 : 60), k.label);
        k.aux = g.next();
        return k;
    }
    Case k = gMixed(g, t);
    LP &lp = k.lp;
    if (!lp.n() || g.p(0.3)) return k;
    k.label += "/unravel";
    std::vector<double> x(lp.n());
    for (int j = 0; j < lp.n(); j++) { // some point that the additions respect (mostly)
        const Col &c = lp.cols[j];
        double lo = std::isinf(c.lb) ? (std::isinf(c.ub) ? -3 : c.ub - 4) : c.lb, hi = std::isinf(c.ub) ? lo + 5 : c.ub;
        x[j] = g.p(0.5) ? lo : g.p(0.5) ? hi : lo + std::floor(g.uni() * (hi - lo));
    }
    int what = g.in(1, 6);
    for (int d = 0; d < what; d++) {
        double a = g.sgn() * (g.p(0.6) ? 1 : g.in(1, 4) * (g.p(0.3) ? 0.5 : 1));
        int j = g.in(0, lp.n() - 1), w = g.in(0, 5);
        if (w == 0) { // singleton row
            Row r;
            r.a = {{j, a}};
            if (g.p(0.4)) r.l = r.r = a * x[j];
            else {
                if (g.p(0.7)) r.l = a * x[j] - g.in(0, 3);
                if (g.p(0.7)) r.r = a * x[j] + g.in(0, 3);
            }
            if (g.p(0.03)) r.l += 9, r.r += 9;
            lp.rows.push_back(r);
        } else if (w <= 2) { // a chain of new columns that hangs on column j
            int len = g.in(1, 6);
            for (int i = 0; i < len; i++) {
                Col c;
                c.c = g.p(0.4) ? 0 : g.in(-3, 3);
                double v = g.in(-5, 5);
                c.lb = g.p(0.3) ? -INFV : v - g.in(0, 3);
                c.ub = g.p(0.3) ? INFV : v + g.in(0, 3);
                lp.cols.push_back(c);
                x.push_back(v);
                Row r;
                double b = g.sgn() * g.in(1, 2);
                r.a = {{j, a}, {lp.n() - 1, b}};
                if (g.p(0.3)) { int o = g.in(0, lp.n() - 2); if (o != j) r.a.push_back({o, 1.0}); std::sort(r.a.begin(), r.a.end()); }
                double s = 0;
                for (auto &e : r.a) s += e.second * x[e.first];
                int q = g.in(0, 3);
                if (q != 1) r.l = s - (q == 0 ? 0 : g.in(0, 4));
                if (q != 2) r.r = s + (q == 0 ? 0 : g.in(0, 4));
                lp.rows.push_back(r);
                if (g.p(0.8)) j = lp.n() - 1;
            }
        } else if (w == 3) { // pin it
            lp.cols[j].lb = lp.cols[j].ub = x[j];
        } else if (w == 4) { // a scaled copy of a row
            if (!lp.m()) continue;
            Row r = lp.rows[g.in(0, lp.m() - 1)];
            double f = g.p(0.5) ? 2 : g.p(0.5) ? 4 : 0.5;
            for (auto &e : r.a) e.second *= f * (a < 0 ? -1 : 1);
            double l = r.l * f - g.in(0, 2), u = r.r * f + g.in(0, 2);
            r.l = a < 0 ? -u : l;
            r.r = a < 0 ? -l : u;
            lp.rows.push_back(r);
        } else { // an empty row or column
            Row r;
            if (g.p(0.5)) r.l = -g.in(0, 2), r.r = g.in(0, 2), lp.rows.push_back(r);
            else { Col c; c.lb = g.in(-3, 0); c.ub = g.in(0, 3); c.c = g.in(-2, 2); lp.cols.push_back(c); x.push_back(c.lb); }
        }
    }
    return k;
}
#define RULE_GEN "random structured LPs (core plus decorations aimed at each reduction) with random settings; "
static Prop props[] = {
    {"P01", p_optval, gDefault, 400000, 6000000, 20, false, RULE_GEN "non-trivial: the LP has an optimum and presolve removed rows, columns or nonzeros, so that reduced optimum + offset is compared to the reference optimum of the original"},
    {"P02", p_infeas_sound, gMixed, 500000, 8000000, 20, false, RULE_GEN "half of them spoiled towards infeasibility; non-trivial: run_presolver returned INFEASIBLE and the reference solver judged the original"},
    {"P03", p_unb_sound, gMixed, 500000, 8000000, 20, false, RULE_GEN "half of them spoiled towards unboundedness; non-trivial: run_presolver returned UNBNDORINFEAS and the reference solver judged the original"},
    {"P04", p_hard_preserved, gSpoiled, 500000, 8000000, 20, false, RULE_GEN "three quarters spoiled; non-trivial: the original is infeasible or unbounded and presolve reached a verdict or reduced it"},
    {"P05", p_primal_opt, gDefault, 300000, 5000000, 20, false, RULE_GEN "non-trivial: the LP has an optimum and presolve reduced it; up to three optimal reduced points (vertex, other optimal vertex, mixture) are postsolved"},
    {"P06", p_primal_any, gDefault, 250000, 4000000, 20, false, RULE_GEN "non-trivial: presolve reduced the LP; up to six feasible (not optimal) reduced points are postsolved"},
    {"P07", p_stationarity, gDefault, 250000, 4000000, 20, false, RULE_GEN "non-trivial: the LP has an optimum and presolve reduced it; up to four optimal reduced primal-dual pairs (degenerate alternatives) are postsolved"},
    {"P08", p_dualsign, gDefault, 250000, 4000000, 20, false, RULE_GEN "non-trivial: as P07"},
    {"P09", p_complementarity, gDefault, 250000, 4000000, 20, false, RULE_GEN "non-trivial: as P07"},
    {"P10", p_wellformed, gMixed, 700000, 10000000, 20, false, RULE_GEN "non-trivial: status REDUCED with columns left"},
    {"P11", p_inputs, gMixed, 300000, 4000000, 20, false, RULE_GEN "non-trivial: presolve reduced the LP or reached a verdict, both with the caller's arrays intact and with them overwritten after new_presolver"},
    {"P12", p_histories, gMixed, 80000, 1200000, 60, false, RULE_GEN "random interleavings of new/run/postsolve/free over 2-4 presolver objects on a poisoned heap against isolated runs; non-trivial: some object was reduced"},
    {"P13", p_postsolve_repeat, gDefault, 120000, 2000000, 40, false, RULE_GEN "4-9 postsolve calls with 2-4 solutions on one presolver against fresh presolvers; non-trivial: presolve reduced the LP"},
    {"P14", p_memory, gMem, 120000, 2000000, 60, false, RULE_GEN "random API histories under ASan+UBSan on exact-size poisoned buffers, with live-allocation accounting; non-trivial: presolve changed the LP or reached a verdict"},
    {"P15", p_timelimit, gDefault, 150000, 2000000, 20, false, RULE_GEN "with max_time from 0 to 100 us; non-trivial: the limit really cut the reduction short (result differs from the unlimited run)"},
    {"P16", p_faults, gFault, 6000, 60000, 120, false, RULE_GEN "every allocation of new_presolver (both threads) and the thread creation fail in turn; non-trivial: at least one fault was injected"},
    {"P17", p_feasset, gDefault, 250000, 4000000, 20, false, RULE_GEN "with the dual reductions off; non-trivial: presolve reduced an LP with feasible points (up to six, at random vertices and inside)"},
    {"P18", p_exhaustive, gMixed, 600000, 8000000, 20, false, RULE_GEN "non-trivial: the LP had empty or singleton rows or empty columns, or was reduced"},
    {"P19", p_settings, gOff, 500000, 6000000, 20, false, RULE_GEN "with many stages off; non-trivial: presolve reduced the LP"},
    {"P20", p_stats, gMixed, 500000, 6000000, 20, false, RULE_GEN "non-trivial: presolve reduced the LP"},
    {"P21", p_compose, gDefault, 150000, 2500000, 30, false, RULE_GEN "reduced problems are presolved again, two or three levels, and postsolved back; non-trivial: the LP has an optimum and the first level reduced it"},
    {"P22", p_large, gLarge, 4000, 60000, 300, false, "unions of 30-120 (thorough: 30-400) structured LPs, or of 4-16 (thorough: 4-40) tied together by linking rows, with rows and columns shuffled; one structure repeated 30-150 (thorough: 400) times, and sometimes 1500-6000 (thorough: 30000) times, where the postsolved pair is judged by its own optimality certificate; rows and columns with 128-65536 entries, infinite bounds or locks of one kind, with a known optimal pair; non-trivial: the LP has an optimum and presolve reduced it"},
    {"P25", p_terminates, gLoops, 300000, 5000000, 10, false, RULE_GEN "plus cycles of rows through which bounds tighten each other (factors 0.5 to 2, bounds up to 3e9); every call must return within 10 s of CPU time (typical: well below 1 ms); non-trivial: presolve reduced the LP or reached a verdict"},
    {"P26", p_approx, gDefault, 200000, 3000000, 20, false, RULE_GEN "optimal reduced primal-dual pairs with relative noise of 1e-9 to 3e-7 are postsolved; non-trivial: the LP has an optimum, presolve reduced it and left columns"},
    {"P24", p_quiet, gMixed, 200000, 3000000, 20, false, RULE_GEN "half of them spoiled; all calls once with verbose off and once on, with standard output and error captured; non-trivial: presolve changed the LP or reached a verdict"},
    {"P27", p_debug, gMixed, 700000, 12000000, 30, false, RULE_GEN "half of them spoiled, presolved and postsolved with exactly optimal pairs by a debug build (assertions and PSLP's consistency checks on); non-trivial: presolve reduced the LP or reached a verdict"},
    {"P28", p_relax, gDefault, 250000, 4000000, 20, false, RULE_GEN "presolved with and without relax_bounds; non-trivial: relax_bounds dropped a bound"},
    {"P29", p_targets, gDefault, 500000, 8000000, 20, false, RULE_GEN "after the trivial reductions exactly one stage is on; non-trivial: the LP had targets of that stage"},
    {"P30", p_sight, gSpoiled, 800000, 12000000, 20, false, RULE_GEN "three quarters spoiled; non-trivial: the LP has a contradiction or a ray that is visible at sight"},
    {"P31", p_trivial, gTrivial, 1200000, 15000000, 20, false, RULE_GEN "plus singleton rows, chains that unravel, pinned columns, scaled copies of rows; everything off except, each in a third of the cases, dual_fix and parallel_rows; non-trivial: presolve reduced the LP or reached the verdict of the reference"},
    {"P32", p_dualbound, gDefault, 250000, 4000000, 20, false, RULE_GEN "non-trivial: presolve reduced the LP and the reduced LP has a dual feasible solution; up to three of them are postsolved"},
    {"P33", p_objunit, gMixed, 400000, 6000000, 20, false, RULE_GEN "half of them spoiled; the objective once more in another unit (a power of two from 2^-30 to 2^12); non-trivial: presolve reduced the LP or reached a verdict"},
    {"P23", p_threads, gTiny, 4000, 60000, 60, true, RULE_GEN "2-4 different presolver objects in as many threads under ThreadSanitizer, three repetitions, compared with sequential runs; non-trivial: some object was reduced"},
};

// ------------------------------------------------------------ evaluation in a child
static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
struct Shared {
    volatile long idx, evals, nontriv, inconc, nhash;
    volatile double started;
    volatile int violated; // 1 property, 2 crash/hang
    volatile long vidx[8];
    volatile int nv;
    char note[200];
};
enum { EX_HANG = 97, EX_SLOW = 98 };
static void onProf(int) { _exit(hk::inApi() ? EX_HANG : EX_SLOW); }
static void armCpu(int sec) {
    struct itimerval t;
    memset(&t, 0, sizeof t);
    t.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &t, nullptr);
}
static std::string tmpd;
static std::string sanLine(const std::string &file) {
    std::ifstream f(file);
    std::string l, best;
    while (std::getline(f, l)) {
        if (l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("WARNING: ThreadSanitizer") != std::string::npos) {
            best = l;
            for (int i = 0; i < 12 && std::getline(f, l); i++)
                if (l.find("/src/") != std::string::npos) { best += " | " + l; break; }
            break;
        }
        if (best.empty() && l.size() > 3) best = l;
    }
    return best.substr(0, 400);
}
static void quiet(const std::string &errfile) {
    int dn = open("/dev/null", O_RDWR);
    dup2(dn, 0);
    dup2(dn, 1);
    int e = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(e, 2);
    close(e);
    close(dn);
    struct rlimit r = {0, 0};
    setrlimit(RLIMIT_CORE, &r);
}
struct Eval {
    bool bad = false;
    std::string msg;
};
static std::string exitMsg(int st, const std::string &err, const char *note) {
    std::string m;
    if (WIFSIGNALED(st)) m = std::string("killed by signal ") + strsignal(WTERMSIG(st));
    else if (WEXITSTATUS(st) == EX_HANG) m = "an API call did not return within its CPU limit";
    else m = "aborted with exit code " + std::to_string(WEXITSTATUS(st));
    std::string s = sanLine(err);
    if (!s.empty()) m += ": " + s;
    if (note && *note) m += std::string(" [") + note + "]";
    return m;
}
static Eval evalChild(const Prop &P, const Case &k, double wall = 0) {
    static int ctr = 0;
    int pip[2];
    Eval r;
    if (pipe(pip)) return r;
    std::string err = tmpd + "/ev." + std::to_string(ctr++ % 4);
    static char *note = (char *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    note[0] = 0;
    pid_t pid = fork();
    if (pid == 0) {
        close(pip[0]);
        quiet(err);
        signal(SIGPROF, onProf);
        hk::noteBuf = note;
        armCpu(P.cpu);
        alarm(wall > 0 ? (unsigned) wall : (unsigned) (P.cpu * 6 + 30));
        Outcome o = P.f(k);
        std::string s = (o.v == VIOL ? "V" : "O") + o.cls + ": " + o.msg;
        if (write(pip[1], s.data(), s.size()) < 0) _exit(1);
        _exit(0);
    }
    close(pip[1]);
    std::string s;
    char b[1024];
    ssize_t n;
    while ((n = read(pip[0], b, sizeof b)) > 0) s.append(b, (size_t) n);
    close(pip[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        if (!s.empty() && s[0] == 'V') { r.bad = true; r.msg = s.substr(1); }
        return r;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == EX_SLOW) return r;
    r.bad = true;
    r.msg = exitMsg(st, err, note);
    return r;
}

// ------------------------------------------------------------ shrinking
static LP dropRows(const LP &a, const std::vector<char> &d) {
    LP q;
    q.cols = a.cols;
    for (int i = 0; i < a.m(); i++)
        if (!d[i]) q.rows.push_back(a.rows[i]);
    return q;
}
static LP dropCols(const LP &a, const std::vector<char> &d) {
    LP q;
    std::vector<int> mp(a.n(), -1);
    for (int j = 0; j < a.n(); j++)
        if (!d[j]) { mp[j] = q.n(); q.cols.push_back(a.cols[j]); }
    for (auto &r : a.rows) {
        Row R;
        R.l = r.l;
        R.r = r.r;
        for (auto &e : r.a)
            if (mp[e.first] >= 0) R.a.push_back({mp[e.first], e.second});
        q.rows.push_back(R);
    }
    return q;
}
static Case shrink(const Prop &P, Case k, double budget) {
    double end = now() + budget;
    long evals = 0;
    auto bad = [&](const Case &c) {
        if (now() > end || evals > 4000) return false;
        evals++;
        return evalChild(P, c, 30).bad;
    };
    bool progress = true;
    auto tryLP = [&](const LP &q) {
        Case c = k;
        c.lp = q;
        if (bad(c)) { k = c; progress = true; return true; }
        return false;
    };
    while (progress && now() < end) {
        progress = false;
        for (int dim = 0; dim < 2; dim++) {
            auto sz = [&] { return dim ? k.lp.n() : k.lp.m(); };
            for (int ch = std::max(1, sz() / 2); ch >= 1; ch /= 2)
                for (int i = 0; i < sz() && now() < end;) {
                    std::vector<char> d(sz(), 0);
                    int left = sz();
                    for (int t = i; t < std::min(sz(), i + ch); t++) d[t] = 1, left--;
                    if (dim && left == 0) break;
                    LP q = dim ? dropCols(k.lp, d) : dropRows(k.lp, d);
                    if (!tryLP(q)) i += ch;
                }
        }
        if (k.lp.nnz() < 400) {
            for (int i = 0; i < k.lp.m(); i++)
                for (size_t t = 0; t < k.lp.rows[i].a.size();) {
                    LP q = k.lp;
                    q.rows[i].a.erase(q.rows[i].a.begin() + (long) t);
                    if (!tryLP(q)) t++;
                }
            Stg d;
            bool *a[] = {&k.s.ston_cols, &k.s.dton_eq, &k.s.parallel_rows, &k.s.parallel_cols, &k.s.primal_propagation, &k.s.finite_bt, &k.s.dual_fix, &k.s.relax};
            for (auto p : a)
                if (*p) {
                    *p = false;
                    if (bad(k)) progress = true;
                    else *p = true;
                }
            if (k.s.max_shift != 10) { Case c = k; c.s.max_shift = 10; if (bad(c)) { k = c; progress = true; } }
            for (int j = 0; j < k.lp.n(); j++) {
                auto tryc = [&](double lb, double ub, double c) {
                    Col &o = k.lp.cols[j];
                    if (o.lb == lb && o.ub == ub && o.c == c) return;
                    LP q = k.lp;
                    q.cols[j].lb = lb; q.cols[j].ub = ub; q.cols[j].c = c;
                    tryLP(q);
                };
                tryc(k.lp.cols[j].lb, k.lp.cols[j].ub, 0);
                tryc(-INFV, k.lp.cols[j].ub, k.lp.cols[j].c);
                tryc(k.lp.cols[j].lb, INFV, k.lp.cols[j].c);
                if (k.lp.cols[j].lb <= 0 && k.lp.cols[j].lb > -INFV && k.lp.cols[j].ub >= 0) tryc(0, k.lp.cols[j].ub, k.lp.cols[j].c);
                double c = k.lp.cols[j].c;
                if (c != 0) tryc(k.lp.cols[j].lb, k.lp.cols[j].ub, c > 0 ? 1 : -1);
            }
            for (int i = 0; i < k.lp.m(); i++) {
                Row r = k.lp.rows[i];
                if (r.l != r.r) {
                    LP q = k.lp;
                    if (!std::isinf(r.l)) { q.rows[i].l = -INFV; if (!tryLP(q)) q.rows[i].l = r.l; }
                    if (!std::isinf(r.r)) { q.rows[i].r = INFV; tryLP(q); }
                }
                for (size_t t = 0; t < k.lp.rows[i].a.size(); t++) {
                    double v = k.lp.rows[i].a[t].second;
                    for (double nv : {v > 0 ? 1.0 : -1.0, std::round(v)})
                        if (nv != v && nv != 0 && fabs(nv) < fabs(v) + 1) {
                            LP q = k.lp;
                            q.rows[i].a[t].second = nv;
                            if (tryLP(q)) break;
                        }
                }
            }
        }
    }
    return k;
}

// ------------------------------------------------------------ evidence
static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if ((unsigned char) c < 32) o += ' ';
        else o += c;
    }
    return o + "\"";
}

static const Prop *find(const std::string &id) {
    for (auto &p : props)
        if (id == p.id) return &p;
    return nullptr;
}
static bool loadReplay(const char *file, Case &k, std::string &prop) {
    std::ifstream f(file);
    if (!f) return false;
    std::string l, rest;
    while (std::getline(f, l)) {
        size_t p;
        if (!l.empty() && l[0] == '#') {
            if ((p = l.find("property=")) != std::string::npos) { std::istringstream(l.substr(p + 9)) >> prop; }
        } else rest += l + "\n";
    }
    std::istringstream in(rest);
    return deserialize(in, k);
}

int main(int argc, char **argv) {
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    setvbuf(stdout, nullptr, _IOLBF, 0);
    const char *td = getenv("TMPDIR");
    char tmpl[300];
    snprintf(tmpl, sizeof tmpl, "%s/pslpXXXXXX", td && *td ? td : "/tmp");
    if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
    tmpd = tmpl;
    struct Clean {
        ~Clean() {
            for (const char *n : {"ev.0", "ev.1", "ev.2", "ev.3"}) unlink((tmpd + "/" + n).c_str());
            for (int w = 0; w < 256; w++) { unlink((tmpd + "/err." + std::to_string(w)).c_str()); unlink((tmpd + "/cls." + std::to_string(w)).c_str()); }
            rmdir(tmpd.c_str());
        }
    } clean;

    if (a.count("--replay")) {
        Case k;
        std::string id;
        if (!loadReplay(a["--replay"].c_str(), k, id)) { fprintf(stderr, "cannot read %s\n", a["--replay"].c_str()); return 2; }
        if (a.count("--prop")) id = a["--prop"];
        const Prop *P = find(id);
        if (!P) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 2; }
        printf("%s\n", human(k).c_str());
        Eval e = evalChild(*P, k);
        if (e.bad) { printf("FAILS %s: %s\nVIOLATION property=%s replay=%s\n", P->id, e.msg.c_str(), P->id, a["--replay"].c_str()); return 1; }
        printf("holds\n");
        return 0;
    }
    const Prop *P = find(a["--prop"]);
    if (!P) { fprintf(stderr, "usage: --prop Pnn --tier quick|thorough --seed N --evidence FILE --replays DIR | --replay FILE\n"); return 2; }
    bool thorough = a["--tier"] == "thorough";
    uint64_t seed = strtoull(a.count("--seed") ? a["--seed"].c_str() : "1", nullptr, 10);
    double scale = a.count("--scale") ? atof(a["--scale"].c_str()) : 1;
    long N = (long) ((thorough ? P->nThorough : P->nQuick) * scale);
    double cap = a.count("--cap") ? atof(a["--cap"].c_str()) : thorough ? 1500 : 240;
    uint64_t base = mix(seed, (uint64_t) atoi(P->id + 1) * 7919 + 13);
    long nw = sysconf(_SC_NPROCESSORS_ONLN);
    if (nw < 1) nw = 1;
    if (nw > 64) nw = 64;
    if (a.count("--workers")) nw = atol(a["--workers"].c_str());
    double t0 = now();
    auto genAt = [&](long i) {
        Rng g(mix(base, (uint64_t) i));
        return P->gen(g, thorough);
    };
    Shared *sh = (Shared *) mmap(nullptr, sizeof(Shared) * nw, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    long percap = N / nw + 2;
    uint64_t *hs = (uint64_t *) mmap(nullptr, sizeof(uint64_t) * percap * nw, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    volatile int *stop = (volatile int *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(sh, 0, sizeof(Shared) * nw);
    std::vector<pid_t> pid(nw, 0);
    std::vector<std::pair<long, std::string>> cand; // index, message
    long slow = 0;
    int restarts = 0;
    auto spawn = [&](long w, long from) {
        sh[w].idx = from;
        sh[w].started = now();
        pid_t p = fork();
        if (p) { pid[w] = p; return; }
        quiet(tmpd + "/err." + std::to_string(w));
        signal(SIGPROF, onProf);
        hk::noteBuf = sh[w].note;
        std::map<std::string, std::pair<long, long>> cls;
        for (long i = from; i < N; i += nw) {
            if (*stop || now() - t0 > cap) break;
            sh[w].idx = i;
            sh[w].started = now();
            sh[w].note[0] = 0;
            Case k = genAt(i);
            armCpu(P->cpu);
            Outcome o = P->f(k);
            armCpu(0);
            sh[w].evals++;
            auto &c = cls.emplace((o.nontrivial ? "*" : o.v == INCONC ? "?" : " ") + o.cls, std::make_pair(0L, i)).first->second;
            c.first++;
            if (o.v == INCONC) sh[w].inconc++;
            if (o.nontrivial && o.v == OK) {
                sh[w].nontriv++;
                if (sh[w].nhash < percap) hs[w * percap + sh[w].nhash] = case_hash(k), sh[w].nhash++;
            }
            if (o.v == VIOL && sh[w].nv < 8) {
                sh[w].vidx[sh[w].nv] = i;
                sh[w].nv++;
                sh[w].violated = 1;
                *stop = 1;
            }
        }
        std::ofstream f(tmpd + "/cls." + std::to_string(w), std::ios::app);
        for (auto &c : cls) f << c.second.first << "\t" << c.second.second << "\t" << c.first << "\n";
        f.close();
        _exit(0);
    };
    for (long w = 0; w < nw; w++) spawn(w, w);
    long alive = nw;
    while (alive > 0) {
        int st;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p <= 0) {
            usleep(20000);
            for (long w = 0; w < nw; w++)
                if (pid[w] > 0 && now() - sh[w].started > P->cpu * 8 + 60) {
                    kill(pid[w], SIGKILL); // stuck without using CPU
                    sh[w].started = now() + 1e6;
                }
            continue;
        }
        for (long w = 0; w < nw; w++)
            if (pid[w] == p) {
                pid[w] = 0;
                alive--;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
                if (WIFEXITED(st) && WEXITSTATUS(st) == EX_SLOW) slow++;
                else {
                    cand.push_back({sh[w].idx, exitMsg(st, tmpd + "/err." + std::to_string(w), sh[w].note)});
                    if (cand.size() >= 3) *stop = 1;
                }
                if (!*stop && restarts++ < 50) {
                    long nx = sh[w].idx + nw;
                    spawn(w, nx);
                    alive++;
                }
                break;
            }
    }
    long evals = 0, nontriv = 0, inconc = 0;
    std::vector<uint64_t> all;
    for (long w = 0; w < nw; w++) {
        evals += sh[w].evals;
        nontriv += sh[w].nontriv;
        inconc += sh[w].inconc;
        for (int i = 0; i < sh[w].nv; i++) cand.push_back({sh[w].vidx[i], ""});
        all.insert(all.end(), hs + w * percap, hs + w * percap + sh[w].nhash);
    }
    std::sort(all.begin(), all.end());
    all.erase(std::unique(all.begin(), all.end()), all.end());
    std::map<std::string, std::pair<long, long>> cls;
    for (long w = 0; w < nw; w++) {
        std::ifstream f(tmpd + "/cls." + std::to_string(w));
        std::string l;
        while (std::getline(f, l)) {
            size_t p = l.find('\t'), q = l.find('\t', p + 1);
            auto &c = cls.emplace(l.substr(q + 1), std::make_pair(0L, 1L << 60)).first->second;
            c.first += atol(l.c_str());
            c.second = std::min(c.second, atol(l.c_str() + p + 1));
        }
    }
    // ---- judge the candidates
    std::sort(cand.begin(), cand.end());
    int violations = 0, unrepro = 0;
    std::string vmsg, vfile;
    for (auto &c : cand) {
        Case k = genAt(c.first);
        int ok = 0, tries = P->flaky ? 12 : 3;
        for (int i = 0; i < tries; i++) {
            Eval e = evalChild(*P, k);
            ok += e.bad;
            if (!e.bad && !P->flaky) break;
            if (P->flaky && ok >= 2) break;
        }
        if (ok < (P->flaky ? 2 : 3)) {
            unrepro++;
            printf("note: candidate case %ld failed %d of %d replays, not reported (%s)\n", c.first, ok, tries, c.second.c_str());
            continue;
        }
        Case s = P->flaky ? k : shrink(*P, k, a.count("--shrink") ? atof(a["--shrink"].c_str()) : thorough ? 120 : 60);
        Eval e;
        for (int i = 0; i < (P->flaky ? 12 : 3); i++) {
            e = evalChild(*P, s);
            if (e.bad == P->flaky) break;
        }
        if (!e.bad) { s = k; for (int i = 0; i < 12 && !e.bad; i++) e = evalChild(*P, s); }
        violations++;
        vmsg = e.msg;
        std::string dir = a.count("--replays") ? a["--replays"] : ".";
        char nm[100];
        snprintf(nm, sizeof nm, "/%s-%016llx.case", P->id, (unsigned long long) case_hash(s));
        vfile = dir + nm;
        std::ofstream f(vfile);
        f << "# property=" << P->id << "\n# seed=" << seed << " case=" << c.first << " generator=" << k.label << "\n# " << e.msg << "\n# " << human(s) << "\n" << serialize(s);
        f.close();
        break;
    }
    double wall = now() - t0;
    // ---- evidence
    if (a.count("--evidence")) {
        std::ofstream f(a["--evidence"]);
        f << "{\n \"property\": " << jstr(P->id) << ",\n \"tier\": " << jstr(thorough ? "thorough" : "quick") << ",\n \"seed\": " << seed
          << ",\n \"level\": \"" << (std::string(P->id) == "P16" ? "fault_enumeration" : "exploration") << "\",\n \"coverage\": {\n  \"evaluations\": " << evals
          << ",\n  \"distinct_nontrivial\": " << all.size() << ",\n  \"rule\": " << jstr(std::string(P->rule) + "; distinct by hash of LP and settings") << ",\n  \"inconclusive\": " << inconc
          << ",\n  \"skipped_slow_oracle\": " << slow << ",\n  \"planned\": " << N << ",\n  \"unreproduced_candidates\": " << unrepro << ",\n  \"classes\": {";
        bool first = true;
        for (auto &c : cls) {
            std::string n = c.first.substr(1);
            n = (c.first[0] == '*' ? "nontrivial: " : c.first[0] == '?' ? "inconclusive: " : "trivial: ") + n;
            f << (first ? "" : ", ") << jstr(n) << ": " << c.second.first;
            first = false;
        }
        f << "},\n  \"samples\": [";
        first = true;
        int ns = 0;
        for (auto &c : cls) {
            if (c.first[0] != '*' || ns >= 6) continue;
            Case k = genAt(c.second.second);
            f << (first ? "" : ",") << "\n   {\"case\": " << c.second.second << ", \"class\": " << jstr(c.first.substr(1)) << ", \"generator\": " << jstr(k.label) << ", \"lp\": " << jstr(human(k).substr(0, 1500)) << "}";
            first = false;
            ns++;
        }
        if (!ns && evals) {
            Case k = genAt(0);
            f << "\n   {\"case\": 0, \"class\": \"first\", \"generator\": " << jstr(k.label) << ", \"lp\": " << jstr(human(k).substr(0, 1500)) << "}";
        }
        f << "\n  ]\n },\n \"wall_s\": " << wall << ",\n \"violations\": " << violations
          << ",\n \"assumptions\": [\"the reference LP solver (dense bounded simplex in long double, results certified by KKT conditions)\", \"disagreements within PSLP's documented tolerances are inconclusive, not violations (DESIGN.md, Tolerances)\"]\n}\n";
    }
    printf("%s %s seed=%llu: %ld cases, %zu distinct non-trivial, %ld inconclusive, %.1f s\n", P->id, thorough ? "thorough" : "quick", (unsigned long long) seed, evals, all.size(), inconc, wall);
    if (violations) {
        printf("%s\nVIOLATION property=%s replay=%s\n", vmsg.c_str(), P->id, vfile.c_str());
        return 1;
    }
    if (evals == 0) { fprintf(stderr, "nothing was explored\n"); return 2; }
    return 0;
}
