#include "props.hpp"
#include <fstream>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
struct PF { const char *n; Outcome (*f)(const Case &); };
static PF props[] = {{"optval", p_optval}, {"infeas", p_infeas_sound}, {"unb", p_unb_sound}, {"hard", p_hard_preserved}, {"primopt", p_primal_opt}, {"primany", p_primal_any}, {"stat", p_stationarity}, {"sign", p_dualsign}, {"comp", p_complementarity}, {"wf", p_wellformed}};
int main(int argc, char **argv) {
    if (argc > 2 && !strcmp(argv[1], "one")) { std::ifstream f(argv[2]); Case k; if (!deserialize(f, k)) return 3; printf("%s\n", human(k).c_str()); fflush(stdout);
        for (auto &q : props) { if (argc > 3 && strcmp(argv[3], q.n)) continue; Outcome o = q.f(k); printf("%s %d %s %s\n", q.n, o.v, o.cls.c_str(), o.msg.c_str()); } return 0; }
    long N = atol(argv[1]); uint64_t seed = atol(argv[2]);
    const char *only = argc > 3 ? argv[3] : nullptr;
    int show = argc > 4 ? atoi(argv[4]) : 1;
    std::map<std::string, long> cnt; std::map<std::string, std::vector<std::pair<size_t,Case>>> ex; std::map<std::string,std::string> msgs;
    int so = dup(1); int dn = open("/dev/null", O_WRONLY);
    fflush(stdout); dup2(dn, 1);
    FILE *out = fdopen(so, "w");
    for (long i = 0; i < N; i++) {
        Rng g(mix(seed, i)); Case k = genCase(g);
        for (auto &q : props) {
            if (only && strcmp(only, q.n) && strcmp(only,"all")) continue;
            Outcome o = q.f(k);
            std::string key = std::string(q.n) + " " + (o.v == VIOL ? "VIOL " : o.v == INCONC ? "inconc " : "ok ") + o.cls + (o.nontrivial ? " *" : "");
            cnt[key]++;
            if (o.v == VIOL) { auto &v = ex[key]; v.push_back({k.lp.nnz()+k.lp.n(), k}); std::sort(v.begin(), v.end(), [](auto&a, auto&b){return a.first<b.first;}); if (v.size() > (size_t)show) v.pop_back(); }
        }
    }
    for (auto &c : cnt) fprintf(out, "%8ld %s\n", c.second, c.first.c_str());
    for (auto &e : ex) for (auto &q : e.second) { 
        std::string m; for (auto &pp : props) if (e.first.compare(0, strlen(pp.n)+1, std::string(pp.n)+" ")==0) m = pp.f(q.second).msg;
        if (getenv("DUMP")) { std::string nm = std::string(getenv("DUMP")) + "/" + std::to_string(seed) + "_" + e.first; for (auto &ch : nm) if (ch == ' ' || ch == '>' || ch=='*') ch = '_'; FILE *f = fopen(nm.c_str(), "w"); std::string t = serialize(q.second); fwrite(t.data(), 1, t.size(), f); fclose(f); }
        fprintf(out, "--- %s\n  %s\n  %s\n", e.first.c_str(), m.c_str(), human(q.second).c_str()); }
}
