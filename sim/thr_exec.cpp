// Several threads that use the library at the same time.
#include "engine.h"
#include "thr_rt.h"
#include <sys/time.h>
using std::string; using std::vector;
void *apis_new(const Plan &, Universe &); void apis_op(void *, const Op &); void apis_end(void *, uint64_t); void *apis_grammar(void *, int, int &); void apis_share(void *, int, void *, int);
// "2:stdt" is an operation of thread 2; thread 0 prepares what the others share
static int tid_of(const Op &o) { return !o.name.empty() && o.name[0] >= '0' && o.name[0] <= '4' && o.name.size() > 2 && o.name[1] == ':' ? o.name[0] - '0' : 0; }
static vector<std::pair<int, Op>> ops_of(const Plan &p, int t) { vector<std::pair<int, Op>> v; for (size_t i = 0; i < p.ops.size(); ++i) if (tid_of(p.ops[i]) == t) { Op o = p.ops[i]; if (o.name.size() > 2 && o.name[1] == ':') o.name = o.name.substr(2); v.push_back({(int)i, o}); } return v; }
void need_thr(Plan &p, Universe &u) {
    for (int t = 0; t <= 4; ++t) {
        Plan q = p; q.ops.clear(); q.exec = "api";
        for (auto &x : ops_of(p, 0)) if (x.second.name == "loadg") q.ops.push_back(x.second);
        if (t) for (auto &x : ops_of(p, t)) q.ops.push_back(x.second);
        need_api(q, u); if (R->status) return;
    }
}
static const Plan *P; static Universe *U; static void *api[5];
static vector<std::pair<int, Op>> todo[5];
static void longer() { struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = 240; setitimer(ITIMER_PROF, &tv, nullptr); }
static void thread(int t) {
    for (auto &x : todo[t]) { thr_op(x.first); R->count[C_OPS]++; bool f = x.second.fault > 0; if (f) { sim_op_begin(x.first, fault_first(x.second.fault), fault_count(x.second.fault)); sim_op_own(1); } apis_op(api[t], x.second); if (f) { sim_op_begin(PROFOPS + 1, 0, 0); sim_op_own(0); } }
    thr_op((int)P->ops.size()); apis_end(api[t], P->sched >> (8 + t));
}
void exec_thr(const Plan &p, Universe &u) {
    P = &p; U = &u;
    begin_op(p, 0, false); longer();
    void *m = apis_new(p, u);
    for (auto &x : ops_of(p, 0)) if (x.second.name == "loadg") apis_op(m, x.second);
    int map[5] = {0}, n = 0;
    for (int t = 1; t <= 4; ++t) { auto v = ops_of(p, t); if (v.empty()) continue; ++n; todo[n] = v; map[n] = t; api[n] = apis_new(p, u); for (int s = 0; s < 4; ++s) { int gi; void *g = apis_grammar(m, s, gi); if (g) apis_share(api[n], s, g, gi); } }
    if (n) {
        thr_begin(n, p.sched, p.preempt);
        for (int t = 1; t <= n; ++t) thr_spawn(t, thread);
        thr_run();
        uint64_t a, b, c, d; thr_stats(a, b, c, d);
        R->steps += a; R->count[C_SWITCH] += b; R->count[C_YIELD] += a; R->count[C_ACC] += c;
        sim_hash(a); sim_hash(c);
        if (b > (uint64_t)n) R->nontrivial = 1;
        sim_state(R->hash);
    }
    end_op(); apis_end(m, 0);
}
