// One simulated backend session: portals, call sites, set-returning scans, savepoints,
// transaction ends, errors and cancels, over the real extension code.
#include "engine.h"
#include "pgstub.h"
#include <algorithm>
#include <cstdlib>
#include <sstream>
using std::string; using std::vector;

// ------------------------------------------------ objects the extension holds, seen at the library boundary
struct Site;
namespace {
struct Obj { bool lex; Site *site; uint64_t gen; };
std::map<void*, Obj> objs; Site *cur_site_ = nullptr; uint64_t call_gen = 0; uint64_t loads_ok = 0;
bool track = false;
struct Depth0 { int d; Depth0() : d(sim_sut_depth) { sim_sut_depth = 0; } ~Depth0() { sim_sut_depth = d; } };
}
extern "C" {
void *__real_getLexiconPtr(char *, char **); void *__real_getGrammarPtr(char *, char **);
void __real_freeLexiconPtr(void *); void __real_freeGrammarPtr(void *);
static void born(void *p, bool lex) { if (!p || !track) return;
    Depth0 z; objs[p] = Obj{lex, cur_site_, call_gen}; ++loads_ok; R->count[C_OBJ]++; }
static void dies(void *p, bool lex) {
    if (!p || !track) return;
    Depth0 z;
    auto it = objs.find(p);
    if (it == objs.end()) sim_violation("release: a %s was released that is not alive (released before?)", lex ? "lexicon" : "grammar");
    if (it->second.lex != lex) sim_violation("release: a %s was released as a %s", it->second.lex ? "lexicon" : "grammar", lex ? "lexicon" : "grammar");
    objs.erase(it); R->count[C_FREEOBJ]++;
}
void *__wrap_getLexiconPtr(char *t, char **e) { void *p = __real_getLexiconPtr(t, e); born(p, true); return p; }
void *__wrap_getGrammarPtr(char *t, char **e) { void *p = __real_getGrammarPtr(t, e); born(p, false); return p; }
void __wrap_freeLexiconPtr(void *p) { dies(p, true); __real_freeLexiconPtr(p); }
void __wrap_freeGrammarPtr(void *p) { dies(p, false); __real_freeGrammarPtr(p); }
}

// ------------------------------------------------ the session
struct Site {
    int fn = 0; PgSite *ps = nullptr; void *argctx = nullptr; int portal = -1;
    bool active = false; string expect; vector<Row> rows; size_t pos = 0; vector<int> args;      // scan
    vector<std::pair<int, int>> pairs;                 // distinct (grammar, lexicon) that were used successfully
    uint64_t hit_loads = 0; std::map<vector<int>, uint64_t> misscost; bool anyfault = false;
    bool abandoned_now = false; std::set<std::pair<int, int>> failed;
};
// lives: as the expressions of a PL/pgSQL function do, it survives an error that a savepoint catches
struct Portal { bool lives = false; bool open = false; void *q = nullptr, *t = nullptr; int level = 0; Site site[5]; };
const int NP = 24;
struct Session {
    const Plan &p; Universe &u; Checks ck; Portal po[NP]; int sp = 0; bool first = true; bool is10 = false;
    int lives = 0; uint64_t dead_pairs = 0; bool had_fail = false;
    std::map<std::pair<int,int>, uint64_t> loadcost;
    Session(const Plan &p_, Universe &u_) : p(p_), u(u_), ck(checks_for(p_.prop)) { is10 = p.prop == "C10"; }

    const string &A(int i) { return u.addr[(size_t)i % u.addr.size()]; }
    const string &G(int i) { return u.gmr[(size_t)i % u.gmr.size()].text; }
    const string &L(int i) { return lex_of(u, (int)((size_t)i % u.lex.size())); }
    const string &LE(int i) { int k = (int)((size_t)i % u.lex.size()); if (is10 && u.lex[(size_t)k].kind == LX_COMPILED) k = u.lex[(size_t)k].base; return lex_of(u, k); }   // expected: the source form
    const string &C(int i) { return u.loc[(size_t)i % u.loc.size()]; }
    const string &F(int i) { return u.filt[(size_t)i % u.filt.size()]; }
    const string &expect(int fn, const vector<int> &x) {     // x = a g l c f
        switch (fn) {
            case FN_STD: return oracle.get(O_STD, A(x[0]), G(x[1]), LE(x[2]), C(x[3]), F(x[4]));
            case FN_PARSE: return oracle.get(O_PARSE, A(x[0]), "", LE(x[2]), C(x[3]), F(x[4]));
            case FN_MATCH: return oracle.get(O_MATCH, A(x[0]), G(x[1]), LE(x[2]), C(x[3]), F(x[4]));
        }
        return oracle.get(O_COMPILE, "", "", L(x[2]), "", "");
    }
    string why(int fn, const vector<int> &x) {
        static const char *n[] = {"as_standardize", "as_parse", "as_match", "as_compile_lexicon"};
        return strf("step %d: %s(address %d '%s', grammar %d, lexicon %d)", (int)R->cur_op, n[fn], x[0], fn == FN_COMPILE ? "" : A(x[0]).c_str(), x[1], x[2]);
    }
    // ---------------- portals
    bool lives_on(int i) const { return i > 0 && p.prop != "C06" && p.prop != "C16" && ((p.sched >> (i % 24)) & 1); }
    int scan_portal(int i) const { while (lives_on(i)) i = (i + 1) % NP; return i; }
    void open(int i) {
        Portal &P = po[i]; if (P.open) return;
        P.open = true; P.lives = lives_on(i); P.level = P.lives ? 0 : sp; P.q = pg_ctx_new("ExecutorState"); P.t = pg_ctx_child(P.q, "ExprContext");
        static const int fn[5] = {FN_STD, FN_STD, FN_PARSE, FN_MATCH, FN_COMPILE};
        for (int s = 0; s < 5; ++s) { P.site[s] = Site(); P.site[s].fn = fn[s]; P.site[s].portal = i; P.site[s].ps = pg_site_new(P.q, fn[s]); }
        R->count[C_PORTALS]++;
    }
    void gone(Portal &P) {
        bool pend = false;
        for (auto &s : P.site) if (s.ps) {
            if (s.active) pend = true;
            pg_site_forget(s.ps); s.ps = nullptr; s.active = false;
        }
        if (pend) R->count[C_ABANDON]++;
        P.open = false;
        if (track && ck.loads) for (auto &o : objs) if (o.second.site >= &P.site[0] && o.second.site <= &P.site[4])
            sim_violation("release: step %d: a %s built by a call site is still alive after its query has ended", (int)R->cur_op, o.second.lex ? "lexicon" : "grammar");
    }
    void close(int i) {       // normal end: shutdown callbacks first
        Portal &P = po[i]; if (!P.open) return;
        for (auto &s : P.site) pg_site_shutdown_srf(s.ps);
        pg_ctx_delete(P.q); gone(P); R->count[C_CLOSE]++;
    }
    void kill(int i) { Portal &P = po[i]; if (!P.open) return; pg_ctx_delete(P.q); gone(P); R->count[C_CANCEL]++; }     // error path: memory only
    void on_error(int i) {
        R->count[C_ERRORS]++; had_fail = true;
        if (i >= 0 && po[i].open && po[i].lives && sp > 0) { pg_ctx_reset(po[i].t); R->count[C_SURVIVE]++; }
        else if (i >= 0) kill(i);
        for (int k = NP - 1; k >= 0; --k) if (po[k].open && (sp == 0 || (po[k].level >= sp && !po[k].lives))) kill(k);
        if (sp > 0) { R->count[C_ROLLBACK]++; } else R->count[C_ABORT]++;
    }
    // ---------------- values
    static Row cells(PgRow &r) { Row o; for (int i = 0; i < r.ncols; ++i) o.push_back(r.val[i] ? string("\x01") + r.val[i] : string("\x02")); return o; }
    static Row trim(Row r, size_t n) { if (r.size() > n) r.resize(n); return r; }
    static string one(const Row &r) { return show_rows(enc_rows({r})); }
    const string *addr_override = nullptr; struct Meter { uint64_t b, c, y; int x, h; };
    void call(Site &s, const vector<int> &x, bool newargs, PgRow &out, int ok = 1) {
        Portal &P = po[s.portal];
        if (newargs) {
            void *cx = s.fn == FN_PARSE || s.fn == FN_MATCH ? (s.argctx = s.argctx ? (pg_ctx_reset(s.argctx), s.argctx) : pg_ctx_child(P.q, "SRF arguments")) : P.t;
            string a = addr_override ? *addr_override : A(x[0]), g = G(x[1]), l = L(x[2]), c = C(x[3]), f = F(x[4]);
            const char *v4[4] = {a.c_str(), l.c_str(), c.c_str(), f.c_str()}, *v5[5] = {a.c_str(), g.c_str(), l.c_str(), c.c_str(), f.c_str()}, *v1[1] = {l.c_str()};
            int sh = (x[0] + x[2]) & 1;
            if (s.fn == FN_PARSE) pg_site_args(s.ps, cx, 4, v4, sh);
            else if (s.fn == FN_COMPILE) pg_site_args(s.ps, cx, 1, v1, sh);
            else pg_site_args(s.ps, cx, 5, v5, sh);
        }
        cur_site_ = &s; ++call_gen;
        dirty(); pg_call(s.ps, P.t, ok, &out);
        cur_site_ = nullptr;
        R->count[C_CALLS]++;
        sim_hash((uint64_t)out.status);
        for (int i = 0; i < out.ncols; ++i) sim_hash(out.val[i] ? fnv64(out.val[i]) : 3);
        if (out.status == 1) { sim_hash(fnv64(out.err)); }
    }
    void check_error_text(int fn, const vector<int> &x, const PgRow &r, const string &e) {
        if (!ck.err) return;
        vector<string> reasons{e.substr(1)};
        const string &l = oracle.get(O_LOADL, "", "", L(x[2]), "", ""); if (l[0] == 'E') reasons.push_back(l.substr(1));
        if (fn == FN_STD || fn == FN_MATCH) { const string &g = oracle.get(O_LOADG, "", G(x[1]), "", "", ""); if (g[0] == 'E') reasons.push_back(g.substr(1)); }
        for (auto &m : reasons) if (!m.empty() && strstr(r.err, m.substr(0, 200).c_str())) return;
        sim_violation("error text: %s failed with '%.200s', which does not carry the reason '%.200s'", why(fn, x).c_str(), r.err, e.c_str() + 1);
    }
    // a fault was asked for in this op: 0 none fired, 1 fired
    int fired() { return sim_op_fired(); }
    void after_fault(bool err) { if (fired()) { R->count[err ? C_FAULT_ERR : C_FAULT_OK]++; R->nontrivial = 1; } }

    // ---------------- as_standardize / as_compile_lexicon
    void value_call(int pi, Site &s, const vector<int> &x, bool isretry = false) {
        const string &e = expect(s.fn, x); PgRow r;
        uint64_t before = sim_op_points(); uint64_t lo = loads_ok;
        call(s, x, true, r);
        uint64_t pts = sim_op_points() - before; bool flt = fired() > 0;
        if (flt) s.anyfault = true;
        vector<Row> want = dec_rows(e);
        if (e[0] == 'N') want = {Row(17, "\x02")};
        bool werr = e[0] == 'E';
        if (r.status == 1) {
            if (!werr && !flt) sim_violation("%s: %s failed with ERROR '%.200s', expected %s", isretry ? "retry" : "unexpected error", why(s.fn, x).c_str(), r.err, show_rows(e).c_str());
            if (werr && !flt) { check_error_text(s.fn, x, r, e); R->count[C_BADCALL]++; }
            after_fault(true);
            if (s.fn == FN_STD) s.failed.insert({x[1], x[2]});
            pg_ctx_reset(po[pi].t);
            on_error(pi);
        } else {
            if (r.status == 2) sim_violation("protocol: %s returned an end of set", why(s.fn, x).c_str());
            Row got = cells(r); R->count[C_ROWS]++;
            if (werr) sim_violation("error lost: %s returned %s, expected ERROR '%.200s'", why(s.fn, x).c_str(), one(got).c_str(), e.c_str() + 1);
            if (want.empty() || got != want[0]) sim_violation("%s: %s returned %s, expected %s", flt ? "row changed by a failed allocation" : isretry ? "retry" : "row", why(s.fn, x).c_str(), one(got).c_str(), show_rows(e[0] == 'N' ? string("N") : e).c_str());
            R->count[e[0] == 'N' ? C_NOMATCH : s.fn == FN_COMPILE ? C_COMPILE : C_MATCH]++;
            if (s.fn == FN_STD) for (size_t i = 0; i < 17 && i < got.size(); ++i) if (got[i][0] == 1) R->count[C_FIELD + i]++;
            after_fault(false);
            pg_row_free(&r);
            pg_ctx_reset(po[pi].t);
            if (s.fn == FN_STD) {
                std::pair<int,int> pr{x[1], x[2]}; bool seen = std::find(s.pairs.begin(), s.pairs.end(), pr) != s.pairs.end();
                if (!seen) { s.pairs.push_back(pr); if (s.pairs.size() >= 2 && p.prop == "C01") R->nontrivial = 1; if (s.pairs.size() > 4) { R->count[C_EVICT]++; if (p.prop == "C02") R->nontrivial = 1; } }
                else R->count[C_HITS]++;
                if (ck.loads && !s.anyfault) {
                    // equal texts under different indices are one pair
                    std::set<std::pair<string,string>> d; for (auto &q : s.pairs) d.insert({G(q.first), L(q.second)});
                    s.hit_loads += loads_ok - lo;
                    if (track && d.size() + s.failed.size() <= 4 && s.hit_loads > 2 * d.size())
                        sim_violation("reuse: %s: the call site has used %zu (grammar, lexicon) pairs but loaded %lu lexicons and grammars", why(s.fn, x).c_str(), d.size(), (unsigned long)s.hit_loads);
                    vector<int> key = x; auto it = s.misscost.find(key);
                    bool seenpair = seen || s.failed.count(pr); for (auto &q : s.failed) if (G(q.first) == G(x[1]) && L(q.second) == L(x[2])) seenpair = true;      // a failed call may have loaded it (a bad locale)
                    for (auto &q : s.pairs) if (q != pr && G(q.first) == G(x[1]) && L(q.second) == L(x[2])) seenpair = true;
                    if (!seenpair) s.misscost[key] = pts;
                    else if (d.size() + s.failed.size() <= 4 && it != s.misscost.end() && loadcost.count(pr) && pts > it->second - loadcost[pr] / 2 && loadcost[pr] > 100)
                        sim_violation("reuse: %s: a repeated call takes %lu allocations, the first one took %lu of which about %lu are for loading", why(s.fn, x).c_str(), (unsigned long)pts, (unsigned long)it->second, (unsigned long)loadcost[pr]);
                    int nl = 0, ng = 0; for (auto &o : objs) if (o.second.site == &s) (o.second.lex ? nl : ng)++;
                    if (nl > 4 || ng > 4) sim_violation("bound: %s: the call site holds %d lexicons and %d grammars", why(s.fn, x).c_str(), nl, ng);
                }
                if (p.prop == "C03" && had_fail) R->nontrivial = 1;
            }
        }
        pg_row_free(&r);
        if (flt && !isretry) {      // the same statement once more, with memory available
            sim_op_begin(PROFOPS + 1, 0, 0);
            R->count[C_OOMRETRY]++;
            if (!po[pi].open) open(pi);
            value_call(pi, po[pi].site[&s - &po[pi].site[0]], x, true);
        }
    }
    // ---------------- scans
    void scan_start(int pi, Site &s, const vector<int> &x) {
        if (s.active) { pg_site_shutdown_srf(s.ps); s.active = false; R->count[C_RESCAN]++; }
        s.args = x; s.expect = expect(s.fn, x); s.rows = dec_rows(s.expect); s.pos = 0;
        s.active = true; (void)pi;
    }
    // returns false when the scan is over (end or error)
    bool scan_next(int pi, Site &s, bool isretry = false, int ok = 1) {
        PgRow r; bool start = s.pos == 0 && !pg_site_srf_active(s.ps);
        call(s, s.args, start, r, ok);
        bool flt = fired() > 0; bool werr = s.expect[0] == 'E' || !ok; bool wend = s.pos >= s.rows.size();
        const char *nm = s.fn == FN_PARSE ? "as_parse" : "as_match"; (void)nm;
        if (r.status == 1) {
            if (!werr && !flt) sim_violation("%s: %s row %zu: ERROR '%.200s', expected %s", isretry ? "retry" : "unexpected error", why(s.fn, s.args).c_str(), s.pos + 1, r.err, show_rows(s.expect).c_str());
            if (werr && ok && !flt) { check_error_text(s.fn, s.args, r, s.expect); R->count[C_BADCALL]++; }
            if (!ok) R->count[C_BADCTX]++;
            after_fault(true);
            s.active = false; vector<int> x = s.args; int si = (int)(&s - &po[pi].site[0]);
            on_error(pi);
            if (p.prop == "C07") R->nontrivial = 1;
            if (flt && !isretry) {
                sim_op_begin(PROFOPS + 1, 0, 0); R->count[C_OOMRETRY]++;
                open(pi); Site &n = po[pi].site[si]; scan_start(pi, n, x); while (scan_next(pi, n, true)) {}
            }
            return false;
        }
        if (werr) sim_violation("error lost: %s returned %s, expected ERROR '%.200s'", why(s.fn, s.args).c_str(), r.status == 2 ? "no rows" : one(cells(r)).c_str(), ok ? s.expect.c_str() + 1 : "cannot accept record");
        if (r.status == 2) {
            if (!wend) sim_violation("%s: %s ended after %zu rows, expected %zu", flt ? "rows lost by a failed allocation" : "rows lost", why(s.fn, s.args).c_str(), s.pos, s.rows.size());
            if (pg_site_srf_active(s.ps)) sim_violation("protocol: %s ended without releasing its scan", why(s.fn, s.args).c_str());
            s.active = false; s.pos = 0; after_fault(false); pg_ctx_reset(po[pi].t);
            if (p.prop == "C03" && had_fail) R->nontrivial = 1;
            return false;
        }
        Row got = cells(r); R->count[C_ROWS]++;
        if (wend) sim_violation("extra row: %s delivered %s after its %zu rows", why(s.fn, s.args).c_str(), one(got).c_str(), s.rows.size());
        Row want = s.rows[s.pos];
        if (got.size() < want.size() && s.fn == FN_MATCH) want = trim(want, got.size() < 2 ? 2 : got.size());
        if (got != want) sim_violation("%s: %s row %zu is %s, expected %s", flt ? "row changed by a failed allocation" : "row", why(s.fn, s.args).c_str(), s.pos + 1, one(got).c_str(), one(want).c_str());
        after_fault(false);
        ++s.pos; pg_row_free(&r); pg_ctx_reset(po[pi].t); if (s.pos == 65) R->count[C_SCAN64]++; else if (s.pos == 513) R->count[C_SCAN512]++;
        return true;
    }
    // ---------------- three-way agreement
    struct PTok { string word; std::set<string> cls; };
    static std::set<string> split(const string &s) { std::set<string> o; string c; for (char ch : s + ",") if (ch == ',') { if (!c.empty()) o.insert(c); c.clear(); } else c += ch; return o; }
    static vector<string> words(const string &s) { std::istringstream i(s); vector<string> o; string w; while (i >> w) o.push_back(w); return o; }
    bool fetch_all(int pi, int si, const vector<int> &x, vector<Row> &rows, bool &err) {
        Site &s = po[pi].site[si]; err = false;
        if (s.active) { pg_site_shutdown_srf(s.ps); s.active = false; }
        bool start = true;
        for (int n = 0; n < 20000; ++n) {
            PgRow r; call(s, x, start, r); start = false;
            if (r.status == 1) { err = true; return true; }
            if (r.status == 2) { pg_ctx_reset(po[pi].t); return true; }
            rows.push_back(cells(r)); pg_row_free(&r); pg_ctx_reset(po[pi].t); R->count[C_ROWS]++;
        }
        return false;
    }
    void tri(int pi, const vector<int> &x, int order) {
        if (!po[pi].open) open(pi);
        vector<Row> pr, mr; Row std; bool e1 = false, e2 = false, e3 = false;
        for (int k = 0; k < 3; ++k) {
            int w = (order + k * (order & 4 ? 2 : 1)) % 3;
            if (w == 0) fetch_all(pi, 2, x, pr, e1);
            else if (w == 1) fetch_all(pi, 3, x, mr, e2);
            else { PgRow r; call(po[pi].site[order & 1], x, true, r); if (r.status == 1) e3 = true; else { std = cells(r); pg_row_free(&r); pg_ctx_reset(po[pi].t); } }
            if ((e1 || e2 || e3)) { on_error(pi); break; }
        }
        R->count[C_TRI]++;
        if (e1 || e2 || e3) {      // an error of one must not be an answer of another (parse does not see the grammar)
            const string &l = oracle.get(O_LOADL, "", "", L(x[2]), "", ""), &g = oracle.get(O_LOADG, "", G(x[1]), "", "", "");
            if (l[0] == 'R' && g[0] == 'R') { const string &s = expect(FN_STD, x); if (s[0] != 'E') sim_violation("agreement: step %d: a call failed though its grammar and lexicon load and as_standardize gives %s", (int)R->cur_op, show_rows(s).c_str()); }
            return;
        }
        if (std.size() != 17) sim_violation("agreement: as_standardize returned %zu columns", std.size());
        auto W = [&](const char *what) { return strf("agreement: step %d: address %d '%s', grammar %d, lexicon %d, locale '%s', filter '%s': %s", (int)R->cur_op, x[0], A(x[0]).c_str(), x[1], x[2], C(x[3]).c_str(), F(x[4]).c_str(), what); };
        // parse alternatives
        vector<vector<PTok>> alts; string lastpat;
        for (auto &r : pr) { if (r.size() < 5) sim_violation("%s", W("an as_parse row has too few columns").c_str()); if (alts.empty() || r[0] != lastpat) alts.push_back({}); lastpat = r[0]; alts.back().push_back({r[2].substr(1), split(r[3].substr(1))}); }
        // match rows
        struct M { double score; vector<string> in, out; string text; }; vector<M> ms; double prev = 1e300;
        for (auto &r : mr) {
            if (r.size() < 2) sim_violation("%s", W("an as_match row has too few columns").c_str());
            M m; m.score = atof(r[1].c_str() + 1); m.text = r[0].substr(1);
            if (m.score > prev) sim_violation("%s", W("as_match rows are not sorted by descending score").c_str());
            prev = m.score;
            if (m.score < 0) continue;
            size_t k = m.text.find("->"); if (k == string::npos) sim_violation("%s", W(("as_match row '" + m.text + "' is no pattern").c_str()).c_str());
            m.in = words(m.text.substr(0, k)); m.out = words(m.text.substr(k + 2));
            ms.push_back(m);
        }
        auto fits = [&](const vector<string> &in, const vector<PTok> &a) { if (in.size() != a.size()) return false; for (size_t i = 0; i < in.size(); ++i) if (!a[i].cls.count(in[i])) return false; return true; };
        bool matched = std[16] != "\x02";
        if (matched != !ms.empty()) sim_violation("%s", W(matched ? "as_standardize matched but as_match lists no match" : "as_match lists a match but as_standardize found none").c_str());
        for (auto &m : ms) {
            if (m.in.size() != m.out.size()) sim_violation("%s", W(("as_match row '" + m.text + "' assigns a different number of classes").c_str()).c_str());
            bool ok = false; for (auto &a : alts) if (fits(m.in, a)) ok = true;
            if (!ok) sim_violation("%s", W(("as_match row '" + m.text + "' classifies no alternative of as_parse").c_str()).c_str());
        }
        if (!matched) { R->count[C_NOMATCH]++; for (int i = 0; i < 17; ++i) if (std[(size_t)i] != "\x02") sim_violation("%s", W("as_standardize has no pattern but a field").c_str()); return; }
        R->count[C_MATCH]++; R->nontrivial = 1;
        string pat = std[16].substr(1); const M *best = nullptr;
        for (auto &m : ms) if (m.text == pat && m.score >= ms[0].score - 1e-5) best = &m;
        if (!best) sim_violation("%s", W(("the pattern '" + pat + "' of as_standardize is not among the best rows of as_match ('" + ms[0].text + "')").c_str()).c_str());
        // fields
        const LexSpec &sp = u.lex[(size_t)x[2] % u.lex.size()].spec; const LexItem &li = u.lex[(size_t)x[2] % u.lex.size()];
        if (li.kind == LX_BAD || li.kind == LX_OUTDATED) return;
        static const vector<std::pair<string,int>> col = {{"BLDNG",0},{"HOUSE",1},{"PREDIR",2},{"QUALIF",3},{"PRETYP",4},{"STREET",5},{"SUFTYP",6},{"SUFDIR",7},{"RR",8},{"STOP",9},{"EXTRA",9},{"BADTOKEN",9},{"CITY",10},{"PROV",11},{"NATION",12},{"POSTAL",13},{"BOXH",14},{"BOXT",14},{"UNITH",15},{"UNITT",15},{"IGNORE",-1}};
        string firstdiff; bool good = false; int tried = 0;
        for (auto &a : alts) {
            if (!fits(best->in, a)) continue;
            ++tried;
            vector<string> f(16); bool known = true;
            for (size_t i = 0; i < a.size(); ++i) {
                string w = a[i].word, sw; for (auto &e : sp.e) if (e.word == w && std::find(e.cls.begin(), e.cls.end(), best->in[i]) != e.cls.end()) { sw = e.std; break; }
                if (sw.empty()) sw = w;
                int c = -2; for (auto &k : col) if (k.first == best->out[i]) c = k.second;
                if (c == -2) { known = false; break; }
                if (c >= 0) f[(size_t)c] += sw + " ";
            }
            if (!known) return;        // a class this model does not know
            bool eq = true;
            for (int c = 0; c < 16; ++c) { string want = f[(size_t)c].empty() ? string("\x02") : "\x01" + f[(size_t)c].substr(0, f[(size_t)c].size() - 1); if (std[(size_t)c] != want) { eq = false; if (firstdiff.empty()) firstdiff = strf("field %d is '%s', the tokens of pattern '%s' give '%s'", c + 1, std[(size_t)c].c_str() + 1, pat.c_str(), want.c_str() + 1); } }
            if (eq) { good = true; break; }
        }
        if (!good) sim_violation("%s", W(tried ? firstdiff.c_str() : "no alternative of as_parse fits the pattern").c_str());
    }
    // ---------------- many rows of one query: its memory stays at its level, answers repeat
    void many(int pi, int fsel, const vector<int> &x, int rot, int step) {
        if (!po[pi].open) open(pi);
        Site &s = po[pi].site[fsel & 3]; if (s.active) { pg_site_shutdown_srf(s.ps); s.active = false; }
        rot = rot < 1 ? 1 : rot > 6 ? 6 : rot; if (s.fn != FN_STD) rot = 1;
        int per = rot * (8 / rot < 2 ? 2 : 8 / rot); vector<uint64_t> ans; Meter m[6]; uint64_t seq = 0;
        auto one_row = [&](int k, uint64_t &h) -> bool {
            vector<int> y = x; int q = k % rot; h = 1;
            if (q) { y[1] = u.goodgmr[(size_t)(x[1] + q) % u.goodgmr.size()]; y[2] = u.goodlex[(size_t)(x[2] + q * 3) % u.goodlex.size()]; }
            if (s.fn == FN_STD) { std::pair<int,int> pr{y[1], y[2]}; if (std::find(s.pairs.begin(), s.pairs.end(), pr) == s.pairs.end()) s.pairs.push_back(pr); }
            string ad = many_address(A(x[0]), k, step); addr_override = &ad;
            bool ok = true, start = true; vector<Row> rows;
            for (int n = 0; n < 20000; ++n) {
                PgRow r; call(s, y, start, r); start = false; step_tick();
                if (r.status == 1) { addr_override = nullptr; on_error(pi); return false; }
                if (r.status == 2) break;
                for (int i = 0; i < r.ncols; ++i) h = mix64(h, r.val[i] ? fnv64(r.val[i]) : 3);
                pg_row_free(&r); pg_ctx_reset(po[pi].t); R->count[C_ROWS]++;
                if (s.fn == FN_STD) break;
            }
            pg_ctx_reset(po[pi].t); addr_override = nullptr;
            return ok;
        };
        m[0] = meter();
        for (int b = 0; b < 5; ++b) {
            seq = sim_heap_seq();
            for (int k = 0; k < per; ++k) { uint64_t h; if (!one_row(b * per + k, h)) return; ans.push_back(h); }
            m[b + 1] = meter();
        }
        R->count[C_MANY]++; if (p.prop == "C17") R->nontrivial = 1;
        static const char *fns[] = {"as_standardize", "as_standardize", "as_parse", "as_match"};
        if (ck.grow) {
            bool g[5] = {true, true, true, true, true};
            for (int i = 2; i < 6; ++i) { g[0] &= m[i].b > m[i - 1].b; g[1] &= m[i].c > m[i - 1].c; g[2] &= m[i].x > m[i - 1].x; g[3] &= m[i].h > m[i - 1].h; g[4] &= m[i].y > m[i - 1].y; }
            if (g[0] || g[1] || g[2] || g[3] || g[4]) {
                char d[900]; sim_live_describe(seq, d, sizeof d);
                sim_violation("growth: step %d: every %d calls of %s in one open query leave %ld heap blocks, %ld heap bytes, %ld backend chunks, %d memory contexts, %d table entries behind (%s)", (int)R->cur_op, per, fns[fsel & 3], (long)(m[5].b - m[4].b), (long)(m[5].y - m[4].y), (long)(m[5].c - m[4].c), m[5].x - m[4].x, m[5].h - m[4].h, d);
            }
        }
        for (size_t i = 0; i < ans.size(); i += 3) {
            size_t k = (i * 7 + 3) % ans.size(); uint64_t h; if (!one_row((int)k, h)) sim_violation("answer: step %d: a call that succeeded before fails", (int)R->cur_op);
            if (h != ans[k]) sim_violation("answer: step %d: %s(address '%s' with number %d, grammar %d, lexicon %d) differs from its answer before", (int)R->cur_op, fns[fsel & 3], A(x[0]).c_str(), 101 + (int)k * step, x[1], x[2]);
        }
    }
    // ---------------- the run
    void state() {
        uint64_t h = (uint64_t)sp;
        for (auto &P : po) { h = mix64(h, P.open); if (P.open) for (auto &s : P.site) { h = mix64(h, s.active ? 2 + s.pos : 1); uint64_t k = 0; size_t n = s.pairs.size(); for (size_t i = n > 4 ? n - 4 : 0; i < n; ++i) k = mix64(k, (uint64_t)(s.pairs[i].first * 64 + s.pairs[i].second)); h = mix64(h, k); h = mix64(h, n > 4 ? 4 + n % 4 : n); } }
        sim_state(h);
    }
    void op(const Op &o) {
        auto a = [&](size_t i) { return i < o.a.size() ? o.a[i] : 0; };
        int pi = ((a(0) % NP) + NP) % NP; const string &n = o.name;
        vector<int> x;
        if (n == "srf" || n == "next" || n == "rescan" || n == "tri" || (n == "badctx" && a(1) % 3) || (n == "many" && (a(1) & 2))) pi = scan_portal(pi);
        auto args = [&](size_t from) { return vector<int>{(int)((size_t)a(from) % u.addr.size()), (int)((size_t)a(from + 1) % u.gmr.size()), (int)((size_t)a(from + 2) % u.lex.size()), (int)((size_t)a(from + 3) % u.loc.size()), (int)((size_t)a(from + 4) % u.filt.size())}; };
        if (n == "open") open(pi);
        else if (n == "std") { open(pi); value_call(pi, po[pi].site[a(1) & 1], args(2)); }
        else if (n == "comp") { open(pi); value_call(pi, po[pi].site[4], {0, 0, (int)((size_t)a(1) % u.lex.size()), 0, 0}); }
        else if (n == "srf") { open(pi); Site &s = po[pi].site[a(1) & 1 ? 3 : 2]; x = args(2); scan_start(pi, s, x); for (int i = 0; i < a(7) && s.active; ++i) if (!scan_next(pi, s)) break; }
        else if (n == "next") { if (po[pi].open) { Site &s = po[pi].site[a(1) & 1 ? 3 : 2]; int other = 0; for (auto &P : po) if (P.open) for (auto &t : P.site) if (t.active && &t != &s) ++other; if (s.active && other) { R->count[C_INTERLEAVE]++; if (p.prop == "C06") R->nontrivial = 1; } for (int i = 0; i < a(2) && s.active; ++i) if (!scan_next(pi, s)) break; } }
        else if (n == "rescan") { if (po[pi].open) { Site &s = po[pi].site[a(1) & 1 ? 3 : 2]; if (s.active) scan_start(pi, s, s.args); } }
        else if (n == "badctx") { open(pi); Site &s = po[pi].site[a(1) % 3 == 0 ? 0 : a(1) % 3 == 1 ? 2 : 3]; x = args(2); if (s.fn == FN_STD) { PgRow r; call(s, x, true, r, 0); if (r.status != 1) sim_violation("error lost: step %d: a call that cannot return its record succeeded", (int)R->cur_op); pg_row_free(&r); R->count[C_BADCTX]++; on_error(pi); } else { scan_start(pi, s, x); scan_next(pi, s, false, 0); } if (p.prop == "C07") R->nontrivial = 1; }
        else if (n == "close") { if (po[pi].open && p.prop == "C07") for (auto &s : po[pi].site) if (s.active) R->nontrivial = 1; if (po[pi].open && p.prop == "C02" && po[pi].site[0].pairs.size()) R->nontrivial = 1; close(pi); }
        else if (n == "cancel") { if (po[pi].open) { if (p.prop == "C07" || p.prop == "C02") R->nontrivial = 1; on_error(pi); } }
        else if (n == "save") { if (sp < 6) { ++sp; R->count[C_SAVEPOINT]++; } }
        else if (n == "rel") { if (sp > 0) { --sp; for (auto &P : po) if (P.open && P.level > sp) P.level = sp; } }
        else if (n == "rb") { if (sp > 0) { R->count[C_ROLLBACK]++; for (int k = NP - 1; k >= 0; --k) if (po[k].open && po[k].level >= sp && !po[k].lives) kill(k); } }
        else if (n == "commit") { sp = 0; R->count[C_COMMIT]++; for (int k = 0; k < NP; ++k) close((k + a(0)) % NP); }
        else if (n == "abort") { sp = 0; R->count[C_ABORT]++; for (int k = 0; k < NP; ++k) kill((k + a(0)) % NP); }
        else if (n == "tri") tri(pi, args(1), a(6));
        else if (n == "many") many(pi, a(1), args(2), a(7), a(8));
    }
    void run_once() {
        for (size_t i = 0; i < p.ops.size(); ++i) { begin_op(p, (int)i); op(p.ops[i]); end_op(); if (first) state(); }
        R->cur_op = (int)p.ops.size();
        sp = 0; for (int k = 0; k < NP; ++k) close(k);
        end_op();
    }
    Meter meter() { return Meter{sim_live().blocks, pg_live_chunks(), sim_live().bytes, pg_live_contexts(), pg_hash_entries()}; }
    void run() {
        track = true;
        if (ck.loads) {
            std::set<std::pair<int,int>> ps; for (auto &o : p.ops) if (o.name == "std" && o.a.size() >= 5) ps.insert({(int)((size_t)o.a[3] % u.gmr.size()), (int)((size_t)o.a[4] % u.lex.size())});
            for (auto &q : ps) { string e; sim_op_begin(PROFOPS + 1, 0, 0); uint64_t b = sim_op_points(); track = false; void *g = api_load_gmr(G(q.first), e), *l = api_load_lex(L(q.second), e); loadcost[q] = sim_op_points() - b;
                sim_enter(); if (g) __real_freeGrammarPtr(g); if (l) __real_freeLexiconPtr(l); sim_leave(); track = true; }
        }
        run_once(); first = false;
        if (track && ck.loads && !objs.empty()) sim_violation("release: %zu lexicons or grammars are still alive after all queries have ended", objs.size());
        if (!ck.leak) return;
        Meter m[5]; m[0] = meter(); uint64_t seq = 0;
        auto grew = [&](int i) { return m[i].b > m[i - 1].b || m[i].c > m[i - 1].c || m[i].x > m[i - 1].x || m[i].h > m[i - 1].h; };
        for (int i = 1; i < 5; ++i) {
            seq = sim_heap_seq();
            Session s(p, u); s.first = false; s.loadcost = loadcost; s.run_once(); R->count[C_REPS]++;
            m[i] = meter();
            if (!grew(i)) return;
        }
        bool b = true, c = true, x = true, h = true;
        for (int i = 2; i < 5; ++i) { b &= m[i].b > m[i - 1].b; c &= m[i].c > m[i - 1].c; x &= m[i].x > m[i - 1].x; h &= m[i].h > m[i - 1].h; }
        if (b || c || x || h) {
            char d[900]; sim_live_describe(seq, d, sizeof d);
            sim_violation("leak: each repetition of the history leaves %ld heap blocks, %ld backend chunks, %d memory contexts, %d table entries behind (%s)", (long)(m[4].b - m[3].b), (long)(m[4].c - m[3].c), m[4].x - m[3].x, m[4].h - m[3].h, d);
        }
    }
};

void need_sql(Plan &p, Universe &u) {
    Session s(p, u);
    auto want = [&](const string &e) {
        if (e[0] == 'T') { snprintf(R->verdict, sizeof R->verdict, "too slow"); R->status = 3; R->count[C_DISCARD_SLOW]++; }
        else if (e[0] == 'X' && R->status != 3) { snprintf(R->verdict, sizeof R->verdict, "crash in a fresh process: %s", e.c_str() + 1); R->status = 2; }
    };
    for (auto &o : p.ops) {
        auto a = [&](size_t i) { return i < o.a.size() ? o.a[i] : 0; };
        size_t from; vector<int> fns;
        if (o.name == "std") { from = 2; fns = {FN_STD}; }
        else if (o.name == "srf" ) { from = 2; fns = {a(1) & 1 ? FN_MATCH : FN_PARSE}; }
        else if (o.name == "badctx") { from = 2; fns = {a(1) % 3 == 0 ? FN_STD : a(1) % 3 == 1 ? FN_PARSE : FN_MATCH}; }
        else if (o.name == "tri") { from = 1; fns = {FN_STD}; }
        else if (o.name == "many") { from = 2; fns = {FN_STD}; for (size_t i = 0; i < u.goodlex.size(); ++i) s.L(u.goodlex[i]); }
        else if (o.name == "comp") { int l = (int)((size_t)a(1) % u.lex.size()); s.L(l); want(s.expect(FN_COMPILE, {0, 0, l, 0, 0})); want(oracle.get(O_LOADL, "", "", s.L(l), "", "")); if (p.prop == "C03") want_load_errors(u, O_COMPILE, l, 0, s.expect(FN_COMPILE, {0, 0, l, 0, 0})); continue; }
        else continue;
        vector<int> x{(int)((size_t)a(from) % u.addr.size()), (int)((size_t)a(from + 1) % u.gmr.size()), (int)((size_t)a(from + 2) % u.lex.size()), (int)((size_t)a(from + 3) % u.loc.size()), (int)((size_t)a(from + 4) % u.filt.size())};
        s.L(x[2]);
        for (int fn : fns) want(s.expect(fn, x));
        if (s.ck.err || o.name == "tri") { want(oracle.get(O_LOADL, "", "", s.L(x[2]), "", "")); want(oracle.get(O_LOADG, "", s.G(x[1]), "", "", "")); }
        if (p.prop == "C03") for (int fn : fns) want_load_errors(u, fn == FN_STD ? O_STD : fn == FN_PARSE ? O_PARSE : O_MATCH, x[2], x[1], s.expect(fn, x), s.A(x[0]), s.C(x[3]), s.F(x[4]));
        if (R->status) return;
    }
}
void exec_sql(const Plan &p, Universe &u) { Session s(p, u); s.run(); }
