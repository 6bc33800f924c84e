// One process that uses the C library through its C API: loaded objects in slots, calls by
// object and by text, results kept and freed in any order.
#include "engine.h"
#include "lexicon.h"
#include <algorithm>
#include <cstdlib>
#include <sstream>
#include <boost/archive/text_iarchive.hpp>
extern "C" {
#include "address_standardizer.h"
}
using std::string; using std::vector;
namespace {
const int NS = 4;
struct Api {
    const Plan &p; Universe &u; Checks ck; void *L_[NS] = {}, *G_[NS] = {}; bool shared_[NS] = {}; int li[NS], gi[NS]; bool first = true; int calls = 0; bool c10; std::set<int> used;
    Api(const Plan &p_, Universe &u_) : p(p_), u(u_), ck(checks_for(p_.prop)), c10(p_.prop == "C10") {}
    static size_t M(int i, size_t n) { return (size_t)(i < 0 ? -i : i) % n; }
    const string &A(int i) { return u.addr[M(i, u.addr.size())]; }
    const string &G(int i) { return u.gmr[M(i, u.gmr.size())].text; }
    const string &L(int i) { return lex_of(u, (int)M(i, u.lex.size())); }
    const string &LE(int i) { int k = (int)M(i, u.lex.size()); if (c10 && u.lex[(size_t)k].kind == LX_COMPILED) k = u.lex[(size_t)k].base; return lex_of(u, k); }
    const string &C(int i) { return u.loc[M(i, u.loc.size())]; }
    const string &F(int i) { return u.filt[M(i, u.filt.size())]; }
    string W(const char *f, const string &extra = "") { return strf("step %d: %s%s", (int)R->cur_op, f, extra.c_str()); }

    // fn is called (with the step's fault armed); its answer must be e
    template <class Fn> bool expect(const char *name, const string &ctx, const string &e, Fn fn, bool retry = false) {
        string r = fn(); bool flt = sim_op_fired() > 0;
        R->count[C_CALLS]++; sim_hash(fnv64(r));
        bool ok = r == e;
        if (!ok && flt && r[0] == 'E') ok = true;
        // "NULL alone for a call that was already reporting an error and could not allocate the message"
        if (!ok && flt && r == "N" && e[0] == 'E' && sim_fired_kind() == FK_C && sim_fired_size() == e.size()) ok = true;
        if (!ok && flt && r == "N" && sim_op_fired() > 1) ok = true;       // nor could the message be allocated
        if (!ok) sim_violation("%s: %s%s returned %s, expected %s", flt ? "changed by a failed allocation" : retry ? "retry" : "answer", W(name).c_str(), ctx.c_str(), show_rows(r, 600).c_str(), show_rows(e, 600).c_str());
        if (!flt) { R->count[e[0] == 'E' ? C_BADCALL : e[0] == 'N' ? C_NOMATCH : C_MATCH]++; }
        else { R->count[r[0] == 'E' ? C_FAULT_ERR : C_FAULT_OK]++; R->nontrivial = 1; }
        if (flt && !retry) { drop(0); sim_op_begin(PROFOPS + 1, 0, 0); R->count[C_OOMRETRY]++; expect(name, ctx, e, fn, true); }
        return r == e;
    }
    string ctx(int a, int g, int l, int c, int f) { return strf("(address '%s', grammar %d, lexicon %d, locale '%s', filter '%s')", a < 0 ? "" : A(a).c_str(), g, l, C(c).c_str(), F(f).c_str()); }
    void freel(int s) { if (!L_[s]) return; sim_enter(); freeLexiconPtr(L_[s]); sim_leave(); L_[s] = nullptr; R->count[C_FREEOBJ]++; }
    void freeg(int s) { if (!G_[s]) return; if (shared_[s]) { G_[s] = nullptr; shared_[s] = false; return; } sim_enter(); freeGrammarPtr(G_[s]); sim_leave(); G_[s] = nullptr; R->count[C_FREEOBJ]++; }
    void loadl(int s, int i) {
        freel(s); li[s] = (int)M(i, u.lex.size());
        expect("getLexiconPtr", strf("(lexicon %d)", li[s]), oracle.get(O_LOADL, "", "", LE(i), "", ""), [&] { string e; if (L_[s]) freel(s); L_[s] = api_load_lex(L(i), e); return L_[s] ? lex_dump(L_[s]) : e; });
        if (L_[s]) R->count[C_OBJ]++;
    }
    void loadg(int s, int i) {
        freeg(s); gi[s] = (int)M(i, u.gmr.size());
        expect("getGrammarPtr", strf("(grammar %d)", gi[s]), oracle.get(O_LOADG, "", G(i), "", "", ""), [&] { string e; if (G_[s]) freeg(s); G_[s] = api_load_gmr(G(i), e); return G_[s] ? gmr_dump(G_[s]) : e; });
        if (G_[s]) R->count[C_OBJ]++;
    }
    void drop(int order) {
        auto &h = api_held; Rng r((uint64_t)order + 5);
        while (!h.empty()) { size_t k = order % 3 == 0 ? 0 : order % 3 == 1 ? h.size() - 1 : (size_t)r.below((int)h.size()); auto f = h[k]; h.erase(h.begin() + (long)k); f(); }
        api_hold = false;
    }
    // a compiled lexicon that was cut, lost its tail to zeros, or lost a middle part
    string cut(const string &c, int pos, int kind, bool zeros) {
        size_t n = c.size(), at;
        switch (kind % 4) {
            case 0: at = M(pos, n); break;                                   // anywhere
            case 1: at = n - 1 - M(pos, std::min<size_t>(n, 90)); break;     // near the end
            case 2: at = n / 512 ? 512 * (1 + M(pos, n / 512)) : M(pos, n); if (at >= n) at = n - 1; break;      // a block boundary
            default: { vector<size_t> sp; for (size_t i = 0; i < n; ++i) if (c[i] == ' ') sp.push_back(i); at = sp.empty() ? 0 : sp[M(pos, sp.size())] + (pos & 1); }      // after a field
        }
        if (at >= n) at = n - 1;
        string t = c.substr(0, at); if (zeros) t.resize(n, '\0');
        return t;
    }
    void cutuse(int base, int pos, int kind, int api, int a, int g, int c, int f) {
        const LexItem &it = u.lex[M(base, u.lex.size())];
        int b = it.kind == LX_COMPILED ? (int)M(base, u.lex.size()) : u.complex_[M(base, u.complex_.size())];
        const string &full = L(b);
        bool outdated = kind >= 8;
        string t = outdated ? outdate(full, kind) : cut(full, pos, kind, api % 6 == 5 && (pos & 2));
        R->count[C_CUT]++; R->nontrivial = 1; sim_state(mix64(fnv64(t), (uint64_t)(api % 6)));
        auto judge = [&](const char *fn, const string &r, const string &e) {
            sim_hash(fnv64(r));
            if (r[0] == 'E') {
                R->count[C_CUT_REJ]++;
                if (outdated && r.find("ompile") == string::npos) sim_violation("outdated: %s with a compiled lexicon of an older archive version fails with '%.200s', which does not name recompilation", W(fn).c_str(), r.c_str() + 1);
                return;
            }
            if (outdated) sim_violation("outdated: %s accepted a compiled lexicon of an older archive version", W(fn).c_str());
            if (r != e) sim_violation("torn: %s with compiled lexicon %d cut at byte %zu of %zu returned %s, the complete one gives %s", W(fn).c_str(), b, t.find('\0') == string::npos ? t.size() : t.find('\0'), full.size(), show_rows(r, 600).c_str(), show_rows(e, 600).c_str());
            R->count[C_CUT_OK]++;
        };
        switch (api % 6) {
            case 0: judge("std_standardize", api_standardize_text(A(a), G(g), t, C(c), F(f)), oracle.get(O_STD, A(a), G(g), full, C(c), F(f))); break;
            case 1: judge("std_parse_address", api_parse_text(A(a), t, C(c), F(f)), oracle.get(O_PARSE, A(a), "", full, C(c), F(f))); break;
            case 2: judge("std_match_address", api_match_text(A(a), G(g), t, C(c), F(f)), oracle.get(O_MATCH, A(a), G(g), full, C(c), F(f))); break;
            case 3: case 4: {
                string e; void *l = api_load_lex(t, e);
                if (!l) { judge("getLexiconPtr", e == "N" ? "E" : e, "R"); break; }
                judge("getLexiconPtr", lex_dump(l), oracle.get(O_LOADL, "", "", full, "", ""));
                judge("getLexiconMd5", api_md5('L', l, ""), oracle.get(O_MD5, "", "", full, "L", ""));
                judge("std_parse_address_ptrs", api_parse_ptrs(A(a), l, C(c), F(f)), oracle.get(O_PARSE, A(a), "", full, C(c), F(f)));
                sim_enter(); freeLexiconPtr(l); sim_leave();
                break; }
            case 5: {       // read from a stream, as the programs that use compiled files do
                sim_enter();
                Lexicon *l = new Lexicon; string why; bool ok = false;
                try { std::istringstream in(t); boost::archive::text_iarchive ia(in); ia >> *l; ok = true; } catch (std::exception &e) { why = e.what(); }
                sim_leave();
                if (!ok) judge("loading the archive", "E" + why, "R");
                else {
                    judge("loading the archive", lex_dump(l), oracle.get(O_LOADL, "", "", full, "", ""));
                    judge("the fingerprint", api_md5('L', l, ""), oracle.get(O_MD5, "", "", full, "L", ""));
                    judge("std_parse_address_ptrs", api_parse_ptrs(A(a), l, C(c), F(f)), oracle.get(O_PARSE, A(a), "", full, C(c), F(f)));
                }
                sim_enter(); delete l; sim_leave();
            }
        }
    }
    static string outdate(const string &c, int kind) {
        size_t q0 = 0; for (int k = 0; k < 4 && q0 != string::npos; ++k) { q0 = c.find(' ', q0); if (q0 != string::npos) ++q0; }
        size_t q = q0 == string::npos ? q0 : c.find(' ', q0); string t = c;
        if (q != string::npos) t.replace(q0, q - q0, kind & 1 ? "1" : "0");
        return t;
    }
    void op(const Op &o) {
        auto a = [&](size_t i) { return i < o.a.size() ? o.a[i] : 0; };
        const string &n = o.name; int s = (int)M(a(0), NS), s2 = (int)M(a(1), NS);
        if (n == "loadl") loadl(s, a(1));
        else if (n == "loadg") loadg(s, a(1));
        else if (n == "freel") freel(s);
        else if (n == "freeg") freeg(s);
        else if (n == "stdp") { if (L_[s] && G_[s2]) { reuse(L_[s]); expect("std_standardize_ptrs", ctx(a(2), gi[s2], li[s], a(3), a(4)), oracle.get(O_STD, A(a(2)), G(gi[s2]), LE(li[s]), C(a(3)), F(a(4))), [&] { return api_standardize_ptrs(A(a(2)), G_[s2], L_[s], C(a(3)), F(a(4))); }); } }
        else if (n == "parsep") { if (L_[s]) { reuse(L_[s]); expect("std_parse_address_ptrs", ctx(a(2), 0, li[s], a(3), a(4)), oracle.get(O_PARSE, A(a(2)), "", LE(li[s]), C(a(3)), F(a(4))), [&] { return api_parse_ptrs(A(a(2)), L_[s], C(a(3)), F(a(4))); }); } }
        else if (n == "stdt") expect("std_standardize", ctx(a(0), a(1), a(2), a(3), a(4)), oracle.get(O_STD, A(a(0)), G(a(1)), LE(a(2)), C(a(3)), F(a(4))), [&] { return api_standardize_text(A(a(0)), G(a(1)), L(a(2)), C(a(3)), F(a(4))); });
        else if (n == "parset") expect("std_parse_address", ctx(a(0), a(1), a(2), a(3), a(4)), oracle.get(O_PARSE, A(a(0)), "", LE(a(2)), C(a(3)), F(a(4))), [&] { return api_parse_text(A(a(0)), L(a(2)), C(a(3)), F(a(4))); });
        else if (n == "matcht") expect("std_match_address", ctx(a(0), a(1), a(2), a(3), a(4)), oracle.get(O_MATCH, A(a(0)), G(a(1)), LE(a(2)), C(a(3)), F(a(4))), [&] { return api_match_text(A(a(0)), G(a(1)), L(a(2)), C(a(3)), F(a(4))); });
        else if (n == "comp") { R->count[C_COMPILE]++; expect("serialize_lexicon", strf("(lexicon %d)", a(0)), oracle.get(O_COMPILE, "", "", L(a(0)), "", ""), [&] { return api_compile(L(a(0))); }); }
        else if (n == "md5l") { if (L_[s]) expectm("getLexiconMd5", oracle.get(O_MD5, "", "", LE(li[s]), "L", ""), [&] { return api_md5('L', L_[s], ""); }); }
        else if (n == "md5g") { if (G_[s]) expectm("getGrammarMd5", oracle.get(O_MD5, "", "", G(gi[s]), "G", ""), [&] { return api_md5('G', G_[s], ""); }); }
        else if (n == "md5t") expectm("getMd5", oracle.get(O_MD5, "", "", L(a(0)), "T", ""), [&] { return api_md5('T', nullptr, L(a(0))); });
        else if (n == "hold") api_hold = true;
        else if (n == "drop") drop(a(0));
        else if (n == "cut") cutuse(a(0), a(1), a(2), a(3), a(4), a(5), a(6), a(7));
        else if (n == "many") many(s, s2, a(2), a(3), a(4), a(5), a(6), a(7), a(8));
        if (!first) return;
        uint64_t h = 7; for (int i = 0; i < NS; ++i) { h = mix64(h, L_[i] ? (uint64_t)li[i] + 2 : 1); h = mix64(h, G_[i] ? (uint64_t)gi[i] + 2 : 1); }
        sim_state(mix64(h, api_held.size()));
    }
    // many calls with the same objects: memory stays at its level, answers repeat
    void many(int s, int s2, int what, int ai, int ci, int fi, int step, int g, int l) {
        if ((what % 4 < 2) && !L_[s]) return; if (what % 4 == 0 && !G_[s2]) return;
        drop(0);
        auto one = [&](int k) { string ad = many_address(A(ai), k, step); step_tick();
            switch (what % 4) { case 0: return api_standardize_ptrs(ad, G_[s2], L_[s], C(ci), F(fi)); case 1: return api_parse_ptrs(ad, L_[s], C(ci), F(fi));
                case 2: return api_standardize_text(ad, G(g), L(l), C(ci), F(fi)); default: return api_match_text(ad, G(g), L(l), C(ci), F(fi)); } };
        SimLive m[6]; vector<uint64_t> ans; uint64_t seq = 0; m[0] = sim_live();
        for (int b = 0; b < 5; ++b) { seq = sim_heap_seq(); for (int k = 0; k < 8; ++k) { ans.push_back(fnv64(one(b * 8 + k))); sim_hash(ans.back()); } m[b + 1] = sim_live(); }
        R->count[C_MANY]++; if (p.prop == "C17") R->nontrivial = 1;
        bool g_ = true, gb = true; for (int i = 2; i < 6; ++i) { g_ &= m[i].blocks > m[i - 1].blocks; gb &= m[i].bytes > m[i - 1].bytes; }
        if ((g_ || gb) && (ck.leak || ck.grow)) { char d[900]; sim_live_describe(seq, d, sizeof d); sim_violation("growth: step %d: every 8 calls leave %ld heap blocks, %ld bytes behind though their results were freed (%s)", (int)R->cur_op, (long)(m[5].blocks - m[4].blocks), (long)(m[5].bytes - m[4].bytes), d); }
        for (size_t i = 0; i < ans.size(); i += 3) { size_t k = (i * 7 + 3) % ans.size(); if (fnv64(one((int)k)) != ans[k]) sim_violation("answer: step %d: the answer for address '%s' differs from the answer before", (int)R->cur_op, many_address(A(ai), (int)k, step).c_str()); }
    }
    void reuse(void *) { if (++calls > 2 && (p.prop == "C09" || p.prop == "C10")) R->nontrivial = 1; }
    // the fingerprint functions have no message: NULL alone reports a failed allocation
    template <class Fn> void expectm(const char *name, const string &e, Fn fn) {
        string r = fn(); bool flt = sim_op_fired() > 0; sim_hash(fnv64(r)); R->count[C_CALLS]++;
        if (r != e && !(flt && r == "N")) sim_violation("%s: %s returned %s, expected %s", flt ? "changed by a failed allocation" : "answer", W(name).c_str(), show_rows(r).c_str(), show_rows(e).c_str());
        if (flt) { R->count[r == e ? C_FAULT_OK : C_FAULT_ERR]++; R->nontrivial = 1; sim_op_begin(PROFOPS + 1, 0, 0); r = fn(); if (r != e) sim_violation("retry: %s returned %s, expected %s", W(name).c_str(), show_rows(r).c_str(), show_rows(e).c_str()); }
    }
    void run_once() {
        bool bad = false, good = false;
        for (size_t i = 0; i < p.ops.size(); ++i) {
            begin_op(p, (int)i); uint64_t b0 = R->count[C_BADCALL]; op(p.ops[i]); end_op();
            if (R->count[C_BADCALL] > b0) bad = true; else if (bad) good = true;
        }
        if (p.prop == "C08" && bad && good) R->nontrivial = 1;
        R->cur_op = (int)p.ops.size();
        drop((int)(p.sched % 3)); end(p.sched);
    }
    void end(uint64_t sched) { int k = (int)(sched % NS); for (int i = 0; i < NS; ++i) { int s = (i + k) % NS; if (sched & 16) { freel(s); freeg(s); } else { freeg(s); freel(s); } } }
    void run() {
        run_once(); first = false;
        if (!ck.leak) return;
        SimLive m[5]; m[0] = sim_live(); uint64_t seq = 0;
        for (int i = 1; i < 5; ++i) {
            seq = sim_heap_seq();
            Api s(p, u); s.first = false; s.run_once(); R->count[C_REPS]++;
            m[i] = sim_live();
            if (m[i].blocks <= m[i - 1].blocks) return;
        }
        char d[900]; sim_live_describe(seq, d, sizeof d);
        sim_violation("leak: each repetition of the history leaves %ld heap blocks behind after everything was freed (%s)", (long)(m[4].blocks - m[3].blocks), d);
    }
};
}
void need_api(Plan &p, Universe &u) {
    Api s(p, u); for (int i = 0; i < NS; ++i) s.li[i] = s.gi[i] = 0;
    bool hl[NS] = {}, hg[NS] = {};
    auto want = [&](const string &e) {
        if (e[0] == 'T') { snprintf(R->verdict, sizeof R->verdict, "too slow"); R->status = 3; R->count[C_DISCARD_SLOW]++; }
        else if (e[0] == 'X' && R->status != 3) { snprintf(R->verdict, sizeof R->verdict, "crash in a fresh process: %s", e.c_str() + 1); R->status = 2; }
    };
    for (auto &o : p.ops) {
        auto a = [&](size_t i) { return i < o.a.size() ? o.a[i] : 0; };
        const string &n = o.name; int x = (int)Api::M(a(0), NS), y = (int)Api::M(a(1), NS);
        if (n == "loadl") { s.li[x] = (int)Api::M(a(1), u.lex.size()); s.L(a(1)); const string &e = oracle.get(O_LOADL, "", "", s.LE(a(1)), "", ""); want(e); hl[x] = e[0] == 'R'; }
        else if (n == "loadg") { s.gi[x] = (int)Api::M(a(1), u.gmr.size()); const string &e = oracle.get(O_LOADG, "", s.G(a(1)), "", "", ""); want(e); hg[x] = e[0] == 'R'; }
        else if (n == "freel") hl[x] = false;
        else if (n == "freeg") hg[x] = false;
        else if (n == "stdp") { if (hl[x] && hg[y]) want(oracle.get(O_STD, s.A(a(2)), s.G(s.gi[y]), s.LE(s.li[x]), s.C(a(3)), s.F(a(4)))); }
        else if (n == "parsep") { if (hl[x]) want(oracle.get(O_PARSE, s.A(a(2)), "", s.LE(s.li[x]), s.C(a(3)), s.F(a(4)))); }
        else if (n == "stdt") { s.L(a(2)); const string e = oracle.get(O_STD, s.A(a(0)), s.G(a(1)), s.LE(a(2)), s.C(a(3)), s.F(a(4))); want(e); if (p.prop == "C08") want_load_errors(u, O_STD, (int)Api::M(a(2), u.lex.size()), (int)Api::M(a(1), u.gmr.size()), e, s.A(a(0)), s.C(a(3)), s.F(a(4))); }
        else if (n == "parset") { s.L(a(2)); const string e = oracle.get(O_PARSE, s.A(a(0)), "", s.LE(a(2)), s.C(a(3)), s.F(a(4))); want(e); if (p.prop == "C08") want_load_errors(u, O_PARSE, (int)Api::M(a(2), u.lex.size()), (int)Api::M(a(1), u.gmr.size()), e); }
        else if (n == "matcht") { s.L(a(2)); const string e = oracle.get(O_MATCH, s.A(a(0)), s.G(a(1)), s.LE(a(2)), s.C(a(3)), s.F(a(4))); want(e); if (p.prop == "C08") want_load_errors(u, O_MATCH, (int)Api::M(a(2), u.lex.size()), (int)Api::M(a(1), u.gmr.size()), e, s.A(a(0)), s.C(a(3)), s.F(a(4))); }
        else if (n == "comp") { const string &e = oracle.get(O_COMPILE, "", "", s.L(a(0)), "", ""); want(e); if (p.prop == "C08") want_load_errors(u, O_COMPILE, (int)Api::M(a(0), u.lex.size()), 0, e); }
        else if (n == "md5l") { if (hl[x]) want(oracle.get(O_MD5, "", "", s.LE(s.li[x]), "L", "")); }
        else if (n == "md5g") { if (hg[x]) want(oracle.get(O_MD5, "", "", s.G(s.gi[x]), "G", "")); }
        else if (n == "md5t") want(oracle.get(O_MD5, "", "", s.L(a(0)), "T", ""));
        else if (n == "many") {      // only: not too slow
            int w = ((a(2) % 4) + 4) % 4; s.L(a(8));
            if (w < 2 && hl[x]) { want(oracle.get(O_PARSE, s.A(a(3)), "", s.LE(s.li[x]), s.C(a(4)), s.F(a(5)))); if (w == 0 && hg[y]) want(oracle.get(O_STD, s.A(a(3)), s.G(s.gi[y]), s.LE(s.li[x]), s.C(a(4)), s.F(a(5)))); }
            if (w >= 2) want(oracle.get(O_STD, s.A(a(3)), s.G(a(7)), s.LE(a(8)), s.C(a(4)), s.F(a(5))));
        }
        else if (n == "cut") {
            const LexItem &it = u.lex[Api::M(a(0), u.lex.size())];
            int b = it.kind == LX_COMPILED ? (int)Api::M(a(0), u.lex.size()) : u.complex_[Api::M(a(0), u.complex_.size())];
            const string &full = s.L(b);
            switch (((a(3) % 6) + 6) % 6) {
                case 0: want(oracle.get(O_STD, s.A(a(4)), s.G(a(5)), full, s.C(a(6)), s.F(a(7)))); break;
                case 2: want(oracle.get(O_MATCH, s.A(a(4)), s.G(a(5)), full, s.C(a(6)), s.F(a(7)))); break;
                case 1: want(oracle.get(O_PARSE, s.A(a(4)), "", full, s.C(a(6)), s.F(a(7)))); break;
                default: want(oracle.get(O_PARSE, s.A(a(4)), "", full, s.C(a(6)), s.F(a(7)))); want(oracle.get(O_MD5, "", "", full, "L", "")); want(oracle.get(O_LOADL, "", "", full, "", ""));
            }
        }
        if (R->status) return;
    }
}
void exec_api(const Plan &p, Universe &u) { Api s(p, u); s.run(); }
// for the threads executor: one of these per thread
void *apis_new(const Plan &p, Universe &u) { Api *s = new Api(p, u); s->first = false; return s; }
void apis_op(void *s, const Op &o) { ((Api*)s)->op(o); }
void apis_end(void *s, uint64_t sched) { ((Api*)s)->end(sched); }
void *apis_grammar(void *s, int slot, int &gi) { gi = ((Api*)s)->gi[slot]; return ((Api*)s)->G_[slot]; }
void apis_share(void *s, int slot, void *g, int gi) { Api *a = (Api*)s; a->G_[slot] = g; a->gi[slot] = gi; a->shared_[slot] = true; }
