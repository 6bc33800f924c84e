// One process that edits lexicon objects through the C++ interface and uses them between
// the edits.  The model is the list of entries that are logically present; the expected
// answer is that of a new lexicon built from that list in a fresh process.
#include "engine.h"
#include "lexicon.h"
#include "tokenizer.h"
#include "search.h"
#include <algorithm>
#include <new>
#include <sstream>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/vector.hpp>
using std::string; using std::vector;

void api_free_gmr(void *);
static std::set<string> words_of(const string &s) { std::set<string> o; std::istringstream in(s); string w; while (std::getline(in, w, ',')) if (w.erase(0, w.find_first_not_of(" \t\r")), w.erase(w.find_last_not_of(" \t\r") + 1), w == "DET_PRE" || w == "DET_SUF" || w == "ATT_PRE" || w == "ATT_SUF") o.insert(w); return o; }      // the library ignores others (the shipped lexicons say DETACH)
static bool same_entry(const LexSpecEntry &a, const LexSpecEntry &b) {
    return a.word == b.word && a.std == b.std && std::set<string>(a.cls.begin(), a.cls.end()) == std::set<string>(b.cls.begin(), b.cls.end()) && words_of(a.att) == words_of(b.att);
}
// ---- answers as strings, for objects in this process ----
string lex_find_str(void *l, const string &key) {
    string o;
    sim_enter();
    try { vector<LexEntry> v = ((Lexicon*)l)->find(key); std::ostringstream s; for (auto &e : v) s << e << "\n"; sim_leave(); o = enc_rows({{string("\x01") + s.str()}}); sim_enter(); }
    catch (std::exception &e) { o = string("E") + e.what(); }
    sim_leave();
    return o;
}
static string toks(const vector<Token> &v) { std::ostringstream s; for (auto &t : v) { s << t << "{"; bool f = true; for (auto c : t.inclass()) { s << (f ? "" : ",") << InClass::asString(c); f = false; } s << "}" << t.stdtext() << ";"; } return s.str(); }
static string filters(const string &f) { return f; }
// a Tokenizer and a Search that live as long as the objects they use
struct Searcher { Grammar g; Search s; explicit Searcher(const char *t) : g(t), s(g) {} };      // the search refers to the grammar
string lex_tok_str(void *tz, void *se, const string &text, const string &filter) {
    string o; Tokenizer *t = (Tokenizer*)tz;
    sim_enter();
    try {
        t->filter(InClass::asType(filters(filter)));
        vector<Token> all = t->getTokens(text), some = t->applyFilter(all);
        vector<vector<Token>> alt; if (some.size() <= 8) alt = t->getAltTokens(some);
        string r = toks(all) + "|" + toks(some) + "|";
        for (auto &a : alt) r += toks(a) + "/";
        if (se && !alt.empty()) {
            float cost = -1, nr = -1; string m; vector<Token> best = ((Searcher*)se)->s.searchAndReclassBest(alt, cost, m, nr);
            std::ostringstream s; s << "|" << toks(best) << " " << cost << " " << m << " " << nr; r += s.str();
        }
        o = "R" + r;
    } catch (std::exception &e) { o = string("E") + e.what(); }
    sim_leave();
    return o;
}
void *lex_tokenizer(void *l) { sim_enter(); Tokenizer *t = new Tokenizer(*(Lexicon*)l); sim_leave(); return t; }
void *lex_search(const string &g, string &err) { sim_enter(); Searcher *s = nullptr; try { s = new Searcher(g.c_str()); } catch (std::exception &e) { err = string("E") + e.what(); } sim_leave(); return s; }
// what a loaded object holds (a lexicon's name is left out); written with the seam closed
static string contents(const char *what, const string &s, size_t from) { int n = 0; for (char c : s) n += c == '\n'; return enc_rows({{strf("\x01%s, %d lines (%016lx)", what, n, (unsigned long)fnv64(s.substr(std::min(from, s.size()))))}}); }
string lex_dump(void *l) { std::ostringstream o; o << *(Lexicon*)l; string s = o.str(); size_t t = s.find('\t'); t = t == string::npos ? 0 : s.find('\t', t + 1); return contents("a lexicon", s, t == string::npos ? 0 : t); }
string gmr_dump(void *g) { std::ostringstream o; o << *(Grammar*)g; return contents("a grammar", o.str(), 0); }
// for the reference process
string lex_ref_find(const string &l, const string &key) { string e; void *p = api_load_lex(l, e); return p ? lex_find_str(p, key) : e; }
string lex_ref_tok(const string &l, const string &g, const string &a, const string &f) { string e; void *p = api_load_lex(l, e); if (!p) return e; void *s = nullptr; if (!g.empty()) { s = lex_search(g, e); if (!s) return e; } return lex_tok_str(lex_tokenizer(p), s, a, f); }

namespace {
const int NS = 3;
struct Lx {
    Plan const &p; Universe &u; bool dry;
    struct Slot { bool open = false; string lang, locale; vector<LexSpecEntry> m; Lexicon *l = nullptr; Tokenizer *t = nullptr; int gen = 0, edits = 0, uses = 0; };
    Slot sl[NS]; Searcher *se = nullptr; int sg = -1;
    Lx(const Plan &p_, Universe &u_, bool d) : p(p_), u(u_), dry(d) {}
    static size_t M(int i, size_t n) { return n ? (size_t)(i < 0 ? -i : i) % n : 0; }
    const string &A(int i) { return u.addr[M(i, u.addr.size())]; }
    const string &C(int i) { return u.loc[M(i, u.loc.size())]; }
    const string &F(int i) { return u.filt[M(i, u.filt.size())]; }
    const string &G(int i) { return u.gmr[(size_t)u.goodgmr[M(i, u.goodgmr.size())]].text; }
    static string up(string s) { for (auto &c : s) if (c >= 'a' && c <= 'z') c = (char)(c - 32); return s; }

    static string text(const Slot &s) { LexSpec x; x.lang = s.lang; x.locale = s.locale; x.e = s.m; std::stable_sort(x.e.begin(), x.e.end(), [](const LexSpecEntry &a, const LexSpecEntry &b) { return a.word < b.word; }); return lex_text(x); }
    static bool m_ins(vector<LexSpecEntry> &m, const LexSpecEntry &e) { for (auto &x : m) if (same_entry(x, e)) return false; m.push_back(e); return true; }
    static bool m_rem(vector<LexSpecEntry> &m, const LexSpecEntry &e) { for (size_t i = 0; i < m.size(); ++i) if (same_entry(m[i], e)) { m.erase(m.begin() + (long)i); return true; } return false; }
    const string &want(OFn f, const string &a, const string &g, const string &l, const string &c, const string &fl) {
        const string &e = oracle.get(f, a, g, l, c, fl);
        if (dry) {
            if (e[0] == 'T' && !R->status) { snprintf(R->verdict, sizeof R->verdict, "too slow"); R->status = 3; R->count[C_DISCARD_SLOW]++; }
            else if (e[0] == 'X' && R->status != 3) { snprintf(R->verdict, sizeof R->verdict, "crash in a fresh process: %s", e.c_str() + 1); R->status = 2; }
        }
        return e;
    }
    void same(const char *what, const Slot &s, const string &r, const string &e, const string &arg) {
        sim_hash(fnv64(r)); R->count[C_CALLS]++;
        if (r == e) { if (e[0] == 'R') R->count[C_MATCH]++; return; }
        sim_violation("entries: step %d: %s '%s' with a lexicon after %d edits and %d generations gives %s, a new lexicon of its entries gives %s", (int)R->cur_op, what, arg.c_str(), s.edits, s.gen, show_rows(r, 700).c_str(), show_rows(e, 700).c_str());
    }
    void drop(Slot &s) { if (s.l && !dry) { sim_enter(); delete s.t; delete s.l; sim_leave(); } s = Slot(); }
    void base(int k, int kind, int i) {
        Slot &s = sl[k]; drop(s); s.open = true;
        const LexItem &it = u.lex[(size_t)u.goodlex[M(i, u.goodlex.size())]];
        s.lang = it.spec.lang; s.locale = it.spec.locale; for (auto &e : it.spec.e) m_ins(s.m, e);
        string ct;
        if (kind % 3 == 1) { auto rows = dec_rows(want(O_COMPILE, "", "", it.text, "", "")); ct = rows.empty() ? it.text : rows[0][0].substr(1); }
        if (dry) { if (kind % 3 != 2) want(O_LOADL, "", "", it.text, "", ""); return; }
        R->count[C_OBJ]++;
        if (kind % 3 == 2) {
            sim_enter(); s.l = new Lexicon(string("lex")); s.l->lang(s.lang); s.l->locale(s.locale); for (auto &e : it.spec.e) { LexEntry le(entry_line(e)); s.l->insert(le); } sim_leave();
        } else {
            string err; s.l = (Lexicon*)api_load_lex(kind % 3 == 1 ? ct : it.text, err);
            if (!s.l) sim_violation("entries: step %d: a good lexicon does not load: %s", (int)R->cur_op, err.c_str());
        }
    }
    // ctor: how the entry object is made
    void make(LexEntry &out, const LexSpecEntry &e, int ctor) {
        string cls; for (auto &c : e.cls) cls += (cls.empty() ? "" : ",") + c;
        if (ctor % 3 == 0) out = LexEntry(entry_line(e));
        else if (ctor % 3 == 1) out = LexEntry(e.word, e.std, cls, e.att);
        else { LexEntry x; x.word(e.word); x.stdword(e.std); x.type(InClass::asType(cls)); x.attached(InClass::asAttachType(e.att)); out = x; }
    }
    // one edit; with an injected failure the lexicon must be as before or as after it, and work when repeated
    void edit(int k, bool ins, const LexSpecEntry &e, int ctor, int aidx, bool mayfail) {
        Slot &s = sl[k]; if (!s.open) return;
        string before, after; vector<LexSpecEntry> mb = s.m, ma = s.m; if (ins) m_ins(ma, e); else m_rem(ma, e);
        if (mayfail) {
            before = text(s); s.m = ma; after = text(s); s.m = mb;
            for (auto *t : {&before, &after}) { want(O_FIND, e.word, "", *t, "", ""); want(O_PARSE, A(aidx), "", *t, C(0), F(0)); want(O_PARSE, e.word, "", *t, C(0), F(0)); }
        }
        if (dry) { s.m = ma; return; }
        dirty(); LexEntry le; sim_enter(); make(le, e, ctor); sim_leave();
        R->count[C_EDIT]++; s.edits++;
        Op const &o = p.ops[(size_t)R->cur_op];
        sim_op_begin(R->cur_op, o.fault > 0 ? fault_first(o.fault) : 0, fault_count(o.fault));          // only the edit itself can fail
        bool failed = false;
        sim_enter(); try { if (ins) s.l->insert(le); else s.l->remove(le); } catch (std::bad_alloc &) { failed = true; } sim_leave();
        bool fired = sim_op_fired() > 0;
        sim_op_begin(PROFOPS + 1, 0, 0);
        sim_hash(failed * 2 + fired);
        if (failed && !fired) sim_violation("entries: step %d: an edit failed for lack of memory although no allocation failed", (int)R->cur_op);
        if (fired) R->nontrivial = 1;
        if (failed) {
            R->count[C_FAULT_ERR]++; R->count[C_OOMRETRY]++;
            string f = lex_find_str(s.l, e.word), pb = want(O_FIND, e.word, "", before, "", ""), pa = want(O_FIND, e.word, "", after, "", "");
            const char *which = nullptr;
            for (int i = 0; i < 2; ++i) {
                const string &t = i ? after : before;
                if (f != (i ? pa : pb)) continue;
                if (api_parse_ptrs(A(aidx), s.l, C(0), F(0)) == want(O_PARSE, A(aidx), "", t, C(0), F(0)) && api_parse_ptrs(e.word, s.l, C(0), F(0)) == want(O_PARSE, e.word, "", t, C(0), F(0))) { which = i ? "after" : "before"; if (i) s.m = ma; break; }
            }
            if (!which) sim_violation("failed edit: step %d: %s of '%s' failed for lack of memory and left the lexicon neither as before nor as after it: look-up gives %s, parsing '%s' gives %s and '%s' gives %s, before the edit %s", (int)R->cur_op, ins ? "insert" : "remove", entry_line(e).c_str(), show_rows(f).c_str(), e.word.c_str(), show_rows(api_parse_ptrs(e.word, s.l, C(0), F(0)), 500).c_str(), A(aidx).c_str(), show_rows(api_parse_ptrs(A(aidx), s.l, C(0), F(0)), 500).c_str(), show_rows(want(O_PARSE, e.word, "", before, C(0), F(0)), 500).c_str());
            sim_enter(); if (ins) s.l->insert(le); else s.l->remove(le); sim_leave();
        } else if (fired) R->count[C_FAULT_OK]++;
        s.m = ma;
        if (mayfail) { same("looking up", s, lex_find_str(s.l, e.word), want(O_FIND, e.word, "", after, "", ""), e.word); }
    }
    void generation(int k, bool binaryflag) {
        Slot &s = sl[k]; if (!s.open) return; s.gen++; if (dry) return;
        R->count[C_GEN]++; string saved, err;
        sim_enter();
        try { std::stringstream o; { boost::archive::text_oarchive oa(o); const Lexicon &c = *s.l; oa << c; } saved = o.str(); } catch (std::exception &e) { err = e.what(); }
        sim_leave();
        if (!err.empty()) sim_violation("entries: step %d: the lexicon cannot be saved: %s", (int)R->cur_op, err.c_str());
        sim_enter(); delete s.t; s.t = nullptr; delete s.l; s.l = nullptr; sim_leave();
        if (binaryflag) { s.l = (Lexicon*)api_load_lex(saved, err); }
        else {
            dirty(); sim_enter(); s.l = new Lexicon;
            try { std::istringstream in(saved); boost::archive::text_iarchive ia(in); ia >> *s.l; } catch (std::exception &e) { err = e.what(); }
            sim_leave();
        }
        if (!s.l || !err.empty()) sim_violation("entries: step %d: a saved lexicon does not load: %s", (int)R->cur_op, err.c_str());
    }
    void op(const Op &o) {
        auto a = [&](size_t i) { return i < o.a.size() ? o.a[i] : 0; };
        const string &n = o.name; int k = (int)M(a(0), NS); Slot &s = sl[k];
        if (n == "base") base(k, a(1), a(2));
        else if (n == "ins") edit(k, true, u.pool[M(a(1), u.pool.size())], a(2), a(3), o.fault != 0);
        else if (n == "rem") edit(k, false, u.pool[M(a(1), u.pool.size())], a(2), a(3), o.fault != 0);
        else if (n == "insp") { if (s.open && !s.m.empty()) { LexSpecEntry e = pick(s, a(1)); vary(e, a(4)); edit(k, true, e, a(2), a(3), o.fault != 0); } }
        else if (n == "remp") { if (s.open && !s.m.empty()) { LexSpecEntry e = pick(s, a(1)); vary(e, a(4)); edit(k, false, e, a(2), a(3), o.fault != 0); } }
        else if (n == "gen") generation(k, a(1) & 1);
        else if (n == "copy") {
            int d = (int)M(a(1), NS); if (!s.open || d == k) return;
            drop(sl[d]); sl[d] = s; sl[d].t = nullptr; sl[d].l = nullptr;
            if (!dry) { sim_enter(); if (a(2) & 1) sl[d].l = new Lexicon(*s.l); else { sl[d].l = new Lexicon(string("x")); *sl[d].l = *s.l; } sim_leave(); }
        }
        else if (n == "close") drop(s);
        else if (n == "gram") { sg = a(1); if (!dry) { sim_enter(); delete se; sim_leave(); string err; se = (Searcher*)lex_search(G(sg), err); } else want(O_LOADG, "", G(sg), "", "", ""); }
        else if (!s.open) return;
        else {
            string t = text(s);
            if (!dry) { ++s.uses; if (s.edits || s.gen) R->nontrivial = 1; }
            if (n == "find") { const string &w = a(2) & 1 || s.m.empty() ? u.pool[M(a(1), u.pool.size())].word : s.m[M(a(1), s.m.size())].word; const string &e = want(O_FIND, w, "", t, "", ""), &d = want(O_LOADL, "", "", t, "", ""); if (!dry) { same("looking up", s, lex_find_str(s.l, w), e, w); if (d[0] == 'R') same("writing out", s, lex_dump(s.l), d, ""); } }
            else if (n == "parse") { const string &e = want(O_PARSE, addr(s, a(1), a(4)), "", t, C(a(2)), F(a(3))); if (!dry) same("parsing", s, api_parse_ptrs(addr(s, a(1), a(4)), s.l, C(a(2)), F(a(3))), e, addr(s, a(1), a(4))); }
            else if (n == "std") {
                string ge = want(O_LOADG, "", G(a(4)), "", "", ""); if (ge[0] != 'R') return;
                const string &e = want(O_STD, A(a(1)), G(a(4)), t, C(a(2)), F(a(3)));
                if (!dry) { string err; void *g = api_load_gmr(G(a(4)), err); if (!g) sim_violation("entries: a good grammar does not load: %s", err.c_str()); string r = api_standardize_ptrs(A(a(1)), g, s.l, C(a(2)), F(a(3))); api_free_gmr(g); same("standardizing", s, r, e, A(a(1))); }
            }
            else if (n == "tok") {
                string x = up(A(a(1))); bool withg = sg >= 0; const string &e = want(O_TOK, x, withg ? G(sg) : string(), t, "", F(a(3)));
                if (!dry) { if (!s.t) s.t = (Tokenizer*)lex_tokenizer(s.l); same("tokenizing", s, lex_tok_str(s.t, withg ? se : nullptr, x, F(a(3))), e, x); }
            }
            else if (n == "rx" && !dry) { sim_enter(); if (a(1) & 1) s.l->regex(); if (a(1) & 2) s.l->regexPrefixAtt(); if (a(1) & 4) s.l->regexSuffixAtt(); sim_leave(); }
        }
    }
    // one of the entries: from the front or, from 1000 on, from the end
    static const LexSpecEntry &pick(const Slot &s, int i) { return i >= 1000 ? s.m[s.m.size() - 1 - M(i - 1000, s.m.size())] : s.m[M(i, s.m.size())]; }
    // an address that contains a word of the lexicon, attached or not
    string addr(const Slot &s, int i, int how) {
        if (!(how & 3) || s.m.empty()) return A(i);
        const string &w = pick(s, i >= 1000 ? i : i / 7).word;
        switch (how % 5) { case 1: return "12 " + w + " X"; case 2: return w + "HAUS 5"; case 3: return "KIRCH" + w + " 7"; default: return (i >= 1000 ? A(0) : A(i)) + " " + w; }
    }
    // an entry that differs from a present one in a part other than the word
    static void vary(LexSpecEntry &e, int how) {
        switch (how % 9) { case 1: e.std += "Q"; break; case 2: e.att = e.att.empty() ? "ATT_SUF" : ""; break; case 3: e.cls.push_back("CITY"); break; case 4: e.att = "ATT_PRE,DET_PRE"; break; case 5: if (e.cls.size() > 1) std::reverse(e.cls.begin(), e.cls.end()); break; case 6: e.att = "ATT_PRE,ATT_SUF"; break; case 7: e.att = e.att == "ATT_SUF" ? "ATT_PRE" : "ATT_SUF"; break; case 8: e.att = "ATT_SUF,DET_PRE"; break; }
    }
    void run() {
        for (size_t i = 0; i < p.ops.size(); ++i) {
            if (!dry) begin_op(p, (int)i, false);
            op(p.ops[i]);
            if (!dry) { end_op(); uint64_t h = 3; for (auto &s : sl) { h = mix64(h, s.open ? fnv64(text(s)) : 1); h = mix64(h, (uint64_t)std::min(s.gen, 3) * 4 + (s.uses > 0) * 2 + (s.t != nullptr)); } sim_state(h); }
            else if (R->status) return;
        }
        if (dry) return;
        R->cur_op = (int)p.ops.size();
        for (auto &s : sl) drop(s);
        sim_enter(); delete se; sim_leave();
    }
};
}
void need_lex(Plan &p, Universe &u) { Lx x(p, u, true); x.run(); }
void exec_lex(const Plan &p, Universe &u) { Lx x(p, u, false); x.run(); }
