// Reference answers: the uncached library call, made in a process of its own that has
// never run any library code before.
#include "engine.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" {
#include "address_standardizer.h"
void stdaddr_free(STDADDR *);
}
using std::string; using std::vector;

string enc_rows(const vector<Row> &rows) {
    string s = "R";
    for (auto &r : rows) { for (auto &c : r) { s += c; s += '\x1f'; } s += '\x1e'; }
    return s;
}
vector<Row> dec_rows(const string &s) {
    vector<Row> o; Row r; string c;
    if (s.empty() || s[0] != 'R') return o;
    for (size_t i = 1; i < s.size(); ++i) {
        if (s[i] == '\x1f') { r.push_back(c); c.clear(); }
        else if (s[i] == '\x1e') { o.push_back(r); r.clear(); }
        else c += s[i];
    }
    return o;
}
string show_rows(const string &s, size_t max) {
    string o;
    if (s.empty()) return "?";
    if (s[0] == 'E') o = "ERROR(" + s.substr(1) + ")";
    else if (s[0] == 'N') o = "no match";
    else for (char c : s.substr(1)) { if (c == '\x1f') o += '|'; else if (c == '\x1e') o += " / "; else if (c == '\x01') ; else if (c == '\x02') o += "NULL"; else o += c; }
    for (auto &c : o) if (c == '\n') c = ' ';
    if (o.size() > max) o = o.substr(0, max) + "...";
    return o;
}
static string V(const char *p) { return p ? string("\x01") + p : string("\x02"); }
static string Vn(double d) { char b[64]; snprintf(b, sizeof b, "\x01%.17g", d); return b; }
static string Vi(int d) { return string("\x01") + std::to_string(d); }
int sim_stack_junk = 0x9C;
__attribute__((noinline)) void dirty() { volatile unsigned char b[24576]; memset((void*)b, sim_stack_junk, sizeof b); __asm__ volatile("" ::"r"(b) : "memory"); }
// unspecified before the call: must be set by it
static char *const UNSET = (char*)(uintptr_t)0x5151515151515151ull;

struct CArg { char *p; explicit CArg(const string &s) { p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); } ~CArg() { free(p); } operator char *() { return p; } };

// results may be kept for a while and freed in another order (api executor)
bool api_hold = false; std::vector<std::function<void()>> api_held;
static void give_back(std::function<void()> f) { if (api_hold) api_held.push_back(f); else f(); }
static string finish_err(char *err, bool have, const char *fn) {
    if (err == UNSET) sim_violation("outcome: %s returned %s without setting the error message pointer", fn, have ? "a result" : "NULL");
    if (have) { if (err) sim_violation("outcome: %s returned a result and the error message '%s'", fn, err); return ""; }
    if (!err) return "N";
    string e = string("E") + err; give_back([err] { free(err); }); return e;
}
static string std_result(STDADDR *s, char *err, const char *fn) {
    string e = finish_err(err, s != nullptr, fn);
    if (!s) return e;
    const char *f[17] = {s->building, s->house_num, s->predir, s->qual, s->pretype, s->name, s->suftype, s->sufdir, s->ruralroute, s->extra, s->city, s->prov, s->country, s->postcode, s->box, s->unit, s->pattern};
    Row r; for (auto p : f) r.push_back(V(p));
    give_back([s] { sim_enter(); stdaddr_free(s); sim_leave(); });
    return enc_rows({r});
}
static string parse_result(TOKENS *t, int n, char *err, const char *fn) {
    string e = finish_err(err, t != nullptr, fn);
    if (!t) return e;
    if (n < 0) sim_violation("outcome: %s returned rows but did not set their number", fn);
    vector<Row> rows;
    for (int i = 0; i < n; ++i) rows.push_back({Vi(t[i].pat + 1), Vi(t[i].seq + 1), V(t[i].word), V(t[i].inclass), V(t[i].attached)});
    give_back([t, n] { sim_enter(); tokens_free(t, n); sim_leave(); });
    return enc_rows(rows);
}
static string match_result(MTOKEN *t, int n, char *err, const char *fn) {
    string e = finish_err(err, t != nullptr, fn);
    if (!t) return e;
    if (n < 0) sim_violation("outcome: %s returned rows but did not set their number", fn);
    vector<Row> rows;
    for (int i = 0; i < n; ++i) rows.push_back({V(t[i].tokens), Vn(t[i].score), Vn(t[i].nrules)});
    give_back([t, n] { sim_enter(); for (int i = 0; i < n; ++i) free(t[i].tokens); free(t); sim_leave(); });
    return enc_rows(rows);
}
string api_standardize_text(const string &a, const string &g, const string &l, const string &c, const string &f) {
    CArg A(a), G(g), L(l), C(c), F(f); char *err = UNSET; dirty();
    sim_enter(); STDADDR *s = std_standardize(A, G, L, C, F, &err); sim_leave();
    return std_result(s, err, "std_standardize");
}
string api_standardize_ptrs(const string &a, void *g, void *l, const string &c, const string &f) {
    CArg A(a), C(c), F(f); char *err = UNSET; dirty();
    sim_enter(); STDADDR *s = std_standardize_ptrs(A, g, l, C, F, &err); sim_leave();
    return std_result(s, err, "std_standardize_ptrs");
}
string api_parse_text(const string &a, const string &l, const string &c, const string &f) {
    CArg A(a), L(l), C(c), F(f); char *err = UNSET; int n = -77777; dirty();
    sim_enter(); TOKENS *t = std_parse_address(A, L, C, F, &n, &err); sim_leave();
    return parse_result(t, n, err, "std_parse_address");
}
string api_parse_ptrs(const string &a, void *l, const string &c, const string &f) {
    CArg A(a), C(c), F(f); char *err = UNSET; int n = -77777; dirty();
    sim_enter(); TOKENS *t = std_parse_address_ptrs(A, l, C, F, &n, &err); sim_leave();
    return parse_result(t, n, err, "std_parse_address_ptrs");
}
string api_match_text(const string &a, const string &g, const string &l, const string &c, const string &f) {
    CArg A(a), G(g), L(l), C(c), F(f); char *err = UNSET; int n = -77777; dirty();
    sim_enter(); MTOKEN *t = std_match_address(A, G, L, C, F, &n, &err); sim_leave();
    return match_result(t, n, err, "std_match_address");
}
string api_compile(const string &l) {
    CArg L(l); char *err = UNSET; dirty();
    sim_enter(); char *s = serialize_lexicon(L, &err); sim_leave();
    string e = finish_err(err, s != nullptr, "serialize_lexicon");
    if (!s) return e;
    string o = enc_rows({{V(s)}}); give_back([s] { free(s); }); return o;
}
string api_md5(char mode, void *ptr, const string &text) {
    CArg T(text); dirty(); sim_enter();
    char *m = mode == 'L' ? getLexiconMd5(ptr) : mode == 'G' ? getGrammarMd5(ptr) : getMd5(T);
    sim_leave();
    if (!m) return "N";
    string o = enc_rows({{V(m)}}); give_back([m] { free(m); }); return o;
}
// the load functions are documented to set the message only on failure
void *api_load_lex(const string &t, string &e) {
    CArg L(t); char *err = nullptr; dirty(); sim_enter(); void *p = getLexiconPtr(L, &err); sim_leave();
    e = p ? "" : err ? string("E") + err : "N"; if (p && err) sim_violation("outcome: getLexiconPtr returned an object and the error message '%s'", err);
    free(err); return p;
}
void *api_load_gmr(const string &t, string &e) {
    CArg L(t); char *err = nullptr; dirty(); sim_enter(); void *p = getGrammarPtr(L, &err); sim_leave();
    e = p ? "" : err ? string("E") + err : "N"; if (p && err) sim_violation("outcome: getGrammarPtr returned an object and the error message '%s'", err);
    free(err); return p;
}

void api_free_lex(void *l) { sim_enter(); freeLexiconPtr(l); sim_leave(); }
void api_free_gmr(void *g) { sim_enter(); freeGrammarPtr(g); sim_leave(); }
// ------------------------------------------------------------------ memoised, each in its own process
Oracle oracle;
static char *obuf = nullptr; static const size_t OBUF = 4u << 20;
const string &Oracle::get(OFn f, const string &a, const string &g, const string &l, const string &c, const string &fl) {
    string key; key += (char)('0' + f);
    for (auto *s : {&a, &g, &l, &c, &fl}) { key += std::to_string(s->size()); key += ':'; key += *s; }
    ++asked;
    auto it = memo.find(key); if (it != memo.end()) return it->second;
    if (frozen) { fprintf(stderr, "internal error: reference answer %d missing\n", f); _exit(99); }
    if (!obuf) obuf = (char*)mmap(nullptr, OBUF, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    *(uint64_t*)obuf = 0; ++forks;
    fflush(nullptr);
    const auto st0 = R ? R->status : 0;
    pid_t pid = fork();
    if (pid == 0) {
        extern void child_setup(int cpu); child_setup(1); ambient_seed(f + 1);
        string o, e; void *p;
        switch (f) {
            case O_STD: o = api_standardize_text(a, g, l, c, fl); break;
            case O_PARSE: o = api_parse_text(a, l, c, fl); break;
            case O_MATCH: o = api_match_text(a, g, l, c, fl); break;
            case O_COMPILE: o = api_compile(l); break;
            case O_LOADL: p = api_load_lex(l, e); o = p ? lex_dump(p) : e; break;
            case O_MD5:
                if (c == "T") o = api_md5('T', nullptr, l);
                else if (c == "L") { p = api_load_lex(l, e); o = p ? api_md5('L', p, "") : e; }
                else { p = api_load_gmr(l, e); o = p ? api_md5('G', p, "") : e; }
                break;
            case O_FIND: o = lex_ref_find(l, a); break;
            case O_TOK: o = lex_ref_tok(l, g, a, fl); break;
            case O_LOADG: p = api_load_gmr(g, e); o = p ? gmr_dump(p) : e; break;
        }
        extern bool slow_answer(); if (slow_answer()) _exit(76);
        if (o.size() + 8 > OBUF) _exit(3);
        memcpy(obuf + 8, o.data(), o.size()); __sync_synchronize(); *(uint64_t*)obuf = o.size() + 1;
        _exit(0);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    string o;
    uint64_t n = *(uint64_t*)obuf;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && n) o.assign(obuf + 8, n - 1);
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 76) o = "T";
    else if (R && !strncmp(R->verdict, "runaway allocation", 18)) { o = "T"; R->status = st0; R->verdict[0] = 0; }   // too many readings of one address
    else o = string("X") + (R ? R->verdict : "crash");
    return memo[key] = o;
}

const string &lex_of(Universe &u, int i) {
    LexItem &it = u.lex[i];
    if (!it.text.empty() || it.kind == LX_GOOD || it.kind == LX_BAD || it.kind == LX_FAILS) return it.text;
    auto rows = dec_rows(oracle.get(O_COMPILE, "", "", lex_of(u, it.base), "", ""));
    string c = rows.empty() || rows[0].empty() ? string("(could not be compiled)") : rows[0][0].substr(1);
    if (it.kind == LX_OUTDATED) {   // class version is the 5th word: "22 serialization::archive <lib> <tracking> <version> ..."
        size_t p = 0; for (int k = 0; k < 4 && p != string::npos; ++k) { p = c.find(' ', p); if (p != string::npos) ++p; }
        size_t q = p == string::npos ? p : c.find(' ', p);
        if (q != string::npos) c.replace(p, q - p, it.cut ? "0" : "1");
    } else if (it.kind == LX_CUT && (size_t)it.cut < c.size()) c.resize((size_t)it.cut);
    it.text = c;
    return it.text;
}

void want_load_errors(Universe &u, OFn f, int l, int g, const string &answer, const string &a, const string &c, const string &fl) {
    if (R->status) return;
    auto bad = [&](const string &m) { snprintf(R->verdict, sizeof R->verdict, "%s", m.c_str()); R->status = 2; };
    static const char *fn[] = {"std_standardize", "std_parse_address", "std_match_address", "serialize_lexicon"};
    const LexItem &li = u.lex[(size_t)l];
    const string ll = oracle.get(O_LOADL, "", "", lex_of(u, l), "", "");
    if ((li.kind == LX_BAD || li.kind == LX_OUTDATED) && ll[0] == 'R') return bad(strf("accepted: lexicon %d, which is %s, loads without error", l, li.kind == LX_BAD ? "malformed" : "of an older archive version"));
    if (li.kind == LX_OUTDATED && ll[0] == 'E' && ll.find("ompile") == string::npos) return bad(strf("error text: an outdated compiled lexicon fails with '%.200s', which does not name recompilation", ll.c_str() + 1));
    if (ll[0] == 'E' && answer[0] != 'E') return bad(strf("error lost: lexicon %d does not load (%.200s) but %s with it returns %s", l, ll.c_str() + 1, fn[f], show_rows(answer).c_str()));
    if (f != O_STD && f != O_MATCH) return;
    const string &gg = oracle.get(O_LOADG, "", u.gmr[(size_t)g].text, "", "", "");
    if (!u.gmr[(size_t)g].good && gg[0] == 'R') return bad(strf("accepted: grammar %d, which is malformed, loads without error", g));
    if (gg[0] == 'E' && answer[0] != 'E') return bad(strf("error lost: grammar %d does not load (%.200s) but %s with it returns %s", g, gg.c_str() + 1, fn[f], show_rows(answer).c_str()));
    // an input that the tokenizer reads is answered by every function, one that it cannot read by none
    if (ll[0] != 'R' || gg[0] != 'R') return;
    const string pa = oracle.get(O_PARSE, a, "", lex_of(u, l), c, fl);
    if (pa[0] == 'R' && answer[0] == 'E') return bad(strf("outcome: %s('%s', grammar %d, lexicon %d, '%s', '%s') fails with '%.200s' although the texts load and std_parse_address reads the address", fn[f], a.c_str(), g, l, c.c_str(), fl.c_str(), answer.c_str() + 1));
    if (pa[0] == 'E' && (answer[0] == 'R' || answer[0] == 'N')) return bad(strf("error lost: std_parse_address('%s', lexicon %d, '%s', '%s') fails with '%.200s' but %s returns %s", a.c_str(), l, c.c_str(), fl.c_str(), pa.c_str() + 1, fn[f], show_rows(answer).c_str()));
}
