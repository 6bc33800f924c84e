// Loading lexicons and grammars from files and streams whose reads are short, interrupted or
// fail at any point: the load fails, or the object answers like one loaded from the whole text.
#include "engine.h"
#include "simfs.h"
#include <cerrno>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <streambuf>
#include <boost/archive/text_iarchive.hpp>
#include "lexicon.h"
#include "grammar.h"
using std::string; using std::vector;
void api_free_gmr(void *); void api_free_lex(void *);
namespace {
// a device that delivers at most `chunk` bytes at a time and fails (as filebuf does) at byte `fail`
struct Dev : std::streambuf {
    const string &d; size_t pos = 0, chunk; int64_t fail; int mode; int fails = 0; int calls = 0; Rng r; char buf[512];
    Dev(const string &t, size_t c, int64_t f, int m, uint64_t seed) : d(t), chunk(c), fail(f), mode(m), r(seed) { setg(buf, buf, buf); }
    int_type underflow() override {
        ++calls;
        if (fail >= 0 && (int64_t)pos >= fail && (mode != 1 || !fails)) {
            ++fails; R->count[C_IO_THROW]++;
            if (mode == 3) throw 7;                     // anything can come out of a user's stream buffer
            throw std::ios_base::failure("simulated device failure", std::error_code(EIO, std::generic_category()));
        }
        size_t n = chunk ? (mode == 2 ? 1 + (size_t)r.below((int)chunk) : chunk) : sizeof buf; n = std::min({n, sizeof buf, d.size() - pos});
        if (fail >= 0 && (int64_t)(pos + n) > fail && fails == 0) n = (size_t)(fail - (int64_t)pos);
        if (!n && pos < d.size()) return underflow();
        if (!n) return traits_type::eof();
        if (n < d.size() - pos) R->count[C_IO_SHORT]++;
        memcpy(buf, d.data() + pos, n); pos += n; setg(buf, buf, buf + n);
        return traits_type::to_int_type(buf[0]);
    }
};
struct Fx {
    const Plan &p; Universe &u; bool dry;
    Fx(const Plan &p_, Universe &u_, bool d) : p(p_), u(u_), dry(d) {}
    static size_t M(int i, size_t n) { return n ? (size_t)(i < 0 ? -i : i) % n : 0; }
    const string &want(OFn f, const string &a, const string &g, const string &l, const string &c, const string &fl) {
        const string &e = oracle.get(f, a, g, l, c, fl);
        if (dry) {
            if (e[0] == 'T' && !R->status) { snprintf(R->verdict, sizeof R->verdict, "too slow"); R->status = 3; R->count[C_DISCARD_SLOW]++; }
            else if (e[0] == 'X' && R->status != 3) { snprintf(R->verdict, sizeof R->verdict, "crash in a fresh process: %s", e.c_str() + 1); R->status = 2; }
        }
        return e;
    }
    void run() {
        if (!dry) simfs_init();
        for (size_t i = 0; i < p.ops.size(); ++i) {
            const Op &o = p.ops[i]; auto a = [&](size_t k) { return k < o.a.size() ? o.a[k] : 0; };
            if (o.name != "load") continue;
            // what: 0 lexicon, 1 grammar, 2 compiled lexicon; item; way: 0 file, 1 stream, 2 stream that throws, 3 missing file, 4 stream already failed;
            // chunk, interruptions, offset, mode; use: address grammar/lexicon locale filter; copies
            int what = (int)M(a(0), 3), way = (int)M(a(2), 5); if (what == 2 && way == 2) way = 1;        // Boost's archives do not support streams that throw
            string src, base; bool good = true;
            int grow = (int)M(a(11), 400);
            if (what == 1) { const GmrItem &g = u.gmr[M(a(1), u.gmr.size())]; src = g.text; good = g.good; if (good && grow) for (int k = 0; k < grow; ++k) src += strf("# filler line %d of the grammar\n", k); base = src; }
            else {
                const LexItem &it = u.lex[M(a(1), u.lex.size())]; src = it.kind == LX_GOOD || it.kind == LX_BAD ? it.text : u.lex[0].text; good = it.kind != LX_BAD; if (what == 2 && !good) { src = u.lex[0].text; good = true; }
                if (good && grow) for (int k = 0; k < grow; ++k) { LexSpecEntry e{strf("WORT%dX", k), strf("WORT %d", k), {"WORD"}, ""}; src += entry_line(e) + "\n"; }
                base = src;
                if (what == 2) { auto rows = dec_rows(want(O_COMPILE, "", "", base, "", "")); src = rows.empty() || rows[0].empty() ? "?" : rows[0][0].substr(1); }
            }
            string addr = u.addr[M(a(7), u.addr.size())]; if (grow && what != 1) addr += strf(" WORT%dX", (int)M(a(5), (size_t)grow));
            const string &og = u.gmr[(size_t)u.goodgmr[M(a(8), u.goodgmr.size())]].text, &ol = u.lex[(size_t)u.goodlex[M(a(8), u.goodlex.size())]].text, &loc = u.loc[M(a(9), u.loc.size())], &f = u.filt[M(a(10), u.filt.size())];
            string use;
            if (good) {
                if (what == 1) { want(O_LOADL, "", "", ol, "", ""); use = want(O_STD, addr, base, ol, loc, f); want(O_MD5, "", "", base, "G", ""); }
                else { use = want(O_PARSE, addr, "", base, loc, f); want(O_STD, addr, og, base, loc, f); want(O_LOADG, "", og, "", "", ""); want(O_MD5, "", "", base, "L", ""); }
                want(what == 1 ? O_LOADG : O_LOADL, "", what == 1 ? base : "", what == 1 ? "" : base, "", "");
            }
            if (dry) { if (R->status) return; continue; }
            begin_op(p, (int)i, false); end_op();
            int mode = a(6); int64_t at = -1;
            if (mode & 7) { at = (int64_t)M(a(5), src.size() + 1); if (a(5) & 1 && src.size() > 60) at = (int64_t)(src.size() - M(a(5) / 2, 60)); if (a(5) % 17 == 0) at = (int64_t)src.size(); }
            simfs_reset_policy(); simfs_put("/simfs/in", src); if (way == 3) simfs_remove("/simfs/in");
            if (way == 0) {
                IoPolicy &q = simfs->rd; q.chunk = a(3); q.eintr = a(4);
                if (mode & 7) { q.err_at = at; q.err_no = mode & 1 ? EIO : mode & 2 ? EISDIR : ESTALE; q.err_times = mode & 4 ? 1 << 30 : 1; simfs->rleft = q.err_times; }
                if (mode == 9) q.open_err = EACCES;
                if (mode == 10) q.open_err = EMFILE;
            }
            void *obj = nullptr; string why; bool failed = false; int devfails = 0;
            sim_enter();
            Lexicon *l = nullptr; Grammar *g = nullptr; Dev *dev = nullptr; std::istream *is = nullptr;
            try {
                if (way == 0 || way == 3) {
                    if (what == 0) l = new Lexicon(string("file"), string("/simfs/in"));
                    else if (what == 1) g = new Grammar(string("/simfs/in"));
                    else { l = new Lexicon; std::ifstream in("/simfs/in", std::ios::in | std::ios::binary); boost::archive::text_iarchive ia(in); ia >> *l; }
                } else {
                    dev = new Dev(src, (size_t)a(3), (mode & 7) ? at : -1, mode & 7 ? mode % 4 : 2, p.sched + i); is = new std::istream(dev);
                    if (way == 2) is->exceptions(mode & 1 ? std::ios::badbit : std::ios::badbit | std::ios::failbit);
                    if (way == 4) is->setstate(std::ios::badbit);
                    if (what == 0) l = new Lexicon(string("stream"), *is);
                    else if (what == 1) g = new Grammar(*is);
                    else { l = new Lexicon; boost::archive::text_iarchive ia(*is); ia >> *l; }
                }
            } catch (std::exception &e) { failed = true; why = e.what(); } catch (...) { failed = true; why = "foreign exception"; }
            sim_leave();
            if (failed && l) { sim_enter(); delete l; sim_leave(); l = nullptr; }
            if (dev) devfails = dev->fails;
            sim_enter(); delete is; delete dev; sim_leave();
            IoStats st = simfs->st; simfs_reset_policy();
            R->count[C_IO_SHORT] += st.shorts; R->count[C_IO_EINTR] += st.eintrs; R->count[C_IO_ERR] += st.errs + st.openerrs;
            bool hard = st.errs || st.openerrs || devfails || way == 3 || way == 4 || (way == 2 && !(mode & 1));      // with failbit exceptions even the end of a good stream may throw
            sim_hash(fnv64(why)); sim_hash(failed); sim_hash(st.reads);
            if (hard || st.shorts || st.eintrs || way) R->nontrivial = 1;
            static const char *wn[] = {"lexicon", "grammar", "compiled lexicon"}, *vn[] = {"a file", "a stream", "a stream with exceptions", "a missing file", "a failed stream"};
            string ctx = strf("step %d: %s %d from %s", (int)i, wn[what], a(1), vn[way]);
            sim_state(mix64(fnv64(src), mix64((uint64_t)(way * 8 + what), (uint64_t)at)));
            R->count[failed ? C_FAULT_ERR : C_FAULT_OK]++;
            if (failed) {
                if (why.empty()) sim_violation("error: %s fails without saying why", ctx.c_str());
                if (!hard && good) sim_violation("short reads: %s fails (%s) although every byte was delivered in the end (short %lu, interrupted %lu, pieces of %d)", ctx.c_str(), why.c_str(), (unsigned long)st.shorts, (unsigned long)st.eintrs, a(3));
                continue;
            }
            R->count[C_OBJ]++; obj = l ? (void*)l : (void*)g;
            if (way == 3 || way == 4 || st.openerrs) sim_violation("partial: %s yields an object although nothing could be read", ctx.c_str());
            if (!good) { if (!hard) sim_violation("malformed: %s yields an object although the text is malformed", ctx.c_str()); else sim_violation("partial: %s yields an object although the text is malformed and reading it failed at byte %ld", ctx.c_str(), (long)at); }
            // it must be the whole one
            string r = l ? lex_dump(l) : gmr_dump(g), e = want(l ? O_LOADL : O_LOADG, "", l ? "" : base, l ? base : "", "", ""), what2 = hard ? strf("partial: reading failed at byte %ld of %zu, yet ", (long)at, src.size()) : string("pieces: ");
            if (r != e) sim_violation("%s%s gives an object that holds %s instead of %s", what2.c_str(), ctx.c_str(), show_rows(r, 200).c_str(), show_rows(e, 200).c_str());
            if (what == 1) {
                string err; void *ll = api_load_lex(ol, err); if (!ll) sim_violation("a good lexicon does not load: %s", err.c_str());
                e = want(O_STD, addr, base, ol, loc, f); r = api_standardize_ptrs(addr, obj, ll, loc, f); api_free_lex(ll);
                if (r != e) sim_violation("%s%s gives an object that standardizes '%s' as %s instead of %s", what2.c_str(), ctx.c_str(), addr.c_str(), show_rows(r, 400).c_str(), show_rows(e, 400).c_str());
                r = api_md5('G', obj, ""); e = want(O_MD5, "", "", base, "G", "");
                if (r != e) sim_violation("%s%s gives an object with fingerprint %s instead of %s", what2.c_str(), ctx.c_str(), show_rows(r).c_str(), show_rows(e).c_str());
                api_free_gmr(obj);
            } else {
                e = want(O_PARSE, addr, "", base, loc, f); r = api_parse_ptrs(addr, obj, loc, f);
                if (r != e) sim_violation("%s%s gives an object that parses '%s' as %s instead of %s", what2.c_str(), ctx.c_str(), addr.c_str(), show_rows(r, 400).c_str(), show_rows(e, 400).c_str());
                string err; void *gg = api_load_gmr(og, err); if (!gg) sim_violation("a good grammar does not load: %s", err.c_str());
                e = want(O_STD, addr, og, base, loc, f); r = api_standardize_ptrs(addr, gg, obj, loc, f); api_free_gmr(gg);
                if (r != e) sim_violation("%s%s gives an object that standardizes '%s' as %s instead of %s", what2.c_str(), ctx.c_str(), addr.c_str(), show_rows(r, 400).c_str(), show_rows(e, 400).c_str());
                r = api_md5('L', obj, ""); e = want(O_MD5, "", "", base, "L", "");
                if (r != e) sim_violation("%s%s gives an object with fingerprint %s instead of %s", what2.c_str(), ctx.c_str(), show_rows(r).c_str(), show_rows(e).c_str());
                api_free_lex(obj);
            }
            if (e[0] == 'R') R->count[C_MATCH]++;
        }
    }
};
}
void need_file(Plan &p, Universe &u) { Fx t(p, u, true); t.run(); }
void exec_file(const Plan &p, Universe &u) { Fx t(p, u, false); t.run(); }
