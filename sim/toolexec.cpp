// The compile-lexicon program, run as a process of its own over simulated files: failing,
// short and interrupted reads and writes, a full disk, a close that loses data, and the
// process ending at any point; then the same command again on a healthy disk.
#include "engine.h"
#include "simfs.h"
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <sstream>
#include <boost/archive/text_iarchive.hpp>
#include "lexicon.h"
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
void api_free_lex(void *);
extern int compile_lexicon_main(int, char **);
using std::string; using std::vector;
namespace {
static void count_oom() { if (sim_op_fired()) { R->count[C_F_CXX + sim_fired_kind()]++; simfs->st.ooms++; } sim_op_begin(PROFOPS + 1, 0, 0); }
static void on_abort(int) { count_oom(); _exit(134); }        // an exception that nobody catches
struct Tool {
    const Plan &p; Universe &u; bool dry; string prior; bool have_prior = false;
    Tool(const Plan &p_, Universe &u_, bool d) : p(p_), u(u_), dry(d) {}
    static size_t M(int i, size_t n) { return n ? (size_t)(i < 0 ? -i : i) % n : 0; }
    // many made-up words make an output of several buffers
    static string grow(const string &t, int n) { string s = t; for (int i = 0; i < n; ++i) { LexSpecEntry e{strf("WORT%dX", i), strf("WORT %d", i), {"WORD"}, ""}; s += entry_line(e) + "\n"; } return s; }
    string text(int i, int big) { const LexItem &it = u.lex[M(i, u.lex.size())]; string t = lex_of(u, (int)M(i, u.lex.size())); return it.kind == LX_GOOD ? grow(t, big) : t; }
    const string &want(OFn f, const string &a, const string &l, const string &c, const string &fl) {
        const string &e = oracle.get(f, a, "", l, c, fl);
        if (dry) {
            if (e[0] == 'T' && !R->status) { snprintf(R->verdict, sizeof R->verdict, "too slow"); R->status = 3; R->count[C_DISCARD_SLOW]++; }
            else if (e[0] == 'X' && R->status != 3) { snprintf(R->verdict, sizeof R->verdict, "crash in a fresh process: %s", e.c_str() + 1); R->status = 2; }
        }
        return e;
    }
    // exit status: 0 success, >0 failure, 137 killed
    int tool(const string &in, const string &out, int oom = 0) {
        fflush(nullptr); pid_t pid = fork();
        if (pid < 0) discard("fork failed");
        if (pid == 0) {
            signal(SIGABRT, oom ? on_abort : SIG_DFL);
            struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = 10; setitimer(ITIMER_PROF, &tv, nullptr);
            string a0 = "compile-lexicon"; vector<char> a(a0.begin(), a0.end()), b(in.begin(), in.end()), c(out.begin(), out.end()); a.push_back(0); b.push_back(0); c.push_back(0);
            char *av[] = {a.data(), b.data(), c.data(), nullptr};
            if (oom) { atexit(count_oom); sim_op_begin(R->cur_op, oom, 0); }
            sim_enter(); int rc = compile_lexicon_main(3, av); sim_leave();
            exit(rc & 255);
        }
        int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        R->count[C_CALLS]++;
        if (R->status == 2) _exit(77);
        if (WIFSIGNALED(st)) { if (WTERMSIG(st) == SIGKILL) discard("the tool was killed from outside"); return 128 + WTERMSIG(st); }
        return WEXITSTATUS(st);
    }
    void judge(const string &c, const string &src, const string &addr, const string &loc, const string &f, const char *when) {
        // as the C API and the SQL functions take it
        string err; void *l = api_load_lex(c, err); R->count[C_CUT]++; R->count[l ? C_CUT_OK : C_CUT_REJ]++;
        auto cmp = [&](void *x, const char *how) {
            string m = api_md5('L', x, ""), e = want(O_MD5, "", src, "L", ""), r = api_parse_ptrs(addr, x, loc, f), e2 = want(O_PARSE, addr, src, loc, f);
            if (m != e) sim_violation("left behind: step %d: %s, the output file (%zu bytes) loads %s with fingerprint %s instead of %s", (int)R->cur_op, when, c.size(), how, show_rows(m).c_str(), show_rows(e).c_str());
            if (r != e2) sim_violation("left behind: step %d: %s, the output file (%zu bytes) loads %s but parses '%s' as %s instead of %s", (int)R->cur_op, when, c.size(), how, addr.c_str(), show_rows(r, 500).c_str(), show_rows(e2, 500).c_str());
        };
        if (l) { cmp(l, "as a lexicon text"); api_free_lex(l); }
        sim_enter(); Lexicon *x = new Lexicon; bool ok = false;
        try { std::istringstream in(c); boost::archive::text_iarchive ia(in); ia >> *x; ok = true; } catch (std::exception &) {}
        sim_leave();
        if (ok) cmp(x, "from the file");
        sim_enter(); delete x; sim_leave();
    }
    static void policy(IoPolicy &q, const vector<int> &a, size_t o, size_t size, bool wr) {
        // o: kind, offset, chunk, eintr
        int kind = (int)M(a[o], 12), off = a[o + 1]; q.chunk = a[o + 2]; q.eintr = a[o + 3];
        int64_t at = (int64_t)M(off, size + 1); if (off & 1 && size > 40) at = (int64_t)(size - M(off / 2, 40));
        static const int werr[] = {ENOSPC, EIO, EIO, ENOSPC, EDQUOT, EFBIG};
        switch (kind) {
            case 0: case 1: break;                                             // no fault
            case 2: q.err_at = at; q.err_no = wr ? ENOSPC : EIO; q.err_times = 1 << 30; break;
            case 3: q.err_at = at; q.err_no = EIO; q.err_times = 1; break;
            case 4: q.err_at = at; q.err_no = wr ? werr[M(off, 6)] : EISDIR; q.err_times = wr ? 1 << 30 : 1; break;
            case 5: q.open_err = off % 3 == 0 ? EACCES : off % 3 == 1 ? EMFILE : (wr ? EROFS : ENOENT); break;
            case 6: if (wr) { q.close_err = EIO; q.close_lose = 1 + off % 600; } else { q.err_at = (int64_t)size; q.err_times = 1 << 30; } break;
            case 7: q.crash_at = at; break;
            case 8: q.crash_at = wr ? (int64_t)M(off, 12) : at; break;
            case 9: q.crash_open = 1 + off % 2; break;
            case 10: q.crash_close = 1 + off % 2; break;
            case 11: if (wr) { q.err_at = (int64_t)size - 1 - (int64_t)M(off, std::min<size_t>(size, 3)); q.err_no = ENOSPC; q.err_times = 1 << 30; } break;
        }
        if (q.err_at < -1) q.err_at = 0;
    }
    void run() {
        if (!dry) simfs_init();
        const string in = "/simfs/in.lex", out = "/simfs/out.clex";
        for (size_t i = 0; i < p.ops.size(); ++i) {
            const Op &o = p.ops[i]; auto a = [&](size_t k) { return k < o.a.size() ? o.a[k] : 0; };
            if (o.name != "tool") continue;
            // lexicon, size, address, locale, filter, read policy (4), write policy (4), failing allocation
            vector<int> v = o.a; v.resize(17);
            string src = text(a(0), a(1)); bool good = u.lex[M(a(0), u.lex.size())].kind == LX_GOOD;
            string addr = u.addr[M(a(2), u.addr.size())]; if (a(1)) addr += strf(" WORT%dX", (int)M(a(2), (size_t)a(1)));
            const string &loc = u.loc[M(a(3), u.loc.size())], &f = u.filt[M(a(4), u.filt.size())];
            if (dry) { if (good) { want(O_MD5, "", src, "L", ""); want(O_PARSE, addr, src, loc, f); } if (R->status) return; continue; }
            begin_op(p, (int)i, false); end_op();
            // what a healthy run leaves
            simfs_reset_policy(); simfs_sweep(in); simfs_put(in, src);
            string full; int rc = tool(in, out);
            if (!good) {
                R->count[C_BADCALL]++;
                if (rc == 0) sim_violation("malformed: step %d: the tool succeeded for an input that is not a lexicon", (int)i);
            } else {
                if (rc != 0) sim_violation("healthy: step %d: the tool failed (%d) although nothing went wrong", (int)i, rc);
                if (!simfs_get(out, full)) sim_violation("healthy: step %d: the tool succeeded without an output file", (int)i);
                R->count[C_COMPILE]++;
                string err; void *l = api_load_lex(full, err);
                if (!l) sim_violation("healthy: step %d: the output of the tool does not load: %s", (int)i, err.c_str());
                api_free_lex(l);
                judge(full, src, addr, loc, f, "after a successful run");
            }
            // the same with faults, over what an earlier run left
            simfs_sweep(in); string before; bool had = have_prior && (a(5) & 16); if (had) { simfs_put(out, prior); before = prior; }
            simfs_reset_policy(); vector<int> w = v; w[5] &= 15;
            policy(simfs->rd, w, 5, src.size(), false); policy(simfs->wr, w, 9, full.size(), true);
            static const int merr[] = {0, EIO, EACCES, EISDIR, EXDEV, ENOSPC, EROFS};
            if (v[14]) { simfs->meta.at = v[14]; simfs->meta.err = merr[M(v[15], 7)]; if (!simfs->meta.err) simfs->meta.crash = 1 + (int)M(v[16], 2); }
            simfs->rleft = simfs->rd.err_times; simfs->wleft = simfs->wr.err_times;
            IoPolicy rd = simfs->rd, wr = simfs->wr;
            rc = tool(in, out, v[13]);
            IoStats st = simfs->st; string left; bool exists = simfs_get(out, left);
            R->count[C_IO_SHORT] += st.shorts; R->count[C_IO_EINTR] += st.eintrs; R->count[C_IO_ERR] += st.errs + st.openerrs; R->count[C_IO_FULL] += st.fulls; R->count[C_IO_CRASH] += st.crashes; R->count[C_IO_CLOSE] += st.closeerrs; R->count[C_IO_META] += st.metaerrs;
            bool hard = st.errs || st.fulls || st.openerrs || st.closeerrs || st.crashes || st.ooms || st.metaerrs; if (hard || st.shorts || st.eintrs) R->nontrivial = 1;
            sim_hash(fnv64(left)); sim_hash((uint64_t)rc); sim_hash(st.reads * 1000 + st.writes);
            sim_state(mix64(fnv64(left), mix64((uint64_t)rc, mix64(st.errs * 8 + st.fulls * 64 + st.crashes, (uint64_t)o.a[9] % 16))));
            string what = strf("reads %lu, writes %lu, failed %lu, disk full %lu, failed opens %lu, failed closes %lu, failed renames and the like %lu, failed allocations %lu", (unsigned long)st.reads, (unsigned long)st.writes, (unsigned long)st.errs, (unsigned long)st.fulls, (unsigned long)st.openerrs, (unsigned long)st.closeerrs, (unsigned long)st.metaerrs, (unsigned long)st.ooms);
            if (rc == 0 && (!good || !exists || left != full))
                sim_violation("exit status: step %d: the tool reported success (%s) but its output file has %zu of %zu bytes%s", (int)i, what.c_str(), exists ? left.size() : 0, full.size(), left.size() >= full.size() ? ", with other contents" : "");
            if (good && rc != 0 && !hard) sim_violation("exit status: step %d: the tool failed (%d) although every read and write worked in the end (%s)", (int)i, rc, what.c_str());
            R->count[rc ? C_FAULT_ERR : C_FAULT_OK]++;
            if (good && rc == 137 && st.crashes && exists && !(had && left == before)) judge(left, src, addr, loc, f, "after the tool was killed");
            // healthy again
            simfs_reset_policy(); rc = tool(in, out); left.clear(); simfs_get(out, left); R->count[C_OOMRETRY]++;
            if (good && rc != 0) sim_violation("rerun: step %d: the tool fails (%d) after the disk recovered", (int)i, rc);
            if (good && left != full) sim_violation("rerun: step %d: a rerun left %zu bytes instead of the complete %zu", (int)i, left.size(), full.size());
            if (good) { prior = left; have_prior = true; }
        }
    }
};
}
void need_tool(Plan &p, Universe &u) { Tool t(p, u, true); t.run(); }
void exec_tool(const Plan &p, Universe &u) { Tool t(p, u, false); t.run(); }
