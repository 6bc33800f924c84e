// Seeded generation of plans: which world, which session, which faults may be injected where.
#include "engine.h"
using std::string; using std::vector;

Checks checks_for(const string &p) {
    Checks c;
    if (p == "C02") { c.leak = c.loads = true; }
    if (p == "C03") { c.err = true; c.leak = true; }
    if (p == "C17") c.grow = true;
    if (p == "C04" || p == "C05" || p == "C07" || p == "C08") c.leak = true;
    return c;
}
bool prop_uses_faults(const string &p) { return p == "C04" || p == "C05" || p == "C15"; }

static const Universe &uni(uint64_t seed, int size) {
    static Universe u; static bool have = false;
    if (!have || u.seed != seed || u.size != size) { u = make_universe(seed, size); have = true; }
    return u;
}
struct Gen {
    Rng r; Plan p; const Universe *u = nullptr; bool th;
    vector<int> hl, hg, ha; vector<std::pair<int,int>> pairs;
    Gen(const string &prop, uint64_t seed, bool thorough) : r(seed ^ fnv64(prop)), th(thorough) {
        p.prop = prop; p.seed = seed; p.useed = (seed / 64) * 8 + seed % 8; p.usize = 1;
        static const vector<int> junk = {0xA5, 0x00, 0xFF, 0x01, 0x41, 0x80}, quar = {4096, 4096, 4096, 0, 0, 16};
        p.junk = r.chance(50) ? 0xA5 : r.pick(junk); p.quar = r.pick(quar); p.sched = r.next() >> 16;
        { Rng q(seed ^ 0xc10bbe5); p.clob = q.chance(75); p.amb = q.chance(75) ? 0 : q.range(1, 200); }
    }
    void world(int size) {
        if (p.prop == "C04" || p.prop == "C05") { Rng q(p.useed ^ 0x3017e); if (q.below(100) < 10) size = 5; }
        if (size == 1) {            // some worlds are of another kind
            Rng q(p.useed ^ 0x3017d); int k = q.below(100); const string &n = p.prop;
            if (n == "C13") size = 4;
            else if (n == "C01" || n == "C08" || n == "C09" || n == "C06" || n == "C16" || n == "C10") { if (k < 5) size = 2; else if (k < 10 ) size = 3; }
            else if (n == "C02" || n == "C03" || n == "C07" || n == "C12" || n == "C14") { if (k < 4) size = 3; }
            else if ((n == "C04" || n == "C05") && k < 2) size = 3;
        }
        p.usize = size; u = &uni(p.useed, size);
        big = size == 2;
    }
    bool big = false;
    void add(const string &n, vector<int> a, int64_t f = 0) { Op o; o.name = n; o.a = a; o.fault = f; p.ops.push_back(o); }
    int addr() { return r.chance(80) ? r.pick(ha) : r.below((int)u->addr.size()); }
    int loc() { return r.chance(75) ? 0 : r.below((int)u->loc.size()); }
    int filt() { return r.chance(75) ? r.below(2) : r.below((int)u->filt.size()); }
    void hot(int npairs, int naddr, int compiled_pct = 15) {
        if (big && r.chance(70)) naddr = r.range(10, (int)u->addr.size());
        for (int i = 0; i < naddr; ++i) ha.push_back(r.below((int)u->addr.size()));
        for (int i = 0; i < npairs; ++i) {
            int l = r.chance(compiled_pct) ? r.pick(u->complex_) : r.pick(u->goodlex);
            // a family: keep one of the two texts with some probability
            int g = r.pick(u->goodgmr);
            if (!pairs.empty()) { auto &q = r.pick(pairs); if (r.chance(35)) l = q.first; else if (r.chance(35)) g = q.second; }
            pairs.push_back({l, g});
        }
    }
    vector<int> args(int badpct = 0) {
        auto &q = r.pick(pairs); int l = q.first, g = q.second;
        if (r.chance(badpct)) { int k = r.below(7); if (k < 2 || k == 4) l = r.pick(u->badlex); if (k >= 2 && k < 5) g = r.pick(u->badgmr); if (k >= 5) l = r.pick(u->faillex); }
        return {addr(), g, l, loc(), filt()};
    }
    vector<int> cat(vector<int> a, const vector<int> &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
    void std_(int P, int S, const vector<int> &x, int64_t f = 0) { add("std", cat({P, S}, x), f); }
    void srf(int P, int S, const vector<int> &x, int n, int64_t f = 0) { auto a = cat({P, S}, x); a.push_back(n); add("srf", a, f); }
    // ---------------------------------------------------------------- SQL sessions
    struct W { int std_, srf, next, rescan, comp, close, cancel, save, rel, rb, commit, abort_, badctx, tri, many; };
    void sql(const W &w, int nops, int nport, int badpct, int faultpct = 0) {
        p.exec = "sql";
        if (!faultpct && (big ? r.chance(40) : r.chance(2))) nops = nops * r.range(3, 7);        // long sessions
        if (!faultpct && r.chance(3)) { nport = r.range(9, 24); nops = nops * 3; }               // many open queries
        int tot = w.std_ + w.srf + w.next + w.rescan + w.comp + w.close + w.cancel + w.save + w.rel + w.rb + w.commit + w.abort_ + w.badctx + w.tri + w.many;
        int P = 0, S = 0;
        for (int i = 0; i < nops; ++i) {
            if (r.chance(60)) P = r.below(nport);
            if (r.chance(40)) S = r.below(2);
            int64_t f = faultpct && r.chance(faultpct) ? -1 : 0;
            int k = r.below(tot);
            if ((k -= w.std_) < 0) std_(P, r.chance(85) ? 0 : 1, args(badpct), f);
            else if ((k -= w.srf) < 0) srf(P, S, args(badpct), r.chance(30) ? 999 : r.below(5), f);
            else if ((k -= w.next) < 0) add("next", {P, S, r.chance(20) ? 999 : r.range(1, 3)}, f);
            else if ((k -= w.rescan) < 0) add("rescan", {P, S});
            else if ((k -= w.comp) < 0) add("comp", {P, r.chance(badpct + 5) ? r.pick(u->badlex) : r.pick(u->goodlex)}, f);
            else if ((k -= w.close) < 0) add("close", {P});
            else if ((k -= w.cancel) < 0) add("cancel", {P});
            else if ((k -= w.save) < 0) add("save", {});
            else if ((k -= w.rel) < 0) add("rel", {});
            else if ((k -= w.rb) < 0) add("rb", {});
            else if ((k -= w.commit) < 0) add("commit", {r.below(8)});
            else if ((k -= w.abort_) < 0) add("abort", {r.below(8)});
            else if ((k -= w.badctx) < 0) add("badctx", cat({P, r.below(3)}, args(badpct)), 0);
            else if ((k -= w.tri) < 0) { auto x = cat({P}, args(badpct)); x.push_back(r.below(8)); add("tri", x); }
            else { auto x = cat({P, r.chance(60) ? r.below(2) : 2 + r.below(2)}, args()); x.push_back(r.chance(50) ? 1 : r.range(2, 6)); x.push_back(r.chance(25) ? 0 : r.chance(50) ? 1 : r.range(2, 97)); add("many", x); }
        }
    }
    // a function with an exception block: one call site, some of whose pairs never load, survives their errors
    void block(int nops, int badpct) {
        p.exec = "sql"; p.sched |= 2; pairs.clear();
        int ng = r.chance(40) ? r.range(4, 5) : r.range(1, 5); hot(ng, 0, 10);
        vector<std::pair<int,int>> bad; for (int i = 0, n = r.range(1, 2); i < n; ++i) { auto q = r.pick(pairs); if (r.chance(50)) q.first = r.pick(u->badlex); else q.second = r.pick(u->badgmr); bad.push_back(q); }
        add("save", {}); int a = addr(), c = loc(), f = filt(), S = 0;
        for (int i = 0; i < nops; ++i) {
            if (r.chance(2)) { add(r.chance(50) ? "rel" : "rb", {}); add("save", {}); }
            if (r.chance(4)) add("close", {1});
            if (r.chance(5)) S = !S;
            if (r.chance(15)) { a = addr(); c = loc(); f = filt(); }
            auto &q = r.chance(badpct) ? r.pick(bad) : r.pick(pairs);
            std_(1, S, {a, q.second, q.first, c, f});
        }
    }
    // objects of almost equal texts that take each other's place
    void respawn(int n) {
        p.exec = "api"; p.quar = r.chance(75) ? 0 : 4096; int l = u->twins[0], s = r.below(3), a = r.below((int)u->addr.size()); add("loadg", {0, r.pick(u->goodgmr)});
        int c = loc(), f = filt(), gi = r.pick(u->goodgmr);
        for (int i = 0; i < n; ++i) {
            if (!i || r.chance(60)) { if (i) add("freel", {s}); if (r.chance(8)) s = r.below(3); l = r.chance(80) ? u->twins[(size_t)(l == u->twins[0])] : r.pick(u->goodlex); add("loadl", {s, l}); }
            if (r.chance(30)) a = r.chance(85) ? (int)u->addr.size() - 1 - r.below(2) : addr();
            if (r.chance(12)) { c = loc(); f = filt(); }
            if (r.chance(10)) { add("freeg", {0}); add("loadg", {0, gi = r.pick(u->goodgmr)}); }
            int k = r.below(10);
            if (k < 5) add("parsep", {s, 0, a, c, f}); else if (k < 8) add("stdp", {s, 0, a, c, f}); else if (k == 8) add("stdt", {a, gi, l, c, f}); else add("md5l", {s});
        }
    }
    // ---------------------------------------------------------------- C API processes
    struct AW { int loadl, loadg, freel, freeg, stdp, parsep, stdt, parset, matcht, comp, md5, hold, drop, many; };
    void api(const AW &w, int nops, int badpct, int faultpct = 0) {
        p.exec = "api";
        if (!faultpct && (big ? r.chance(40) : r.chance(2))) nops = nops * r.range(3, 7);
        int tot = w.loadl + w.loadg + w.freel + w.freeg + w.stdp + w.parsep + w.stdt + w.parset + w.matcht + w.comp + w.md5 + w.hold + w.drop + w.many;
        bool hl[4] = {}, hg[4] = {};
        auto slot = [&](bool *h) { for (int i = 0; i < 6; ++i) { int s = r.below(4); if (h[s]) return s; } return r.below(4); };
        auto lexi = [&] { return r.chance(badpct) ? (r.chance(25) ? r.pick(u->faillex) : r.pick(u->badlex)) : args()[2]; };
        auto gmri = [&] { return r.chance(badpct) ? r.pick(u->badgmr) : args()[1]; };
        for (int i = 0; i < nops; ++i) {
            int64_t f = faultpct && r.chance(faultpct) ? -1 : 0;
            if (i < 2 && r.chance(70)) { int s = r.below(4); if (i == 0) { add("loadl", {s, args()[2]}, f); hl[s] = true; } else { add("loadg", {s, args()[1]}, f); hg[s] = true; } continue; }
            int k = r.below(tot);
            if ((k -= w.loadl) < 0) { int s = r.below(4); add("loadl", {s, lexi()}, f); hl[s] = true; }
            else if ((k -= w.loadg) < 0) { int s = r.below(4); add("loadg", {s, gmri()}, f); hg[s] = true; }
            else if ((k -= w.freel) < 0) {
                int s = slot(hl); add("freel", {s}); hl[s] = false;
                if (r.chance(50)) { auto x = args(); add("loadl", {s, x[2]}, f); hl[s] = true; if (r.chance(50)) add("parsep", {s, 0, x[0], x[3], x[4]}, f); else add("stdp", {s, slot(hg), x[0], x[3], x[4]}, f); }
            }
            else if ((k -= w.freeg) < 0) { int s = slot(hg); add("freeg", {s}); hg[s] = false; }
            else if ((k -= w.stdp) < 0) add("stdp", {slot(hl), slot(hg), addr(), loc(), filt()}, f);
            else if ((k -= w.parsep) < 0) add("parsep", {slot(hl), 0, addr(), loc(), filt()}, f);
            else if ((k -= w.stdt) < 0) add("stdt", args(badpct), f);
            else if ((k -= w.parset) < 0) add("parset", args(badpct), f);
            else if ((k -= w.matcht) < 0) add("matcht", args(badpct), f);
            else if ((k -= w.comp) < 0) add("comp", {lexi()}, f);
            else if ((k -= w.md5) < 0) { int m = r.below(3); if (m == 0) add("md5l", {slot(hl)}, f); else if (m == 1) add("md5g", {slot(hg)}, f); else add("md5t", {lexi()}, f); }
            else if ((k -= w.hold) < 0) add("hold", {});
            else if ((k -= w.many) < 0) { auto x = args(); add("many", {slot(hl), slot(hg), r.below(4), x[0], x[3], x[4], r.chance(20) ? 0 : r.chance(50) ? 1 : r.range(2, 97), x[1], x[2]}); }
            else add("drop", {r.below(30)});
        }
    }
};

static void p_cut(Gen &g, int n) {
    Rng &r = g.r; g.p.exec = "api"; int base = r.pick(g.u->complex_); bool loaded = false;
    for (int i = 0; i < n; ++i) {
        if (r.chance(12)) base = r.pick(g.u->complex_);
        auto x = g.args();
        if (r.chance(80)) g.add("cut", {base, r.below(100000), r.chance(10) ? 8 + r.below(2) : r.below(4), r.below(6), x[0], x[1], x[3], x[4]});
        else if (!loaded || r.chance(20)) { g.add("loadl", {0, base}); g.add("loadg", {0, x[1]}); loaded = true; }
        else if (r.chance(60)) g.add("stdp", {0, 0, x[0], x[3], x[4]});
        else { x[2] = base; g.add("stdt", x); }
    }
}
// edits and uses of lexicon objects
static void p_lex(Gen &g, int n, int editpct, int genpct, int faultpct) {
    Rng &r = g.r; g.p.exec = "lex"; bool open[3] = {};
    // few words, so that edits meet
    vector<int> words; for (int i = 0, k = r.range(2, 8); i < k; ++i) words.push_back(r.below((int)g.u->pool.size()));
    auto slot = [&] { for (int i = 0; i < 6; ++i) { int s = r.below(3); if (open[s]) return s; } return 0; };
    int nslots = r.range(1, 3);
    for (int i = 0; i < n; ++i) {
        if (i == 0 || r.chance(4)) { int s = r.below(nslots); g.add("base", {s, r.below(3), r.below(20)}); open[s] = true; continue; }
        int s = slot(), k = r.below(100); int64_t f = faultpct && r.chance(faultpct) ? -1 : 0;
        if (k < editpct) {
            int m = r.below(10);
            if (m < 4) g.add("ins", {s, r.pick(words), r.below(3), g.addr()}, f);
            else if (m < 6) g.add("rem", {s, r.pick(words), r.below(3), g.addr()}, f);
            else if (m < 8) g.add("remp", {s, r.below(40), r.below(3), g.addr(), r.chance(80) ? 0 : r.below(6)}, f);
            else g.add("insp", {s, r.below(40), r.below(3), g.addr(), r.chance(30) ? 0 : r.below(6)}, f);
        }
        else if (k < editpct + 12 && r.chance(35)) {       // a second entry for a word comes and goes
            static const int at[] = {2, 4, 6, 6, 7, 8, 1, 3}; int e = r.chance(50) ? r.below(40) : 1000 + r.below(4), v = at[r.below(8)], a = g.addr();
            auto look = [&] { for (int h = 1; h <= 3; ++h) if (r.chance(70)) g.add("parse", {s, 1000, g.loc(), g.filt(), h}); };
            g.add("insp", {s, e, r.below(3), a, v}, f); look(); g.add(r.chance(85) ? "remp" : "insp", {s, 1000, r.below(3), a, r.chance(85) ? 0 : 6}, f); for (int h = 1; h <= 3; ++h) if (r.chance(70)) g.add("parse", {s, e < 1000 ? e * 7 : e, g.loc(), g.filt(), h});
        }
        else if (k < editpct + genpct) { if (r.chance(75)) g.add("gen", {s, r.below(2)}); else { int d = r.below(3); g.add("copy", {s, d, r.below(2)}); if (d != s) open[d] = true; } }
        else if (k > 97) { int d = r.below(3); g.add("close", {d}); open[d] = false; }
        else if (r.chance(6)) g.add("gram", {0, r.below(10)});
        else switch (r.below(8)) {
            case 0: g.add("rx", {s, r.below(8)}); break;
            case 1: g.add("find", {s, r.below(2) ? r.pick(words) : r.below(50), r.below(2)}); break;
            case 2: case 3: g.add("std", {s, g.addr(), g.loc(), g.filt(), r.below(6)}); break;
            case 4: g.add("tok", {s, g.addr(), 0, g.filt()}); break;
            default: g.add("parse", {s, r.chance(60) ? g.addr() : r.below(400), g.loc(), g.filt(), r.below(10)});
        }
    }
}
static Plan gen_plan_(const string &prop, uint64_t seed, bool thorough) {
    Gen g(prop, seed, thorough); Rng &r = g.r;
    int scale = thorough ? 2 : 1;
    //           std srf next resc comp close canc save rel rb comm abrt badc tri
    if (prop == "C01") { g.world(1); g.hot(r.range(2, 8), r.range(1, 4)); if (r.chance(8)) g.block(r.range(8, 36) * scale, r.range(5, 60)); else g.sql({120, 10, 12, 2, 2, 10, 4, 6, 4, 4, 2, 2, 2, 0, 1}, r.range(8, 36) * scale, r.range(1, 4), r.chance(40) ? 6 : 0); }
    else if (prop == "C02") { g.world(1); g.hot(r.range(1, 8), r.range(1, 3)); if (r.chance(20)) g.block(r.range(8, 30) * scale, r.range(5, 60)); else g.sql({110, 0, 0, 0, 0, 14, 8, 8, 4, 6, 4, 4, 2, 0, 1}, r.range(6, 30) * scale, r.range(1, 5), r.chance(30) ? 6 : 0); }
    else if (prop == "C03") { g.world(1); g.hot(r.range(1, 5), r.range(1, 3)); if (r.chance(35)) g.block(r.range(8, 30) * scale, r.range(10, 60)); else g.sql({50, 12, 8, 1, 6, 4, 1, 12, 2, 2, 1, 1, 2, 0, 0}, r.range(5, 24) * scale, r.range(1, 4), 30); }
    else if (prop == "C05") { g.world(r.chance(50) ? 0 : 1); g.hot(r.range(1, 6), r.range(1, 2)); g.sql({40, 12, 10, 2, 4, 5, 1, 12, 1, 1, 1, 1, 0, 0, 0}, r.range(3, 14) * scale, r.range(1, 3), r.chance(35) ? 15 : 0, 60); }
    else if (prop == "C06") { g.world(1); g.hot(r.range(1, 4), r.range(1, 5)); g.sql({6, 28, 60, 6, 0, 4, 1, 2, 1, 1, 1, 0, 0, 0, 0}, r.range(8, 40) * scale, r.range(1, 5), 0); }
    else if (prop == "C07") { g.world(1); g.hot(r.range(1, 4), r.range(1, 3)); g.sql({12, 40, 20, 6, 6, 8, 6, 5, 2, 4, 2, 3, 6, 0, 0}, r.range(3, 20) * scale, r.range(1, 5), r.chance(50) ? 12 : 0); }
    else if (prop == "C16") { g.world(1); g.hot(r.range(1, 6), r.range(1, 5)); g.sql({12, 8, 8, 1, 1, 4, 1, 2, 1, 1, 1, 1, 0, 60, 0}, r.range(5, 20) * scale, r.range(1, 3), r.chance(25) ? 5 : 0); }
    //                 ldl ldg frl frg stdp parp stdt part matt comp md5 hold drop
    else if (prop == "C04") {
        g.world(r.chance(60) ? 0 : 1); g.hot(r.range(1, 3), r.range(1, 2));
        if (g.p.usize == 5 && r.chance(70)) {          // every rung once
            g.p.exec = "api"; int a = r.chance(75) ? 0 : g.addr(), gm = r.pick(g.u->goodgmr), c = g.loc(), f = g.filt(), w = r.chance(15) ? 2 : r.below(2); auto lx = g.u->goodlex; for (size_t i = lx.size(); i > 1; --i) std::swap(lx[i - 1], lx[(size_t)r.below((int)i)]);
            if (w == 1) g.add("loadg", {0, gm}, -1);
            for (int l : lx) { if (w < 2) g.add("loadl", {0, l}, -1); if (w == 1) { g.add("stdp", {0, 0, a, c, f}, -1); g.add("parsep", {0, 0, a, c, f}); } else if (w == 0) g.add("parsep", {0, 0, a, c, f}, -1); else g.add("stdt", {a, gm, l, c, f}, -1); }
            return g.p;
        }
        g.api({14, 9, 4, 3, 24, 14, 8, 6, 8, 8, 6, 3, 3}, r.range(2, 10) * scale, r.chance(30) ? 15 : 0, 60); }
    else if (prop == "C08") { g.world(1); g.hot(r.range(1, 4), r.range(1, 4)); g.api({10, 8, 5, 4, 16, 10, 10, 8, 10, 7, 6, 6, 6, 1}, r.range(3, 24) * scale, r.chance(70) ? 35 : 10); }
    else if (prop == "C09") { g.world(1); g.hot(r.range(1, 4), r.range(1, 6)); if (r.chance(12)) { p_lex(g, r.range(6, 30) * scale, 6, 3, 0); return g.p; } if (!g.u->twins.empty() && r.chance(30)) { g.respawn(r.range(4, 20) * scale); return g.p; } g.api({7, 5, 3, 2, 44, 24, 3, 3, 4, 3, 2, 2, 2, 1}, r.range(8, 50) * scale, r.chance(40) ? 10 : 0); }
    else if (prop == "C10") {
        g.world(1); g.hot(r.range(1, 4), r.range(1, 4), 55);
        int m = r.below(10);
        if (m < 2) p_lex(g, r.range(4, 24) * scale, 18, 30, 0);
        else if (m < 6) g.api({10, 5, 3, 2, 22, 14, 8, 8, 10, 10, 0, 2, 2}, r.range(6, 30) * scale, 0);
        else g.sql({40, 16, 10, 1, 12, 4, 1, 2, 1, 1, 1, 0, 0, 0, 0}, r.range(6, 24) * scale, r.range(1, 3), 0);
    }
    else if (prop == "C15") { g.world(r.chance(50) ? 0 : 1); g.hot(r.range(1, 2), r.range(1, 3)); p_lex(g, r.range(4, 30) * scale, 45, 8, r.chance(60) ? 70 : 0); }
    else if (prop == "C17") {
        g.world(1); g.hot(r.range(1, 6), r.range(1, 5));
        if (r.chance(60)) g.sql({20, 6, 6, 1, 3, 3, 1, 2, 1, 1, 1, 1, 0, 0, 20}, r.range(3, 14) * scale, r.range(1, 3), r.chance(25) ? 6 : 0);
        else g.api({14, 10, 2, 2, 8, 6, 3, 3, 3, 3, 2, 1, 1, 24}, r.range(4, 12) * scale, r.chance(25) ? 10 : 0);
    }
    else if (prop == "C12") {
        g.world(r.chance(40) ? 0 : 1); g.hot(r.range(1, 3), r.range(1, 3)); g.p.exec = "file";
        static const vector<int> ch = {0, 0, 1, 2, 3, 7, 16, 33, 100, 511, 512, 4096};
        for (int i = 0, n = r.range(3, 14) * scale; i < n; ++i) {
            int what = r.below(3), item = what == 1 ? (r.chance(90) ? r.pick(g.u->goodgmr) : r.pick(g.u->badgmr)) : (r.chance(90) ? r.pick(g.u->goodlex) : r.pick(g.u->badlex));
            int way = r.chance(46) ? 0 : r.chance(60) ? 1 : r.chance(60) ? 2 : 3 + r.below(2), mode = r.chance(65) ? r.range(1, 7) : r.chance(85) ? 0 : r.range(8, 10);
            g.add("load", {what, item, way, r.pick(ch), r.chance(70) ? 0 : r.range(2, 5), r.below(100000), mode, g.addr(), r.below(20), g.loc(), g.filt(), r.chance(75) ? 0 : r.range(1, 399)});
        }
    }
    else if (prop == "C14") {
        g.world(r.chance(60) ? 0 : 1); g.hot(1, r.range(1, 3)); g.p.exec = "tool";
        for (int i = 0, n = r.range(1, 4) * scale; i < n; ++i) {
            vector<int> a = {r.chance(92) ? r.pick(g.u->goodlex) : r.pick(g.u->badlex), r.chance(50) ? 0 : r.chance(60) ? r.range(20, 150) : r.range(150, 500), g.addr(), g.loc(), g.filt()};
            bool rf = r.chance(25), wf = !rf || r.chance(10);
            auto pol = [&](bool f, int bit) { a.push_back((f ? r.range(2, 11) : 0) + bit); a.push_back(r.below(100000)); static const vector<int> ch = {0, 0, 0, 1, 7, 100, 512, 1000, 4096}; a.push_back(r.pick(ch)); a.push_back(r.chance(70) ? 0 : r.range(2, 5)); };
            bool oom = r.chance(30); if (oom && r.chance(70)) rf = wf = false;
            pol(rf, r.below(2) * 16); pol(wf && r.chance(93), 0);
            if (oom) { int m = 1 << r.range(3, 16); a.push_back(m + r.below(m)); }
            if (r.chance(20)) { a.resize(14); a.push_back(r.range(1, 3)); a.push_back(r.below(7)); a.push_back(r.below(2)); }      // renames and the like
            g.add("tool", a);
        }
    }
    else if (prop == "C13") {
        // 2-4 threads; thread 0 loads the grammars that the others share
        g.world(r.chance(85) ? 0 : 1); g.hot(r.range(1, 4), r.range(1, 4)); g.p.exec = "thr"; g.p.quar = r.chance(50) ? 4096 : 16;
        int nt = r.chance(60) ? 2 : r.range(2, 4); bool sg[4] = {};
        for (int i = 0, n = r.below(3); i < n; ++i) { int s = r.below(2); g.add("0:loadg", {s, g.args()[1]}); sg[s] = true; }
        if (r.chance(35)) {             // the same call in every thread, with one argument of its own
            auto x = g.args(); int what = r.below(3), fn = r.below(4); static const char *fns[] = {"stdt", "parset", "matcht", "stdt"};
            if (what == 0) for (int i = 0; i < 12 && g.u->addr[(size_t)x[0]].find('i') == string::npos; ++i) x[0] = r.below((int)g.u->addr.size());
            int off = r.below((int)g.u->loc.size()), k = r.range(1, 3) * scale;
            for (int t = 1; t <= nt; ++t) {
                string T = std::to_string(t) + ":"; auto y = x;
                if (what == 0) y[3] = t == 1 ? 2 : (off + t) % (int)g.u->loc.size();
                else if (what == 1) { y[2] = r.pick(g.u->goodlex); y[1] = r.pick(g.u->goodgmr); }
                else { y[0] = r.below((int)g.u->addr.size()); y[4] = r.below((int)g.u->filt.size()); }
                if (fn == 3 && !g.p.ops.empty()) { g.add(T + "loadl", {0, y[2]}); for (int i = 0; i < k; ++i) g.add(T + (r.chance(70) ? "stdp" : "parsep"), {0, g.p.ops[0].a[0], y[0], y[3], y[4]}); }
                else for (int i = 0; i < k; ++i) g.add(T + fns[fn], y);
            }
            return g.p;
        }
        bool same = r.chance(30);       // the same work in every thread
        vector<std::pair<string, vector<int>>> first;
        for (int t = 1; t <= nt; ++t) {
            string T = std::to_string(t) + ":"; bool hl[4] = {}, hg[4] = {sg[0], sg[1]};
            if (t > 1 && same) { for (auto &x : first) g.add(T + x.first, x.second); continue; }
            auto put = [&](const string &n, const vector<int> &a) { g.add(T + n, a); if (t == 1) first.push_back({n, a}); };
            auto slot = [&](bool *h) { for (int i = 0; i < 8; ++i) { int s = r.below(4); if (h[s]) return s; } return -1; };
            int n = (r.chance(50) ? r.range(1, 2) : r.range(2, 5)) * scale, bad = r.chance(25) ? 20 : 3;
            auto any = [&] { return r.chance(50) ? g.loc() : r.below((int)g.u->loc.size()); };
            for (int i = 0; i < n; ++i) {
                int k = r.below(20), l = slot(hl), gm = slot(hg);
                if (k < 9 && (l < 0 || (k < 2))) { int s = r.below(4); put("loadl", {s, r.chance(bad) ? r.pick(g.u->badlex) : g.args()[2]}); hl[s] = true; if (r.chance(70)) --i; }
                else if (k < 7) { if (gm < 0) { int s = 2 + r.below(2); put("loadg", {s, g.args()[1]}); hg[s] = true; gm = s; } put("stdp", {l, gm, g.addr(), any(), g.filt()}); }
                else if (k < 9) put("parsep", {l, 0, g.addr(), any(), g.filt()});
                else if (k < 12) { auto x = g.args(bad); x[3] = any(); put("stdt", x); }
                else if (k < 14) { auto x = g.args(bad); x[3] = any(); put("parset", x); }
                else if (k < 16) { auto x = g.args(bad); x[3] = any(); put("matcht", x); }
                else if (k == 16) put("comp", {r.chance(bad) ? r.pick(g.u->badlex) : g.args()[2]});
                else if (k == 17) put("md5t", {g.args()[2]});
                else if (k == 18) { if (gm >= 0 && r.chance(50)) put("md5g", {gm}); else if (l >= 0) put("md5l", {l}); else put("loadg", {2 + r.below(2), r.chance(bad) ? r.pick(g.u->badgmr) : g.args()[1]}); }
                else if (l >= 0 && r.chance(50)) { put("freel", {l}); hl[l] = false; }
                else if (gm >= 2) { put("freeg", {gm}); hg[gm] = false; }
                else put("parset", g.args(bad));
            }
        }
    }
    else if (prop == "C11") {
        g.world(r.chance(50) ? 0 : 1); g.hot(r.range(1, 2), r.range(1, 3)); p_cut(g, r.range(4, 24) * scale);
    }
    else { fprintf(stderr, "no generator for %s\n", prop.c_str()); exit(99); }
    return g.p;
}
Plan gen_plan(const string &prop, uint64_t seed, bool thorough) {
    Plan p = gen_plan_(prop, seed, thorough);
    if (p.exec == "thr") {              // memory runs out in one call of one thread
        Rng q(seed ^ 0x7fa17); vector<size_t> at; for (size_t i = 0; i < p.ops.size(); ++i) if (p.ops[i].name[0] != '0' && p.ops[i].name[1] == ':' && p.ops[i].name.substr(2, 4) != "free") at.push_back(i);
        if (q.chance(25) && !at.empty()) { int m = 1 << q.range(0, 12); p.ops[q.pick(at)].fault = (int64_t)(m + q.below(m)) | (q.chance(20) ? (int64_t)3 << 32 : 0); }
    }
    return p;
}
