// Generated worlds: families of near-identical lexicons and grammars, broken ones,
// compiled / outdated / torn ones, addresses, locales and filters.
#include "engine.h"
#include <cstdlib>
using std::string; using std::vector;

string entry_line(const LexSpecEntry &e) {
    string s = "LEXENTRY:\t" + e.word + "\t" + e.std + "\t";
    for (size_t i = 0; i < e.cls.size(); ++i) s += (i ? "," : "") + e.cls[i];
    if (!e.att.empty()) s += "\t" + e.att;
    return s;
}
string lex_text(const LexSpec &s, const string &name) {
    string t = "LEXICON:\t" + name + "\t" + s.lang + "\t" + s.locale + "\t\n";
    for (auto &e : s.e) t += entry_line(e) + "\n";
    return t;
}
static const vector<LexSpecEntry> &vocabulary() {
    static const vector<LexSpecEntry> v = {
        {"ST", "STREET", {"TYPE"}, ""}, {"ST", "SAINT", {"WORD", "STOPWORD"}, ""}, {"STREET", "STREET", {"TYPE"}, ""},
        {"AVE", "AVENUE", {"TYPE"}, "DET_SUF"}, {"AV", "AVENUE", {"TYPE", "WORD"}, ""}, {"RD", "ROAD", {"TYPE"}, ""}, {"BLVD", "BOULEVARD", {"TYPE"}, ""},
        {"STRASSE", "STRASSE", {"TYPE"}, "ATT_SUF,DET_SUF"}, {"STR", "STRASSE", {"TYPE"}, "ATT_SUF"}, {"GASSE", "GASSE", {"TYPE"}, "ATT_SUF"}, {"WEG", "WEG", {"TYPE"}, "DET_SUF,ATT_SUF"},
        {"RUE", "RUE", {"TYPE"}, "DET_PRE"}, {"NEU", "NEU", {"QUALIF"}, "ATT_PRE"}, {"OLD", "OLD", {"QUALIF", "WORD"}, ""}, {"ALT", "ALT", {"QUALIF"}, "ATT_PRE,DET_PRE"},
        {"N", "NORTH", {"DIRECT"}, ""}, {"S", "SOUTH", {"DIRECT", "SINGLE"}, ""}, {"NW", "NORTHWEST", {"DIRECT"}, ""}, {"EAST", "EAST", {"DIRECT", "WORD"}, ""},
        {"APT", "APARTMENT", {"UNITH"}, ""}, {"UNIT", "UNIT", {"UNITH"}, ""}, {"#", "#", {"UNITH", "STOPWORD"}, ""},
        {"PO BOX", "PO BOX", {"BOXH"}, ""}, {"BOX", "BOX", {"BOXH", "WORD"}, ""},
        {"SPRINGFIELD", "SPRINGFIELD", {"CITY"}, ""}, {"NEW YORK", "NEW YORK", {"CITY", "PROV"}, ""}, {"K\xC3\x96LN", "KOLN", {"CITY"}, ""}, {"PARIS", "PARIS", {"CITY", "WORD"}, ""},
        {"MA", "MASSACHUSETTS", {"PROV"}, ""}, {"CA", "CALIFORNIA", {"PROV", "WORD"}, ""}, {"NY", "NEW YORK", {"PROV"}, ""},
        {"USA", "USA", {"NATION"}, ""}, {"THE", "THE", {"STOPWORD"}, ""}, {"1ST", "FIRST", {"ORD", "WORD"}, ""}, {"SECOND", "2ND", {"ORD"}, ""},
        {"OLD MILL", "OLD MILL", {"WORD"}, ""}, {"MILL", "MILL", {"WORD", "TYPE"}, ""}, {"OAK LANE", "OAK LN", {"WORD"}, ""}, {"LANE", "LANE", {"TYPE"}, ""},
        {"\xC3\x89" "COLE", "ECOLE", {"WORD"}, ""}, {"1/2", "HALF", {"FRACT"}, ""}, {"MAIN", "MAIN", {"WORD"}, ""}, {"&", "AND", {"AMPERS", "WORD"}, ""}, {"C++", "CPP", {"WORD"}, ""},
        {"RR", "RURAL ROUTE", {"RR"}, ""}, {"ST JAMES", "SAINT JAMES", {"WORD"}, ""}, {"JAMES", "", {"WORD"}, ""}, {"HAUPT", "HAUPT", {"WORD"}, "ATT_PRE"},
        {"TOWER", "TOWER", {"BUILDT"}, ""}, {"BUILDING", "BUILDING", {"BUILDH", "WORD"}, ""}, {"DE", "GERMANY", {"NATION", "DOUBLE"}, ""}, {"FINLAND", "FINLAND", {"NATION"}, ""}, {"MILE", "MILE", {"MILE", "WORD"}, ""}, {"CENTRAL PARK", "CENTRAL PARK", {"PLACEN"}, ""},
    };
    return v;
}
static LexSpec gen_spec(Rng &r, int n) {
    static const vector<std::pair<string, string>> ll = {{"en_US", "ENG"}, {"de_DE", "GER"}, {"fr_FR", "FRE"}, {"en_AU", "ENG"}, {"tr_TR", "TUR"}, {"", "ENG"}, {"en", "UNKNOWN"}};
    LexSpec s; auto &l = ll[r.chance(60) ? 0 : r.below((int)ll.size())]; s.locale = l.first; s.lang = l.second;
    auto &v = vocabulary();
    for (int i = 0; i < n; ++i) {
        LexSpecEntry e = r.chance(35) ? v[r.below(3)] : r.pick(v);
        if (r.chance(10)) e.cls.push_back(r.chance(50) ? "WORD" : "CITY");
        bool dup = false; for (auto &x : s.e) if (x.word == e.word && x.std == e.std) dup = true;
        if (!dup) s.e.push_back(e);
    }
    static const char *const rare[] = {"BOXH", "QUALIF", "UNITH", "DIRECT", "RR", "BUILDT", "STOPWORD"};
    for (int k = n > 1 ? r.below(4) : 0; k > 0; --k) { string c = rare[r.below(7)]; vector<const LexSpecEntry*> m; for (auto &x : v) if (x.cls[0] == c) m.push_back(&x); const LexSpecEntry &e = *r.pick(m); bool dup = false; for (auto &x : s.e) if (x.word == e.word) dup = true; if (!dup) s.e.push_back(e); }
    if (n > 1 && r.chance(10)) {        // a word of many entries
        string w = s.e[(size_t)r.below((int)s.e.size())].word; int k = r.range(3, 10); static const char *const c[] = {"WORD", "TYPE", "CITY", "PROV", "DIRECT", "QUALIF", "BUILDT", "STOPWORD"};
        for (int i = 0; i < k; ++i) s.e.push_back({w, w + (char)('A' + i), {c[r.below(8)]}, r.chance(15) ? "ATT_SUF" : ""});
    }
    return s;
}
// a variant that differs in one place, often without changing the length of the text
static LexSpec vary(Rng &r, const LexSpec &b) {
    LexSpec s = b;
    if (s.e.empty()) { s.e.push_back(r.pick(vocabulary())); return s; }
    LexSpecEntry &e = s.e[r.below((int)s.e.size())];
    switch (r.below(10)) {
        case 9: { size_t k = e.word.size(); while (k-- > 0) if (e.word[k] >= 'A' && e.word[k] <= 'Z') { e.word[k] = e.word[k] == 'Q' ? 'R' : 'Q'; break; } break; }      // another word of the same length
        case 5: { static const char *at[] = {"", "ATT_SUF", "ATT_PRE", "DET_SUF", "ATT_SUF,DET_SUF", "DET_PRE"}; string o = e.att; while (e.att == o) e.att = at[r.below(6)]; break; }
        case 6: { size_t k = e.std.find(' '); if (k != string::npos) { if (r.chance(50)) e.std.erase(k, 1); else e.std[k] = '-'; } else if (e.std.size() > 2) e.std.insert(1 + (size_t)r.below((int)e.std.size() - 1), r.chance(70) && e.std.find_first_not_of("ABCDEFGHIJKLMNOPQRSTUVWXYZ") == string::npos ? " " : "-"); break; }
        case 7: if (r.chance(60)) { static const char *lo[] = {"en_US", "tr_TR", "de_DE", ""}; s.locale = lo[r.below(4)]; } else s.lang = s.lang == "ENG" ? "GER" : "ENG"; break;
        case 8: if (s.e.size() > 1) { size_t a = (size_t)r.below((int)s.e.size()), c = (size_t)r.below((int)s.e.size()); std::swap(s.e[a], s.e[c]); } break;
        case 0: case 1: if (!e.std.empty()) { size_t k = r.chance(50) ? e.std.size() - 1 : (size_t)r.below((int)e.std.size()); unsigned char c = (unsigned char)e.std[k]; if (c >= 'A' && c <= 'Z') e.std[k] = c == 'X' ? 'Y' : 'X'; else e.std += "X"; } else e.std = "X"; break;
        case 2: for (auto &c : e.cls) { if (c == "TYPE") { c = "WORD"; break; } if (c == "WORD") { c = "TYPE"; break; } if (c == "CITY") { c = "PROV"; break; } } break;
        case 3: s.e.push_back(r.pick(vocabulary())); break;
        case 4: if (s.e.size() > 1) s.e.pop_back(); break;
    }
    return s;
}
struct Sec { string name; bool meta; vector<string> lines; };
static string gtext(const vector<Sec> &g) { string t = "# grammar\n"; for (auto &s : g) { t += "[" + s.name + "]\n"; for (auto &l : s.lines) t += l + "\n"; t += "\n"; } return t; }
static vector<Sec> gen_grammar(Rng &r) {
    auto sub = [&](vector<string> v, int minn) { vector<string> o; for (auto &x : v) if (r.chance(75)) o.push_back(x); while ((int)o.size() < minn) o.push_back(v[o.size() % v.size()]); if (r.chance(30)) std::swap(o[0], o[o.size() - 1]); return o; };
    auto sc = [&](vector<string> v, int minn) { auto o = sub(v, minn); for (auto &x : o) x += " -> 0." + std::to_string(r.range(1, 9)) + (r.chance(30) ? std::to_string(r.range(1, 9)) : ""); return o; };
    vector<Sec> g;
    g.push_back({"ADDRESS", true, sub({"@micro @macro", "@micro", "@macro"}, 2)});
    g.push_back({"micro", true, sub({"@housenum @street @unit", "@housenum @street", "@street @housenum", "@street", "@pobox", "@bldng @street", "@bldng @housenum @street", "@rr", "@street @unit", "@pobox"}, 4)});
    g.push_back({"macro", true, sub({"@city @prov @postal", "@city @prov", "@city", "@postal @city", "@prov", "@city @prov @nation", "@city @nation"}, 2)});
    g.push_back({"housenum", false, sc({"NUMBER -> HOUSE", "MIXED -> HOUSE", "NUMBER FRACT -> HOUSE HOUSE", "NUMBER SINGLE -> HOUSE HOUSE", "FRACT -> HOUSE"}, 1)});
    if (r.chance(70)) {
        g.push_back({"street", false, sc({"WORD TYPE -> STREET SUFTYP", "DIRECT WORD TYPE -> PREDIR STREET SUFTYP", "TYPE WORD -> PRETYP STREET", "WORD -> STREET", "WORD WORD TYPE -> STREET STREET SUFTYP",
            "QUALIF WORD TYPE -> QUALIF STREET SUFTYP", "ORD TYPE -> STREET SUFTYP", "WORD TYPE DIRECT -> STREET SUFTYP SUFDIR", "TYPE -> STREET", "STOPWORD WORD TYPE -> IGNORE STREET SUFTYP", "QUALIF TYPE -> STREET SUFTYP", "RR NUMBER -> RR RR"}, 3)});
    } else {    // recursive name
        g.push_back({"street", true, {"@name @stype", "@pre @name @stype", "@name"}});
        g.push_back({"name", true, {"@word @name", "@word"}});
        g.push_back({"word", false, sc({"WORD -> STREET", "STOPWORD -> EXTRA", "ORD -> STREET"}, 1)});
        g.push_back({"stype", false, sc({"TYPE -> SUFTYP", "TYPE DIRECT -> SUFTYP SUFDIR"}, 1)});
        g.push_back({"pre", false, sc({"DIRECT -> PREDIR", "QUALIF -> QUALIF"}, 1)});
    }
    g.push_back({"unit", false, sc({"UNITH NUMBER -> UNITH UNITT", "UNITH SINGLE -> UNITH UNITT", "UNITH MIXED -> UNITH UNITT", "NUMBER -> UNITT"}, 1)});
    g.push_back({"pobox", false, sc({"BOXH NUMBER -> BOXH BOXT", "BOXH SINGLE -> BOXH BOXT"}, 1)});
    g.push_back({"city", false, sc({"CITY -> CITY", "WORD -> CITY", "WORD WORD -> CITY CITY"}, 1)});
    g.push_back({"prov", false, sc({"PROV -> PROV", "DOUBLE -> PROV"}, 1)});
    g.push_back({"postal", false, sc({"QUINT -> POSTAL", "PCH PCT -> POSTAL POSTAL", "NUMBER -> POSTAL", "QUAD -> POSTAL"}, 1)});
    g.push_back({"nation", false, sc({"NATION -> NATION", "WORD -> NATION"}, 1)});
    g.push_back({"bldng", false, sc({"BUILDH WORD -> BLDNG BLDNG", "WORD BUILDT -> BLDNG BLDNG", "PLACEN -> BLDNG", "WORD WORD -> BLDNG BLDNG", "WORD COMMA -> BLDNG IGNORE"}, 2)});
    g.push_back({"rr", false, sc({"RR NUMBER -> RR RR", "RR SINGLE -> RR RR", "RR -> RR", "WORD NUMBER -> EXTRA RR", "MILE NUMBER -> EXTRA EXTRA"}, 2)});
    if (r.chance(30)) g.push_back({"unused", false, {"ATSIGN -> EXTRA -> 0.1"}});
    if (r.chance(35)) for (auto &x : g) if (x.name == "street" && !x.meta) x.lines.insert(x.lines.begin() + r.below((int)x.lines.size()), "#");
    return g;
}
static vector<Sec> vary(Rng &r, vector<Sec> g) {
    vector<int> rs; for (size_t i = 0; i < g.size(); ++i) if (!g[i].meta) rs.push_back((int)i);
    Sec &s = g[r.pick(rs)]; string &l = s.lines[r.below((int)s.lines.size())];
    size_t k = l.find("-> ");
    switch (r.below(6)) {
        case 4: {                       // a rule becomes a comment, if possible by the loss of a line end only
            for (auto &x : g) for (size_t i = 0; !x.meta && i + 1 < x.lines.size() && x.lines.size() > 2; ++i) if (x.lines[i] == "#" && x.lines[i + 1][0] != '#') { x.lines[i] += x.lines[i + 1]; x.lines.erase(x.lines.begin() + (long)i + 1); return g; }
            if (s.lines.size() > 1 && l[0] != '#') { l = "# " + l; break; } }
        // fall through
        case 5: { Sec &m = g[0]; if (m.lines.size() > 1) std::swap(m.lines[0], m.lines[m.lines.size() - 1]); break; }
        case 0: case 1: {      // another outclass, often of equal length
            static const char *sw[][2] = {{"HOUSE", "UNITT"}, {"STREET", "SUFDIR"}, {"SUFTYP", "PRETYP"}, {"CITY", "PROV"}, {"PROV", "CITY"}, {"POSTAL", "STREET"}, {"UNITT", "HOUSE"}, {"BOXT", "CITY"}};
            for (auto &x : sw) { size_t p = l.find(x[0], k); if (p != string::npos) { l.replace(p, strlen(x[0]), x[1]); break; } }
            break; }
        case 2: { size_t p = l.rfind('.'); if (p != string::npos && p + 1 < l.size()) l[p + 1] = l[p + 1] == '9' ? '1' : '9'; break; }
        case 3: if (s.lines.size() > 1) s.lines.erase(s.lines.begin() + r.below((int)s.lines.size())); else l += "5"; break;
    }
    return g;
}
// text that a reader skips: short lines or one long line of about n characters
static string padding(Rng &r, int n) {
    string t; static const char *w[] = {"note", "see", "the", "old", "rules", "of", "1998", "[draft]", "ok"};
    bool onelong = r.chance(40);
    t = "#"; int col = 0;
    while ((int)t.size() < n) { t += string(" ") + w[r.below(9)]; if (!onelong && ++col % 12 == 0) t += "\n#"; }
    return t + "\n";
}
static int padsize(Rng &r) { static const int s[] = {70, 300, 1100, 2100, 4200, 8300, 17000, 66000, 131500}; return s[r.below(9)] + r.below(40); }
static string gen_addr(Rng &r, const Universe &u) {
    static const vector<string> names = {"MAIN", "Oak", "haupt", "OLD MILL", "\xC3\x89" "cole", "Washington", "ELM", "ST JAMES", "NEU", "Unterstrasse", "NEUWEG", "Altstr", "ludwig", "NEUMILLGASSE", "C++", "1ST", "THE", "HAUPTSTRASSE", "istiklal", "mississippi", "divisi\xC3\xB3n", "i"};
    static const vector<string> types = {"ST", "Ave", "Strasse", "RD", "lane", "STREET", "Weg", "blvd", "MILL"};
    static const vector<string> cities = {"Springfield", "NEW YORK", "K\xC3\xB6ln", "paris", "Foo Bar"};
    string s;
    if (r.chance(4)) { static const vector<string> odd = {"", " ", ",,,", "-", "\xE2\x80\x94", "\xFF\xFE", "@", "#", "12345", "\xC3", "A\tB", "1/2", "K1A 0B1", "$$ ??", "\xF0\x9F\x8F\xA0 7"}; return r.pick(odd); }
    auto add = [&](const string &x) { if (!s.empty()) s += r.chance(85) ? " " : r.chance(50) ? ", " : "  "; s += x; };
    int lexw = r.chance(70) && !u.lex.empty();
    if (r.chance(80)) add(r.chance(15) ? std::to_string(r.range(1, 99)) + "B" : r.chance(10) ? "12 1/2" : std::to_string(r.chance(80) ? r.range(1, 999) : r.range(1000, 99999)));
    if (r.chance(20)) add(r.chance(50) ? "N" : "East");
    if (lexw && r.chance(60)) { auto &li = u.lex[r.below((int)u.lex.size())]; if (!li.spec.e.empty() && (li.kind != LX_FAILS || li.spec.e.size() < 100)) add(li.spec.e[r.below((int)li.spec.e.size())].word); }
    if (r.chance(85)) add(r.pick(names));
    if (r.chance(75)) add(r.pick(types));
    if (r.chance(12)) add("S");
    if (r.chance(20)) add(r.chance(50) ? "APT " + std::to_string(r.range(1, 20)) : "unit B");
    if (r.chance(8)) add("PO BOX " + std::to_string(r.range(1, 500)));
    if (r.chance(35)) add(r.pick(cities));
    if (r.chance(25)) add(r.chance(50) ? "MA" : "ny");
    if (r.chance(15)) add(r.chance(60) ? "01863" : "K1A 0B1");
    if (r.chance(5)) s += " - ";
    return s;
}
// an address that the grammar derives, of words that the lexicon has or that have the shape
struct Deriver {
    std::map<string, vector<string>> sec; const LexSpec &spec;
    Deriver(const string &g, const LexSpec &l) : spec(l) {
        string cur; size_t p = 0;
        while (p < g.size()) {
            size_t q = g.find('\n', p); if (q == string::npos) q = g.size();
            string x = g.substr(p, q - p); p = q + 1; size_t h = x.find('#'); if (h != string::npos) x.resize(h);
            while (!x.empty() && (x.back() == ' ' || x.back() == '\r' || x.back() == '\t')) x.pop_back();
            if (x.empty()) continue;
            if (x[0] == '[') cur = x.substr(1, x.find(']') - 1); else sec[cur].push_back(x);
        }
    }
    void word(Rng &r, const string &c, string &o) {
        string w; vector<const string*> v;
        for (auto &e : spec.e) for (auto &k : e.cls) if (k == c && e.word.size() < 60) v.push_back(&e.word);
        static const vector<string> names = {"MAIN", "Oak", "Haupt", "Elm", "Washington", "\xC3\x89" "cole", "mississippi", "Unterstrasse", "Neumill", "istiklal", "\xCE\x91\xCE\xB8\xCE\xAE\xCE\xBD\xCE\xB1\xCF\x82", "Foo"};
        if (!v.empty() && r.chance(c == "WORD" ? 40 : 90)) w = *r.pick(v);
        else if (c == "NUMBER") w = std::to_string(r.range(1, 999)); else if (c == "MIXED") w = std::to_string(r.range(1, 99)) + "B"; else if (c == "SINGLE") w = string(1, (char)('A' + r.below(26)));
        else if (c == "DOUBLE") w = string(1, (char)('A' + r.below(26))) + "Q"; else if (c == "QUINT") w = std::to_string(r.range(10000, 99999)); else if (c == "QUAD") w = std::to_string(r.range(1000, 9999));
        else if (c == "PCH") w = "K1A"; else if (c == "PCT") w = "0B1"; else if (c == "FRACT") w = "1/2"; else if (c == "COMMA") w = ","; else if (c == "SLASH") w = "/"; else if (c == "ORD") w = "2ND"; else if (c == "WORD") w = r.pick(names); else w = "X";
        if (!o.empty() && c != "COMMA") o += " ";
        o += w;
    }
    bool has(const string &c) const {
        static const std::set<string> shape = {"NUMBER", "MIXED", "SINGLE", "DOUBLE", "QUINT", "QUAD", "PCH", "PCT", "FRACT", "COMMA", "SLASH", "ORD", "WORD"};
        if (shape.count(c)) return true;
        for (auto &e : spec.e) for (auto &k : e.cls) if (k == c && e.word.size() < 60) return true;
        return false;
    }
    bool can(const string &l, int depth) const {       // are there words for this line
        size_t p = 0, e = l.find("->"); if (e == string::npos) e = l.size();
        while (p < e) { size_t q = l.find(' ', p); if (q == string::npos || q > e) q = e; string t = l.substr(p, q - p); p = q + 1; if (t.empty()) continue;
            if (t[0] != '@') { if (!has(t)) return false; continue; }
            auto it = sec.find(t.substr(1)); if (depth > 2 || it == sec.end()) continue; bool any = false; for (auto &x : it->second) if (can(x, depth + 1)) { any = true; break; } if (!any) return false; }
        return true;
    }
    void expand(Rng &r, const string &n, int depth, int &words, string &o) {
        auto it = sec.find(n); if (it == sec.end() || it->second.empty() || words > 12) return;
        const string *pl = depth > 7 ? &it->second.back() : &r.pick(it->second); for (int k = 0; k < 6 && depth <= 7 && !can(*pl, 0); ++k) pl = &r.pick(it->second);
        const string &l = *pl; size_t p = 0, e = l.find("->"); if (e == string::npos) e = l.size();
        while (p < e) { size_t q = l.find(' ', p); if (q == string::npos || q > e) q = e; string t = l.substr(p, q - p); p = q + 1; if (t.empty()) continue; if (t[0] == '@') { if (depth < 12) expand(r, t.substr(1), depth + 1, words, o); } else { ++words; word(r, t, o); } }
    }
};
static string derive(Rng &r, const string &g, const LexSpec &l) { Deriver d(g, l); string o; int n = 0; d.expand(r, "ADDRESS", 0, n, o); return o; }
// an address that differs from a in little
static string vary_addr(Rng &r, string a) {
    if (a.empty()) return " ";
    switch (r.below(6)) {
        case 0: a += "X"; break;
        case 1: { size_t k = (size_t)r.below((int)a.size()); if (a[k] >= '0' && a[k] <= '9') a[k] = a[k] == '9' ? '1' : '9'; else if (a[k] >= 'A' && a[k] <= 'Z') a[k] = a[k] == 'Q' ? 'R' : 'Q'; else a = "9 " + a; break; }
        case 2: for (auto &c : a) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); break;
        case 3: { size_t k = a.find(' '); if (k != string::npos) { if (r.chance(50)) a.erase(k, 1); else a[k] = '-'; } else a += " 7"; break; }
        case 4: { size_t k = a.rfind(' '); if (k != string::npos) a = a.substr(k + 1) + " " + a.substr(0, k); else a = "7 " + a; break; }
        default: a = a.substr(0, a.size() - 1); while (!a.empty() && ((unsigned char)a.back() & 0xC0) == 0x80) a.pop_back();
    }
    return a;
}
// the same shape with long words and numbers
static string stretch(Rng &r, const string &a) {
    string o, w;
    auto put = [&] { if (!w.empty() && r.chance(60)) { bool dig = true, let = true; for (unsigned char c : w) { dig &= c >= '0' && c <= '9'; let &= (c | 32) >= 'a' && (c | 32) <= 'z'; } if (dig || (let && w.size() > 2)) { string x = w; size_t n = (size_t)r.range(12, 70); while (w.size() < n) w += x; } } o += w; w.clear(); };
    for (char c : a) if (c == ' ' || c == ',') put(), o += c; else w += c;
    put(); return o;
}
// long addresses: one very long word, many words, or many readings
static void long_addrs(Rng &r, Universe &u) {
    static const int sz[] = {30, 63, 127, 255, 511, 1023, 2047, 4095};
    string a;
    if (r.chance(45)) {                 // two that part late
        int n = sz[r.below(8)] + r.below(5); string w; for (int i = 0; i < n; ++i) w += (char)('A' + (i * 5 + i / 26) % 26);
        a = "12 " + w; u.addr.push_back(a + " MAIN ST"); u.addr.push_back(a + (r.chance(50) ? "Q MAIN ST" : " OAK ST"));
    } else if (r.chance(50)) {
        int n = r.range(10, 40); for (int i = 0; i < n; ++i) a += (i ? " " : "") + string(i % 3 ? "ZZ" : "MAIN") + (char)('A' + i % 26);
        u.addr.push_back(a); u.addr.push_back(a + " Z");
    } else {
        vector<string> w; for (int i : u.goodlex) for (auto &e : u.lex[(size_t)i].spec.e) if (e.cls.size() > 1 && w.size() < 20) w.push_back(e.word);
        if (w.empty()) w.push_back("ST");
        int n = r.range(3, 5); for (int i = 0; i < n; ++i) a += (i ? " " : "") + r.pick(w);
        u.addr.push_back("12 " + a); u.addr.push_back(a + " 7");
    }
}
// lexicons and grammars that the project ships
static const vector<std::pair<LexSpec, string>> &shipped() {
    static vector<std::pair<LexSpec, string>> v; static bool done = false;
    if (done) return v; done = true;
    const char *d = getenv("SIM_DATA"); if (!d || !*d) return v;
    static const char *names[] = {"finland", "denmark", "norway", "liechtenstein", "sweden", "luxembourg", "netherlands", "ireland", "newzealand", "portugal", "germany"};
    for (auto n : names) {
        auto slurp = [&](const char *ext) { string t; if (FILE *f = fopen((string(d) + "/" + n + ext).c_str(), "r")) { char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) t.append(b, k); fclose(f); } return t; };
        string l = slurp(".lex"), g = slurp(".gmr"); LexSpec s; bool ok = !l.empty() && !g.empty();
        for (size_t p = 0; ok && p < l.size();) {
            size_t q = l.find('\n', p); if (q == string::npos) q = l.size();
            string x = l.substr(p, q - p); p = q + 1; vector<string> f; string c; for (char ch : x + "\t") if (ch == '\t') { f.push_back(c); c.clear(); } else c += ch;
            if (f[0] == "LEXICON:" && f.size() >= 4) { s.lang = f[2]; s.locale = f[3]; }
            else if (f[0] == "LEXENTRY:" && f.size() >= 4 && x.find("  ") == string::npos && x.find('\r') == string::npos) { LexSpecEntry e; e.word = f[1]; e.std = f[2];
                auto plain = [](const string &t) { for (unsigned char ch : t) if (ch >= 128 || (ch >= 'a' && ch <= 'z')) return false; return t.empty() || (t[0] != ' ' && t.back() != ' '); }; if (!plain(e.word) || !plain(e.std) || e.word.empty()) continue; string w; for (char ch : f[3] + ",") if (ch == ',') { if (!w.empty()) e.cls.push_back(w); w.clear(); } else if (ch != ' ') w += ch; if (f.size() > 4) e.att = f[4]; s.e.push_back(e); }
        }
        if (ok && !s.e.empty()) v.push_back({s, g});
    }
    return v;
}
static vector<string> bad_lexicons(const string &good) {
    return {"", "garbage", "LEXENTRY:\tST\tSTREET\tTYPE\n", "LEXICON:\tx\tENG\ten_US\t\nLEXENTRY:\tST\tSTREET\tNOTACLASS\n", "LEXICON:\tx\tENG\ten_US\t\nnonsense line\n",
        good + "trailing junk", "LEX\n" + good.substr(good.find('\n') + 1), "22 serialization::archive", "\n\n\n", good + "LEXENTRY:\tFOO\tFOO\tTYPE,BADTOKEN\n"};
}
static vector<string> bad_grammars(const string &good) {
    return {"", "# only a comment\n", "[micro]\nNUMBER -> HOUSE -> 0.5\n", "[ADDRESS]\n@nothing\n", "[ADDRESS]\nNUMBER -> HOUSE\n", "[ADDRESS]\n@a\nNUMBER -> HOUSE -> 0.5\n[a]\nWORD -> STREET -> 0.4\n",
        good + "\n[ADDRESS]\n@micro\n", "WORD -> STREET -> 0.5\n" + good, "[ADDRESS]\nNUMBER WORD -> HOUSE -> 0.5\n", good + "[extra]\nWORD -> STREET -> 0\n"};
}
// pairs of lexicons and of grammars whose md5 agree in their first or last 64 bits (found by search)
static void near_fingerprints(Universe &u, Rng r, bool on) {
    static const char *const lx[2][2] = {{"CDBMFJHABLAIBCAD", "PGLNHPPKAIDENFJK"}, {"OAJBNGDHEFGIIDPE", "FFJHHPNIIAOFNBLI"}}, *const gm[2][2] = {{"CBBIIKFBLIDHANCD", "PEKFPBMKKPICMCCE"}, {"IDACFGGLKCNJMMNH", "DFONOBCBNDKMBINA"}};
    if (!on || !r.chance(12)) return;
    int k = r.below(2); bool gmr = r.chance(50);
    for (int i = 0; i < 2; ++i) if (!gmr) {
        LexItem it; it.kind = LX_GOOD; it.spec.lang = "ENG"; it.spec.locale = "en_US";
        it.spec.e = {{"ST", i ? "STRASSE" : "STREET", {"TYPE"}, ""}, {"MAIN", "MAIN", {"WORD"}, ""}, {lx[k][i], "NEAR", {"WORD"}, ""}};
        it.text = lex_text(it.spec, "near"); for (int c = 0; c < 3; ++c) u.goodlex.push_back((int)u.lex.size());
        u.lex.push_back(it);
    } else {
        string h = i ? "UNITT CITY" : "HOUSE STREET", s = i ? "CITY" : "STREET";
        u.gmr.push_back({true, "# grammar\n[ADDRESS]\n@micro\n\n[micro]\nNUMBER WORD TYPE -> " + h + " SUFTYP -> 0.5\nNUMBER WORD -> " + h + " -> 0.4\nWORD TYPE -> " + s + " SUFTYP -> 0.3\nWORD -> " + s + " -> 0.2\n\n# " + gm[k][i] + "\n"});
        for (int c = 0; c < 3; ++c) u.goodgmr.push_back((int)u.gmr.size() - 1);
    }
    u.addr[0] = "12 MAIN ST"; u.addr[u.addr.size() / 2] = "MAIN ST";
}
// pairs of lexicons that differ in upper and lower case only, or in the locale of their header
static void near_forms(Universe &u, Rng r, bool on) {
    if (!on || !r.chance(12)) return;
    bool head = r.chance(50);
    for (int i = 0; i < 2; ++i) {
        LexItem it; it.kind = LX_GOOD; it.spec.lang = "ENG"; it.spec.locale = !head ? "" : i ? "tr_TR" : "en_US"; LexSpec low = it.spec;
        if (!head) it.spec.e = {{"ST", i ? "STREET" : "Street", {"TYPE"}, ""}, {"MILL", "MILL", {"WORD", "CITY"}, ""}, {"PINE", i ? "PINE" : "Pine", {"WORD"}, "ATT_PRE"}};
        else {          // the same lines, read by the rules of two languages
            low.e = {{"St", "Street", {"TYPE"}, ""}, {"Mill", "Molen", {"WORD"}, ""}, {"Pine", "Pijnboom", {"WORD"}, ""}};
            it.spec.e = {{"ST", "STREET", {"TYPE"}, ""}, {i ? "M\xC4\xB0LL" : "MILL", "MOLEN", {"WORD"}, ""}, {i ? "P\xC4\xB0NE" : "PINE", i ? "P\xC4\xB0JNBOOM" : "PIJNBOOM", {"WORD"}, ""}};
        }
        it.text = lex_text(head ? low : it.spec, "near"); for (int c = 0; c < 3; ++c) u.goodlex.push_back((int)u.lex.size());
        u.lex.push_back(it);
    }
    u.addr[0] = "12 Mill st"; u.addr[u.addr.size() / 2] = "7 pine Mill ST";
}
Universe make_universe(uint64_t seed, int size) {
    Rng r(seed ^ 0xabcdef); Universe u; u.seed = seed; u.size = size;
    const bool ladder = size == 5; int rung = 0; if (ladder) { size = 0; Rng q(seed ^ 0x1add); rung = q.chance(80) ? q.below(26) : q.below(100); }      // lexicons that differ in the length of one word
    int nbase = size == 0 ? 1 : r.range(1, 2), nvar = ladder ? 19 : size == 0 ? 1 : r.range(2, 4);
    auto addlex = [&](LexItem x) { u.lex.push_back(x); return (int)u.lex.size() - 1; };
    auto addg = [&](bool ok, const string &t) { u.gmr.push_back({ok, t}); return (int)u.gmr.size() - 1; };
    Rng pq(seed ^ 0x9ad);
    bool ship = size == 3 && !shipped().empty();
    string lpre, gpre, gmid; 
    bool light = size == 4;
    if (light) pq = Rng(seed ^ 0x9ae);
    if (size >= 1 && !ship && !light) {
        if (pq.chance(14)) lpre = padding(pq, padsize(pq));
        if (pq.chance(14)) (pq.chance(50) ? gpre : gmid) = padding(pq, padsize(pq));
    }
    if (ship) {
        for (int b = 0; b < nbase; ++b) {
            auto &x = r.pick(shipped()); LexSpec s = x.first;
            for (int v = 0; v <= nvar / 2; ++v) { LexSpec t = v ? vary(r, s) : s; LexItem it; it.kind = LX_GOOD; it.spec = t; it.text = lex_text(t); u.goodlex.push_back(addlex(it)); }
            u.goodgmr.push_back(addg(true, x.second)); u.goodgmr.push_back(addg(true, gtext(gen_grammar(r))));
        }
    } else
    for (int b = 0; b < nbase; ++b) {
        LexSpec s = gen_spec(r, ladder ? r.range(1, 3) : size == 0 ? r.range(1, 6) : r.range(2, 14));
        for (int v = 0; v <= nvar; ++v) { LexSpec t = v && !ladder ? vary(r, s) : s; if (ladder) { string w = string((seed >> 4) % 2 ? "X" : "X Z") + string((size_t)(rung + v), 'Y'); t.e.push_back({w, v & 1 ? w : "Z", {"WORD"}, (seed >> 3) % 3 == 0 ? "ATT_SUF" : (seed >> 3) % 3 == 1 ? "ATT_PRE" : ""}); }
            LexItem it; it.kind = LX_GOOD; it.spec = t; it.text = lpre + lex_text(t); u.goodlex.push_back(addlex(it)); if (r.chance(30) && !ladder) s = t; }
    }
    if (size && r.chance(30)) { LexItem it; it.kind = LX_GOOD; it.spec.locale = "en_US"; it.spec.lang = "ENG"; it.text = lex_text(it.spec); u.goodlex.push_back(addlex(it)); }     // empty lexicon
    for (int b = 0; b < nbase && !ship; ++b) {
        auto g = gen_grammar(r);
        auto text = [&](const vector<Sec> &x) { string t = gpre + gtext(x); if (!gmid.empty()) { size_t k = t.find("\n["); k = t.find("\n[", k + 1); t.insert(k + 1, gmid); } return t; };
        for (int v = 0; v <= (ladder ? 1 : nvar); ++v) { u.goodgmr.push_back(addg(true, text(v ? vary(r, g) : g))); }
    }
    // derived forms
    int ng = (int)u.goodlex.size();
    for (int i = 0; i < (size ? 2 : 1); ++i) { LexItem it; it.kind = LX_COMPILED; it.base = u.goodlex[r.below(ng)]; it.spec = u.lex[it.base].spec; u.complex_.push_back(addlex(it)); }
    { LexItem it; it.kind = LX_OUTDATED; it.base = u.goodlex[0]; it.cut = r.below(2); u.badlex.push_back(addlex(it)); }
    auto bl = bad_lexicons(lex_text(u.lex[0].spec)); auto bg = bad_grammars(u.gmr[0].text);
    for (int i = 0; i < (size ? 4 : 2); ++i) { LexItem it; it.kind = LX_BAD; it.text = r.pick(bl); u.badlex.push_back(addlex(it)); u.badgmr.push_back(addg(false, r.pick(bg))); }
    {   // a lexicon that loads but whose words cannot be searched for
        LexItem it; it.kind = LX_FAILS; Rng q(seed ^ 0xfa115); it.spec.locale = "en_US"; it.spec.lang = "ENG";
        if (size && q.chance(12)) { string w; for (int i = 0; i < 440; ++i) { w += (char)('A' + i % 3); it.spec.e.push_back({w, w.substr(0, 3), {"WORD"}, ""}); } }     // too deeply nested
        else { it.spec = u.lex[0].spec; static const vector<string> odd = {"\xFF", "K\xD6LN", "\xC3(", "MA\xDF"}; it.spec.e.push_back({q.pick(odd), "X", {"CITY"}, q.chance(50) ? "ATT_SUF" : ""}); }  // not UTF-8
        it.text = lex_text(it.spec); u.faillex.push_back(addlex(it));
        if (size && !light && q.chance(4)) {     // one very long word
            LexItem l; l.kind = LX_GOOD; l.spec = u.lex[0].spec; string w; int n = q.range(20000, 45000); for (int i = 0; i < n; ++i) w += (char)('A' + (i * 7 + i / 13) % 26);
            l.spec.e.push_back({w, "LONG", {"WORD"}, q.chance(30) ? "ATT_PRE" : ""}); l.text = lex_text(l.spec); u.goodlex.push_back(addlex(l)); u.goodlex.push_back((int)u.lex.size() - 1);
        }
    }
    int na = size == 0 ? 3 : size == 2 ? r.range(30, 60) : r.range(4, 8);
    for (int i = 0; i < na; ++i) {
        if (i && size && r.chance(15)) u.addr.push_back(vary_addr(r, r.pick(u.addr)));
        else if (r.chance(50)) { string a = derive(r, u.gmr[(size_t)r.pick(u.goodgmr)].text, u.lex[(size_t)r.pick(u.goodlex)].spec); u.addr.push_back(a.empty() ? gen_addr(r, u) : a); }
        else u.addr.push_back(gen_addr(r, u));
    }
    if (!ladder) { Rng q(seed ^ 0x57e7); for (auto &a : u.addr) if (a.size() < 200 && q.chance(5)) a = stretch(q, a); }
    if (ladder) { const string &w = u.lex[(size_t)u.goodlex[u.goodlex.size() / 2]].spec.e.back().word; u.addr[0] = "12 1/2 " + w + " ST"; u.addr[1] = "7 HAUPT" + w + " " + w + "WEG " + u.addr[1]; }
    if (size && !light && pq.chance(15)) long_addrs(pq, u);
    { Rng q(seed ^ 0x7319);              // twins
      if (!ladder && q.chance(size ? 40 : 10)) {
        static const char *const wds[][2] = {{"OLD MILL", "OLD MILK"}, {"NEW YORK", "NEW WORK"}, {"PO BOX", "PO BUX"}, {"C++", "C--"}, {"ST JAMES", "ST JIMES"}, {"OAK LANE", "OAK LAND"}, {"K-TOWN", "J-TOWN"}, {"1/2", "1/4"}, {"GASSE", "GASTE"}, {"NEU", "ALT"}};
        LexSpec a = u.lex[(size_t)u.goodlex[(size_t)q.below((int)u.goodlex.size())]].spec, b; if (a.e.size() > 20) a.e.resize(20);
        int k = q.below(10); auto &w = wds[k]; LexSpecEntry e = {w[0], w[0], {q.chance(50) ? "WORD" : "CITY"}, k == 8 ? "ATT_SUF" : k == 9 ? "ATT_PRE" : ""};
        for (size_t i = a.e.size(); i-- > 0;) if (a.e[i].word == w[0] || a.e[i].word == w[1]) a.e.erase(a.e.begin() + (long)i);
        b = a; size_t at = (size_t)q.below((int)a.e.size() + 1); a.e.insert(a.e.begin() + (long)at, e); e.word = w[1]; if (q.chance(50)) e.std = w[1]; b.e.insert(b.e.begin() + (long)at, e);
        for (auto *t : {&a, &b}) { LexItem it; it.kind = LX_GOOD; it.spec = *t; it.text = lex_text(*t); int i = addlex(it); u.goodlex.push_back(i); u.twins.push_back(i); }
        for (auto x : w) u.addr.push_back(k == 8 ? string("12 Haupt") + x + " 3" : k == 9 ? string("12 ") + x + "muster st" : string("12 ") + x + " ST");
      } }
    if (!ladder && !ship) { Rng q(seed ^ 0xd0b1);
        if (q.chance(12)) for (auto &l : u.lex) if (l.kind == LX_GOOD && l.text.size() < 60000) for (size_t i = l.text.find('\n'); i < l.text.size(); ++i) if (l.text[i] == ' ' && l.text[i - 1] != '\n') l.text.insert(i++, string((size_t)q.range(1, 2), ' ')), i += 2;      // words with several spaces
        if (q.chance(6)) { string w; int n = q.range(600, 1500); for (int i = 0; i < n; ++i) w += (char)('a' + (i * 5 + i / 26) % 26); u.addr[(size_t)q.below((int)u.addr.size())] = q.chance(50) ? "12 main" + string(w.size(), ' ') + "st" : q.chance(50) ? "12 " + w + " main st" : "12 main st, " + w; } }      // what changes case does not fit small buffers
    near_fingerprints(u, Rng(seed ^ 0xf19e), size && !ladder); near_forms(u, Rng(seed ^ 0xf0a3), size && !ladder);
    u.loc = {"en_US", "de_DE", "tr_TR", "", "fr_CA"}; { Rng q(seed ^ 0x10ca); static const char *const more[] = {"el_GR", "lt_LT", "az_AZ", "de_DE@collation=phonebook", "xx_YY", "en_US_POSIX", "C", "en@=x", "the english of the midwest of the united states, as it is written on letters"}; if (q.chance(45)) u.loc[(size_t)q.below(5)] = more[q.below(9)]; } u.filt = {"PUNCT,SPACE,DASH,EMDASH", "PUNCT,SPACE,DASH,EMDASH,STOPWORD", "PUNCT,SPACE", "", "BOGUS, PUNCT"};
    for (auto &e : vocabulary()) u.pool.push_back(e);
    return u;
}
string many_address(const string &a, int k, int step) {
    if (!step) return a;
    string w = "Q"; for (int n = k * step + 30; n; n /= 26) w += (char)('A' + n % 26);
    switch (step % 3) { case 0: return strf("%d ", 101 + k * step) + a + " " + w; case 1: return strf("%d ", 101 + k * step) + a; default: return a + " " + w; }
}
