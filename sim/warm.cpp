// Initialises, with harness memory, the process-wide caches of the libraries below the
// code under test (ICU, Boost.Regex, iostreams), so that an injected allocation failure
// cannot be remembered by them.  No code of the repository is run here.
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/map.hpp>
#include <boost/serialization/set.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/algorithm/string/classification.hpp>
#include <boost/algorithm/string/split.hpp>
#include <boost/regex.hpp>
#include <boost/regex/icu.hpp>
#include <unicode/normalizer2.h>
#include <unicode/unistr.h>
#include <unicode/uclean.h>
#include <unicode/locid.h>
#include <fstream>
#include <iostream>
#include <sstream>
// the collator of the default locale
void warm_regex() { try { boost::u32regex re = boost::make_u32regex(std::string("^[[:alpha:]]+$"), boost::regex::icase); boost::u32regex_match(std::string("ABC"), re); } catch (...) {} }
void warm_libraries() {
    UErrorCode e = U_ZERO_ERROR; u_init(&e);
    for (const char *l : {"en_US", "de_DE", "tr_TR", "", "fr_CA", "fr_FR", "en_AU", "en", "el", "lt", "nl"}) {
        icu::UnicodeString s = icu::UnicodeString::fromUTF8("i\xCC\x87 stra\xC3\x9F" "e \xC3\xA9 e\xCC\x81"); icu::Locale loc(l); s.toUpper(loc); s.toLower(loc); std::string o; s.toUTF8String(o);
    }
    e = U_ZERO_ERROR; const icu::Normalizer2 *n = icu::Normalizer2::getNFCInstance(e);
    if (n) { icu::UnicodeString s = icu::UnicodeString::fromUTF8("e\xCC\x81 a\xCC\x8A \xE1\x84\x80\xE1\x85\xA1"); s = n->normalize(s, e); }
    const char *pats[] = {"( +)", "^\\d+$", "^\\w+$", "^[\\|[:punct:]]+$", "^\\s+$", "^[A-Z]{1,2}\\d{1,2}[A-Z]{0,1}$", "^(\\d+)([[:alpha:]\\p{L}])$", "\\<([[:alpha:]\\p{L}])(\\d+)\\>",
        "^\\s*(?!(?:\xe2\x80\x94)+)((?:A(?:B|C)?|ST)|\\d+[/,\\.]\\d+|\\d+|\\<[[:alpha:]]+\\>|[\\p{L}\\p{Nd}]+|[[:alpha:]\\d]+)([-&\\s\\|[:punct:]]+|\xe2\x80\x94|$)", "(^(?:ALT|NEU)\\B)(.+)", "@([\\w_]+)", "^\\s*#.*|^\\s*$"};
    for (int k = 0; k < 2; ++k) for (auto p : pats) {
        boost::u32regex re = boost::make_u32regex(std::string(p), k ? boost::regex::icase : boost::regex::perl);
        for (std::string t : {"12 MAIN ST, \xC3\x89" "COLE 5B", "ABC", "1/2", "NEUWEG 12 - \xe2\x80\x94 x"}) {
            boost::smatch w; boost::u32regex_match(t, re); boost::u32regex_search(t, w, re); boost::u32regex_replace(t, re, "$1 "); boost::u32regex_match(t, w, re, boost::regex_constants::match_extra);
        }
    }
    try { boost::make_u32regex(std::string("(((")); } catch (...) {}
    std::map<std::string, std::vector<std::string>> m; m["a"] = {"b"}; std::set<int> st = {1};
    std::stringstream ss; { boost::archive::text_oarchive oa(ss); oa << m << st; } { boost::archive::text_iarchive ia(ss); ia >> m >> st; }
    try { std::stringstream z("junk"); boost::archive::text_iarchive ia(z); } catch (...) {}
    std::vector<std::string> ws; boost::split(ws, "a b", boost::is_any_of(" "), boost::token_compress_on);
    std::stringstream c; c << 1.5 << " " << 7; double d; c >> d; std::ifstream f("/dev/null"); std::string l; std::getline(f, l);
    std::cerr << std::flush; std::cout << std::flush;
}
