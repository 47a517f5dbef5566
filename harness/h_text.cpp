// C20: coordinates, bounds, index sets: text conversion, map semantics, ordering, enumeration. The references are hand-written parsers for
// the documented grammars.
#include "czi.h"
#include <climits>
#include <locale>
#include <map>
#include <set>

namespace
{
    using namespace libCZI; using std::string; using std::vector;
    const DimensionIndex dims[] = { DimensionIndex::Z, DimensionIndex::C, DimensionIndex::T, DimensionIndex::R, DimensionIndex::S, DimensionIndex::I, DimensionIndex::H, DimensionIndex::V, DimensionIndex::B };
    const char letters[] = "ZCTRSIHVB";
    typedef std::map<int, int> M;                        // dimension -> value
    typedef std::map<int, std::pair<int, int>> MB;       // dimension -> start, size
    int dimOf(char c) { for (int i = 0; i < 9; ++i) if (c == letters[i] || c == letters[i] + 32) return i + 1; return 0; }
    string quote(const string& s) { string r = "\""; for (char c : s) { if (c == '\t') r += "\\t"; else r += c; } return r + "\""; }
    string text(const M& m) { string s = "{"; for (auto& e : m) s += mc::cat(letters[e.first - 1], "=", e.second, " "); return s + "}"; }
    M mapOf(const CDimCoordinate& c) { M m; for (auto d : dims) { int v = 77; if (c.TryGetPosition(d, &v)) m[(int)d] = v; } return m; }
    MB mapOf(const CDimBounds& c) { MB m; for (auto d : dims) { int v = 77, w = 78; if (c.TryGetInterval(d, &v, &w)) m[(int)d] = { v, w }; } return m; }
    bool digits(const string& s, size_t& i, string& out) { const size_t b = i; while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i; out = s.substr(b, i - b); return i > b; }
    bool number(const string& d, bool neg, int& v) { long long r = 0; for (char c : d) { r = r * 10 + (c - '0'); if (r > 3000000000LL) return false; } if (neg) r = -r; if (r > INT_MAX || r < INT_MIN) return false; v = (int)r; return true; }

    // ------------------------------------------------------------------ references
    bool refCoord(const string& s, M& m)
    {
        auto sep = [](char c) { return c == '\t' || c == ' ' || c == ',' || c == ';'; }; auto blank = [](char c) { return c == '\t' || c == ' '; };
        size_t i = 0; while (i < s.size())
        {
            while (i < s.size() && sep(s[i])) ++i; const int d = i < s.size() ? dimOf(s[i]) : 0; if (!d) return false; ++i;
            while (i < s.size() && blank(s[i])) ++i; bool neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; ++i; while (i < s.size() && blank(s[i])) ++i; }
            string n; int v; if (!digits(s, i, n) || !number(n, neg, v)) return false; if (m.count(d)) return false; m[d] = v; while (i < s.size() && sep(s[i])) ++i;
        }
        return true;
    }
    bool refBounds(const string& s, MB& m)
    {
        auto ws = [](char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; };
        size_t i = 0; while (i < s.size() && ws(s[i])) ++i; if (i == s.size()) return false;
        while (i < s.size())
        {
            const int d = dimOf(s[i]); if (!d) return false; ++i; int v[2];
            for (int k = 0; k < 2; ++k) { if (k) { if (i >= s.size() || s[i] != ':') return false; ++i; } bool neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-'; string n; if (!digits(s, i, n) || !number(n, neg, v[k])) return false; }
            if (v[1] == 0 || m.count(d)) return false; m[d] = { v[0], v[1] }; while (i < s.size() && ws(s[i])) ++i;
        }
        return true;
    }
    typedef vector<std::pair<int, int>> Set;
    // 0: must be refused, 1: must be accepted, 2: either
    int refIndexSet(const string& s, Set& r)
    {
        int res = 1; size_t b = 0;
        for (;;)
        {
            size_t e = s.find(',', b); string p = s.substr(b, e == string::npos ? string::npos : e - b); if (p.empty()) { res = 2; } else
            {
                while (!p.empty() && p[0] == ' ') p.erase(0, 1); while (!p.empty() && p.back() == ' ') p.pop_back(); if (p.empty()) return 0;
                size_t i = 0; auto num = [&](int& v) { bool neg = false; if (i < p.size() && (p[i] == '-' || p[i] == '+')) { neg = p[i] == '-'; ++i; if (i < p.size() && p[i] == ' ') { res = 2; while (i < p.size() && p[i] == ' ') ++i; } } if (p.compare(i, 3, "inf") == 0) { i += 3; v = neg ? INT_MIN : INT_MAX; return true; } string n; return digits(p, i, n) && number(n, neg, v); };
                int v1, v2; if (!num(v1)) return 0; v2 = v1; while (i < p.size() && p[i] == ' ') { ++i; if (res) res = 2; }
                if (i < p.size()) { if (p[i] != '-') return 0; ++i; if (i < p.size() && p[i] == ' ') { res = 2; while (i < p.size() && p[i] == ' ') ++i; } if (!num(v2)) return 0; if (i != p.size()) return 0; }
                if (v1 > v2) return 0; r.push_back({ v1, v2 });
            }
            if (e == string::npos) break; b = e + 1;
        }
        return res;
    }

    // ------------------------------------------------------------------ single checks
    void coordText(const string& s)
    {
        M want; const bool ok = refCoord(s, want); M got; bool accepted = true; int n = 0;
        try { got = mapOf(CDimCoordinate::Parse(s.c_str())); } catch (const LibCZIStringParseException& e) { accepted = false; n = e.GetNumberOfCharsParsedOk(); }
        MC_CHECK(accepted == ok, "the coordinate ", quote(s), accepted ? mc::cat(" is accepted as ", text(got), ", it is not valid") : mc::cat(" is refused, it denotes ", text(want)));
        if (ok) MC_CHECK(got == want, "the coordinate ", quote(s), " is parsed as ", text(got), ", it denotes ", text(want)); else MC_CHECK(n >= -1 && n <= (int)s.size(), "refusing ", quote(s), " reports ", n, " valid characters");
        CDimCoordinate c{ { DimensionIndex::V, 4711 } }; const bool r = Utils::StringToDimCoordinate(s.c_str(), &c); MC_CHECK(r == ok, "StringToDimCoordinate ", quote(s), " gives ", r); MC_CHECK(mapOf(c) == (ok ? want : M{ { (int)DimensionIndex::V, 4711 } }), "StringToDimCoordinate ", quote(s), " gives ", text(mapOf(c))); MC_CHECK(Utils::StringToDimCoordinate(s.c_str(), nullptr) == ok, "StringToDimCoordinate without result ", quote(s));
    }
    void boundsText(const string& s)
    {
        MB want; const bool ok = refBounds(s, want); MB got; bool accepted = true; try { got = mapOf(CDimBounds::Parse(s.c_str())); } catch (const LibCZIStringParseException&) { accepted = false; }
        auto show = [](const MB& m) { string t = "{"; for (auto& e : m) t += mc::cat(letters[e.first - 1], "=", e.second.first, ":", e.second.second, " "); return t + "}"; };
        MC_CHECK(accepted == ok, "the bounds ", quote(s), accepted ? mc::cat(" are accepted as ", show(got), ", they are not valid") : mc::cat(" are refused, they denote ", show(want))); if (ok) MC_CHECK(got == want, "the bounds ", quote(s), " are parsed as ", show(got), ", they denote ", show(want));
    }
    void indexText(const string& s)
    {
        Set want; const int k = refIndexSet(s, want); bool accepted = true; std::shared_ptr<IIndexSet> x; try { x = Utils::IndexSetFromString(std::wstring(s.begin(), s.end())); } catch (const LibCZIStringParseException&) { accepted = false; }
        MC_CHECK(!(k == 0 && accepted), "the index set ", quote(s), " is accepted, it is not valid"); MC_CHECK(!(k == 1 && !accepted), "the index set ", quote(s), " is refused"); if (!accepted) return;
        std::set<int> probe = { INT_MIN, INT_MIN + 1, -13, -6, -5, -1, 0, 1, 2, 4, 5, 6, 12, 13, INT_MAX - 1, INT_MAX }; for (auto& i : want) for (long long d = -1; d <= 1; ++d) for (int e : { i.first, i.second }) if (e + d >= INT_MIN && e + d <= INT_MAX) probe.insert((int)(e + d));
        for (int p : probe) { bool in = false; for (auto& i : want) in |= i.first <= p && p <= i.second; MC_CHECK(x->IsContained(p) == in, "the index set ", quote(s), in ? " does not contain " : " contains ", p); }
    }

    // ------------------------------------------------------------------ suites
    template <size_t N> string tokens(mc::Ctx& c, const char* const (&t)[N], int len, int split) { string s; for (int i = 0; i < len && i < split; ++i) s += t[c.choose((int)N, "token")]; return s; }
    template <size_t N> void rest(mc::Ctx& c, const char* const (&t)[N], const string& s, int len, const std::function<void(const string&)>& f) { if (!len) { f(s); c.step(); return; } for (auto k : t) rest(c, t, s + k, len - 1, f); }
    void coordTexts(mc::Ctx& c)
    {
        static const char* const t[] = { "C", "t", "b", "X", "0", "7", "-", "+", " ", ",", ";", "\t", ":" }; const int len = c.choose((c.thorough() ? 7 : 6), "length"); const string s = tokens(c, t, len, 2);
        rest(c, t, s, std::max(0, len - 2), coordText); c.state(mc::mix(mc::hashStr(s), len)); c.outcome(len);
    }
    void coordNumbers(mc::Ctx& c)
    {
        static const char* const t[] = { "Z", "-", "+", " ", "0", "00000000000000000000000000", "2147483647", "2147483648", "9", "99999999999999999999999999", "1", "\xe4", "999999999" }; const int len = 1 + c.choose(5, "length"); const string s = tokens(c, t, len - 1, 1);
        rest(c, t, "T" + s, std::max(0, len - 2), coordText); rest(c, t, "z" + s, std::max(0, len - 2), [](const string& x) { coordText(x + "S1"); }); c.state(mc::mix(mc::hashStr(s), len)); c.outcome(len);
    }
    void boundsTexts(mc::Ctx& c)
    {
        static const char* const t[] = { "C", "t", "X", "0", "3", ":", "-", "+", " ", "|", "C1:2", "-7:", "T+0" }; const int len = c.choose((c.thorough() ? 6 : 5), "length"); const string s = tokens(c, t, len, 2);
        rest(c, t, s, std::max(0, len - 2), boundsText); c.state(mc::mix(mc::hashStr(s), len)); c.outcome(len);
    }
    void boundsNumbers(mc::Ctx& c)
    {
        static const char* const n[] = { "0", "-0", "+0", "1", "-1", "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999999999999999999", "-99999999999999999999999999", "000000000000000000000000005", "+-1", "--1", "" }; const string a = n[c.choose(15, "start")], b = n[c.choose(15, "size")];
        for (const char* pre : { "", " ", "T0:1", "x", "T0:1 ", "C0:1", "\n" }) for (const char* post : { "", " ", "x", "Z1:1", " Z1:1 ", " :", ",", ";" }) for (char d : string(c.thorough() ? "ZzCcBbXx" : "zCX")) { boundsText(string(pre) + d + a + ":" + b + post); c.step(); }
        c.state(mc::hashStr(a + "/" + b)); c.outcome(1);
    }
    void indexTexts(mc::Ctx& c)
    {
        static const char* const t[] = { "0", "5", "12", "-", "+", " ", ",", "inf", "in", "x" }; const int len = c.choose((c.thorough() ? 8 : 7), "length"); const string s = tokens(c, t, len, 3);
        rest(c, t, s, std::max(0, len - 3), indexText); c.state(mc::mix(mc::hashStr(s), len)); c.outcome(len);
    }
    void indexNumbers(mc::Ctx& c)
    {
        static const char* const n[] = { "0", "-0", "+0", "1", "-1", "+1", "2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807", "-9223372036854775808", "99999999999999999999999999", "-99999999999999999999999999", "000000000000000000000000005", "inf", "+inf", "-inf", "nf", "-in" }; const string a = n[c.choose(20, "from")], b = n[c.choose(20, "to")];
        errno = c.flip("errno") ? ERANGE : 0; const int keep = errno;
        for (const char* pre : { "", " ", "\t", "4,", "-3--1 ," }) for (const char* post : { "", " ", ",3", ", 8-9", "x" }) { if (string(pre) == "\t") continue; errno = keep; indexText(string(pre) + a + post); errno = keep; indexText(string(pre) + a + "-" + b + post); c.step(2); }
        errno = 0; c.state(mc::hashStr(a + "/" + b) + keep); c.outcome(1);
    }
    const int vals[] = { 0, 1, -1, INT_MAX, INT_MIN, 10, -2147483647, 1000000000, -9 };
    // all sets of dimensions x patterns of values
    struct Punct : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } string do_grouping() const override { return "\3"; } };
    struct WPunct : std::numpunct<wchar_t> { wchar_t do_decimal_point() const override { return L','; } wchar_t do_thousands_sep() const override { return L'.'; } string do_grouping() const override { return "\3"; } };
    struct GlobalLocale { std::locale old; explicit GlobalLocale(bool on) : old(std::locale()) { if (on) { static const std::locale* l = new std::locale(std::locale(std::locale::classic(), new Punct), new WPunct); std::locale::global(*l); } } ~GlobalLocale() { std::locale::global(old); } };
    void roundTrip(mc::Ctx& c)
    {
        GlobalLocale loc(c.flip("a global locale which groups digits"));
        const int set = c.choose(16, "dimensions") * 32 + c.choose(32, "dimensions"); M want; for (int pat = 0; pat < 10; ++pat)
        {
            CDimCoordinate k; CDimBounds b; want.clear(); MB wb; for (int i = 0; i < 9; ++i) if (set >> i & 1) { const int v = pat == 9 ? 1000 * i + 3 : vals[(pat * (i + 1) + i) % 9]; int sz = vals[(pat + i) % 9]; if (sz == 0) sz = 3; k.Set(dims[i], v); b.Set(dims[i], v, sz); want[i + 1] = v; wb[i + 1] = { v, sz }; }
            const string t = Utils::DimCoordinateToString(&k); string ref; for (auto& e : want) ref += mc::cat(letters[e.first - 1], e.second); MC_CHECK(t == ref, "the text of ", text(want), " is ", quote(t));
            MC_CHECK(mapOf(CDimCoordinate::Parse(t.c_str())) == want, "the coordinate ", text(want), " as text: ", quote(t), ", parsed: ", text(mapOf(CDimCoordinate::Parse(t.c_str())))); coordText(t);
            const string u = Utils::DimBoundsToString(&b); if (set) { boundsText(u); MC_CHECK(mapOf(CDimBounds::Parse(u.c_str())) == wb, "bounds as text ", quote(u), " are parsed as something else"); } else MC_CHECK(u.empty(), "text of empty bounds is ", quote(u));
            c.step(2);
        }
        // unusual but valid writings
        string lower, sep; int n = 0; for (int i = 8; i >= 0; --i) if (set >> i & 1) { lower += mc::cat((char)(letters[i] + 32), i * 3); sep += mc::cat(n++ % 2 ? ";" : " ,", letters[i], n % 3 ? "" : " ", n % 2 ? "+" : "- ", "00", i); } coordText(lower); coordText(sep + " "); coordText(" " + lower);
        c.state(set); c.outcome(__builtin_popcount(set));
    }
    void characters(mc::Ctx& c)
    {
        GlobalLocale loc(c.flip("a global locale which groups digits"));
        for (int i = 0; i < 256; ++i) { const auto d = Utils::CharToDimension((char)i); MC_CHECK((int)d == dimOf((char)i), "character ", i, " gives dimension ", (int)d); if (i) { coordText(string(1, (char)i)); coordText(string(1, (char)i) + "1"); coordText(string("C1") + (char)i); coordText(string("C") + (char)i + "1"); boundsText(string(1, (char)i) + "1:2"); boundsText(string("C1") + (char)i + "2"); boundsText(string("C1:2") + (char)i); boundsText(string("C1:2") + (char)i + "T1:2"); if (i < 128 && i != 9 && i != '\n' && i != '\v' && i != '\f' && i != '\r') { indexText(string(1, (char)i)); indexText(string("5") + (char)i); indexText(string("5") + (char)i + "7"); } c.step(8); } }
        for (auto d : dims) { MC_CHECK(Utils::CharToDimension(Utils::DimensionToChar(d)) == d && Utils::DimensionToChar(d) == letters[(int)d - 1], "letter of dimension ", (int)d); } for (int i = 10; i < 256; ++i) MC_CHECK(Utils::DimensionToChar((DimensionIndex)i) == '?', "letter of dimension ", i); c.outcome(1); c.state(1);
    }
    // all histories of Set / Clear against a map
    void histories(mc::Ctx& c)
    {
        const int depth = c.thorough() ? 6 : 5; static const int D[] = { 0, 4, 8 }; CDimCoordinate k; CDimBounds b; M m; MB mb;
        auto check = [&] {
            for (int i = 0; i < 9; ++i) { const bool has = m.count(i + 1); int v = 77, s = 88; MC_CHECK(k.TryGetPosition(dims[i], &v) == has && k.TryGetPosition(dims[i], nullptr) == has && k.IsValid(dims[i]) == has && v == (has ? m[i + 1] : 77), "dimension ", letters[i], " of the coordinate"); const bool hb = mb.count(i + 1); v = 77; MC_CHECK(b.TryGetInterval(dims[i], &v, &s) == hb && b.TryGetInterval(dims[i], nullptr, nullptr) == hb && b.IsValid(dims[i]) == hb && v == (hb ? mb[i + 1].first : 77) && s == (hb ? mb[i + 1].second : 88), "dimension ", letters[i], " of the bounds"); if (hb) { v = s = 0; b.TryGetInterval(dims[i], &v, nullptr); b.TryGetInterval(dims[i], nullptr, &s); MC_CHECK(v == mb[i + 1].first && s == mb[i + 1].second, "dimension ", letters[i], " of the bounds"); } }
            MC_CHECK(k.GetNumberOfValidDimensions() == (int)m.size() && k.GetValidDimensionsCount() == (int)m.size() && b.IsEmpty() == mb.empty(), "number of dimensions");
            for (int stop = 0; stop <= (int)m.size(); ++stop) { vector<std::pair<int, int>> seen; k.EnumValidDimensions([&](DimensionIndex d, int v) { seen.push_back({ (int)d, v }); return (int)seen.size() != stop; }); vector<std::pair<int, int>> want(m.begin(), m.end()); if (stop) want.resize(stop); MC_CHECK(seen == want, "enumeration of the dimensions of ", text(m), " stopped at ", stop); }
            for (int stop = 0; stop <= (int)mb.size(); ++stop) { vector<std::pair<int, std::pair<int, int>>> seen; b.EnumValidDimensions([&](DimensionIndex d, int v, int s) { seen.push_back({ (int)d, { v, s } }); return (int)seen.size() != stop; }); vector<std::pair<int, std::pair<int, int>>> want(mb.begin(), mb.end()); if (stop) want.resize(stop); MC_CHECK(seen == want, "enumeration of bounds stopped at ", stop); }
            const CDimCoordinate k2(&k), k3(k); const CDimBounds b2(&b), b3(b); MC_CHECK(mapOf(k2) == m && mapOf(k3) == m && mapOf(b2) == mb && mapOf(b3) == mb, "a copy differs");
        };
        check(); for (int i = 0; i < depth; ++i)
        {
            const int op = c.choose(10, "operation"); if (op == 0) break; if (op < 7) { const int d = D[(op - 1) % 3], v = op < 4 ? INT_MIN : 5 + i; k.Set(dims[d], v); b.Set(dims[d], v, i + 1); m[d + 1] = v; mb[d + 1] = { v, i + 1 }; } else if (op == 9) { const bool a = c.flip("all of the bounds"); if (a) { b.Clear(); mb.clear(); } else { k.Clear(); m.clear(); } } else { const int d = D[op - 7]; k.Clear(dims[d]); b.Clear(dims[d]); m.erase(d + 1); mb.erase(d + 1); }
            check(); c.step(); c.state(mc::hashStr(text(m)) * 31 + mb.size());
        }
        CDimCoordinate l{ { DimensionIndex::B, 3 }, { DimensionIndex::Z, -1 }, { DimensionIndex::B, 4 } }; MC_CHECK((mapOf(l) == M{ { 1, -1 }, { 9, 4 } }), "coordinate from a list"); CDimBounds lb{ { DimensionIndex::B, 3, 1 }, { DimensionIndex::Z, -1, 2 } }; MC_CHECK((mapOf(lb) == MB{ { 1, { -1, 2 } }, { 9, { 3, 1 } } }), "bounds from a list"); const CDimCoordinate nul(nullptr); const CDimBounds nulb((const IDimBounds*)nullptr); MC_CHECK(mapOf(nul).empty() && nulb.IsEmpty(), "copy of nothing"); c.outcome(m.size());
    }
    void ordering(mc::Ctx& c)
    {
        static const int v[] = { 0, INT_MIN, -1, 5, INT_MAX }; static const int D[] = { 0, 1, 4, 8 }; auto make = [&](int n, CDimCoordinate& k, M& m) { for (int d : D) { const int x = n % 6; n /= 6; if (x) { k.Set(dims[d], v[x - 1]); m[d + 1] = v[x - 1]; } } };
        const int a = c.choose(36, "first") * 36 + c.choose(36, "first"); CDimCoordinate ka; M ma; make(a, ka, ma);
        for (int b = 0; b < 1296; ++b)
        {
            CDimCoordinate kb; M mb; make(b, kb, mb); int want = 0; for (int i = 1; i <= 9 && !want; ++i) { const bool x = ma.count(i), y = mb.count(i); want = x && !y ? 1 : !x && y ? -1 : x && y ? (ma[i] > mb[i]) - (ma[i] < mb[i]) : 0; }
            const int r = Utils::Compare(&ka, &kb); MC_CHECK((r > 0) - (r < 0) == want, "comparing ", text(ma), " with ", text(mb), " gives ", r); bool same = ma.size() == mb.size(); for (auto& e : ma) same &= mb.count(e.first) > 0; MC_CHECK(Utils::HasSameDimensions(&ka, &kb) == same, "comparing the dimensions of ", text(ma), " and ", text(mb)); c.step();
        }
        c.state(a); c.outcome(ma.size());
    }
    void enumeration(mc::Ctx& c)
    {
        static const int st[] = { 0, -2, INT_MIN, INT_MAX - 2, 7 }; const int n = c.choose(5, "number of dimensions"); static const int D[] = { 0, 2, 3, 8 }; CDimBounds b; MB mb; uint64_t total = n ? 1 : 0; string t = "bounds";
        for (int i = 0; i < n; ++i) { const int s = st[c.choose(n > 3 && !c.thorough() ? 2 : 5, "start")], z = c.choose(4, "size"); b.Set(dims[D[i]], s, z); mb[D[i] + 1] = { s, z }; total *= z; t += mc::cat(" ", letters[D[i]], s, ":", z); }
        for (int64_t stop = -1; stop < (int64_t)total; stop = stop < 5 ? stop + 1 : stop * 2)
        {
            std::set<M> seen; uint64_t k = 0; const bool r = Utils::EnumAllCoordinates(b, [&](uint64_t no, const CDimCoordinate& x) { MC_CHECK(no == k, t, ": counter ", no, " at call ", k); ++k; const M m = mapOf(x); MC_CHECK(m.size() == mb.size(), t, ": coordinate ", text(m)); for (auto& e : m) MC_CHECK(mb.count(e.first) && e.second >= mb[e.first].first && (int64_t)e.second < (int64_t)mb[e.first].first + mb[e.first].second, t, ": coordinate ", text(m), " is outside"); MC_CHECK(seen.insert(m).second, t, ": coordinate ", text(m), " is visited twice"); return stop < 0 || (int64_t)no < stop; });
            MC_CHECK(k == (stop < 0 ? total : std::min<uint64_t>(total, stop + 1)), t, ": ", k, " of ", total, " coordinates are visited, stop at ", stop); MC_CHECK(r == (stop < 0 || (uint64_t)stop >= total), t, ": result ", r, " with stop at ", stop); c.step(k + 1);
        }
        c.state(mc::hashStr(t)); c.outcome(total);
    }
    void compression(mc::Ctx& c)
    {
        struct Met { const char* s; int mode; }; static const Met me[] = { { "zstd0", (int)CompressionMode::Zstd0 }, { "ZSTD1", (int)CompressionMode::Zstd1 }, { "jpgxr", (int)CompressionMode::JpgXr }, { "Uncompressed", (int)CompressionMode::UnCompressed }, { "jpg", (int)CompressionMode::Jpg }, { "zstd", -1 }, { "", -1 }, { "zstd0 x", -1 } };
        struct Par { const char* s; int kind; int v; }; // kind: 0 nothing, 1 level, 2 preprocess, 3 error, 4 syntax error
        static const Par pa[] = { { "", 0, 0 }, { "ExplicitLevel=3", 1, 3 }, { "explicitlevel=-5", 1, -5 }, { " ExplicitLevel = 12 ", 1, 12 }, { "ExplicitLevel=", 3, 0 }, { "ExplicitLevel=abc", 3, 0 }, { "ExplicitLevel=3x", 3, 0 }, { "ExplicitLevel=99999999999", 3, 0 }, { "PreProcess=HiLoByteUnpack", 2, 0 }, { "preprocess=hilobyteunpack", 2, 0 }, { "PreProcess=other", 0, 0 }, { "Unknown=1", 0, 0 }, { "Level", 4, 0 }, { "a=b=c", 4, 0 }, { "ExplicitLevel=1.5", 3, 0 }, { "ExplicitLevel=+7", 1, 7 } };
        const int m = c.choose(8, "method"), n = c.choose(c.thorough() ? 4 : 3, "parameters"); string s = me[m].s; std::map<int, CompressParameter> want; bool bad = me[m].mode < 0; s += c.flip("blank") ? " : " : ":"; bool hasLevel = false, pre = false; int level = 0;
        for (int i = 0; i < n; ++i) { const Par& p = pa[c.choose(16, "parameter")]; if (!p.s[0] && i + 1 < n) throw mc::Prune(); s += (i ? ";" : "") + string(p.s); if (p.kind >= 3) bad = true; if (p.kind == 1) { hasLevel = true; level = p.v; } if (p.kind == 2) pre = true; }
        bool threw = false; Utils::CompressionOption o; try { o = Utils::ParseCompressionOptions(s); } catch (const std::logic_error&) { threw = true; }
        MC_CHECK(threw == bad, "the compression options ", quote(s), threw ? " are refused" : " are accepted"); c.step(); c.state(mc::hashStr(s)); c.outcome(bad * 4 + hasLevel * 2 + pre); if (bad) return;
        MC_CHECK((int)o.first == me[m].mode && o.second, "the compression options ", quote(s), " give mode ", (int)o.first); CompressParameter p; bool h = o.second->TryGetProperty(CompressionParameterKey::ZSTD_RAWCOMPRESSIONLEVEL, &p); MC_CHECK(h == hasLevel && (!h || p.GetInt32() == level), "level of ", quote(s)); h = o.second->TryGetProperty(CompressionParameterKey::ZSTD_PREPROCESS_DOLOHIBYTEPACKING, &p); MC_CHECK(h == pre && (!h || p.GetBoolean()), "preprocessing of ", quote(s));
    }
    static struct Reg { Reg() {
        using namespace mc;
        add({ "C20", "coordinate_texts", "all texts of up to 5 (6) tokens over 13 tokens, against the documented grammar", coordTexts });
        add({ "C20", "coordinate_numbers", "all texts of up to 5 tokens over 13 tokens of extreme numbers, signs and leading zeros", coordNumbers });
        add({ "C20", "bounds_texts", "all texts of up to 4 (5) tokens over 13 tokens", boundsTexts });
        add({ "C20", "bounds_numbers", "all pairs of 15 numbers x 56 contexts x 3 (8) dimension letters", boundsNumbers });
        add({ "C20", "index_set_texts", "all texts of up to 6 (7) tokens over 10 tokens; membership of all edge values", indexTexts });
        add({ "C20", "index_set_numbers", "all pairs of 20 numbers in 20 contexts, with and without a stale errno", indexNumbers });
        add({ "C20", "text_round_trip", "all 512 sets of dimensions x 10 value patterns incl. extremes, coordinate and bounds", roundTrip });
        add({ "C20", "characters", "all 255 characters in 11 contexts", characters });
        add({ "C20", "dimension_map_histories", "all sequences of up to 5 (6) of 11 set/clear operations on coordinate and bounds, against a map", histories });
        add({ "C20", "coordinate_ordering", "all pairs of 1296 coordinates over 4 dimensions", ordering });
        add({ "C20", "coordinate_enumeration", "all bounds over up to 4 dimensions, sizes 0..3, 5 (2) starts incl. the ends of the integer range, stopping at all positions", enumeration });
        add({ "C20", "compression_options", "all texts of 8 methods and up to 2 (3) of 16 parameters", compression });
    } } reg;
}
