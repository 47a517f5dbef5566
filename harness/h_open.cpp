// C25: documents of other origin and the options of Open. The harness lays out CZI files itself (no libCZI writer involved).
#include "czi.h"
#include <climits>
using namespace libCZI; using namespace cz; using D = DimensionIndex;
namespace {
struct De { char c; int start, size, stored; };                       // dimension entry
struct Entry { int pt = 0, comp = 0; uint8_t pyr = 0; std::vector<De> dims; };
void put(Bytes& b, uint64_t off, const void* p, size_t n) { if (off + n > b.size()) b.resize(off + n, 0); memcpy(b.data() + off, p, n); }
template <typename T> void w(Bytes& b, uint64_t off, T v) { put(b, off, &v, sizeof v); }
size_t dv(Bytes& b, uint64_t o, const Entry& e, uint64_t pos)
{
    put(b, o, "DV", 2); w<int32_t>(b, o + 2, e.pt); w<uint64_t>(b, o + 6, pos); w<int32_t>(b, o + 14, 0); w<int32_t>(b, o + 18, e.comp); w<uint8_t>(b, o + 22, e.pyr); w<int32_t>(b, o + 28, (int)e.dims.size());
    for (size_t i = 0; i < e.dims.size(); ++i) { const uint64_t q = o + 32 + 20 * i; char n[4] = { e.dims[i].c, 0, 0, 0 }; put(b, q, n, 4); w<int32_t>(b, q + 4, e.dims[i].start); w<int32_t>(b, q + 8, e.dims[i].size); w<float>(b, q + 12, 0); w<int32_t>(b, q + 16, e.dims[i].stored); }
    return 32 + 20 * e.dims.size();
}
struct Item { Entry dir, hdr; Bytes meta, data, att; };
struct Layout
{
    std::vector<int> order;                 // of the segments: sub-blocks 0..n-1, then directory, metadata, attachment(s), attachment directory
    int slack = 0;                          // extra 32-byte units at the end of each segment
    int gapBefore = -1;                     // a deleted segment before the n-th one
    bool usedZeroDir = false, usedZeroSb = false, garbage = false;
    uint64_t big = 0; mutable uint64_t hole = 0;   // this many bytes more in the deleted segment, which are not in the bytes given
};
// lays out the file
Bytes build(const std::vector<Item>& items, const Doc& rest, const Layout& lay)
{
    const int n = (int)items.size(), na = (int)rest.atts.size(); std::vector<int> order = lay.order; const int total = n + 1 + 1 + na + 1; if (order.empty()) for (int i = 0; i < total; ++i) order.push_back(i);
    std::vector<uint64_t> pos(total, 0); auto al = [&](uint64_t v) { return (v + 31) / 32 * 32 + 32 * lay.slack; }; auto dvSize = [](const Entry& e) { return 32 + 20 * e.dims.size(); };
    auto present = [&](int k) { return !(k == n + 1 && !rest.md.present) && !(k == total - 1 && na == 0); };
    auto size = [&](int k) -> uint64_t {
        if (k < n) return std::max<uint64_t>(256, 16 + dvSize(items[k].hdr)) + items[k].meta.size() + items[k].data.size() + items[k].att.size();
        if (k == n) { uint64_t s = 128; for (auto& i : items) s += dvSize(i.dir); return s; }
        if (k == n + 1) return 256 + rest.md.xml.size() + rest.md.att.size();
        if (k < total - 1) return 256 + rest.atts[k - n - 2].data.size();
        return 256 + 128 * na; };
    uint64_t at = 32 + 512; int seq = 0; std::vector<uint64_t> gaps;
    for (int k : order) { if (!present(k)) continue; if (seq++ == lay.gapBefore) { gaps.push_back(at); at += 32 + 64; lay.hole = at; } pos[k] = at; at += 32 + al(size(k)); }
    Bytes b(at, lay.garbage ? 0xA7 : 0); auto V = [&](uint64_t p) { return lay.big && p >= lay.hole ? p + lay.big : p; };
    auto seg = [&](uint64_t p, const char* id, uint64_t alloc, uint64_t used) { char t[16] = { 0 }; strncpy(t, id, 15); put(b, p, t, 16); w<int64_t>(b, p + 16, alloc); w<int64_t>(b, p + 24, used); };
    std::fill(b.begin(), b.begin() + 544, 0); seg(0, "ZISRAWFILE", 512, 512); w<int32_t>(b, 32, 1); w<int32_t>(b, 36, 0); put(b, 32 + 16, &rest.guid, 16); put(b, 32 + 32, &rest.guid, 16);
    w<uint64_t>(b, 32 + 52, V(pos[n])); w<uint64_t>(b, 32 + 60, V(pos[n + 1])); w<uint64_t>(b, 32 + 72, V(pos[total - 1]));
    for (uint64_t g : gaps) seg(g, "DELETED", 64 + lay.big, 0);
    for (int k = 0; k < n; ++k)
    {
        const auto& i = items[k]; const uint64_t p = pos[k], fixed = std::max<uint64_t>(256, 16 + dvSize(i.hdr)); seg(p, "ZISRAWSUBBLOCK", al(size(k)), lay.usedZeroSb ? 0 : size(k));
        w<int32_t>(b, p + 32, (int)i.meta.size()); w<int32_t>(b, p + 36, (int)i.att.size()); w<int64_t>(b, p + 40, i.data.size()); dv(b, p + 48, i.hdr, V(p));
        uint64_t q = p + 32 + fixed; for (auto* v : { &i.meta, &i.data, &i.att }) { if (!v->empty()) put(b, q, v->data(), v->size()); q += v->size(); }
    }
    // (a reader without a used size has to take the allocated size for the directory's)
    seg(pos[n], "ZISRAWDIRECTORY", al(size(n)), lay.usedZeroDir ? 0 : size(n)); w<int32_t>(b, pos[n] + 32, n); uint64_t o = pos[n] + 32 + 128; for (int k = 0; k < n; ++k) o += dv(b, o, items[k].dir, V(pos[k]));
    if (rest.md.present) { const uint64_t p = pos[n + 1]; seg(p, "ZISRAWMETADATA", al(size(n + 1)), size(n + 1)); w<int32_t>(b, p + 32, (int)rest.md.xml.size()); w<int32_t>(b, p + 36, (int)rest.md.att.size()); if (!rest.md.xml.empty()) put(b, p + 288, rest.md.xml.data(), rest.md.xml.size()); if (!rest.md.att.empty()) put(b, p + 288 + rest.md.xml.size(), rest.md.att.data(), rest.md.att.size()); }
    auto a1 = [&](uint64_t o, const Att& a, uint64_t p) { Bytes z(128, 0); put(b, o, z.data(), 128); put(b, o, "A1", 2); w<uint64_t>(b, o + 12, V(p)); put(b, o + 24, &a.guid, 16); put(b, o + 40, a.type.data(), std::min<size_t>(8, a.type.size())); put(b, o + 48, a.name.data(), std::min<size_t>(80, a.name.size())); };
    for (int k = 0; k < na; ++k) { const uint64_t p = pos[n + 2 + k]; const auto& a = rest.atts[k]; seg(p, "ZISRAWATTACH", al(size(n + 2 + k)), size(n + 2 + k)); w<int64_t>(b, p + 32, a.data.size()); a1(p + 48, a, p); if (!a.data.empty()) put(b, p + 288, a.data.data(), a.data.size()); }
    if (na) { const uint64_t p = pos[total - 1]; seg(p, "ZISRAWATTDIR", al(size(total - 1)), size(total - 1)); w<int32_t>(b, p + 32, na); for (int k = 0; k < na; ++k) a1(p + 288 + 128 * k, rest.atts[k], pos[n + 2 + k]); }
    return b;
}
Sb sbOf(const Entry& e)
{
    Sb s; s.pt = (PixelType)e.pt; s.comp = e.comp; s.pyr = (SubBlockPyramidType)e.pyr;
    for (auto& d : e.dims) { if (d.c == 'X') { s.x = d.start; s.lw = d.size; s.pw = d.stored; } else if (d.c == 'Y') { s.y = d.start; s.lh = d.size; s.ph = d.stored; } else if (d.c == 'M') { s.mValid = true; s.m = d.start; } else s.dims.emplace_back(Utils::CharToDimension(d.c), d.start); }
    std::sort(s.dims.begin(), s.dims.end()); return s;
}
bool has(const Entry& e, char c) { for (auto& d : e.dims) if (d.c == c) return true; return false; }
Entry plain(int c, int m, int x) { Entry e; e.dims = { { 'X', x, 4, 4 }, { 'Y', 1, 3, 3 }, { 'C', c, 1, 1 } }; if (m >= 0) e.dims.push_back({ 'M', m, 1, 1 }); return e; }
Item item(const Entry& e, uint32_t seed) { Item i; i.dir = i.hdr = e; Sb s = sbOf(e); i.data = pattern(12, seed); i.meta = pattern(5, seed + 1); i.att = pattern(7, seed + 2); (void)s; return i; }
std::shared_ptr<ICZIReader> open(const Bytes& f, const ICZIReader::OpenOptions* o, bool& refused, std::string& why)
{
    auto r = CreateCZIReader(); refused = false;
    try { r->Open(std::make_shared<MemStream>(f), o); }
    catch (LibCZICZIParseException& e) { refused = true; why = e.what(); }
    return r;
}
// what the documentation of the options says about one entry
bool conforming(const Entry& e, bool ignoreM)
{
    if (!has(e, 'X') || !has(e, 'Y')) return false;
    Sb s = sbOf(e); const bool pyramid = s.lw != s.pw || s.lh != s.ph;
    for (auto& d : e.dims)
    {
        if (d.c == 'X' || d.c == 'Y') continue;
        if (d.c == 'M') { if (d.size != 1 && !(ignoreM && pyramid)) return false; continue; }
        if (d.size != 1 || d.stored != 1) return false;
    }
    return true;
}
void checkValidation(mc::Ctx& c, const Entry& dev, int at, int opt)
{
    std::vector<Item> items; for (int i = 0; i < 3; ++i) items.push_back(item(i == at ? dev : plain(i, 0, 10 * i), 50 + i)); Doc rest; rest.guid = guid(3);
    const Bytes f = build(items, rest, Layout()); ICZIReader::OpenOptions o; o.SetDefault(); const bool lax = opt & 1, ign = (opt & 2) != 0; o.lax_subblock_coordinate_checks = lax; o.ignore_sizem_for_pyramid_subblocks = ign;
    bool refused; std::string why; c.step(); auto r = open(f, opt == 4 ? nullptr : &o, refused, why); const bool isLax = lax || opt == 4;
    c.say([&](std::ostream& s) { s << "directory entry " << at << ":"; for (auto& d : dev.dims) s << " " << d.c << "(" << d.start << "," << d.size << "," << d.stored << ")"; s << (opt == 4 ? " no options" : lax ? " lax" : " strict") << (ign ? ", size of M ignored for pyramid sub-blocks" : "") << " -> " << (refused ? "refused: " + why : std::string("opened")); });
    const bool ok = isLax || conforming(dev, ign);
    MC_CHECK(refused == !ok, refused ? "a document that is fine under the given options is refused: " + why : "a document whose directory violates the rules of strict validation is opened");
    if (!refused)
    {
        int cnt = 0; r->EnumerateSubBlocks([&](int i, const SubBlockInfo& inf) { MC_CHECK(i == cnt, "index ", i, " at place ", cnt); ++cnt; Sb g = fromInfo(inf), e = sbOf(items[i].dir);
            if (!has(items[i].dir, 'X')) { g.x = e.x; g.lw = e.lw; g.pw = e.pw; } if (!has(items[i].dir, 'Y')) { g.y = e.y; g.lh = e.lh; g.ph = e.ph; }
            MC_CHECK(g.head() == e.head(), "sub-block ", i, " is reported as ", g.head(), ", the directory says ", e.head()); return true; });
        MC_CHECK(cnt == 3, cnt, " sub-blocks instead of 3");
    }
    c.outcome(refused); c.state(mc::mix(mc::hashBytes(f.data(), f.size()), opt));
}
const int kSizes[] = { 1, 0, 2, -1, 1000 };
void strictValidation(mc::Ctx& c)
{
    const int opt = c.choose(5, "options"), at = c.choose(3, "which entry"); Entry e; e.pyr = (uint8_t)c.choose(2, "pyramid type");
    const int xy = c.choose(4, "X/Y present"), px = c.choose(4, "minification"), ms = c.choose(4, "M"), cs = c.choose(3, "size of C"), ct = c.choose(3, "stored size of C");
    std::vector<De> v; if (!(xy & 1)) v.push_back({ 'X', 1, 4, (px & 1) ? 2 : 4 }); if (!(xy & 2)) v.push_back({ 'Y', 2, 4, (px & 2) ? 2 : 4 }); v.push_back({ 'C', 1, kSizes[cs], kSizes[ct] }); if (ms) v.push_back({ 'M', 1, ms == 1 ? 1 : ms == 2 ? 0 : 7, 1 });
    std::vector<int> perm; for (size_t i = 0; i < v.size(); ++i) perm.push_back((int)i); int k = 1; for (size_t i = 2; i <= v.size(); ++i) k *= (int)i; int p = c.choose(k, "order of the dimensions");
    for (size_t n = v.size(); n > 0; --n) { k /= (int)n; e.dims.push_back(v[perm[p / k]]); perm.erase(perm.begin() + p / k); p %= k; }
    checkValidation(c, e, at, opt);
}
void strictDimensions(mc::Ctx& c)
{
    static const char dims[] = "ZCTRSIHVB"; const int opt = c.choose(5, "options"); Entry e; e.dims = { { 'X', 1, 4, 4 }, { 'Y', 2, 4, c.flip("pyramid") ? 2 : 4 } };
    const int nd = 1 + c.choose(2, "number of dimensions"), d0 = c.choose(9, "first dimension"), d1 = c.choose(9, "second dimension"); if (nd == 1 && d1) throw mc::Prune(); if (nd == 2 && d0 == d1) throw mc::Prune();
    const int bad = c.choose(nd, "which"); De a{ dims[d0], 0, 1, 1 }, b{ dims[d1], 3, 1, 1 }; De& q = bad == 0 ? a : b; q.size = kSizes[c.choose(5, "size")]; q.stored = kSizes[c.choose(5, "stored size")];
    if (c.flip("in front")) { e.dims.insert(e.dims.begin(), a); } else e.dims.push_back(a); if (nd == 2) e.dims.push_back(b); const int m = c.choose(3, "M"); if (m) e.dims.push_back({ 'M', 0, m == 1 ? 1 : 3, 1 });
    checkValidation(c, e, 1, opt);
}
// the header of the sub-block differs from its directory entry
void mismatch(mc::Ctx& c)
{
    static const int pts[] = { 0, 1, 3 }; static const int comps[] = { 0, 6, 1000 };
    const int base = c.choose(4, "base"); Entry e = plain(base & 1 ? -2 : 1, base & 2 ? -1 : 2, base == 3 ? -5 : 0); if (base == 3) e.dims.erase(e.dims.begin() + 2);
    Entry h = e; c.setDeviationBudget(c.thorough() ? 4 : 3); auto dim = [&](char n) -> De& { for (auto& d : h.dims) if (d.c == n) return d; static De x; return x; };
    h.pt = pts[c.deviate(3, "pixel type")]; h.comp = comps[c.deviate(3, "compression")]; h.pyr = (uint8_t)c.deviate(3, "pyramid type");
    static const int off[] = { 0, 1, -1, 256, 65536, -65536 };
    dim('X').start += off[c.deviate(6, "x")]; dim('Y').start += off[c.deviate(6, "y")]; dim('X').size += off[c.deviate(5, "width")]; dim('Y').size += off[c.deviate(5, "height")]; dim('X').stored += off[c.deviate(5, "stored width")]; dim('Y').stored += off[c.deviate(5, "stored height")];
    { const int k = c.deviate(5, "C"); if (k == 1 || k == 2) { if (has(h, 'C')) dim('C').start += k == 1 ? 1 : -1; else h.dims.push_back({ 'C', k - 1, 1, 1 }); } if (k == 3) { for (size_t i = 0; i < h.dims.size(); ++i) if (h.dims[i].c == 'C') { h.dims.erase(h.dims.begin() + i); break; } } if (k == 4) { if (has(h, 'C')) dim('C').c = 'T'; else h.dims.push_back({ 'T', 0, 1, 1 }); } }
    { static const char more[] = " ZTRSIHVB"; const int k = c.deviate(9, "additional dimension"); if (k && !has(h, more[k])) h.dims.push_back({ more[k], 0, 1, 1 }); }
    { const int k = c.deviate(4, "M"); if (k == 1 || k == 2) { if (has(h, 'M')) dim('M').start += k == 1 ? 1 : -1; else h.dims.push_back({ 'M', k - 1, 1, 1 }); } if (k == 3) for (size_t i = 0; i < h.dims.size(); ++i) if (h.dims[i].c == 'M') { h.dims.erase(h.dims.begin() + i); break; } }
    switch (c.deviate(3, "order of the header's dimensions")) { case 1: std::reverse(h.dims.begin(), h.dims.end()); break; case 2: std::rotate(h.dims.begin(), h.dims.begin() + 1, h.dims.end()); break; }
    std::vector<Item> items{ item(plain(0, 0, 0), 1), item(e, 2), item(plain(7, 7, 7), 3) }; items[1].hdr = h; if (c.flip("roles exchanged")) std::swap(items[1].hdr, items[1].dir);
    const Sb dirS = sbOf(items[1].dir), hdrS = sbOf(items[1].hdr); Doc rest; rest.guid = guid(1); const Bytes f = build(items, rest, Layout());
    Sb a = dirS, b = hdrS; a.pyr = b.pyr = SubBlockPyramidType::None; const bool differ = a.head() != b.head();
    for (int pol = 0; pol < 5; ++pol)
    {
        static const int P[] = { 0, 1, 0x80, 0x81, 0 }; ICZIReader::OpenOptions o; o.SetDefault(); o.subBlockDirectoryInfoPolicy = (ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy)P[pol];
        auto r = CreateCZIReader(); r->Open(std::make_shared<MemStream>(f), pol == 4 ? nullptr : &o); c.step();
        for (int i = 0; i < 3; ++i)
        {
            SubBlockInfo si; MC_CHECK(r->TryGetSubBlockInfo(i, &si), "sub-block ", i, " not found"); MC_CHECK(fromInfo(si).head() == sbOf(items[i].dir).head(), "TryGetSubBlockInfo(", i, ") gives ", fromInfo(si).head(), ", the directory says ", sbOf(items[i].dir).head());
            std::shared_ptr<ISubBlock> sb; std::string err;
            try { sb = r->ReadSubBlock(i); } catch (LibCZICZIParseException& x) { err = x.what(); }
            const bool wantErr = i == 1 && differ && !(P[pol] & 0x80);
            if (wantErr) { MC_CHECK(!sb, "policy ", P[pol], ": sub-block is delivered although its header says ", hdrS.head(), " and the directory ", dirS.head()); continue; }
            MC_CHECK(sb, "policy ", P[pol], ": sub-block ", i, " is not delivered (header ", sbOf(items[i].hdr).head(), ", directory ", sbOf(items[i].dir).head(), "): ", err);
            Sb g = readSb(sb.get()), want = (P[pol] & 1) ? sbOf(items[i].hdr) : sbOf(items[i].dir); want.data = items[i].data; want.meta = items[i].meta; want.att = items[i].att;
            MC_CHECK(g.key() == want.key(), "policy ", P[pol], ": sub-block ", i, " is delivered as ", g.key(), " instead of ", want.key());
        }
    }
    c.outcome(mc::mix(differ, dirS.pyr == hdrS.pyr)); c.state(mc::hashBytes(f.data(), f.size()));
}
std::vector<Item> twoItems(bool many)
{
    std::vector<Item> v{ item(plain(0, 0, 0), 1), item(plain(1, -1, -3), 2) };
    if (many) { Entry e = plain(3, 4, 9); for (char ch : { 'Z', 'T', 'R', 'S', 'I', 'H', 'V', 'B' }) e.dims.push_back({ ch, ch - 'A', 1, 1 }); v[1] = item(e, 9); v[1].hdr.dims = e.dims; std::reverse(v[1].hdr.dims.begin(), v[1].hdr.dims.end()); }
    return v;
}
Doc docOf(const std::vector<Item>& items, const Doc& rest) { Doc d = rest; for (auto& i : items) { Sb s = sbOf(i.dir); s.data = i.data; s.meta = i.meta; s.att = i.att; d.sbs.push_back(s); } return d; }
// the same document laid out differently, read and edited
void layouts(mc::Ctx& c)
{
    Doc rest; rest.guid = guid(6); rest.md.present = true; const std::string xml = "<ImageDocument><Metadata/></ImageDocument>"; rest.md.xml.assign(xml.begin(), xml.end()); Att at; at.guid = guid(9); at.type = "CZTIMS"; at.name = "TimeStamps"; at.data = pattern(21, 4); rest.atts.push_back(at);
    Layout l; const int p0 = c.choose(720, "order of the segments"); int p = p0, k = 720; std::vector<int> ids{ 0, 1, 2, 3, 4, 5 }; for (int n = 6; n > 0; --n) { k /= n; l.order.push_back(ids[p / k]); ids.erase(ids.begin() + p / k); p %= k; }
    c.setDeviationBudget(c.thorough() ? 3 : 2);
    l.slack = c.deviate(3, "slack") * 3; l.gapBefore = c.deviate(7, "deleted segment") - 1; l.usedZeroDir = c.deviate(2, "directory without used size"); l.usedZeroSb = c.deviate(2, "sub-blocks without used size"); l.garbage = c.deviate(2, "rubbish in unused space");
    const bool many = c.deviate(2, "long dimension lists"); if (c.deviate(2, "no metadata")) rest.md = Md(); if (c.deviate(2, "no attachment")) { rest.atts.clear(); std::vector<int> o2; for (int x : l.order) if (x != 4) o2.push_back(x == 5 ? 4 : x); l.order = o2; }
    if (l.usedZeroDir && l.slack) l.slack = 0;
    auto items = twoItems(many); if (c.deviate(2, "empty payloads")) { items[0].data.clear(); items[0].meta.clear(); items[0].att.clear(); } const Doc want = docOf(items, rest); const Bytes f = build(items, rest, l);
    c.step(); Doc g = readAll(f, rest.md.present); std::string x = diffDoc(want, g); MC_CHECK(x.empty(), "read: ", x); g = readViaRw(f); x = diffDoc(want, g); MC_CHECK(x.empty(), "read by an edit session: ", x);
    const int ed = c.deviate(7, "edit"); if (ed)
    {
        auto st = std::make_shared<MemStream>(f); auto r = CreateCZIReaderWriter(); r->Create(st); std::vector<int> keys, ak; readDoc(r.get(), &keys, &ak); Doc w2 = want; c.step();
        Sb n = makeSb({ { D::C, 5 } }, 3, 77, 78, 6, 5, PixelType::Gray8, 33, 3, 4); Att na; na.guid = guid(44); na.type = "BIN"; na.name = "new"; na.data = pattern(300, 8);
        switch (ed)
        {
        case 1: supply(n, HowMem, [&](const auto& i) { r->SyncAddSubBlock(i); }); w2.sbs.push_back(n); break;
        case 2: r->RemoveSubBlock(keys[0]); w2.sbs.erase(w2.sbs.begin()); break;
        case 3: n.dims = w2.sbs[1].dims; supply(n, HowMem, [&](const auto& i) { r->ReplaceSubBlock(keys[1], i); }); w2.sbs[1] = n; break;
        case 4: r->SyncAddAttachment(attInfo(na)); w2.atts.push_back(na); break;
        case 5: if (ak.empty()) throw mc::Prune(); r->RemoveAttachment(ak[0]); w2.atts.clear(); break;
        case 6: { Md m; m.present = true; m.xml = pattern(900, 5); r->SyncWriteMetadata(mdInfo(m)); w2.md = m; break; }
        }
        r->Close(); Doc h = readAll(*st->mem, w2.md.present); x = diffDoc(w2, h); MC_CHECK(x.empty(), "after an edit (", ed, "): ", x); g = readViaRw(*st->mem); x = diffDoc(w2, g); MC_CHECK(x.empty(), "after an edit (", ed, "), read by an edit session: ", x);
    }
    c.state(mc::hashBytes(f.data(), f.size())); c.outcome(want.hash());
}
// documents larger than 2 and 4 GiB: a huge unused area somewhere; read, edited, read again
void hugeLayouts(mc::Ctx& c)
{
    Doc rest; rest.guid = guid(6); rest.md.present = true; const std::string xml = "<ImageDocument><Metadata/></ImageDocument>"; rest.md.xml.assign(xml.begin(), xml.end()); Att at; at.guid = guid(9); at.type = "CZTIMS"; at.name = "TimeStamps"; at.data = pattern(21, 4); rest.atts.push_back(at);
    Layout l; const int p0 = c.choose(c.thorough() ? 720 : 6, "order of the segments"); int p = c.thorough() ? p0 : p0 * 143, k = 720; std::vector<int> ids{ 0, 1, 2, 3, 4, 5 }; for (int n = 6; n > 0; --n) { k /= n; l.order.push_back(ids[p / k]); ids.erase(ids.begin() + p / k); p %= k; }
    l.gapBefore = c.choose(6, "place of the area"); static const uint64_t bigs[] = { (1ull << 31) - 4096, 1ull << 31, (1ull << 32) - 4096, 1ull << 32, (1ull << 32) + 12800, 1ull << 33, 1ull << 40, 1ull << 53, 1ull << 60 }; l.big = bigs[c.choose(9, "size of the area")];
    auto items = twoItems(false); const Doc want = docOf(items, rest); Bytes f = build(items, rest, l); auto st = std::make_shared<BigStream>(); *st->mem = f; st->hole = l.hole; st->gap = l.big;
    auto check = [&](const Doc& w, const char* when) {
        { auto r = CreateCZIReader(); r->Open(st); Doc g = readDoc(r.get()); if (w.md.present) readMd(r.get(), g); std::string x = diffDoc(w, g); MC_CHECK(x.empty(), when, "an area of ", l.big, " bytes before segment ", l.gapBefore, ": ", x); }
        { auto r = CreateCZIReaderWriter(); auto s2 = std::make_shared<BigStream>(*st); s2->mem = std::make_shared<Bytes>(*st->mem); r->Create(s2); Doc g = readDoc(r.get()); readMd(r.get(), g); std::string x = diffDoc(w, g); MC_CHECK(x.empty(), when, "an area of ", l.big, " bytes before segment ", l.gapBefore, ", read by an edit session: ", x); }
        c.step(); };
    check(want, ""); auto r = CreateCZIReaderWriter(); r->Create(st); std::vector<int> keys, ak; readDoc(r.get(), &keys, &ak); Doc w2 = want; const int ne = 1 + c.choose(2, "number of edits"); int last = 0;
    for (int i = 0; i < ne; ++i)
    {
        const int ed = 1 + c.choose(8, "edit"); if (i && ed == last) throw mc::Prune(); last = ed; c.step();
        Sb n = makeSb({ { D::C, 5 } }, 3, 77, 78, 6, 5, PixelType::Gray8, 33, 3, 4), n2 = makeSb({ { D::C, 0 } }, 0, 0, 1, 4, 3, PixelType::Gray8, 9, 0, 0); Att na; na.guid = guid(44); na.type = "BIN"; na.name = "new"; na.data = pattern(300, 8);
        if ((ed == 2 || ed == 3 || ed == 8) && w2.sbs.size() < 2) throw mc::Prune(); if ((ed == 5 || ed == 7) && (w2.atts.empty() || w2.atts[0].data.size() != 21)) throw mc::Prune();
        switch (ed)
        {
        case 1: supply(n, HowMem, [&](const auto& q) { r->SyncAddSubBlock(q); }); w2.sbs.push_back(n); break;
        case 2: if (last == 8 || i) throw mc::Prune(); r->RemoveSubBlock(keys[0]); w2.sbs.erase(w2.sbs.begin()); break;
        case 3: n.m = 77; supply(n, HowMem, [&](const auto& q) { r->ReplaceSubBlock(keys[1], q); }); w2.sbs[1] = n; break;
        case 4: r->SyncAddAttachment(attInfo(na)); w2.atts.push_back(na); break;
        case 5: r->RemoveAttachment(ak[0]); w2.atts.erase(w2.atts.begin()); break;
        case 6: { Md m; m.present = true; m.xml = pattern(900, 5); r->SyncWriteMetadata(mdInfo(m)); w2.md = m; break; }
        case 7: na.guid = guid(45); r->ReplaceAttachment(ak[0], attInfo(na)); w2.atts[0] = na; break;
        case 8: supply(n2, HowMem, [&](const auto& q) { r->ReplaceSubBlock(keys[0], q); }); w2.sbs[0] = n2; break;
        }
        Doc g = readDoc(r.get()); readMd(r.get(), g); std::string x = diffDoc(w2, g); MC_CHECK(x.empty(), "in the session, after edit ", ed, ": ", x);
    }
    r->Close(); MC_CHECK(!st->touched, "bytes of the unused area were written"); check(w2, "after edits, "); c.state(mc::mix(mc::hashBytes(st->mem->data(), st->mem->size()), l.big)); c.outcome(w2.hash());
}
// one reader object, two documents with different options; and a refused document in between
void reuse(mc::Ctx& c)
{
    static const int P[] = { 0, 1, 0x80, 0x81 }; auto r = CreateCZIReader(); Doc rest; rest.guid = guid(1); std::string trail;
    const int n = c.thorough() ? 4 : 3;
    for (int round = 0; round < n; ++round)
    {
        const int kind = c.choose(3, "document"), pol = c.choose(4, "policy"); const bool lax = c.flip("lax"), ign = c.flip("ignore M");
        Entry e = plain(1, 1, 0), h = e; if (kind == 1) h.dims[0].start = 9; if (kind == 2) { e.dims[3].size = 3; e.dims[0].stored = 2; h = e; }
        std::vector<Item> items{ item(e, 1) }; items[0].hdr = h; ICZIReader::OpenOptions o; o.SetDefault(); o.lax_subblock_coordinate_checks = lax; o.ignore_sizem_for_pyramid_subblocks = ign; o.subBlockDirectoryInfoPolicy = (ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy)P[pol];
        bool refused = false; c.step(); try { r->Open(std::make_shared<MemStream>(build(items, rest, Layout())), &o); } catch (LibCZICZIParseException&) { refused = true; }
        const bool ok = lax || conforming(e, ign); MC_CHECK(refused == !ok, "round ", round, ": document ", refused ? "refused" : "opened"); c.outcome(refused);
        if (refused) { bool t = false; try { r->ReadSubBlock(0); } catch (std::exception&) { t = true; } MC_CHECK(t, "round ", round, ": the reader answers although the document was refused"); continue; }
        std::shared_ptr<ISubBlock> sb; try { sb = r->ReadSubBlock(0); } catch (LibCZICZIParseException&) {}
        const bool want = kind != 1 || (P[pol] & 0x80); MC_CHECK(!!sb == want, "round ", round, ": sub-block ", sb ? "delivered" : "not delivered", " under policy ", P[pol]);
        if (sb) MC_CHECK(fromInfo(sb->GetSubBlockInfo()).head() == sbOf((P[pol] & 1) ? h : e).head(), "round ", round, ": wrong description under policy ", P[pol]);
        r->Close(); c.state(mc::mix(round, kind * 100 + pol * 4 + lax * 2 + ign));
    }
}
struct Reg { Reg() {
    using namespace mc;
    add({ "C25", "strict_validation", "5 option sets x place of the entry x presence of X/Y x minification x M (absent or size 1,0,7) x size and stored size of C x all orders of the dimensions", strictValidation });
    add({ "C25", "strict_validation_all_dimensions", "5 option sets x 1-2 dimensions of 9 x 5 sizes x 5 stored sizes x M x minification x order", strictDimensions });
    add({ "C25", "directory_versus_header", "4 base entries, all combinations of <=3 (4) differences in 14 fields between header and directory, both ways, 5 policies", mismatch });
    add({ "C25", "foreign_layouts", "all 720 orders of the segments x <=2 (3) deviations (slack, deleted segment, used size not given, rubbish in unused space, long dimension lists, missing segments, one of 6 edits)", layouts });
    add({ "C25", "huge_layouts", "6 (720) orders of the segments x place and size (2^31 .. 2^60) of a huge unused area x all sequences of 1-2 edits of 8 kinds", hugeLayouts });
    add({ "C25", "reader_reuse", "3 (4) documents in a row with one reader x 3 kinds x 16 options", reuse });
} } reg;
}
