// C01, C02 (writer), C05: all bounded histories of the writer.
#include "czi.h"
#include <sys/mman.h>
using namespace cz; using namespace libCZI;
using D = DimensionIndex;

// alphabet of sub-blocks: every shortcut visible in the code has a representative
static std::vector<Sb> alphabet()
{
    std::vector<Sb> v;
    v.push_back(makeSb({ {D::C,0} }, 0, 0, 0, 2, 2, PixelType::Gray8, 1));
    v.push_back(makeSb({ {D::C,0} }, 1, 2, 0, 2, 3, PixelType::Gray16, 2, 31, 0));
    v.push_back(makeSb({ {D::C,1},{D::T,-3},{D::S,2} }, 0, -5, -7, 3, 1, PixelType::Bgr24, 3, 0, 33));
    v.push_back(makeSb({ {D::C,0} }, -1, 10, 0, 1, 1, PixelType::Gray8, 4, 1, 1));        // no M-index
    { Sb s = makeSb({ {D::C,0} }, 0, 0, 0, 2, 2, PixelType::Gray8, 5); s.lw = 4; s.lh = 4; s.pyr = SubBlockPyramidType::MultiSubBlock; v.push_back(s); }   // pyramid
    { Sb s = makeSb({ {D::C,2} }, 3, 7, 9, 3, 2, PixelType::Bgr48, 6, 5, 7); s.comp = (int)Utils::CompressionModeToCompressionIdentifier(CompressionMode::Zstd1); s.data = pattern(45, 8); v.push_back(s); } // arbitrary bytes
    v.push_back(makeSb({}, 5, 1, 1, 2, 2, PixelType::Gray32Float, 9));                    // no plane dimension
    v.push_back(makeSb({ {D::Z,0},{D::C,9},{D::T,2},{D::R,3},{D::S,4},{D::I,5},{D::H,6},{D::V,7} }, 2, 3, 4, 4, 4, PixelType::Bgra32, 10, 64, 32));   // all dimensions
    { Sb s = makeSb({ {D::C,0} }, 7, 20, 20, 2, 2, PixelType::Gray8, 11); s.data.clear(); v.push_back(s); }   // no data
    return v;
}
static std::vector<Att> attAlphabet()
{
    std::vector<Att> v;
    { Att a; a.guid = guid(1); a.type = "CZTXT"; a.name = "one"; a.data = pattern(10, 21); v.push_back(a); }
    { Att a; a.guid = guid(2); a.type = "EIGHTCHR"; a.name = std::string(80, 'n'); a.data = pattern(257, 22); v.push_back(a); }   // full-length fields
    { Att a; a.guid = guid(1); a.type = "CZTXT"; a.name = "two"; v.push_back(a); }                                                // same GUID, other name, no data
    return v;
}
static std::vector<Md> mdAlphabet()
{
    std::vector<Md> v;
    { Md m; m.present = true; std::string x = "<ImageDocument><Metadata/></ImageDocument>"; m.xml.assign(x.begin(), x.end()); v.push_back(m); }
    { Md m; m.present = true; m.xml = pattern(700, 31); m.att = pattern(65, 32); v.push_back(m); }
    { Md m; m.present = true; m.xml = pattern(11000, 33); v.push_back(m); }
    return v;
}
static std::vector<std::pair<const char*, std::pair<bool, size_t>>> reserve(std::vector<size_t> sizes)
{
    std::vector<std::pair<const char*, std::pair<bool, size_t>>> v; v.push_back({ "none", { false, 0 } }); for (auto s : sizes) v.push_back({ "res", { true, s } }); return v;
}

static void finishAndCompare(mc::Ctx& c, const std::shared_ptr<ICziWriter>& w, const std::shared_ptr<MemStream>& st, const Doc& d, const char* prop)
{
    w->Close(); c.step();
    const Bytes& b = *st->mem;
    c.outcome(mc::hashBytes(b.data(), b.size()));
    std::string r;
    if (std::string(prop) == "C02") { Doc g = checkStructure(b, StructOpt()); r = diffDoc(d, g); MC_CHECK(r.empty(), "independent parser: ", r); return; }
    Doc g = readAll(b, d.md.present); r = diffDoc(d, g); MC_CHECK(r.empty(), "read back: ", r);
    Doc g2 = readViaRw(b); r = diffDoc(d, g2); MC_CHECK(r.empty(), "read back through an edit session: ", r);
}

static std::shared_ptr<CCziWriterInfo> chooseInfo(mc::Ctx& c, const GUID& g, bool small)
{
    auto info = std::make_shared<CCziWriterInfo>(g);
    const size_t mdS[] = { 0, 1, 500, 20000 }, sbS[] = { 0, 1, 40 }, atS[] = { 0, 1, 40 };
    int r = c.choose(small ? 3 : 5, "reserve metadata"); if (r) info->SetReservedSizeForMetadataSegment(true, mdS[small ? (r == 1 ? 1 : 0) : r - 1]);
    int q = c.choose(small ? 3 : 4, "reserve sub-block directory"); if (q) info->SetReservedSizeForSubBlockDirectory(true, sbS[small ? (q == 1 ? 1 : 2) : q - 1]);
    int a = c.choose(small ? 3 : 4, "reserve attachment directory"); if (a) info->SetReservedSizeForAttachmentsDirectory(true, atS[small ? (a == 1 ? 1 : 2) : a - 1]);
    return info;
}

static void histories(mc::Ctx& c, const char* prop)
{
    static const auto SB = alphabet(); static const auto AT = attAlphabet(); static const auto MD = mdAlphabet();
    Doc d; d.guid = guid(7);
    auto info = chooseInfo(c, d.guid, false);
    auto st = std::make_shared<MemStream>(); auto w = CreateCZIWriter(); w->Create(st, info); c.step();
    const int depth = c.thorough() ? 4 : 3; const int nOps = (int)(SB.size() + AT.size() + MD.size());
    std::set<int> used;
    for (int i = 0; i < depth; ++i)
    {
        const int op = c.choose(nOps + 1, "op (0 = close)"); if (op == 0) break;
        int k = op - 1; c.step();
        if (k < (int)SB.size())
        {
            const Sb& s = SB[k]; const How how = (How)((k + i) % 4);   // rotate the way of supplying data
            c.say([&](auto& o) { o << "add sub-block " << s.head() << " data " << s.data.size() << " meta " << s.meta.size() << " att " << s.att.size(); });
            bool dup = used.count(op) != 0, thrown = false;
            try { supply(s, how, [&](const auto& i) { w->SyncAddSubBlock(i); }); } catch (mc::Violation&) { throw; } catch (LibCZIWriteException&) { thrown = true; }
            MC_CHECK(thrown == dup, dup ? "duplicate sub-block was accepted" : "acceptable sub-block was refused", ": ", s.head());
            if (!dup) d.sbs.push_back(s);
        }
        else if ((k -= (int)SB.size()) < (int)AT.size())
        {
            const Att& a = AT[k]; c.say([&](auto& o) { o << "add attachment " << a.id() << " " << a.data.size(); });
            bool dup = used.count(op) != 0, thrown = false;
            try { w->SyncAddAttachment(attInfo(a)); } catch (mc::Violation&) { throw; } catch (LibCZIWriteException&) { thrown = true; }
            MC_CHECK(thrown == dup, dup ? "duplicate attachment was accepted" : "acceptable attachment was refused", ": ", a.id());
            if (!dup) d.atts.push_back(a);
        }
        else
        {
            k -= (int)AT.size(); c.say([&](auto& o) { o << "write metadata " << MD[k].xml.size() << "+" << MD[k].att.size(); });
            w->SyncWriteMetadata(mdInfo(MD[k])); d.md = MD[k];
        }
        used.insert(op); c.state(mc::mix(d.hash(), st->mem->size()));
    }
    finishAndCompare(c, w, st, d, prop);
}

// sizes and ways of supplying data
static void payloads(mc::Ctx& c, const char* prop)
{
    static const int sizes[] = { 0, 1, 15, 16, 31, 32, 33, 224, 255, 256, 257, 4095, 4096, 4097, 8191, 8192, 8193, 12289 };
    const int n = c.thorough() ? 18 : 13;
    Doc d; d.guid = guid(9);
    auto st = std::make_shared<MemStream>(); auto w = CreateCZIWriter(); w->Create(st, std::make_shared<CCziWriterInfo>(d.guid));
    const int how = c.choose(HowCount, "how");
    const int dims = c.choose(3, "dims");
    Sb s = dims == 0 ? makeSb({}, -1, 0, 0, 1, 1, PixelType::Gray8, 1) : dims == 1 ? makeSb({ {D::C,1},{D::T,2} }, 3, 0, 0, 1, 1, PixelType::Gray8, 1)
        : makeSb({ {D::Z,0},{D::C,9},{D::T,2},{D::R,3},{D::S,4},{D::I,5},{D::H,6},{D::V,7} }, 2, 0, 0, 1, 1, PixelType::Gray8, 1);
    const int dsz = c.choose(n, "data size"), msz = c.choose(n, "metadata size"), asz = (msz + dsz) % 3 == 0 ? c.choose(n, "attachment size") : c.choose(2, "attachment?") * 5;
    s.data = pattern(sizes[dsz], 3); s.meta = pattern(sizes[msz], 4); s.att = pattern(sizes[asz], 5);
    if (how == HowStrided || how == HowLines) { s.pt = PixelType::Gray8; int w2 = sizes[dsz] ? 1 : 0; s.ph = s.lh = 1; if (sizes[dsz] > 1 && sizes[dsz] % 3 == 0) { s.ph = s.lh = 3; w2 = sizes[dsz] / 3; } else w2 = sizes[dsz]; s.pw = s.lw = std::max(1, w2); if (sizes[dsz] == 0) s.data = pattern(1, 3); }
    // a second item after it shows whether the position bookkeeping is right
    Sb t = makeSb({ {D::C,77} }, 4, 5, 6, 2, 2, PixelType::Gray8, 8); if (dims == 0) t.dims.clear();
    c.say([&](auto& o) { o << "how " << how << " data " << s.data.size() << " meta " << s.meta.size() << " att " << s.att.size(); });
    supply(s, (How)how, [&](const auto& i) { w->SyncAddSubBlock(i); }, 4096); d.sbs.push_back(s); c.step();
    supply(t, HowMem, [&](const auto& i) { w->SyncAddSubBlock(i); }); d.sbs.push_back(t); c.step();
    Att a; a.guid = guid(3); a.type = "T"; a.name = "n"; a.data = pattern(sizes[(dsz + msz) % n], 6); w->SyncAddAttachment(attInfo(a)); d.atts.push_back(a); c.step();
    c.state(mc::mix(dsz * 1000 + msz, asz * 100 + how * 4 + dims));
    finishAndCompare(c, w, st, d, prop);
}

// a pull callback that ends early: the remainder reads back as zeroes
static void pullEndsEarly(mc::Ctx& c, const char* prop)
{
    static const int sizes[] = { 1, 32, 100, 4095, 4096, 4097, 8192, 8193, 12288, 20000 };
    Doc d; d.guid = guid(9);
    auto st = std::make_shared<MemStream>(); auto w = CreateCZIWriter(); w->Create(st, std::make_shared<CCziWriterInfo>(d.guid));
    Sb s = makeSb({ {D::C,1} }, 3, 0, 0, 1, 1, PixelType::Gray8, 1);
    int sz[3], given[3];
    for (int i = 0; i < 3; ++i) { sz[i] = i == 0 ? sizes[c.choose(10, "declared size")] : sizes[c.choose(3, "declared size")]; int g = c.choose(4, "given"); given[i] = g == 0 ? 0 : g == 1 ? sz[i] / 2 : g == 2 ? sz[i] - 1 : sz[i]; }
    auto fn = [](const Bytes& b, int given) { return [&b, given](int call, size_t, const void*& p, size_t& n) { if (call > 0 || given == 0) return false; p = b.data(); n = given; return true; }; };
    Bytes f[3]; for (int i = 0; i < 3; ++i) { f[i] = pattern(sz[i], 40 + i); }
    AddSubBlockInfo inf; inf.Clear(); fillBase(inf, s); inf.sizeData = sz[0]; inf.getData = fn(f[0], given[0]); inf.sizeMetadata = sz[1]; inf.getMetaData = fn(f[1], given[1]); inf.sizeAttachment = sz[2]; inf.getAttachment = fn(f[2], given[2]);
    w->SyncAddSubBlock(inf); c.step();
    for (int i = 0; i < 3; ++i) std::fill(f[i].begin() + given[i], f[i].end(), 0);
    s.data = f[0]; s.meta = f[1]; s.att = f[2]; d.sbs.push_back(s);
    Sb t = makeSb({ {D::C,77} }, 4, 5, 6, 2, 2, PixelType::Gray8, 8); supply(t, HowMem, [&](const auto& i) { w->SyncAddSubBlock(i); }); d.sbs.push_back(t); c.step();
    c.state(mc::mix(sz[0] * 5 + given[0], sz[1] * 7 + given[1]));
    finishAndCompare(c, w, st, d, prop);
}

// many items: directories larger than any internal block, with every reservation
static void counts(mc::Ctx& c, const char* prop)
{
    Doc d; d.guid = guid(7); auto info = chooseInfo(c, d.guid, true);
    static const int ns[] = { 0, 1, 2, 10, 11, 40, 41, 130 }; const int n = ns[c.choose(8, "sub-blocks")], na = ns[c.choose(c.thorough() ? 8 : 7, "attachments")];
    auto st = std::make_shared<MemStream>(); auto w = CreateCZIWriter(); w->Create(st, info); c.step();
    for (int i = 0; i < n; ++i) { Sb s = makeSb({ {D::C,i % 3},{D::T,i / 3} }, i % 4 == 0 ? -1 : i, i, -i, 1, 2, PixelType::Gray8, i, i % 5, i % 3); supply(s, HowMem, [&](const auto& q) { w->SyncAddSubBlock(q); }); d.sbs.push_back(s); c.step(); }
    for (int i = 0; i < na; ++i) { Att a; a.guid = guid(i + 1); a.type = "T"; a.name = "n" + std::to_string(i); a.data = pattern(i, i); w->SyncAddAttachment(attInfo(a)); d.atts.push_back(a); c.step(); }
    d.md.present = true; d.md.xml = pattern(100, 1); w->SyncWriteMetadata(mdInfo(d.md)); c.step();
    c.state(n * 1000 + na);
    finishAndCompare(c, w, st, d, prop);
}

// writer object reuse: Create/Close/Create
static void reuse(mc::Ctx& c, const char* prop)
{
    static const auto SB = alphabet(); static const auto AT = attAlphabet(); static const auto MD = mdAlphabet();
    auto w = CreateCZIWriter();
    for (int round = 0; round < 2; ++round)
    {
        Doc d; d.guid = guid(50 + round); auto info = chooseInfo(c, d.guid, true); auto st = std::make_shared<MemStream>(); w->Create(st, info); c.step();
        int what = c.choose(8, "what");
        if (what & 1) { supply(SB[0], HowMem, [&](const auto& q) { w->SyncAddSubBlock(q); }); d.sbs.push_back(SB[0]); c.step(); }
        if (what & 2) { w->SyncAddAttachment(attInfo(AT[0])); d.atts.push_back(AT[0]); c.step(); }
        if (what & 4) { w->SyncWriteMetadata(mdInfo(MD[0])); d.md = MD[0]; c.step(); }
        c.state(d.hash());
        finishAndCompare(c, w, st, d, prop);
    }
}

// every field of the description
static void descriptions(mc::Ctx& c, const char* prop)
{
    c.setDeviationBudget(c.thorough() ? 3 : 2); Doc d; d.guid = guid(8); auto st = std::make_shared<MemStream>(); auto w = CreateCZIWriter(); w->Create(st, std::make_shared<CCziWriterInfo>(d.guid)); c.step();
    Sb s = chooseDescription(c, 5); const How how = (How)c.choose(2, "how");
    c.say([&](auto& o) { o << "add sub-block " << s.head(); });
    supply(s, how, [&](const auto& i) { w->SyncAddSubBlock(i); }); d.sbs.push_back(s); c.step();
    c.state(mc::hashStr(s.head()));
    finishAndCompare(c, w, st, d, prop);
}

// the file GUID
static void guidRule(mc::Ctx& c)
{
    auto st = std::make_shared<MemStream>(); auto w = CreateCZIWriter(); int k = c.choose(3, "guid"); GUID e = guid(99);
    if (k == 0) { const int b = c.choose(35, "pattern"); uint8_t* p = (uint8_t*)&e; if (b == 33) memset(p, 0xff, 16); else if (b == 34) { memset(p, 0, 8); } else if (b > 16) { memset(p, 0, 16); p[b - 17] = 1; } else if (b) p[b - 1] = 0; w->Create(st, std::make_shared<CCziWriterInfo>(e)); } else if (k == 1) { w->Create(st, std::make_shared<CCziWriterInfo>()); } else { w->Create(st, nullptr); }
    if (c.flip("metadata")) w->SyncWriteMetadata(mdInfo(mdAlphabet()[0]));
    if (c.flip("sub-block")) supply(alphabet()[0], HowMem, [&](const auto& q) { w->SyncAddSubBlock(q); });
    w->Close(); c.step(2);
    auto r = CreateCZIReader(); r->Open(std::make_shared<MemStream>(*st->mem)); GUID g = r->GetFileHeaderInfo().fileGuid, z{};
    if (k == 0) MC_CHECK(!memcmp(&g, &e, 16), "the requested file GUID was not written"); else MC_CHECK(memcmp(&g, &z, 16) != 0, "no file GUID was generated");
    int maj = r->GetFileHeaderInfo().majorVersion, min = r->GetFileHeaderInfo().minorVersion; MC_CHECK(maj == 1 && min == 0, "version ", maj, ".", min);
    c.state(k);
}

// ---------------------------------------------------------------------------------------------------------- C05
// acceptance rule, written independently
struct Bounds { bool dims = false; std::map<int, std::pair<int, int>> iv; bool m = false; int mMin = 0, mMax = 0; };
static bool acceptable(const Sb& s, const Bounds& b)
{
    if (b.dims)
    {
        for (auto& p : b.iv) { bool has = false; for (auto& d : s.dims) if ((int)d.first == p.first) { has = true; if (d.second < p.second.first || d.second >= p.second.first + p.second.second) return false; } if (!has) return false; }
        if (s.dims.size() != b.iv.size()) return false;
    }
    if (b.m) { if (!s.mValid || s.m < b.mMin || s.m > b.mMax) return false; }
    return true;
}
static double zoomOf(const Sb& s) { return s.lw > s.lh ? double(s.pw) / s.lw : double(s.ph) / s.lh; }
static bool sameItem(const Sb& a, const Sb& b)
{
    if (std::abs(zoomOf(a) - zoomOf(b)) > 1e-3) return false;
    if (a.dims != b.dims || a.mValid != b.mValid) return false;
    return a.mValid ? a.m == b.m : (a.x == b.x && a.y == b.y);
}
static std::vector<Sb> c05Alphabet()
{
    std::vector<Sb> v; uint32_t n = 100;
    auto add = [&](std::vector<std::pair<D, int>> dims, int m, int x, int y) { v.push_back(makeSb(dims, m, x, y, 2, 2, PixelType::Gray8, n++)); };
    add({ {D::C,0} }, 0, 0, 0); add({ {D::C,0} }, 0, 5, 5);                 // duplicate pair (same M, other position)
    add({ {D::C,0} }, 1, 0, 0); add({ {D::C,1} }, 0, 0, 0);
    add({ {D::C,0} }, -1, 0, 0); add({ {D::C,0} }, -1, 0, 0); add({ {D::C,0} }, -1, 5, 0); add({ {D::C,0} }, -1, 0, 5);   // no M-index: identity by position
    add({ {D::C,2} }, 0, 0, 0);                                             // above the bounds
    add({ {D::C,-1} }, 0, 0, 0);                                            // below
    add({ {D::C,0},{D::T,0} }, 0, 0, 0); add({ {D::T,0} }, 0, 0, 0); add({}, 0, 0, 0);
    add({ {D::C,0} }, 5, 0, 0); add({ {D::C,0},{D::T,1} }, 2, 1, 0);
    { Sb s = makeSb({ {D::C,0} }, 0, 0, 0, 1, 1, PixelType::Gray8, n++); s.lw = s.lh = 2; s.pyr = SubBlockPyramidType::MultiSubBlock; v.push_back(s); }        // pyramid with the same coordinate
    { Sb s = makeSb({ {D::C,0} }, -1, 0, 0, 1, 1, PixelType::Gray8, n++); s.lw = s.lh = 4; s.pyr = SubBlockPyramidType::MultiSubBlock; v.push_back(s); }
    { Sb s = makeSb({ {D::C,0} }, 3, 0, 0, 2, 2, PixelType::Gray8, n++); s.comp = -1; (void)s; }
    return v;
}
static void refuse(mc::Ctx& c)
{
    static const auto SB = c05Alphabet(); static const auto AT = attAlphabet();
    Bounds b; auto info = std::make_shared<CCziWriterInfo>(guid(4)); CDimBounds db;
    const int k = c.choose(4, "declared dimension bounds");
    if (k == 1) { db.Set(D::C, 0, 2); b.dims = true; b.iv[(int)D::C] = { 0, 2 }; } else if (k == 2) { db.Set(D::C, 0, 1); db.Set(D::T, 0, 2); b.dims = true; b.iv[(int)D::C] = { 0, 1 }; b.iv[(int)D::T] = { 0, 2 }; }
    else if (k == 3) { db.Set(D::C, -1, 2); b.dims = true; b.iv[(int)D::C] = { -1, 2 }; }
    if (b.dims) info->SetDimBounds(&db);
    const int mk = c.choose(3, "declared M bounds"); if (mk == 1) { info->SetMIndexBounds(0, 1); b.m = true; b.mMin = 0; b.mMax = 1; } else if (mk == 2) { info->SetMIndexBounds(1, 5); b.m = true; b.mMin = 1; b.mMax = 5; }
    const bool allowDup = c.flip("allow duplicates"); CZIWriterOptions wo; wo.allow_duplicate_subblocks = allowDup;
    auto st = std::make_shared<MemStream>(); auto w = CreateCZIWriter(&wo);
    // before creation
    bool thrown = false; try { supply(SB[0], HowMem, [&](const auto& i) { w->SyncAddSubBlock(i); }); } catch (std::exception&) { thrown = true; } MC_CHECK(thrown, "adding a sub-block before Create was accepted");
    w->Create(st, info); c.step();
    thrown = false; try { w->Create(std::make_shared<MemStream>(), info); } catch (std::exception&) { thrown = true; } MC_CHECK(thrown, "a second Create was accepted");
    Doc d; d.guid = guid(4);
    const int depth = c.thorough() ? 4 : 3;
    for (int i = 0; i < depth; ++i)
    {
        const int op = c.choose((int)SB.size() + 1, "sub-block"); if (op == 0) break;
        const Sb& s = SB[op - 1]; c.step();
        bool ok = acceptable(s, b); if (ok && !allowDup) for (auto& e : d.sbs) if (sameItem(e, s)) ok = false;
        c.say([&](auto& o) { o << "add " << s.head() << (ok ? " (acceptable)" : " (to be refused)"); });
        thrown = false; try { supply(s, HowMem, [&](const auto& q) { w->SyncAddSubBlock(q); }); } catch (mc::Violation&) { throw; } catch (std::exception&) { thrown = true; }
        MC_CHECK(thrown != ok, ok ? "an acceptable sub-block was refused: " : "an unacceptable sub-block was accepted: ", s.head());
        if (ok) d.sbs.push_back(s);
        auto stt = w->GetStatistics(); MC_CHECK(stt.subBlockCount == (int)d.sbs.size(), "writer statistics count ", stt.subBlockCount, " sub-blocks, ", d.sbs.size(), " were accepted");
        c.state(mc::mix(d.hash(), k * 16 + mk * 4 + allowDup));
    }
    w->Close(); c.step();
    thrown = false; try { supply(SB[0], HowMem, [&](const auto& i) { w->SyncAddSubBlock(i); }); } catch (std::exception&) { thrown = true; } MC_CHECK(thrown, "adding a sub-block after Close was accepted");
    thrown = false; try { w->Close(); } catch (std::exception&) { thrown = true; } MC_CHECK(thrown, "a second Close was accepted");
    Doc g = readAll(*st->mem, false); std::string r = diffDoc(d, g); MC_CHECK(r.empty(), "final document: ", r);
    c.outcome(d.hash());
}
// identity by position / by M-index at the limits of the number range
static void extremeDuplicates(mc::Ctx& c)
{
    static const int pos[] = { 0, -1, 2000000000, -2000000000, 0x7fffff00, (int)0x80000000, 1, 1200000000, -1200000000 }; static const int ms[] = { 0, 1, 2000000000, 0x7ffffffe, 1000000000, 5, -1, -2000000000, -0x7fffffff };
    const int kind = c.choose(4, "what differs"); const int n = c.thorough() ? 4 : 3; auto st = std::make_shared<MemStream>(); auto w = CreateCZIWriter(); w->Create(st, std::make_shared<CCziWriterInfo>(guid(4))); Doc d; d.guid = guid(4);
    auto add = [&](const Sb& s) { c.step(); try { supply(s, HowMem, [&](const auto& q) { w->SyncAddSubBlock(q); }); return true; } catch (mc::Violation&) { throw; } catch (std::exception&) { return false; } };
    for (int i = 0; i < n; ++i)
    {
        const int k = c.choose(9, "value"); Sb s = makeSb({ { D::C, kind == 3 ? ms[k] : 0 } }, -1, kind == 0 ? pos[k] : 3, kind == 1 ? pos[k] : 4, 2, 2, PixelType::Gray8, 10 + i); if (kind >= 2) { s.mValid = true; s.m = kind == 2 ? ms[k] : 0; }
        bool dup = false; for (auto& e : d.sbs) dup |= sameItem(e, s);
        const bool ok = add(s); c.say([&](auto& o) { o << "add " << s.head() << (ok ? " accepted" : " refused"); }); MC_CHECK(ok == !dup, dup ? "a duplicate was accepted: " : "an acceptable sub-block was refused: ", s.head()); if (ok) d.sbs.push_back(s);
    }
    for (auto& e : std::vector<Sb>(d.sbs)) MC_CHECK(!add(e), "a duplicate was accepted: ", e.head());
    w->Close(); Doc g = readAll(*st->mem, false); std::string r = diffDoc(d, g); MC_CHECK(r.empty(), "final document: ", r); c.state(d.hash()); c.outcome(d.hash());
}
// declared bounds at the limits of the number range
static void extremeBounds(mc::Ctx& c)
{
    static const int base[] = { 0x7ffffffb, (int)0x80000000, -2, 2000000000 }; const int b = base[c.choose(4, "start of the values")]; const int start = b + c.choose(4, "declared start"), size = 1 + c.choose(4, "declared size"); if ((int64_t)start + size - 1 > INT32_MAX) throw mc::Prune();
    static const D ds[] = { D::C, D::Z, D::T, D::V }; const D dim = ds[c.choose(4, "dimension")]; const bool mb = c.flip("M bounds");
    auto info = std::make_shared<CCziWriterInfo>(guid(4)); CDimBounds db; db.Set(dim, start, size); info->SetDimBounds(&db); const int mLo = b == (int)0x80000000 ? b + 1 : b, mHi = b == 0x7ffffffb ? 0x7ffffffe : mLo + 2; if (mb) info->SetMIndexBounds(mLo, mHi);
    auto st = std::make_shared<MemStream>(); auto w = CreateCZIWriter(); w->Create(st, info); Doc d; d.guid = guid(4);
    auto add = [&](const Sb& s) { c.step(); try { supply(s, HowMem, [&](const auto& q) { w->SyncAddSubBlock(q); }); return true; } catch (mc::Violation&) { throw; } catch (std::exception&) { return false; } };
    for (int i = -1; i < 9; ++i)
    {
        const int64_t v = (int64_t)b + i; if (v < INT32_MIN || v > INT32_MAX) continue; Sb s = makeSb({ { dim, (int)v } }, 0, 3, 4, 2, 2, PixelType::Gray8, 20 + i); s.mValid = true; s.m = mb ? mLo : 0; const bool ok = v >= start && v < (int64_t)start + size;
        MC_CHECK(add(s) == ok, ok ? "an acceptable sub-block was refused: " : "a sub-block outside of the declared bounds was accepted: ", s.head(), ", declared start ", start, " size ", size); if (ok) d.sbs.push_back(s);
    }
    if (mb) for (int i = -2; i < 9; ++i)
    {
        const int64_t v = (int64_t)b + i; if (v <= INT32_MIN || v >= INT32_MAX || v == mLo) continue; Sb s = makeSb({ { dim, start } }, 0, 3, 4, 2, 2, PixelType::Gray8, 40 + i); s.mValid = true; s.m = (int)v; const bool ok = v >= mLo && v <= mHi;
        MC_CHECK(add(s) == ok, ok ? "an acceptable sub-block was refused: " : "a sub-block outside of the declared M bounds was accepted: ", s.head(), ", declared M ", mLo, "..", mHi); if (ok) d.sbs.push_back(s);
    }
    w->Close(); Doc g = readAll(*st->mem, false); std::string r = diffDoc(d, g); MC_CHECK(r.empty(), "final document: ", r); c.state(mc::hashStr(mc::cat(start, ",", size, ",", (int)dim, mb))); c.outcome(d.hash());
}
// sub-blocks which differ in nothing but the pyramid layer
static void layerDuplicates(mc::Ctx& c)
{
    static const int F[] = { 1, 2, 3, 4, 5, 8, 9, 16, 27, 32, 64, 81, 128, 243, 256, 512, 729, 1024, 2048 }; static const int nF = sizeof(F) / sizeof(F[0]);
    const int shape = c.choose(3, "stored size"), how = c.choose(3, "M-index / position / both"); const bool allow = c.flip("duplicates allowed"); auto st = std::make_shared<MemStream>(); CZIWriterOptions wo; wo.allow_duplicate_subblocks = allow; auto w = CreateCZIWriter(&wo); w->Create(st, std::make_shared<CCziWriterInfo>(guid(4))); Doc d; d.guid = guid(4);
    auto add = [&](const Sb& s) { c.step(); try { supply(s, HowMem, [&](const auto& q) { w->SyncAddSubBlock(q); }); return true; } catch (mc::Violation&) { throw; } catch (std::exception&) { return false; } };
    auto one = [&](int f, int i) { Sb s = makeSb({ { D::C, 0 } }, how == 1 ? -1 : 3, 5, 6, shape == 2 ? 5 : 4, shape == 1 ? 3 : 4, PixelType::Gray8, 10 + i); s.lw *= f; s.lh *= f; if (f > 1) s.pyr = SubBlockPyramidType::MultiSubBlock; return s; };
    std::vector<int> ks; for (int i = 0; i < 2; ++i) ks.push_back(c.choose(nF, "layer")); if (how == 2) for (int i = 0; i < nF; ++i) ks.push_back((i * 7) % nF);
    std::set<int> seen; int i = 0;
    for (int k : ks)
    {
        Sb s = one(F[k], i++); const bool dup = !seen.insert(k).second && !allow, ok = add(s); c.say([&](auto& o) { o << "add a sub-block of zoom 1/" << F[k] << (ok ? ", accepted" : ", refused"); });
        MC_CHECK(ok == !dup, dup ? "a duplicate was accepted: " : "an acceptable sub-block was refused: ", "zoom 1/", F[k], " ", s.head()); if (ok) d.sbs.push_back(s);
    }
    w->Close(); Doc g = readAll(*st->mem, false); std::string r = diffDoc(d, g); MC_CHECK(r.empty(), "final document: ", r); c.state(d.hash()); c.outcome(d.hash());
}
// malformed arguments in the middle of a history
static void badArgs(mc::Ctx& c)
{
    static const auto SB = alphabet(); auto st = std::make_shared<MemStream>(); auto w = CreateCZIWriter(); Doc d; d.guid = guid(5); w->Create(st, std::make_shared<CCziWriterInfo>(d.guid)); c.step();
    static const auto AT = attAlphabet(); static const auto MD = mdAlphabet();
    for (int i = 0; i < 3; ++i)
    {
        const int op = c.choose(15, "op"); bool thrown = false; c.step();
        try
        {
            AddSubBlockInfo inf; inf.Clear(); Sb s = SB[3]; s.x = 100 + i; fillBase(inf, s); WriteMetadataInfo mi; mi.Clear(); AddAttachmentInfo ai; ai.Clear();
            switch (op)
            {
            case 0: supply(SB[i], HowMem, [&](const auto& q) { w->SyncAddSubBlock(q); }); d.sbs.push_back(SB[i]); continue;
            case 1: w->SyncAddAttachment(attInfo(AT[i])); d.atts.push_back(AT[i]); continue;
            case 2: w->SyncWriteMetadata(mdInfo(MD[i])); d.md = MD[i]; continue;
            case 3: inf.sizeData = 5; w->SyncAddSubBlock(inf); break;
            case 4: inf.sizeMetadata = 5; w->SyncAddSubBlock(inf); break;
            case 5: inf.sizeAttachment = 5; w->SyncAddSubBlock(inf); break;
            case 6: inf.logicalWidth = -1; w->SyncAddSubBlock(inf); break;
            case 7: inf.physicalHeight = -1; w->SyncAddSubBlock(inf); break;
            case 8: inf.SetCompressionMode(CompressionMode::Invalid); w->SyncAddSubBlock(inf); break;
            case 9: inf.sizeData = 5; inf.getData = [](int, size_t, const void*& p, size_t& n) { p = nullptr; n = 5; return true; }; w->SyncAddSubBlock(inf); break;
            case 10: ai.dataSize = 4; w->SyncAddAttachment(ai); break;
            case 11: mi.szMetadataSize = 3; w->SyncWriteMetadata(mi); break;
            case 12: mi.attachmentSize = 3; w->SyncWriteMetadata(mi); break;
            case 13: inf.sizeData = 5; inf.getData = [](int, size_t, const void*&, size_t&)->bool { throw std::runtime_error("callback"); }; w->SyncAddSubBlock(inf); break;
            case 14: inf.sizeMetadata = (size_t)1 << 31; inf.getMetaData = [](int, size_t, const void*&, size_t&)->bool { return false; }; w->SyncAddSubBlock(inf); break;
            }
        }
        catch (mc::Violation&) { throw; } catch (std::exception&) { thrown = true; }
        MC_CHECK(op > 2 ? thrown : !thrown, op > 2 ? "a malformed request was accepted, op " : "an acceptable request was refused, op ", op);
        c.state(mc::mix(d.hash(), op));
    }
    w->Close(); c.step(); Doc g = readAll(*st->mem, d.md.present); std::string r = diffDoc(d, g); MC_CHECK(r.empty(), "final document: ", r); c.outcome(d.hash());
    StructOpt so; so.strictOrphans = false; (void)so;
}

// sizes beyond what the format can represent are refused, whatever they are truncated to
static void oversized(mc::Ctx& c)
{
    static const size_t sizes[] = { (size_t)1 << 31, ((size_t)1 << 32) - 1, (size_t)1 << 32, ((size_t)1 << 32) + 5 };
    static void* big = mmap(nullptr, ((size_t)1 << 32) + 4096, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (big == MAP_FAILED) throw mc::Prune();
    static const auto SB = alphabet(); static const auto MD = mdAlphabet(); const int who = c.choose(3, "writer/editor/editor replacing"), kind = c.choose(4, "kind"), at = c.choose(3, "before/between/after others"); const size_t size = sizes[c.choose(4, "size")]; if (who == 2 && kind < 2) throw mc::Prune();
    auto st = std::make_shared<MemStream>(); Doc d; d.guid = guid(5); std::shared_ptr<ICziWriter> w = CreateCZIWriter(); w->Create(st, std::make_shared<CCziWriterInfo>(d.guid)); c.step(); std::shared_ptr<ICziReaderWriter> e; ICziWriter* t = w.get();
    if (who) { supply(SB[0], HowMem, [&](const auto& q) { w->SyncAddSubBlock(q); }); d.sbs.push_back(SB[0]); w->SyncWriteMetadata(mdInfo(MD[0])); d.md = MD[0]; w->Close(); w.reset(); e = CreateCZIReaderWriter(); e->Create(st); t = nullptr; c.step(); }
    bool seen = false; st->env = [&](bool write, uint64_t, uint64_t n) { if (write && n > ((uint64_t)1 << 30)) { seen = true; return 1; } return 0; };
    for (int i = 0; i < 3; ++i)
    {
        c.step();
        if (i != at)
        {
            if (i == 1 || (i == 0 && at == 1)) { supply(SB[1], HowMem, [&](const auto& q) { if (t) t->SyncAddSubBlock(q); else e->SyncAddSubBlock(q); }); d.sbs.push_back(SB[1]); }
            else { if (t) t->SyncWriteMetadata(mdInfo(MD[1])); else e->SyncWriteMetadata(mdInfo(MD[1])); d.md = MD[1]; }
            continue;
        }
        bool thrown = false;
        try
        {
            AddSubBlockInfo inf; inf.Clear(); Sb s = SB[3]; s.x = 100; fillBase(inf, s); WriteMetadataInfo mi; mi.Clear();
            auto part = [&](int call, size_t, const void*& p, size_t& n) { if (call) return false; p = big; n = size; return true; };
            if (kind == 0) { mi.szMetadata = (const char*)big; mi.szMetadataSize = size; } else if (kind == 1) { mi.szMetadata = "<a/>"; mi.szMetadataSize = 4; mi.ptrAttachment = big; mi.attachmentSize = size; }
            else if (kind == 2) { inf.sizeMetadata = size; inf.getMetaData = part; } else { inf.sizeAttachment = size; inf.getAttachment = part; }
            if (kind < 2) { if (t) t->SyncWriteMetadata(mi); else e->SyncWriteMetadata(mi); }
            else if (who == 2) { int key = -1; e->EnumerateSubBlocks([&](int k, const SubBlockInfo&) { key = k; return false; }); e->ReplaceSubBlock(key, inf); } else if (t) t->SyncAddSubBlock(inf); else e->SyncAddSubBlock(inf);
        }
        catch (mc::Violation&) { throw; } catch (std::exception&) { thrown = true; }
        MC_CHECK(thrown && !seen, "a request of ", size, " bytes for ", kind == 0 ? "document metadata" : kind == 1 ? "the attachment of document metadata" : kind == 2 ? "sub-block metadata" : "a sub-block attachment", ", which the format cannot represent, was ", thrown ? "not refused before writing it" : "accepted");
    }
    if (t) t->Close(); else e->Close();
    c.step(); Doc g = readAll(*st->mem, d.md.present); std::string r = diffDoc(d, g); MC_CHECK(r.empty(), "final document: ", r); c.state(mc::mix(mc::mix(who, kind * 10 + at), size)); c.outcome(d.hash());
}

// items larger than 2 and 4 GiB: stored completely, and everything before and behind them is found again
static void hugeItems(mc::Ctx& c)
{
    struct Kind { int what; uint64_t size; }; static const Kind kinds[] = { { 0, (1ull << 31) - 48 }, { 0, 1ull << 31 }, { 0, (1ull << 32) - 16 }, { 0, (1ull << 32) + 48 }, { 0, (1ull << 33) + 1 }, { 1, (1ull << 31) - 1 }, { 2, (1ull << 31) - 1 }, { 3, (1ull << 31) + 16 }, { 3, (1ull << 32) - 1 }, { 4, (1ull << 31) - 1 }, { 5, (1ull << 31) - 1 }, { 6, 70000ull * 70000 }, { 7, 70000ull * 70000 } };
    const int ki = c.choose(13, "kind and size"), who = c.choose(2, "writer/editor"), order = c.choose(24, "order of the requests"); const int what = kinds[ki].what; const uint64_t size = kinds[ki].size; if (what >= 6 && order % 6) throw mc::Prune();
    static uint8_t* big = (uint8_t*)mmap(nullptr, (size_t)1 << 33, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (big == MAP_FAILED) throw mc::Prune();
    static const auto SB = alphabet(); static const auto AT = attAlphabet(); static const auto MD = mdAlphabet(); static Bytes chunk(1 << 24, 0); bool wrong = false;
    auto st = std::make_shared<BigStream>(); st->swallow = [&](uint64_t off, const void* p, uint64_t n) {
        if (n < 65536) return false;
        if (!st->gap) st->hole = off; else if (off != st->hole + st->gap) { wrong = true; return true; }
        const auto* q = (const uint8_t*)p; const uint64_t done = st->gap; // where the bytes come from, if they are given directly
        if (q >= chunk.data() && q < chunk.data() + chunk.size()) { uint64_t k; memcpy(&k, chunk.data(), 8); if (k != done / chunk.size() || (uint64_t)(q - chunk.data()) != done % chunk.size()) wrong = true; }
        if (q >= big && q < big + (1ull << 33) && (uint64_t)(q - big) != (what >= 6 ? done / 70000 * 70016 + done % 70000 : done)) wrong = true;
        st->gap += n; return true; };
    Doc d; d.guid = guid(5); std::shared_ptr<ICziWriter> w = CreateCZIWriter(); w->Create(st, std::make_shared<CCziWriterInfo>(d.guid)); std::shared_ptr<ICziReaderWriter> e; if (who) { w->Close(); w.reset(); e = CreateCZIReaderWriter(); e->Create(st); } c.step();
    std::vector<int> ops{ 0, 1, 2, 3 }; int o = order, k = 24; bool mdBig = false; Att bigAtt; bigAtt.guid = guid(77); bigAtt.type = "BIN"; bigAtt.name = "huge";
    auto part = [&](uint64_t total) { return [&, total](int, size_t offset, const void*& p, size_t& n) { if (offset >= total) return false; n = std::min<uint64_t>(chunk.size(), total - offset); if (n < 65536) { p = big; return true; } const uint64_t k = offset / chunk.size(); memcpy(chunk.data(), &k, 8); p = chunk.data(); return true; }; };
    auto whole = [&](uint64_t total) { return [&, total](int call, size_t, const void*& p, size_t& n) { if (call) return false; p = big; n = total; return true; }; };
    for (int n = 4; n > 0; --n)
    {
        k /= n; const int op = ops[o / k]; ops.erase(ops.begin() + o / k); o %= k; c.step();
        if (op == 0) { supply(SB[1], HowMem, [&](const auto& q) { if (w) w->SyncAddSubBlock(q); else e->SyncAddSubBlock(q); }); d.sbs.push_back(SB[1]); continue; }
        if (op == 1) { if (w) w->SyncAddAttachment(attInfo(AT[1])); else e->SyncAddAttachment(attInfo(AT[1])); d.atts.push_back(AT[1]); continue; }
        if (op == 2) { if (what == 4 || what == 5) continue; if (w) w->SyncWriteMetadata(mdInfo(MD[1])); else e->SyncWriteMetadata(mdInfo(MD[1])); d.md = MD[1]; continue; }
        if (what <= 2)
        {
            AddSubBlockInfo inf; inf.Clear(); Sb s = SB[3]; s.x = 100; s.data = s.meta = s.att = Bytes(); fillBase(inf, s); if (what == 0) { inf.sizeData = size; inf.getData = part(size); } else { inf.sizeData = 12; inf.getData = whole(12); if (what == 1) { inf.sizeMetadata = size; inf.getMetaData = whole(size); } else { inf.sizeAttachment = size; inf.getAttachment = whole(size); } }
            if (w) w->SyncAddSubBlock(inf); else e->SyncAddSubBlock(inf);
            d.sbs.push_back(s);
        }
        else if (what == 3) { AddAttachmentInfo ai = attInfo(bigAtt); ai.ptrData = big; ai.dataSize = (uint32_t)size; if (w) w->SyncAddAttachment(ai); else e->SyncAddAttachment(ai); d.atts.push_back(bigAtt); }
        else if (what <= 5) { WriteMetadataInfo mi; mi.Clear(); if (what == 4) { mi.szMetadata = (const char*)big; mi.szMetadataSize = size; } else { mi.szMetadata = "<a/>"; mi.szMetadataSize = 4; mi.ptrAttachment = big; mi.attachmentSize = size; } if (w) w->SyncWriteMetadata(mi); else e->SyncWriteMetadata(mi); mdBig = true; }
        else
        {
            Sb s = SB[3]; s.x = 100; s.pt = PixelType::Gray8; s.comp = 0; s.lw = s.lh = s.pw = s.ph = 70000; s.data = s.meta = s.att = Bytes();
            if (what == 6) { AddSubBlockInfoStridedBitmap q; q.Clear(); fillBase(q, s); q.ptrBitmap = big; q.strideBitmap = 70016; if (w) w->SyncAddSubBlock(q); else e->SyncAddSubBlock(q); }
            else { AddSubBlockInfoLinewiseBitmap q; q.Clear(); fillBase(q, s); q.getBitmapLine = [&](int l) -> const void* { return big + 70016ull * l; }; if (w) w->SyncAddSubBlock(q); else e->SyncAddSubBlock(q); }
            d.sbs.push_back(s);
        }
        const uint64_t tail = what == 0 && size % chunk.size() < 65536 ? size % chunk.size() : 0; MC_CHECK(!wrong && st->gap == size - tail, "of an item of ", size, " bytes ", st->gap + tail, " bytes were written", wrong ? ", not one behind the other or not the right ones" : "");
        const uint64_t seg = st->hole - 288 - (what == 2 ? 12 : what == 5 ? 4 : 0); auto f64 = [&](int at) { int64_t v; memcpy(&v, st->mem->data() + seg + at, 8); return v; }; auto f32 = [&](int at) { int32_t v; memcpy(&v, st->mem->data() + seg + at, 4); return (int64_t)v; };
        MC_CHECK(!memcmp(st->mem->data() + seg, "ZISRAW", 6), "no segment is found where the huge item was written"); const int64_t used = f64(24), alloc = f64(16), fix = 256 + (what == 1 || what == 2 ? 12 : what == 5 ? 4 : 0);
        MC_CHECK(used == (int64_t)size + fix, "used size ", used, " of a segment with ", size, " bytes of payload"); MC_CHECK(alloc >= used && alloc < used + 64 && alloc % 32 == 0, "allocated size ", alloc, " of a segment with used size ", used);
        const int64_t stored = what == 0 || what >= 6 ? f64(40) : what == 1 || what == 4 ? f32(32) : what == 2 || what == 5 ? f32(36) : f64(32); MC_CHECK(stored == (int64_t)size, "the segment says ", stored, " bytes for an item of ", size);
    }
    if (w) w->Close(); else e->Close();
    w.reset(); e.reset(); auto skip = [&](const Sb* s, const Att* a) { return s ? s->x == 100 : a->name == "huge"; };
    for (int round = 0; round < 2; ++round)
    {
        { auto r = CreateCZIReader(); r->Open(st); Doc g = readDoc(r.get(), nullptr, nullptr, skip); if (d.md.present && !mdBig) readMd(r.get(), g); std::string x = diffDoc(d, g); MC_CHECK(x.empty(), "document with an item of ", size, " bytes", round ? ", after another edit: " : ": ", x); c.step(); }
        if (round) break;
        e = CreateCZIReaderWriter(); e->Create(st); supply(SB[2], HowMem, [&](const auto& q) { e->SyncAddSubBlock(q); }); d.sbs.push_back(SB[2]); e->SyncAddAttachment(attInfo(AT[2])); d.atts.push_back(AT[2]); { Doc g = readDoc(e.get(), nullptr, nullptr, skip); if (d.md.present && !mdBig) readMd(e.get(), g); std::string x = diffDoc(d, g); MC_CHECK(x.empty(), "edit session with an item of ", size, " bytes: ", x); } e->Close(); e.reset(); c.step(2);
    }
    MC_CHECK(!st->touched, "the huge item was overwritten"); c.state(mc::mix(mc::mix(ki, who), order)); c.outcome(d.hash());
}

// which attachments count as the same: GUID, name and type, each compared completely
static void attachmentIdentity(mc::Ctx& c)
{
    static const std::string types[] = { "CZTXT", "CZTXU", "CZTX", "", "EIGHTCHR", "EIGHTCHX", "cztxt" }, names[] = { "n", "N", "", "name", "nam", std::string(80, 'q'), std::string(79, 'q') + "r", std::string(79, 'q'), std::string(40, 'q') };
    std::vector<GUID> g; g.push_back(guid(1)); { GUID x = guid(1); x.Data1 ^= 0x80000000u; g.push_back(x); x = guid(1); x.Data2 ^= 1; g.push_back(x); x = guid(1); x.Data3 ^= 0x8000; g.push_back(x); for (int i : { 0, 3, 7 }) { x = guid(1); x.Data4[i] ^= 1; g.push_back(x); } }
    const bool edit = c.flip("in an edit session, after reopening"); Doc d; d.guid = guid(8); auto st = std::make_shared<MemStream>(); auto w = CreateCZIWriter(); w->Create(st, std::make_shared<CCziWriterInfo>(d.guid)); c.step();
    Att a; a.guid = g[0]; a.type = types[c.choose(7, "type")]; a.name = names[c.choose(9, "name")]; a.data = pattern(10, 3); w->SyncAddAttachment(attInfo(a)); d.atts.push_back(a);
    std::shared_ptr<ICziReaderWriter> rw; if (edit) { w->Close(); rw = CreateCZIReaderWriter(); rw->Create(st); }
    const int how = c.choose(4, "differs in: nothing or GUID, type, name, type and name"); Att b = a; b.data = pattern(20, 4); const int k = how == 0 ? c.choose((int)g.size()) : how == 1 ? c.choose(7) : how == 2 ? c.choose(9) : c.choose(63); if (how == 0) b.guid = g[k]; else if (how == 1) b.type = types[k]; else if (how == 2) b.name = names[k]; else { b.type = types[k % 7]; b.name = names[k / 7]; }
    const bool same = (how || k == 0) && a.type == b.type && a.name == b.name; bool thrown = false; try { if (rw) rw->SyncAddAttachment(attInfo(b)); else w->SyncAddAttachment(attInfo(b)); } catch (mc::Violation&) { throw; } catch (std::exception&) { thrown = true; } c.step();
    c.say([&](std::ostream& o) { o << "attachment '" << a.type << "' '" << a.name << "' then '" << b.type << "' '" << b.name << "' GUID variant " << (how ? 0 : k); });
    MC_CHECK(thrown == same, same ? "the same attachment was accepted a second time" : "another attachment was refused"); if (!same) d.atts.push_back(b);
    // each of them once more, and a third one
    for (auto& x : d.atts) { thrown = false; try { if (rw) rw->SyncAddAttachment(attInfo(x)); else w->SyncAddAttachment(attInfo(x)); } catch (std::exception&) { thrown = true; } MC_CHECK(thrown, "an attachment was accepted a second time"); }
    if (rw) rw->Close(); else w->Close(); Doc r = readAll(*st->mem, d.md.present); std::string x = diffDoc(d, r); MC_CHECK(x.empty(), "final document: ", x); c.state(mc::mix(d.hash(), edit)); c.outcome(same);
}

static struct Reg { Reg() {
    using namespace mc;
    for (const char* p : { "C01", "C02" })
    {
        add({ p, "writer_histories", "all sequences of <=3 (thorough 4) operations from 9 sub-block shapes, 3 attachments, 3 metadata blobs, x 5x4x4 reservation settings", [p](Ctx& c) { histories(c, p); } });
        add({ p, "writer_descriptions", "every field of a sub-block description (position, logical/physical size per axis, pixel type, compression id, pyramid type, dimension set, M-index, metadata, attachment) over edge values, all combinations of <=2 (thorough 3) deviating fields", [p](Ctx& c) { descriptions(c, p); } });
        add({ p, "writer_payload_sizes", "all data/metadata/attachment sizes from an edge set x 6 ways of supplying x 3 dimension sets", [p](Ctx& c) { payloads(c, p); } });
        add({ p, "writer_pull_ends_early", "declared sizes x amount given by the pull callback", [p](Ctx& c) { pullEndsEarly(c, p); } });
        add({ p, "writer_item_counts", "item counts around reservation sizes x reservations", [p](Ctx& c) { counts(c, p); } });
        add({ p, "writer_reuse", "two documents in a row with one writer object, x reservations", [p](Ctx& c) { reuse(c, p); } });
    }
    add({ "C05", "attachment_identity", "an attachment with each of 7 types x 9 names, then one differing in nothing, one part of the GUID (7), the type (7), the name (9) or both (63); by the writer or in an edit session; each again", attachmentIdentity });
    add({ "C05", "writer_histories", "all sequences of <=3 (thorough 4) operations from 9 sub-block shapes, 3 attachments, 3 metadata blobs (incl. duplicates), x 5x4x4 reservation settings", [](Ctx& c) { histories(c, "C05"); } });
    add({ "C01", "writer_guid", "requested (35 patterns of zero and non-zero bytes)/absent file GUID", guidRule });
    add({ "C05", "writer_refusal_histories", "all sequences of <=3 (thorough 4) requests from 17 sub-blocks x 4 dimension bounds x 3 M-bounds x duplicates allowed or not", refuse });
    add({ "C05", "writer_extreme_duplicates", "all sequences of 3 (4) sub-blocks whose position, M-index or coordinate is out of 9 values up to the limits of the number range; each added again", extremeDuplicates });
    add({ "C05", "writer_extreme_bounds", "declared bounds of a dimension and of M: 4 ranges up to the limits of 32 bits x 4 starts x 4 sizes x 4 dimensions; every value in and next to them", extremeBounds });
    add({ "C05", "writer_layer_duplicates", "all pairs of 19 pyramid layers (zoom 1 to 1/2048) of otherwise equal sub-blocks, alone and together with one of every layer x duplicates allowed or not x 3 sizes", layerDuplicates });
    add({ "C01", "huge_items", "13 kinds and sizes of an item of 2 to 8 GiB (sub-block data, metadata, attachment, strided and linewise bitmap, attachment, document metadata) x writer/edit session x 24 orders among other requests, then another edit session", hugeItems });
    add({ "C05", "oversized_requests", "document/sub-block metadata and attachments of sizes from 2^31 on, on a writer and on an edit session, at every position among other requests", oversized });
    add({ "C05", "writer_malformed_requests", "all sequences of 3 well- and malformed requests (12 kinds)", badArgs });
} } reg;
