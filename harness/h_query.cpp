// C09: enumeration and subset queries against a per-item reference filter, on readers and edit sessions.
#include "czi.h"
#include <climits>
using namespace cz; using namespace libCZI;
using D = DimensionIndex;

static std::vector<Sb> tiles()
{
    std::vector<Sb> v; uint32_t n = 1;
    auto add = [&](std::vector<std::pair<D, int>> dims, int m, int x, int y, int lw, int lh, int pw, int ph) { Sb s = makeSb(dims, m, x, y, pw, ph, PixelType::Gray8, n++, n % 4, n % 3); s.lw = lw; s.lh = lh; if (lw != pw || lh != ph) s.pyr = SubBlockPyramidType::SingleSubBlock; v.push_back(s); };
    add({ {D::C,0},{D::T,0} }, 0, 0, 0, 2, 2, 2, 2);
    add({ {D::C,0},{D::T,0} }, 1, 2, 0, 2, 2, 2, 2);
    add({ {D::C,0},{D::T,1} }, 0, -3, -3, 3, 3, 3, 3);
    add({ {D::C,1},{D::T,0},{D::S,0} }, -1, 1, 1, 4, 1, 4, 1);
    add({ {D::C,1},{D::S,1} }, 2, 4, 4, 1, 1, 1, 1);
    add({ {D::T,0} }, 3, -1, 2, 2, 2, 2, 2);
    add({}, 4, 0, 3, 2, 2, 2, 2);
    v.back().pyr = SubBlockPyramidType::MultiSubBlock;          // on layer 0, whatever its type says
    add({ {D::C,0},{D::T,0} }, 0, 0, 0, 4, 4, 2, 2);            // pyramid
    add({ {D::C,0},{D::T,0} }, 9, -2, -2, 4, 2, 2, 2); v.back().pyr = SubBlockPyramidType::MultiSubBlock;   // only one extent differs
    add({ {D::C,0},{D::B,1},{D::V,2} }, 0, 3, 3, 2, 2, 2, 2);
    add({ {D::C,-1},{D::T,0} }, 0, 5, -5, 1, 8, 1, 8);
    return v;
}
static std::vector<Att> atts()
{
    std::vector<Att> v; auto add = [&](int g, const char* t, std::string n) { Att a; a.guid = guid(g); a.type = t; a.name = n; a.data = pattern(5 + g, g); v.push_back(a); };
    add(1, "CZI", "Label"); add(2, "CZTIMS", "TimeStamps"); add(3, "CZI", "SlidePreview"); add(4, "EIGHTCHR", std::string(80, 'n')); add(5, "EIGHTCH", std::string(79, 'n')); add(6, "CZTIMS", "Label"); add(7, "X", "");
    return v;
}
static const Doc& subject() { static Doc d; if (d.sbs.empty()) { d.guid = guid(1); d.sbs = tiles(); d.atts = atts(); d.md.present = true; d.md.xml = pattern(50, 1); } return d; }
struct Repos { std::shared_ptr<ICZIReader> r; std::shared_ptr<ICziReaderWriter> rw; ISubBlockRepository* sb; IAttachmentRepository* at; Doc d; std::vector<int> keys, akeys; };
static const Repos& repos(int kind)
{
    static std::map<int, Repos> all; auto it = all.find(kind); if (it != all.end()) return it->second; Repos& R = all[kind];
    const Doc& d = subject(); Bytes f = writeDoc(d);
    if (kind < 3) { R.r = CreateCZIReader(); ICZIReader::OpenOptions o; if (kind == 1) { o.lax_subblock_coordinate_checks = true; o.ignore_sizem_for_pyramid_subblocks = true; } if (kind == 2) o.subBlockDirectoryInfoPolicy = (ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy)((int)ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy::SubBlockHeaderPrecedence | (int)ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy::IgnoreDiscrepancy); R.r->Open(std::make_shared<MemStream>(f), &o); R.sb = R.r.get(); R.at = R.r.get(); R.d = readDoc(R.r.get(), &R.keys, &R.akeys); }
    else
    {
        R.rw = CreateCZIReaderWriter(); R.rw->Create(std::make_shared<MemStream>(f)); R.sb = R.rw.get(); R.at = R.rw.get();
        if (kind == 4) { R.rw->RemoveSubBlock(1); R.rw->RemoveAttachment(0); Sb s = makeSb({ {D::C,0},{D::T,0} }, 33, 1, 1, 3, 3, PixelType::Gray8, 70); supply(s, HowMem, [&](const auto& i) { R.rw->SyncAddSubBlock(i); }); }
        R.d = readDoc(R.rw.get(), &R.keys, &R.akeys);
    }
    return R;
}
static std::string listDiff(const std::vector<std::pair<int, std::string>>& w, const std::vector<std::pair<int, std::string>>& g)
{
    std::vector<std::string> a, b; for (auto& p : w) a.push_back(mc::cat("#", p.first, " ", p.second)); for (auto& p : g) b.push_back(mc::cat("#", p.first, " ", p.second)); return diffLists(a, b, "visited");
}
static void subsets(mc::Ctx& c)
{
    const Repos& R = repos(c.choose(5, "repository"));
    CDimCoordinate q; std::map<D, int> want; const D dims[] = { D::C, D::T, D::S, D::B }; const bool useCoord = c.flip("coordinate given");
    if (useCoord) for (D d : dims) { int k = c.choose(d == D::C ? 4 : 3, "dimension"); if (k) { q.Set(d, k == 3 ? -1 : k - 1); want[d] = k == 3 ? -1 : k - 1; } }
    static const int xs[] = { -4, -3, -1, 0, 1, 2, 5, INT_MIN, 2147483000 }, ws[] = { 0, 1, 2, 6, INT_MAX };
    const bool useRoi = c.flip("roi given"); IntRect roi{ 0,0,0,0 };
    if (useRoi) { roi.x = xs[c.choose(8, "x")]; roi.w = ws[c.choose(5, "w")]; if (c.thorough()) { roi.y = xs[c.choose(8, "y")]; roi.h = ws[c.choose(5, "h")]; } else { static const int yh[][2] = { {-4,1},{-3,6},{0,2},{1,1},{2,INT_MAX},{INT_MIN,INT_MAX},{5,1},{3,0} }; int k = c.choose(8, "y/h"); roi.y = yh[k][0]; roi.h = yh[k][1]; } }
    const bool l0 = c.flip("only layer 0"); const int stop = c.choose(3, "stop after");
    std::vector<std::pair<int, std::string>> exp, got;
    for (size_t i = 0; i < R.d.sbs.size(); ++i)
    {
        const Sb& s = R.d.sbs[i]; bool ok = true;
        for (auto& w : want) if (!s.hasDim(w.first) || s.dim(w.first, 0) != w.second) ok = false;
        if (useRoi) { int64_t x0 = std::max<int64_t>(roi.x, s.x), x1 = std::min<int64_t>((int64_t)roi.x + roi.w, (int64_t)s.x + s.lw), y0 = std::max<int64_t>(roi.y, s.y), y1 = std::min<int64_t>((int64_t)roi.y + roi.h, (int64_t)s.y + s.lh); if (x1 <= x0 || y1 <= y0) ok = false; }
        if (l0 && !s.layer0()) ok = false;
        if (ok) exp.emplace_back(R.keys[i], s.head());
    }
    c.step(); int calls = 0;
    R.sb->EnumSubset(useCoord ? &q : nullptr, useRoi ? &roi : nullptr, l0, [&](int i, const SubBlockInfo& inf) { got.emplace_back(i, fromInfo(inf).head()); ++calls; return !(stop && calls >= stop); });
    if (stop && (int)exp.size() >= stop) { MC_CHECK((int)got.size() == stop, "enumeration visited ", got.size(), " items although it was to be stopped after ", stop); for (auto& g : got) MC_CHECK(std::find(exp.begin(), exp.end(), g) != exp.end(), "visited an item that does not match: ", g.second); }
    else { std::string r = listDiff(exp, got); MC_CHECK(r.empty(), r, "  query ", useCoord ? Utils::DimCoordinateToString(&q) : "-", " roi ", roi.x, ",", roi.y, ",", roi.w, ",", roi.h, " layer0 ", l0); }
    c.state(mc::mix(mc::mix(exp.size(), stop), mc::hashBytes(&roi, sizeof(roi)))); c.outcome(exp.size() * 100 + got.size());
}
// every field of the description of a sub-block next to a plain one
static void described(mc::Ctx& c)
{
    c.setDeviationBudget(c.thorough() ? 3 : 2); Doc d; d.guid = guid(1); d.sbs.push_back(makeSb({ {D::C,1} }, 2, 0, 0, 4, 4, PixelType::Gray8, 5)); d.sbs.push_back(chooseDescription(c, 6));
    const Bytes f = writeDoc(d); auto r = CreateCZIReader(); r->Open(std::make_shared<MemStream>(f)); auto rw = CreateCZIReaderWriter(); rw->Create(std::make_shared<MemStream>(f)); c.say([&](auto& o) { o << d.sbs[1].head(); });
    for (ISubBlockRepository* rep : { (ISubBlockRepository*)r.get(), (ISubBlockRepository*)rw.get() })
    {
        std::map<int, Sb> all; rep->EnumerateSubBlocks([&](int i, const SubBlockInfo& inf) { all[i] = fromInfo(inf); SubBlockInfo q; MC_CHECK(rep->TryGetSubBlockInfo(i, &q) && fromInfo(q).head() == fromInfo(inf).head(), "look-up by index differs"); return true; });
        std::vector<std::string> a, b; for (auto& s : d.sbs) a.push_back(s.head()); for (auto& s : all) b.push_back(s.second.head()); std::string e = diffLists(a, b, "enumerated"); MC_CHECK(e.empty(), e); c.step();
        for (int k = 0; k < 3; ++k) for (int roi = 0; roi < 6; ++roi) for (int l0 = 0; l0 < 2; ++l0)
        {
            CDimCoordinate q; if (k == 1) q.Set(D::C, 1); if (k == 2) { for (auto& p : d.sbs[1].dims) q.Set(p.first, p.second); } static const IntRect R[] = { {0,0,0,0}, {0,0,4,4}, {3,3,1,1}, {4,0,1,1}, {0,4,3,1}, {-2,-2,3,3} };
            std::map<int, std::string> want, got; for (auto& p : all) { const Sb& s = p.second; bool ok = !l0 || (s.pw == s.lw && s.ph == s.lh); for (auto dim : { D::C, D::Z, D::T, D::R, D::S, D::I, D::H, D::V, D::B }) { int v; if (k && q.TryGetPosition(dim, &v)) ok &= s.hasDim(dim) && s.dim(dim, 0) == v; }
                if (roi) ok &= (int64_t)s.x + s.lw > R[roi].x && (int64_t)R[roi].x + R[roi].w > s.x && (int64_t)s.y + s.lh > R[roi].y && (int64_t)R[roi].y + R[roi].h > s.y; if (ok) want[p.first] = s.head(); }
            rep->EnumSubset(k ? &q : nullptr, roi ? &R[roi] : nullptr, l0 != 0, [&](int i, const SubBlockInfo& inf) { MC_CHECK(!got.count(i), "visited twice"); got[i] = fromInfo(inf).head(); return true; }); c.step();
            MC_CHECK(want == got, "query ", k, " region ", roi, " layer0 ", l0, ": ", got.size(), " items visited, ", want.size(), " match");
        }
    }
    c.state(mc::hashStr(d.sbs[1].head(), 1)); c.outcome(mc::hashStr(d.sbs[1].head(), 1));
}
static void attSubsets(mc::Ctx& c)
{
    const Repos& R = repos(c.choose(5, "repository")); static const std::vector<std::string> types = { "CZI", "CZTIMS", "EIGHTCHR", "EIGHTCH", "X", "CZ", "EIGHTCHRX", "" }; static const std::vector<std::string> names = { "Label", "TimeStamps", "SlidePreview", std::string(80, 'n'), std::string(79, 'n'), std::string(81, 'n'), "Lab", "" };
    const int t = c.choose((int)types.size() + 1, "type"), n = c.choose((int)names.size() + 1, "name"), stop = c.choose(4, "stop after");
    std::vector<std::pair<int, std::string>> exp, got; int calls = 0; c.step();
    for (size_t i = 0; i < R.d.atts.size(); ++i) { const Att& a = R.d.atts[i]; if ((!t || a.type == types[t - 1]) && (!n || a.name == names[n - 1])) exp.emplace_back(R.akeys[i], a.id()); }
    auto f = [&](int i, const AttachmentInfo& inf) { got.emplace_back(i, fromAttInfo(inf).id()); ++calls; return !(stop && calls >= stop); };
    if (!t && !n && c.flip("plain enumeration")) R.at->EnumerateAttachments(f); else R.at->EnumerateSubset(t ? types[t - 1].c_str() : nullptr, n ? names[n - 1].c_str() : nullptr, f);
    if (stop && (int)exp.size() >= stop) { MC_CHECK((int)got.size() == stop, "enumeration visited ", got.size(), " items although it was to be stopped after ", stop); for (auto& g : got) MC_CHECK(std::find(exp.begin(), exp.end(), g) != exp.end(), "visited an attachment that does not match: ", g.second); }
    else { std::string r = listDiff(exp, got); MC_CHECK(r.empty(), r); }
    c.state(mc::mix(t * 10 + n, stop)); c.outcome(exp.size() * 10 + got.size());
}
static void indices(mc::Ctx& c)
{
    const Repos& R = repos(c.choose(5, "repository")); static const int bad[] = { -1, INT_MIN, INT_MAX, 1000, -2, 17 }; const int kind = c.choose(4, "call"), which = c.choose(6 + 12, "index"); c.step();
    const int idx = which < 6 ? bad[which] : which - 6; const bool isAt = kind >= 2; const auto& keys = isAt ? R.akeys : R.keys; auto it = std::find(keys.begin(), keys.end(), idx); const bool exists = it != keys.end(); const size_t pos = it - keys.begin();
    try
    {
        if (kind == 0) { SubBlockInfo i; bool b = R.sb->TryGetSubBlockInfo(idx, &i); MC_CHECK(b == exists, "TryGetSubBlockInfo(", idx, ") gives ", b); if (b) MC_CHECK(fromInfo(i).head() == R.d.sbs[pos].head(), "TryGetSubBlockInfo(", idx, ") gives ", fromInfo(i).head()); MC_CHECK(R.sb->TryGetSubBlockInfo(idx, nullptr) == exists, "TryGetSubBlockInfo without output"); }
        if (kind == 1) { auto b = R.sb->ReadSubBlock(idx); MC_CHECK(!!b == exists, "ReadSubBlock(", idx, ") gives ", b ? "something" : "nothing"); if (b) { Sb s = readSb(b.get()); MC_CHECK(s.key() == R.d.sbs[pos].key(), "ReadSubBlock(", idx, ") gives ", s.key()); } }
        if (kind == 2) { AttachmentInfo i; bool b = R.at->TryGetAttachmentInfo(idx, &i); MC_CHECK(b == exists, "TryGetAttachmentInfo(", idx, ") gives ", b); if (b) MC_CHECK(fromAttInfo(i).id() == R.d.atts[pos].id(), "TryGetAttachmentInfo(", idx, ") gives ", fromAttInfo(i).id()); }
        if (kind == 3) { auto b = R.at->ReadAttachment(idx); MC_CHECK(!!b == exists, "ReadAttachment(", idx, ") gives ", b ? "something" : "nothing"); if (b) { Att a = fromAttInfo(b->GetAttachmentInfo()); size_t n; auto p = b->GetRawData(&n); a.data = raw(p, n); MC_CHECK(a.key() == R.d.atts[pos].key(), "ReadAttachment(", idx, ") gives ", a.key()); } }
    }
    catch (mc::Violation&) { throw; }
    catch (std::exception& e) { mc::fail(mc::cat("looking up index ", idx, " raises an error: ", e.what())); }
    c.state(kind * 100 + which); c.outcome(kind * 2 + exists);
}
// full enumeration of documents assembled from all subsets of tiles; reader reused for a second document
static void documents(mc::Ctx& c)
{
    static const auto T = tiles(); static const auto A = atts(); auto r = CreateCZIReader();
    for (int round = 0; round < 2; ++round)
    {
        Doc d; d.guid = guid(3 + round); const int n = round ? 4 : c.thorough() ? 9 : 7; for (int i = 0; i < n; ++i) if (c.flip("tile")) d.sbs.push_back(T[(i + round * 5) % T.size()]);
        for (int i = 0; i < 2; ++i) if (c.flip("attachment")) d.atts.push_back(A[i + round]);
        Bytes f = writeDoc(d); c.step(); auto st = std::make_shared<MemStream>(f); r->Open(st, nullptr); Doc g = readDoc(r.get()); std::string x = diffDoc(d, g); MC_CHECK(x.empty(), round ? "second document opened with the same reader: " : "", x);
        Doc s = checkStructure(f, StructOpt());   // file positions
        auto ex = std::dynamic_pointer_cast<ISubBlockRepositoryEx>(r);
        if (ex) { std::vector<std::string> a, b; ex->EnumerateSubBlocksEx([&](int i, const DirectorySubBlockInfo& inf) { SubBlockInfo si; MC_CHECK(r->TryGetSubBlockInfo(i, &si), "index of the extended enumeration"); MC_CHECK(fromInfo(si).head() == fromInfo(inf).head(), "extended enumeration describes item ", i, " as ", fromInfo(inf).head(), " instead of ", fromInfo(si).head()); Sb p; uint64_t fp = 0; parseDv(f, inf.filePosition + 48, p, fp); MC_CHECK(p.head() == fromInfo(si).head(), "file position of item ", i, " is wrong"); b.push_back(p.head()); return true; }); for (auto& q : d.sbs) a.push_back(q.head()); x = diffLists(a, b, "extended enumeration"); MC_CHECK(x.empty(), x); }
        for (int ch = -1; ch < 3; ++ch)
        {
            bool anyC = false, has = false; for (auto& q : d.sbs) { if (q.hasDim(D::C)) { anyC = true; if (q.dim(D::C, 0) == ch) has = true; } }
            SubBlockInfo si; const bool b = r->TryGetSubBlockInfoOfArbitrarySubBlockInChannel(ch, si);
            if (anyC) { MC_CHECK(b == has, "arbitrary sub-block of channel ", ch, has ? " not found" : " found although there is none"); int v = 0; if (b) MC_CHECK(si.coordinate.TryGetPosition(D::C, &v) && v == ch, "arbitrary sub-block of channel ", ch, " is of channel ", v); }
            else if (ch == 0) MC_CHECK(b == !d.sbs.empty(), "arbitrary sub-block of a document without channels");
        }
        r->Close(); bool t = false; try { r->TryGetSubBlockInfo(0, nullptr); } catch (std::exception&) { t = true; } MC_CHECK(t, "a closed reader answers"); t = false; try { r->EnumerateSubBlocks([](int, const SubBlockInfo&) { return true; }); } catch (std::exception&) { t = true; } MC_CHECK(t, "a closed reader enumerates");
        c.state(d.hash()); c.outcome(d.hash());
        if (round == 0 && !c.flip("reuse")) break;
    }
}
static void transforms(mc::Ctx& c)
{
    Doc d; d.guid = guid(2); const auto T = tiles(); for (int i = 0; i < 4; ++i) if (c.flip("tile")) d.sbs.push_back(T[i == 3 ? 7 : i]); if (d.sbs.empty()) throw mc::Prune(); bool l0 = false; int64_t mx = INT_MAX, my = INT_MAX; for (auto& s : d.sbs) if (s.layer0()) { l0 = true; mx = std::min<int64_t>(mx, s.x); my = std::min<int64_t>(my, s.y); } if (!l0) throw mc::Prune();
    Bytes f = writeDoc(d); std::shared_ptr<ISubBlockRepository> r; const int def = c.choose(3, "default frame"); const CZIFrameOfReference fr[] = { CZIFrameOfReference::Invalid, CZIFrameOfReference::RawSubBlockCoordinateSystem, CZIFrameOfReference::PixelCoordinateSystem };
    struct RwInfo : CCziReaderWriterInfo { CZIFrameOfReference fr; libCZI::CZIFrameOfReference GetDefaultFrameOfReference() const override { return fr; } };
    const int kind = c.choose(4, "reader / edit session / session with additions / session with a removal");
    if (kind == 0) { auto x = CreateCZIReader(); ICZIReader::OpenOptions o; o.default_frame_of_reference = fr[def]; x->Open(std::make_shared<MemStream>(f), &o); r = x; }
    else
    {
        auto x = CreateCZIReaderWriter(); auto i = std::make_shared<RwInfo>(); i->fr = fr[def];
        if (kind == 2) { Doc e; e.guid = d.guid; x->Create(std::make_shared<MemStream>(writeDoc(e)), i); for (auto& s : d.sbs) supply(s, HowMem, [&](const auto& q) { x->SyncAddSubBlock(q); }); }
        else if (kind == 3) { Doc e = d; Sb s = makeSb({ {D::C,0},{D::T,0} }, 33, -50, -60, 3, 3, PixelType::Gray8, 70); e.sbs.push_back(s); x->Create(std::make_shared<MemStream>(writeDoc(e)), i); int k = -1; x->EnumerateSubBlocks([&](int n, const SubBlockInfo& inf) { if (inf.mIndex == 33) k = n; return true; }); x->RemoveSubBlock(k); }
        else x->Create(std::make_shared<MemStream>(f), i);
        r = x;
    }
    const CZIFrameOfReference all[] = { CZIFrameOfReference::Default, CZIFrameOfReference::RawSubBlockCoordinateSystem, CZIFrameOfReference::PixelCoordinateSystem };
    auto a = all[c.choose(3, "from")], b = all[c.choose(3, "to")]; auto res = [&](CZIFrameOfReference q) { return q == CZIFrameOfReference::Default ? (def == 2 ? CZIFrameOfReference::PixelCoordinateSystem : CZIFrameOfReference::RawSubBlockCoordinateSystem) : q; };
    IntPoint p{ c.choose(5, "px") - 2, c.choose(5, "py") * 3 - 6 }; c.step(); int64_t ex = p.x, ey = p.y; if (res(a) != res(b)) { int s = res(b) == CZIFrameOfReference::PixelCoordinateSystem ? -1 : 1; ex += s * mx; ey += s * my; }
    auto g = r->TransformPoint({ a, p }, b); MC_CHECK(g.frame_of_reference == res(b) && g.point.x == ex && g.point.y == ey, "point (", p.x, ",", p.y, ") transformed to (", g.point.x, ",", g.point.y, ") instead of (", ex, ",", ey, ")");
    auto h = r->TransformRectangle({ a, IntRect{ p.x, p.y, 3, 4 } }, b); MC_CHECK(h.rectangle.x == ex && h.rectangle.y == ey && h.rectangle.w == 3 && h.rectangle.h == 4, "rectangle transformed wrongly");
    c.state(mc::mix(d.hash(), def)); c.outcome(mc::mix(ex, ey));
}
static struct Reg { Reg() {
    using namespace mc;
    add({ "C09", "subblock_subsets", "5 repositories (3 reader option sets, 2 edit sessions) x 109 query coordinates x 321 (thorough 1601) regions x layer-0 flag x 3 stop points", subsets });
    add({ "C09", "descriptions", "every field of a sub-block description over edge values, all combinations of <=2 (thorough 3) deviating fields; 3 coordinates x 6 regions x layer-0 flag, reader and edit session", described });
    add({ "C09", "attachment_subsets", "5 repositories x 9 type filters x 9 name filters x 4 stop points", attSubsets });
    add({ "C09", "lookup_by_index", "5 repositories x 4 look-up calls x 18 indices", indices });
    add({ "C09", "documents_and_reader_reuse", "all subsets of 7 (9) tiles and 2 attachments, optionally followed by another document with the same reader", documents });
    add({ "C09", "frame_of_reference", "all documents of <=4 tiles, read or in an edit session with additions/removals, x default frame x frames x 25 points", transforms });
} } reg;
