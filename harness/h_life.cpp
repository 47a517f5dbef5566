// C27: life cycle of reader, writer and editor - calls in the wrong state are refused and change nothing, a re-used object carries nothing over,
// what was handed out stays valid.
#include "czi.h"
#include <future>
using namespace cz; using namespace libCZI;
namespace
{
    typedef DimensionIndex D;
    Sb sb(int c, int m, int x, int w, uint32_t seed) { return makeSb({ { D::C, c }, { D::S, c } }, m, x, 2, w, 5, PixelType::Gray8, seed, 3, 2); }
    Att att(int n) { Att a; a.guid = guid(50 + n); a.type = "ABC"; a.name = mc::cat("att", n); a.data = pattern(20 + n, n); return a; }
    const Doc& document(int k)
    {
        static Doc docs[3]; static bool done = false;
        if (!done)
        {
            done = true;
            docs[0].guid = guid(1); docs[0].sbs = { sb(0, 0, 0, 6, 1), sb(0, 1, 6, 6, 2), sb(1, 0, 3, 4, 3) }; docs[0].atts = { att(1) }; docs[0].md.present = true; docs[0].md.xml = pattern(40, 5); for (auto& b : docs[0].md.xml) b = 'a' + b % 20;
            docs[1].guid = guid(2); docs[1].sbs = { sb(0, 3, -7, 9, 11) }; docs[1].md = docs[0].md; docs[1].md.xml.resize(20);                    // no attachment directory entries
            docs[2].guid = guid(3); docs[2].sbs = { sb(0, 1, 0, 2, 21), sb(2, 2, 50, 2, 22) }; docs[2].atts = { att(4), att(5) }; docs[2].md = docs[0].md;
        }
        return docs[k];
    }
    const Bytes& bytes(int k) { static Bytes b[3]; if (b[k].empty()) b[k] = writeDoc(document(k)); return b[k]; }
    // documents which cannot be opened: 0 not a CZI; 1 no sub-block directory; 2 directory cut off; 3 attachment directory is not one
    Bytes broken(int kind)
    {
        Bytes b = bytes(2);
        auto field = [&](size_t off) { int64_t v; memcpy(&v, b.data() + off, 8); return (size_t)v; };
        switch (kind) { case 0: b[0] = 'X'; break; case 1: b[field(32 + 52)] = 'X'; break; case 2: b.resize(field(32 + 52) + 40); break; default: b[field(32 + 72)] = 'X'; }
        return b;
    }
    // true: done, false: refused. Everything the library reports is a std::exception.
    template <typename F> bool attempt(F f) { try { f(); return true; } catch (mc::Violation&) { throw; } catch (std::exception&) { return false; } }

    struct Query { const char* name; std::function<std::string(ISubBlockRepository*, IAttachmentRepository*)> f; };
    std::string rect(const IntRect& r) { return mc::cat(r.x, ",", r.y, ",", r.w, ",", r.h); }
    std::string stat(const SubBlockStatistics& s) { std::string t = mc::cat(s.subBlockCount, " m ", s.minMindex, "..", s.maxMindex, " ", rect(s.boundingBox), " ", rect(s.boundingBoxLayer0Only)); s.dimBounds.EnumValidDimensions([&](D d, int b, int n) { t += mc::cat(" ", Utils::DimensionToChar(d), b, "+", n); return true; }); for (auto& p : s.sceneBoundingBoxes) t += mc::cat(" S", p.first, "=", rect(p.second.boundingBox)); return t; }
    std::string lst(std::vector<std::string> v) { std::sort(v.begin(), v.end()); std::string t; for (auto& s : v) t += s + "\n"; return t; }
    // every query of a repository, as text which does not depend on the numbering of the items
    const std::vector<Query>& queries()
    {
        static const std::vector<Query> q = {
            { "EnumerateSubBlocks", [](ISubBlockRepository* r, IAttachmentRepository*) { std::vector<std::string> v; r->EnumerateSubBlocks([&](int, const SubBlockInfo& i) { v.push_back(fromInfo(i).head()); return true; }); return lst(v); } },
            { "EnumSubset", [](ISubBlockRepository* r, IAttachmentRepository*) { std::vector<std::string> v; CDimCoordinate c{ { D::C, 0 } }; IntRect roi{ -20, -20, 300, 300 }; r->EnumSubset(&c, &roi, true, [&](int, const SubBlockInfo& i) { v.push_back(fromInfo(i).head()); return true; }); return lst(v); } },
            { "GetStatistics", [](ISubBlockRepository* r, IAttachmentRepository*) { return stat(r->GetStatistics()); } },
            { "GetPyramidStatistics", [](ISubBlockRepository* r, IAttachmentRepository*) { std::string t; for (auto& p : r->GetPyramidStatistics().scenePyramidStatistics) { t += mc::cat("S", p.first, ":"); for (auto& l : p.second) t += mc::cat(" ", (int)l.layerInfo.minificationFactor, "^", (int)l.layerInfo.pyramidLayerNo, "x", l.count); } return t; } },
            { "TransformPoint(raw,pixel)", [](ISubBlockRepository* r, IAttachmentRepository*) { auto p = r->TransformPoint({ CZIFrameOfReference::RawSubBlockCoordinateSystem, { 3, 4 } }, CZIFrameOfReference::PixelCoordinateSystem); return mc::cat(p.point.x, ",", p.point.y); } },
            { "TransformPoint(default,pixel)", [](ISubBlockRepository* r, IAttachmentRepository*) { auto p = r->TransformPoint({ CZIFrameOfReference::Default, { 3, 4 } }, CZIFrameOfReference::PixelCoordinateSystem); return mc::cat(p.point.x, ",", p.point.y); } },
            { "TransformPoint(raw,default)", [](ISubBlockRepository* r, IAttachmentRepository*) { auto p = r->TransformPoint({ CZIFrameOfReference::RawSubBlockCoordinateSystem, { 3, 4 } }, CZIFrameOfReference::Default); return mc::cat(p.point.x, ",", p.point.y); } },
            { "TryGetSubBlockInfo", [](ISubBlockRepository* r, IAttachmentRepository*) { std::vector<std::string> v; for (int i = 0; i < 12; ++i) { SubBlockInfo s; if (r->TryGetSubBlockInfo(i, &s)) v.push_back(fromInfo(s).head()); } return lst(v); } },
            { "TryGetSubBlockInfoOfArbitrarySubBlockInChannel", [](ISubBlockRepository* r, IAttachmentRepository*) { std::string t; for (int i = 0; i < 3; ++i) { SubBlockInfo s; const bool b = r->TryGetSubBlockInfoOfArbitrarySubBlockInChannel(i, s); int cc = -1; if (b) s.coordinate.TryGetPosition(D::C, &cc); t += mc::cat(b, cc == i, " "); } return t; } },
            { "ReadSubBlock", [](ISubBlockRepository* r, IAttachmentRepository*) { std::vector<std::string> v; for (int i = 0; i < 12; ++i) if (auto b = r->ReadSubBlock(i)) v.push_back(readSb(b.get()).key()); return lst(v); } },
            { "GetAttachmentCount", [](ISubBlockRepository*, IAttachmentRepository* a) { return mc::cat(a->GetAttachmentCount()); } },
            { "TryGetAttachmentInfo", [](ISubBlockRepository*, IAttachmentRepository* a) { std::vector<std::string> v; for (int i = 0; i < 12; ++i) { AttachmentInfo s; if (a->TryGetAttachmentInfo(i, &s)) v.push_back(fromAttInfo(s).id()); } return lst(v); } },
            { "EnumerateAttachments", [](ISubBlockRepository*, IAttachmentRepository* a) { std::vector<std::string> v; a->EnumerateAttachments([&](int, const AttachmentInfo& i) { v.push_back(fromAttInfo(i).id()); return true; }); return lst(v); } },
            { "EnumerateSubset", [](ISubBlockRepository*, IAttachmentRepository* a) { std::vector<std::string> v; a->EnumerateSubset("ABC", nullptr, [&](int, const AttachmentInfo& i) { v.push_back(fromAttInfo(i).id()); return true; }); return lst(v); } },
            { "ReadAttachment", [](ISubBlockRepository*, IAttachmentRepository* a) { std::vector<std::string> v; for (int i = 0; i < 12; ++i) if (auto b = a->ReadAttachment(i)) { Att x = fromAttInfo(b->GetAttachmentInfo()); size_t n = 0; auto p = b->GetRawData(&n); x.data = raw(p, n); v.push_back(x.key()); } return lst(v); } },
        };
        return q;
    }
    std::string mdText(IMetadataSegment* m) { if (!m) return "none"; size_t n = 0; auto p = m->GetRawData(IMetadataSegment::XmlMetadata, &n); Bytes b = raw(p, n); return std::string(b.begin(), b.end()); }
    template <typename T> std::string header(T* r) { auto i = r->GetFileHeaderInfo(); return mc::cat(i.fileGuid.Data1, " ", i.majorVersion, ".", i.minorVersion); }
    // answers of a fresh reader
    const std::vector<std::string>& answers(int k)
    {
        static std::vector<std::string> a[3]; if (!a[k].empty()) return a[k];
        auto r = CreateCZIReader(); r->Open(std::make_shared<MemStream>(bytes(k))); for (auto& q : queries()) a[k].push_back(q.f(r.get(), r.get())); a[k].push_back(mdText(r->ReadMetadataSegment().get())); a[k].push_back(header(r.get())); return a[k];
    }
    // pixels of all documents are gray, the picture identifies the document
    std::string picture(const std::shared_ptr<ISingleChannelTileAccessor>& a) { CDimCoordinate c{ { D::C, 0 } }; ISingleChannelTileAccessor::Options o; o.Clear(); auto b = a->Get(PixelType::Gray8, IntRect{ -10, 0, 25, 8 }, &c, &o); ScopedBitmapLockerSP l(b); std::string t; for (int y = 0; y < 8; ++y) t.append((const char*)l.ptrDataRoi + (size_t)y * l.stride, 25); return t; }
    std::string pictureOf(int k) { static std::string t[3]; if (t[k].empty()) { auto r = CreateCZIReader(); r->Open(std::make_shared<MemStream>(bytes(k))); t[k] = picture(r->CreateSingleChannelTileAccessor()); } return t[k]; }

    // ------------------------------------------------------------------ reader
    void readerHistories(mc::Ctx& c)
    {
        auto r = CreateCZIReader(); int open = -1; const int n = c.thorough() ? 6 : 5; std::weak_ptr<MemStream> cur; std::string t; uint64_t h = 0;
        struct Kept { int doc; std::shared_ptr<ISubBlock> s; std::string sk; std::shared_ptr<IAttachment> a; std::string ak; std::shared_ptr<IMetadataSegment> m; std::string mk; std::shared_ptr<ISingleChannelTileAccessor> acc; }; std::vector<Kept> kept;
        auto attKey = [](IAttachment* a) { if (!a) return std::string("none"); Att x = fromAttInfo(a->GetAttachmentInfo()); size_t k = 0; auto p = a->GetRawData(&k); x.data = raw(p, k); return x.key(); };
        for (int i = 0; i < n; ++i)
        {
            const int op = c.choose(11, "operation"); c.step();
            if (op < 3)
            {
                t += mc::cat("; open ", op); auto st = std::make_shared<MemStream>(bytes(op)); const bool ok = attempt([&] { r->Open(st); });
                MC_CHECK(ok == (open < 0), open < 0 ? "a usable document is refused" : "Open is accepted although a document is open", t); if (ok) { open = op; cur = st; }
                else { std::weak_ptr<MemStream> w = st; st.reset(); MC_CHECK(w.expired(), "the stream of a refused Open is kept", t); }
            }
            else if (op < 7)
            {
                t += mc::cat("; open broken ", op - 3); auto st = std::make_shared<MemStream>(broken(op - 3)); MC_CHECK(!attempt([&] { r->Open(st); }), "a broken document is opened", t);
                std::weak_ptr<MemStream> w = st; st.reset(); MC_CHECK(w.expired(), "the stream of a failed Open is kept", t);
            }
            else if (op == 7) { t += "; close"; const bool ok = attempt([&] { r->Close(); }); MC_CHECK(ok == (open >= 0), ok ? "Close of a reader which is not open succeeds" : "Close fails", t); open = -1; MC_CHECK(cur.expired(), "the stream is kept after Close", t); }
            else if (op == 8)
            {
                t += "; query"; size_t k = 0;
                auto one = [&](const char* name, const std::function<std::string()>& f) { std::string g; const bool ok = attempt([&] { g = f(); }); if (open < 0) MC_CHECK(!ok, name, " works without an open document", t); else { MC_CHECK(ok, name, " fails", t); MC_CHECK(g == answers(open)[k], name, " gives\n", g, "instead of\n", answers(open)[k], t); } ++k; };
                for (auto& q : queries()) one(q.name, [&] { return q.f(r.get(), r.get()); });
                one("ReadMetadataSegment", [&] { return mdText(r->ReadMetadataSegment().get()); }); one("GetFileHeaderInfo", [&] { return header(r.get()); });
                int ex = 0; const bool ok = attempt([&] { r->EnumerateSubBlocksEx([&](int, const DirectorySubBlockInfo&) { ++ex; return true; }); }); MC_CHECK(ok == (open >= 0) && (open < 0 || ex == (int)document(open).sbs.size()), "EnumerateSubBlocksEx", t);
            }
            else if (op == 9)
            {
                t += "; take objects"; Kept k; k.doc = open; const bool ok = attempt([&] { k.s = r->ReadSubBlock(0); k.a = r->ReadAttachment(0); k.m = r->ReadMetadataSegment(); k.acc = r->CreateSingleChannelTileAccessor(); }); MC_CHECK(ok == (open >= 0), "objects can", ok ? "" : "not", " be had", t);
                const bool ok2 = attempt([&] { r->CreateAccessor(AccessorType::SingleChannelScalingTileAccessor); }); MC_CHECK(ok2 == (open >= 0), "CreateAccessor", t);
                if (ok) { k.sk = readSb(k.s.get()).key(); k.ak = attKey(k.a.get()); k.mk = mdText(k.m.get()); kept.push_back(k); }
            }
            else
            {
                t += "; use objects";
                for (auto& k : kept)
                {
                    MC_CHECK(readSb(k.s.get()).key() == k.sk, "a sub-block changed", t); MC_CHECK(attKey(k.a.get()) == k.ak, "an attachment changed", t); MC_CHECK(mdText(k.m.get()) == k.mk, "a metadata segment changed", t);
                    std::string p; const bool ok = attempt([&] { p = picture(k.acc); }); if (open < 0) MC_CHECK(!ok, "an accessor works after Close", t); else if (open == k.doc) MC_CHECK(ok && p == pictureOf(open), "an accessor does not give the picture", t); else MC_CHECK(!ok || p == pictureOf(open), "an accessor of a reader which was re-opened gives neither an error nor the picture of its document", t);
                }
            }
            h = mc::mix(h, op); c.state(mc::mix(open + 1, mc::mix(kept.size(), op)));
        }
        r.reset(); for (auto& k : kept) { MC_CHECK(readSb(k.s.get()).key() == k.sk && attKey(k.a.get()) == k.ak && mdText(k.m.get()) == k.mk, "an object is not usable after the reader is gone", t); if (open == k.doc) MC_CHECK(picture(k.acc) == pictureOf(open), "an accessor does not keep its reader", t); }
        kept.clear(); MC_CHECK(cur.expired(), "the stream is kept after everything was released", t); c.outcome(h);
    }

    // ------------------------------------------------------------------ writer
    void writerHistories(mc::Ctx& c)
    {
        CZIWriterOptions wo; wo.allow_duplicate_subblocks = c.flip("duplicates allowed"); auto w = CreateCZIWriter(&wo); const int n = c.thorough() ? 7 : 6; std::shared_ptr<MemStream> st; bool open = false; Doc d; std::string t; int docs = 0; uint64_t h = 0; std::weak_ptr<MemStream> last;
        for (int i = 0; i < n; ++i)
        {
            const int op = c.choose(8, "operation"); c.step(); h = mc::mix(h, op);
            if (op == 0)
            {
                t += "; create"; auto s = std::make_shared<MemStream>(); const GUID g = guid(70 + i); const bool ok = attempt([&] { w->Create(s, std::make_shared<CCziWriterInfo>(g)); }); MC_CHECK(ok == !open, ok ? "Create succeeds though a document is being written" : "Create fails", t);
                if (ok) { open = true; st = s; d = Doc(); d.guid = g; } else MC_CHECK(s->mem->empty() && s.use_count() == 1, "the stream of a refused Create is written to or kept", t);
            }
            else if (op == 1)
            {
                t += "; create on a failing stream"; auto s = std::make_shared<MemStream>(); s->env = [](bool, uint64_t, uint64_t) { return 1; }; MC_CHECK(!attempt([&] { w->Create(s, std::make_shared<CCziWriterInfo>(guid(99), CDimBounds{ { D::C, 0, 1 } }, 0, 0)); }), "Create on a failing stream succeeds", t); MC_CHECK(s.use_count() == 1, "the failing stream is kept", t);
            }
            else if (op == 2 || op == 3)
            {
                t += mc::cat("; sub-block ", op - 2); Sb s = sb(op - 2, 1, 3, 4, 30 + op); const bool dup = std::any_of(d.sbs.begin(), d.sbs.end(), [&](const Sb& x) { return x.head() == s.head(); }) && !wo.allow_duplicate_subblocks;
                const bool ok = attempt([&] { supply(s, HowMem, [&](const auto& x) { w->SyncAddSubBlock(x); }); }); MC_CHECK(ok == (open && !dup), ok ? "a sub-block is accepted in the wrong state" : "a sub-block is refused", t); if (ok) d.sbs.push_back(s);
            }
            else if (op == 4) { t += "; attachment"; Att a = att(7); const bool dup = !d.atts.empty(); const bool ok = attempt([&] { w->SyncAddAttachment(attInfo(a)); }); MC_CHECK(ok == (open && !dup), ok ? "an attachment is accepted in the wrong state" : "an attachment is refused", t); if (ok) d.atts.push_back(a); }
            else if (op == 5) { t += "; metadata"; Md m; m.present = true; m.xml = pattern(30 + i * 60, i); const bool ok = attempt([&] { w->SyncWriteMetadata(mdInfo(m)); }); MC_CHECK(ok == open, ok ? "metadata is accepted in the wrong state" : "metadata is refused", t); if (ok) d.md = m; }
            else if (op == 6)
            {
                t += "; query"; SubBlockStatistics s; std::string x; const bool ok = attempt([&] { s = w->GetStatistics(); }), ok2 = attempt([&] { PrepareMetadataInfo p; x = w->GetPreparedMetadata(p)->GetXml(); }); MC_CHECK(ok == open && ok2 == open, "GetStatistics/GetPreparedMetadata in the ", open ? "right" : "wrong", " state", t);
                if (ok) { MC_CHECK(s.subBlockCount == (int)d.sbs.size(), "statistics tell of ", s.subBlockCount, " sub-blocks instead of ", d.sbs.size(), t); int b, cnt; const bool hc = s.dimBounds.TryGetInterval(D::C, &b, &cnt); MC_CHECK(hc == !d.sbs.empty(), "bounds", t); }
            }
            else
            {
                t += "; close"; const bool ok = attempt([&] { w->Close(); }); MC_CHECK(ok == open, ok ? "Close succeeds without a document" : "Close fails", t);
                if (ok) { MC_CHECK(st.use_count() == 1, "the stream is kept after Close", t); StructOpt so; Doc g = checkStructure(*st->mem, so); std::string e = diffDoc(d, g); MC_CHECK(e.empty(), "the document is not what was written: ", e, t); e = diffDoc(d, readAll(*st->mem, d.md.present)); MC_CHECK(e.empty(), "the document reads differently: ", e, t); open = false; d = Doc(); ++docs; c.outcome(g.hash()); }
            }
            c.state(mc::mix(open, mc::mix(d.hash(), op)));
        }
        if (open) { w.reset(); MC_CHECK(st.use_count() == 1, "the stream is kept after the writer is gone", t); }
    }

    // ------------------------------------------------------------------ editor
    void editorHistories(mc::Ctx& c)
    {
        auto rw = CreateCZIReaderWriter(); const int n = c.thorough() ? 6 : 5; bool open = false, closed = false; std::shared_ptr<MemStream> st; Doc d; std::string t; uint64_t h = 0; int k = 0; std::shared_ptr<ISubBlock> kept; std::string keptKey;
        // after Close the object may refuse everything, or go on
        auto judge = [&](bool ok, const char* what) { if (closed) { return; } MC_CHECK(ok == open, what, ok ? " works without a document" : " fails", t); };
        for (int i = 0; i < n; ++i)
        {
            const int op = c.choose(13, "operation"); c.step(); h = mc::mix(h, op); std::vector<int> keys, akeys; Doc now; if (open) { const bool ok = attempt([&] { now = readDoc(rw.get(), &keys, &akeys); }); MC_CHECK(ok || closed, "the document cannot be read", t); if (ok) { readMd(rw.get(), now); std::string e = diffDoc(d, now); MC_CHECK(e.empty(), "the session shows another document: ", e, t); } }
            if (op < 3)
            {
                t += mc::cat("; create ", op); auto s = std::make_shared<MemStream>(); if (op < 2) *s->mem = bytes(op); const Bytes before = *s->mem; const bool ok = attempt([&] { rw->Create(s); });
                if (!closed) MC_CHECK(ok == !open, ok ? "Create succeeds though a document is open" : "Create fails", t); if (ok) { open = true; closed = false; st = s; d = op < 2 ? document(op) : Doc(); if (op == 2) d.guid = rw->GetFileHeaderInfo().fileGuid; } else MC_CHECK(*s->mem == before && s.use_count() == 1, "the stream of a refused Create is written to or kept", t);
            }
            else if (op < 5)
            {
                const int kind = op == 3 ? 2 : 3; t += mc::cat("; create broken ", kind); auto s = std::make_shared<MemStream>(broken(kind)); const Bytes before = *s->mem; const bool ok = attempt([&] { rw->Create(s); }); MC_CHECK(!ok, "a broken document is opened", t); MC_CHECK(*s->mem == before && s.use_count() == 1, "the stream of a failed Create is written to or kept", t);
            }
            else if (op == 5) { t += "; add"; Sb s = sb(0, 20 + i, i, 4, 30 + i); const bool ok = attempt([&] { supply(s, HowMem, [&](const auto& x) { rw->SyncAddSubBlock(x); }); }); judge(ok, "SyncAddSubBlock"); if (ok) d.sbs.push_back(s); }
            else if (op == 6 || op == 7)
            {
                const bool rep = op == 6; t += rep ? "; replace" : "; remove"; int key = keys.empty() ? 0 : keys[0]; Sb s = sb(1, 40 + i, i, 7, 60 + i); const bool ok = attempt([&] { if (rep) supply(s, HowMem, [&](const auto& x) { rw->ReplaceSubBlock(key, x); }); else rw->RemoveSubBlock(key); });
                MC_CHECK(ok == (open && !keys.empty()) || (closed && !ok), rep ? "ReplaceSubBlock" : "RemoveSubBlock", ok ? " works in the wrong state" : " fails", t);
                if (ok && !keys.empty()) { for (size_t x = 0; x < d.sbs.size(); ++x) if (d.sbs[x].key() == now.sbs[0].key()) { if (rep) d.sbs[x] = s; else d.sbs.erase(d.sbs.begin() + x); break; } }
            }
            else if (op == 8) { t += "; add attachment"; Att a = att(20 + i); const bool ok = attempt([&] { rw->SyncAddAttachment(attInfo(a)); }); judge(ok, "SyncAddAttachment"); if (ok) d.atts.push_back(a); }
            else if (op == 9) { t += "; replace or remove attachment"; int key = akeys.empty() ? 0 : akeys[0]; Att a = att(60 + i); const bool rep = i % 2; const bool ok = attempt([&] { if (rep) rw->ReplaceAttachment(key, attInfo(a)); else rw->RemoveAttachment(key); }); { MC_CHECK(ok == (open && !akeys.empty()) || (closed && !ok), rep ? "ReplaceAttachment" : "RemoveAttachment", ok ? " works in the wrong state" : " fails", t); if (ok) for (size_t x = 0; x < d.atts.size(); ++x) if (d.atts[x].key() == now.atts[0].key()) { if (rep) d.atts[x] = a; else d.atts.erase(d.atts.begin() + x); break; } } }
            else if (op == 10) { t += "; metadata"; Md m; m.present = true; m.xml = pattern(25 + i * 50, i); const bool ok = attempt([&] { rw->SyncWriteMetadata(mdInfo(m)); }); judge(ok, "SyncWriteMetadata"); if (ok) d.md = m; }
            else if (op == 11)
            {
                t += "; query"; int works = 0, fails = 0; auto one = [&](const char* name, const std::function<std::string()>& f) { const bool ok = attempt([&] { f(); }); judge(ok, name); (ok ? works : fails)++; };
                for (auto& q : queries()) one(q.name, [&] { return q.f(rw.get(), rw.get()); });
                one("ReadMetadataSegment", [&] { return mdText(rw->ReadMetadataSegment().get()); }); one("GetFileHeaderInfo", [&] { return header(rw.get()); });
                if (open && works) { MC_CHECK(!fails, "some queries work after Close and others do not", t); Doc g = readDoc(rw.get()); readMd(rw.get(), g); std::string e = diffDoc(d, g); MC_CHECK(e.empty(), "the session shows another document: ", e, t); if (!d.sbs.empty() && !kept) { kept = rw->ReadSubBlock(keys.empty() ? 0 : keys[0]); if (kept) keptKey = readSb(kept.get()).key(); } }
            }
            else
            {
                t += "; close"; const bool ok = attempt([&] { rw->Close(); }); judge(ok, "Close"); if (ok) { closed = true; ++k; StructOpt so; so.fresh = false; Doc g = checkStructure(*st->mem, so); std::string e = diffDoc(d, g); MC_CHECK(e.empty(), "the document is not what was edited: ", e, t); e = diffDoc(d, readAll(*st->mem, d.md.present)); MC_CHECK(e.empty(), "the document reads differently: ", e, t); c.outcome(g.hash()); }
            }
            if (kept) MC_CHECK(readSb(kept.get()).key() == keptKey, "a sub-block handed out changed", t);
            c.state(mc::mix(mc::mix(open, closed), mc::mix(d.hash(), op)));
        }
        rw.reset(); if (st) MC_CHECK(st.use_count() == 1, "the stream is kept after the editor is gone", t); if (kept) MC_CHECK(readSb(kept.get()).key() == keptKey, "a sub-block is not usable after the editor is gone", t); (void)k;
    }
    struct Reg { Reg() {
        using namespace mc;
        add({ "C27", "reader_histories", "all sequences of 5 (6) of: open one of 3 documents, open one of 4 broken documents, close, all 18 queries, take objects, use objects taken earlier", readerHistories });
        add({ "C27", "writer_histories", "all sequences of 6 (7) of: create, create on a failing stream, add one of 2 sub-blocks, attachment, metadata, queries, close; duplicates allowed or not", writerHistories });
        add({ "C27", "editor_histories", "all sequences of 5 (6) of: create from one of 3 documents (one empty), from one of 2 broken ones, 6 edits, all 17 queries, close", editorHistories });
    } } reg;
}
