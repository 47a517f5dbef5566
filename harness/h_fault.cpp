// C06: every write request of every history may fail (5 kinds of failure). C07: the same for read requests.
#include "czi.h"
using namespace cz; using namespace libCZI;
using D = DimensionIndex;

static Md md(size_t n, uint32_t seed, size_t a = 0) { Md m; m.present = true; m.xml = pattern(n, seed); m.att = pattern(a, seed + 1); return m; }
static Att att(int g, const char* name, size_t n, uint32_t seed) { Att a; a.guid = guid(g); a.type = "CZTXT"; a.name = name; a.data = pattern(n, seed); return a; }
static Sb sbd(std::vector<std::pair<D, int>> dims, int m, int x, int y, size_t n, uint32_t seed) { Sb s = makeSb(dims, m, x, y, 2, 2, PixelType::Gray8, seed); s.data = pattern(n, seed); return s; }

// what is certain about a document whose history contained failures
struct Sure { std::vector<Sb> sb; std::vector<Att> at; Md md; bool mdSure = true; int vagueSb = 0, vagueAt = 0; };

template <typename T> static void compareSure(T* r, const Sure& w, const char* what)
{
    std::vector<std::string> want, got, heads; int broken = 0;
    for (auto& s : w.sb) want.push_back(s.key());
    std::vector<int> idx; r->EnumerateSubBlocks([&](int i, const SubBlockInfo&) { idx.push_back(i); return true; });
    for (int i : idx) { try { auto b = r->ReadSubBlock(i); if (!b) { ++broken; continue; } SubBlockInfo si; r->TryGetSubBlockInfo(i, &si); Sb s = readSb(b.get()); if (w.vagueSb == 0) MC_CHECK(fromInfo(si).head() == s.head(), what, ": directory and sub-block ", i, " disagree: ", fromInfo(si).head(), " / ", s.head()); got.push_back(s.key()); } catch (mc::Violation&) { throw; } catch (std::exception&) { ++broken; } }
    auto cmp = [&](std::vector<std::string> a, std::vector<std::string> b, int brk, int vague, const char* kind) {
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); std::vector<std::string> miss, extra;
        std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(miss)); std::set_difference(b.begin(), b.end(), a.begin(), a.end(), std::back_inserter(extra));
        MC_CHECK(miss.empty(), what, ": acknowledged ", kind, " is missing or damaged: ", miss.empty() ? "" : miss[0]);
        MC_CHECK((int)extra.size() + brk <= vague, what, ": ", kind, " which was never acknowledged is present", extra.empty() ? "" : ": " + extra[0]); };
    cmp(want, got, broken, w.vagueSb, "sub-block");
    want.clear(); got.clear(); broken = 0; for (auto& a : w.at) want.push_back(a.key()); idx.clear();
    r->EnumerateAttachments([&](int i, const AttachmentInfo&) { idx.push_back(i); return true; });
    for (int i : idx) { try { auto b = r->ReadAttachment(i); if (!b) { ++broken; continue; } Att a = fromAttInfo(b->GetAttachmentInfo()); size_t n = 0; auto p = b->GetRawData(&n); a.data = raw(p, n); got.push_back(a.key()); } catch (mc::Violation&) { throw; } catch (std::exception&) { ++broken; } }
    cmp(want, got, broken, w.vagueAt, "attachment");
    if (w.mdSure)
    {
        Doc d; bool thrown = false; try { readMd(r, d); } catch (std::exception& e) { thrown = true; MC_CHECK(!w.md.present, what, ": acknowledged metadata cannot be read: ", e.what()); }
        if (!thrown) { MC_CHECK(d.md.present == w.md.present, what, ": metadata ", w.md.present ? "is missing" : "is present unexpectedly"); MC_CHECK(d.md.xml == w.md.xml && d.md.att == w.md.att, what, ": metadata differs from what was acknowledged"); }
    }
}

struct FaultEnv
{
    mc::Ctx& c; bool active = true; bool fired = false; uint64_t n = 0; bool onWrite, onRead; bool tornKind = false;
    FaultEnv(mc::Ctx& c, bool w, bool r) : c(c), onWrite(w), onRead(r) {}
    const Bytes* mem = nullptr; bool editSession = false;
    int operator()(bool write, uint64_t off, uint64_t size)
    {
        ++n; if (!active || (write ? !onWrite : !onRead)) return 0;
        // a request for nothing cannot be completed partially; a stream ending inside of the file header is a new document for an edit session
        bool partial = size > 0 && (write || !mem || off < mem->size()); if (!write && editSession && off == 0 && size > 32) partial = false;
        const int a = c.deviate(partial ? 6 : 3, write ? "write request" : "read request"); if (a) { fired = true; if (a != 1 && a != 4) tornKind = true; c.say([&](auto& o) { o << (write ? "  write" : "  read") << " request " << n << " of " << size << " bytes: failure kind " << a; }); }
        return a;
    }
};

// runs op; returns whether it succeeded; a failed request must not be reported as a success
template <typename F> static bool guarded(mc::Ctx& c, FaultEnv& e, const char* what, F f)
{
    e.fired = false; e.tornKind = false; c.step(); bool ok = true; std::string msg;
    try { f(); } catch (mc::Violation&) { throw; } catch (std::exception& x) { ok = false; msg = x.what(); }
    c.say([&](auto& o) { o << what << (ok ? " -> ok" : " -> error: " + msg); });
    MC_CHECK(!(ok && e.fired && e.onWrite), what, ": reported success although a stream request failed or was incomplete");
    MC_CHECK(ok || e.fired, what, ": failed although no stream request failed: ", msg);
    return ok;
}

// ------------------------------------------------------------------------------------------------ writer
static void writerFaults(mc::Ctx& c)
{
    c.setDeviationBudget(c.thorough() ? 2 : 1);
    const int variant = c.choose(6, "variant");
    auto st = std::make_shared<MemStream>(); FaultEnv env(c, true, false); st->env = std::ref(env);
    auto info = std::make_shared<CCziWriterInfo>(guid(5));
    if (variant & 1) { info->SetReservedSizeForMetadataSegment(true, 700); info->SetReservedSizeForSubBlockDirectory(true, 2); info->SetReservedSizeForAttachmentsDirectory(true, 1); }
    if (variant == 2) { info->SetReservedSizeForMetadataSegment(true, 100); }
    if (variant == 4) { info->SetReservedSizeForSubBlockDirectory(true, 40); info->SetReservedSizeForAttachmentsDirectory(true, 40); }
    auto w = CreateCZIWriter();
    bool created = false;
    for (int i = 0; i < 3 && !created; ++i) created = guarded(c, env, "Create", [&] { w->Create(st, info); });
    MC_CHECK(created, "the writer cannot be created on a healthy stream after a failed creation");
    Sure s;
    std::vector<Sb> sbs = { sbd({ {D::C,0} }, 0, 0, 0, 4, 1), sbd({ {D::C,1} }, 1, 5, 0, 33, 2), sbd({ {D::C,2} }, -1, 5, 0, 9000, 3) }; sbs[1].meta = pattern(20, 9); sbs[1].att = pattern(40, 10);
    std::vector<Att> ats = { att(1, "a", 10, 4), att(2, "b", 300, 5) };
    std::vector<Md> mds = { md(90, 6), md(60, 7, 30), md(2000, 8) };
    static const int seqs[3][8] = { { 0, 10, 20, 1, 11, 22, 2, -1 }, { 20, 0, 21, 10, 2, 22, 20, -1 }, { 10, 2, 11, 0, 1, 20, -1, -1 } };
    const int* seq = seqs[variant % 3];
    for (int i = 0; seq[i] >= 0; ++i)
    {
        bool ok = false;
        for (int tries = 0; tries < 3 && !ok; ++tries)
        {
            const int op = seq[i];
            if (op < 10) { ok = guarded(c, env, "add sub-block", [&] { supply(sbs[op], op == 2 ? HowPullChunks : HowMem, [&](const auto& q) { w->SyncAddSubBlock(q); }, 3000); }); if (ok) s.sb.push_back(sbs[op]); }
            else if (op < 20) { ok = guarded(c, env, "add attachment", [&] { w->SyncAddAttachment(attInfo(ats[op - 10])); }); if (ok) s.at.push_back(ats[op - 10]); }
            else { ok = guarded(c, env, "write metadata", [&] { w->SyncWriteMetadata(mdInfo(mds[op - 20])); }); if (ok) { s.md = mds[op - 20]; s.mdSure = true; } else s.mdSure = !s.md.present; }
            if (!ok && !c.flip("retry")) break;
        }
        c.state(mc::mix(mc::hashBytes(st->mem->data(), st->mem->size()), i));
    }
    bool closed = false; for (int i = 0; i < 3 && !closed; ++i) closed = guarded(c, env, "Close", [&] { w->Close(); });
    MC_CHECK(closed, "the writer cannot be closed on a healthy stream"); st->env = nullptr;
    auto r = CreateCZIReader(); try { r->Open(std::make_shared<MemStream>(*st->mem)); } catch (std::exception& e) { mc::fail(mc::cat("the closed document cannot be opened: ", e.what())); }
    if (!s.mdSure && !s.md.present) s.mdSure = true;
    compareSure(r.get(), s, "document closed after a failure"); GUID g = r->GetFileHeaderInfo().fileGuid, e = guid(5); MC_CHECK(!memcmp(&g, &e, 16), "file GUID differs");
    c.outcome(mc::hashBytes(st->mem->data(), st->mem->size()));
}

// ------------------------------------------------------------------------------------------------ edit session
static Doc base()
{
    Doc d; d.guid = guid(60);
    d.sbs.push_back(sbd({ {D::C,0} }, 0, 0, 0, 4, 1)); d.sbs.push_back(sbd({ {D::C,0} }, 1, 2, 0, 4, 2)); d.sbs.push_back(sbd({ {D::C,1},{D::S,0} }, -1, -9, 4, 40, 3));
    d.atts.push_back(att(1, "a", 10, 6)); d.atts.push_back(att(2, "b", 300, 7)); d.md = md(42, 8); return d;
}
static void editFaults(mc::Ctx& c, bool writes, bool reads)
{
    static const Doc B = base(); static const Bytes file = writeDoc(B);
    c.setDeviationBudget(c.thorough() ? 2 : 1);
    const int first = c.choose(12, "first op"), second = c.choose(12, "second op"); const bool fresh = c.choose(3, "start") == 1; const bool force = !fresh && c.flip("force GUID");
    auto st = fresh ? std::make_shared<MemStream>() : std::make_shared<MemStream>(file); FaultEnv env(c, writes, reads); env.mem = st->mem.get(); env.editSession = true; st->env = std::ref(env);
    auto info = std::make_shared<CCziReaderWriterInfo>(guid(61)); info->SetForceFileGuid(force); auto rw = CreateCZIReaderWriter();
    bool ok = false; for (int i = 0; i < 3 && !ok; ++i) ok = guarded(c, env, "Create", [&] { rw->Create(st, info); });
    MC_CHECK(ok, "the edit session cannot be opened on a healthy stream after a failure");
    std::map<int, Sb> sb; std::map<int, Att> at; Md m; std::set<int> vs, va; bool mdSure = true;
    if (!fresh) { m = B.md; }
    env.active = false; { std::vector<int> k, q; Doc g = readDoc(rw.get(), &k, &q); Doc e = fresh ? Doc() : B; std::vector<std::string> x, y; for (auto& s : e.sbs) x.push_back(s.key()); for (auto& s : g.sbs) y.push_back(s.key()); std::string r = diffLists(x, y, "sub-blocks after opening"); MC_CHECK(r.empty(), r);
        x.clear(); y.clear(); for (auto& s : e.atts) x.push_back(s.key()); for (auto& s : g.atts) y.push_back(s.key()); r = diffLists(x, y, "attachments after opening"); MC_CHECK(r.empty(), r);
        for (size_t i = 0; i < k.size(); ++i) sb[k[i]] = g.sbs[i]; for (size_t i = 0; i < q.size(); ++i) at[q[i]] = g.atts[i]; } env.active = true;
    auto sync = [&](const Sb* s, const Att* a) { rw->EnumerateSubBlocks([&](int k, const SubBlockInfo&) { if (!sb.count(k) && !vs.count(k)) { MC_CHECK(s, "a sub-block appeared that was not acknowledged"); sb[k] = *s; } return true; }); rw->EnumerateAttachments([&](int k, const AttachmentInfo&) { if (!at.count(k) && !va.count(k)) { MC_CHECK(a, "an attachment appeared that was not acknowledged"); at[k] = *a; } return true; }); };
    for (int i = 0; i < 2; ++i)
    {
        const int op = i ? second : first; bool done = false, torn = false;
        int key = -1; if (op >= 2 && op <= 5) { if (sb.empty()) throw mc::Prune(); key = op == 5 ? sb.rbegin()->first : sb.begin()->first; } if (op >= 7 && op <= 9) { if (at.empty()) throw mc::Prune(); key = op == 8 ? at.rbegin()->first : at.begin()->first; }
        for (int tries = 0; tries < 3 && !done; ++tries)
        {
            const uint32_t seed = 500 + i * 20 + op; Sb s; Att a; Md n; std::string msg; auto fn = std::function<void()>(); const char* name = "";
            switch (op)
            {
            case 0: s = sbd({ {D::C,5} }, 10 + i, 1, 1, 6, seed); s.meta = pattern(3, seed); name = "add sub-block"; fn = [&] { supply(s, HowMem, [&](const auto& q) { rw->SyncAddSubBlock(q); }); }; break;
            case 1: s = sbd({ {D::C,6} }, 20 + i, 1, 1, 9000, seed); name = "add large sub-block"; fn = [&] { supply(s, HowPullChunks, [&](const auto& q) { rw->SyncAddSubBlock(q); }, 3000); }; break;
            case 2: s = sbd({ {D::C,7} }, 30 + i, 2, 2, 5, seed); name = "replace sub-block in place"; fn = [&] { supply(s, HowMem, [&](const auto& q) { rw->ReplaceSubBlock(key, q); }); }; break;
            case 3: s = sbd({ {D::C,8} }, 40 + i, 3, 3, 5000, seed); name = "replace sub-block, larger"; fn = [&] { supply(s, HowMem, [&](const auto& q) { rw->ReplaceSubBlock(key, q); }); }; break;
            case 4: case 5: name = "remove sub-block"; fn = [&] { rw->RemoveSubBlock(key); }; break;
            case 6: a = att(20 + i, "n", 77, seed); name = "add attachment"; fn = [&] { rw->SyncAddAttachment(attInfo(a)); }; break;
            case 7: a = att(30 + i, "r", 9, seed); name = "replace attachment in place"; fn = [&] { rw->ReplaceAttachment(key, attInfo(a)); }; break;
            case 8: a = att(40 + i, "l", 4000, seed); name = "replace attachment, larger"; fn = [&] { rw->ReplaceAttachment(key, attInfo(a)); }; break;
            case 9: name = "remove attachment"; fn = [&] { rw->RemoveAttachment(key); }; break;
            case 10: n = md(44, seed); name = "write metadata in place"; fn = [&] { rw->SyncWriteMetadata(mdInfo(n)); }; break;
            case 11: n = md(3000, seed, 5); name = "write metadata, larger"; fn = [&] { rw->SyncWriteMetadata(mdInfo(n)); }; break;
            }
            // after a torn in-place write the addressed item may be unusable, so that the retry may fail as well
            if (!torn) done = guarded(c, env, name, fn);
            else { env.fired = false; try { fn(); done = true; } catch (mc::Violation&) { throw; } catch (std::exception&) { } MC_CHECK(!(done && env.fired && writes), name, ": reported success although a stream request failed or was incomplete"); }
            if (done)
            {
                if (op <= 1) sync(&s, nullptr); else if (op <= 3) { sb[key] = s; vs.erase(key); } else if (op <= 5) { sb.erase(key); vs.erase(key); }
                else if (op == 6) sync(nullptr, &a); else if (op <= 8) { at[key] = a; va.erase(key); } else if (op == 9) { at.erase(key); va.erase(key); } else { m = n; mdSure = true; }
            }
            else
            {
                const bool modified = writes;   // a failed read leaves everything as it was
                if (modified) { if (op >= 2 && op <= 5) { sb.erase(key); vs.insert(key); } else if (op >= 7 && op <= 9) { at.erase(key); va.insert(key); } else if (op >= 10) mdSure = !m.present; if ((op >= 2 && op <= 5) || op >= 7) torn = true; }
                sync(nullptr, nullptr);
                if (!c.flip("retry")) break;
            }
        }
        c.state(mc::mix(mc::hashBytes(st->mem->data(), st->mem->size()), i));
    }
    env.active = !reads || writes;
    Sure s; for (auto& p : sb) s.sb.push_back(p.second); for (auto& p : at) s.at.push_back(p.second); s.md = m; s.mdSure = mdSure; s.vagueSb = (int)vs.size(); s.vagueAt = (int)va.size();
    { bool a = env.active; env.active = false; compareSure(rw.get(), s, "edit session after a failure"); env.active = a; }
    bool closed = false; for (int i = 0; i < 3 && !closed; ++i) closed = guarded(c, env, "Close", [&] { rw->Close(); });
    MC_CHECK(closed, "the edit session cannot be closed on a healthy stream"); st->env = nullptr; rw.reset();
    auto r = CreateCZIReader(); try { r->Open(std::make_shared<MemStream>(*st->mem)); } catch (std::exception& e) { mc::fail(mc::cat("the closed document cannot be opened: ", e.what())); }
    compareSure(r.get(), s, "document closed after a failure"); GUID g = r->GetFileHeaderInfo().fileGuid, e = fresh || force ? guid(61) : guid(60); MC_CHECK(!memcmp(&g, &e, 16), "file GUID differs");
    c.outcome(mc::hashBytes(st->mem->data(), st->mem->size()));
}

// ------------------------------------------------------------------------------------------------ C07
static uint64_t bmpHash(IBitmapData* b) { ScopedBitmapLockerP l{ b }; uint64_t h = mc::mix(b->GetWidth() * 70000ull + b->GetHeight(), (int)b->GetPixelType()); for (uint32_t y = 0; y < b->GetHeight(); ++y) h = mc::hashBytes((uint8_t*)l.ptrDataRoi + (size_t)y * l.stride, b->GetWidth() * Utils::GetBytesPerPixel(b->GetPixelType()), h); return h; }
struct ReadDoc { Doc d; Bytes file; };
static const ReadDoc& readSubject()
{
    static ReadDoc R; if (!R.file.empty()) return R;
    Doc& d = R.d; d.guid = guid(40); const char* x = "<ImageDocument><Metadata><Information><Image><SizeX>8</SizeX></Image></Information></Metadata></ImageDocument>";
    auto tile = [&](int m, int x0, PixelType pt, int comp) { Sb s = makeSb({ {D::C,0} }, m, x0, 0, 4, 3, pt, 50 + m);
        if (comp == 1) { std::shared_ptr<IMemoryBlock> b = ZstdCompress::CompressZStd1Alloc(4, 3, 4, PixelType::Gray8, s.data.data(), nullptr); s.data = Bytes((uint8_t*)b->GetPtr(), (uint8_t*)b->GetPtr() + b->GetSizeOfData()); s.comp = (int)Utils::CompressionModeToCompressionIdentifier(CompressionMode::Zstd1); }
        if (comp == 2) { auto b = JxrLibCompress::Compress(PixelType::Gray8, 4, 3, 4, s.data.data(), nullptr); s.data = Bytes((uint8_t*)b->GetPtr(), (uint8_t*)b->GetPtr() + b->GetSizeOfData()); s.comp = (int)Utils::CompressionModeToCompressionIdentifier(CompressionMode::JpgXr); }
        return s; };
    d.sbs = { tile(0, 0, PixelType::Gray8, 0), tile(1, 3, PixelType::Gray8, 1), tile(2, 6, PixelType::Gray8, 2) }; d.sbs[0].meta = pattern(20, 1); d.sbs[0].att = pattern(30, 2);
    { Sb p = makeSb({ {D::C,0} }, 9, 0, 0, 5, 2, PixelType::Gray8, 90); p.lw = 10; p.lh = 4; p.pyr = SubBlockPyramidType::MultiSubBlock; d.sbs.push_back(p); }
    { Sb p = makeSb({ {D::Z,1234567},{D::C,2345671},{D::T,3456712},{D::R,4567123},{D::S,5671234},{D::I,6712345},{D::H,7123456},{D::V,7234561},{D::B,7345612} }, 7456123, 500, 600, 5, 2, PixelType::Gray8, 91); d.sbs.push_back(p); }  // the header of a sub-block with that many dimensions needs two read requests
    d.atts = { att(1, "a", 10, 6), att(2, "b", 300, 7) }; d.md.present = true; d.md.xml.assign(x, x + strlen(x)); R.file = writeDoc(d); return R;
}
// one read operation -> canonical hash of what it delivered
static const int kReadOps = 14;
static uint64_t readOp(const std::shared_ptr<ICZIReader>& r, int op)
{
    uint64_t h = 77 + op; CDimCoordinate pc{ {D::C,0} };
    switch (op)
    {
    case 0: case 1: case 2: { auto b = r->ReadSubBlock(op); MC_CHECK(b, "ReadSubBlock gives nothing"); return mc::hashStr(readSb(b.get()).key(), h); }
    case 3: case 4: case 5: { auto b = r->ReadSubBlock(op - 3); return mc::mix(h, bmpHash(b->CreateBitmap().get())); }
    case 6: { auto a = r->ReadAttachment(0); size_t n = 0; auto p = a->GetRawData(&n); return mc::hashBytes(p.get(), n, mc::hashStr(fromAttInfo(a->GetAttachmentInfo()).id(), h)); }
    case 7: { auto a = r->ReadAttachment(1); size_t n = 0; auto p = a->GetRawData(&n); return mc::hashBytes(p.get(), n, mc::hashStr(fromAttInfo(a->GetAttachmentInfo()).id(), h)); }
    case 8: { Doc d; readMd(r.get(), d); return mc::hashBytes(d.md.xml.data(), d.md.xml.size(), h); }
    case 9: { auto m = r->ReadMetadataSegment()->CreateMetaFromMetadataSegment(); return mc::hashStr(m->GetXml(), h); }
    case 10: { auto a = r->CreateSingleChannelTileAccessor(); ISingleChannelTileAccessor::Options o; o.Clear(); o.backGroundColor = { 0,0,0 }; return mc::mix(h, bmpHash(a->Get(PixelType::Gray8, IntRect{ 0,0,10,3 }, &pc, &o).get())); }
    case 11: { auto a = r->CreateSingleChannelScalingTileAccessor(); ISingleChannelScalingTileAccessor::Options o; o.Clear(); o.backGroundColor = { 0,0,0 }; return mc::mix(h, bmpHash(a->Get(PixelType::Gray8, IntRect{ 0,0,10,4 }, &pc, 0.5f, &o).get())); }
    case 13: { auto b = r->ReadSubBlock(4); MC_CHECK(b, "ReadSubBlock gives nothing"); return mc::hashStr(readSb(b.get()).key(), h); }
    case 12: { uint64_t q = h; r->EnumerateSubBlocks([&](int i, const SubBlockInfo& s) { q = mc::mix(mc::hashStr(fromInfo(s).head(), q), i); return true; }); r->EnumerateAttachments([&](int i, const AttachmentInfo& s) { q = mc::mix(mc::hashStr(fromAttInfo(s).id(), q), i); return true; }); auto s = r->GetStatistics(); q = mc::mix(q, s.subBlockCount * 1000 + s.boundingBox.w); return q; }
    }
    return h;
}
static void readFaults(mc::Ctx& c, bool header)
{
    const ReadDoc& R = readSubject(); static std::vector<uint64_t> ref;
    if (ref.empty()) { auto r = CreateCZIReader(); r->Open(std::make_shared<MemStream>(R.file)); for (int i = 0; i < kReadOps; ++i) ref.push_back(readOp(r, i)); r->Close(); }
    c.setDeviationBudget(c.thorough() ? 3 : 2);
    auto st = std::make_shared<MemStream>(R.file); FaultEnv env(c, false, true); env.mem = st->mem.get(); st->env = std::ref(env);
    auto r = CreateCZIReader(); ICZIReader::OpenOptions oo; oo.ignore_sizem_for_pyramid_subblocks = true; if (header) oo.subBlockDirectoryInfoPolicy = (ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy)((int)ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy::SubBlockHeaderPrecedence | (int)ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy::IgnoreDiscrepancy); bool open = false;
    for (int i = 0; i < 4 && !open; ++i) { open = guarded(c, env, "Open", [&] { r->Open(st, &oo); }); if (!open) { bool t = false; try { r->GetStatistics(); } catch (std::exception&) { t = true; } MC_CHECK(t, "a reader that failed to open answers queries"); } }
    MC_CHECK(open, "the document cannot be opened on a healthy stream after a failure");
    const int n = 2; int ops[2];
    for (int i = 0; i < n; ++i)
    {
        ops[i] = header ? (c.flip("read op") ? 0 : 13) : c.choose(kReadOps - 1, "read op"); uint64_t h = 0; bool ok = true; std::string msg; env.fired = false; c.step();
        try { h = readOp(r, ops[i]); } catch (mc::Violation&) { throw; } catch (std::exception& e) { ok = false; msg = e.what(); }
        c.say([&](auto& o) { o << "read op " << ops[i] << (ok ? " ok" : " error: " + msg); });
        if (ok) MC_CHECK(h == ref[ops[i]], "read operation ", ops[i], env.fired ? " delivered wrong content instead of reporting the failure" : " delivered wrong content after an earlier failure");
        else MC_CHECK(env.fired, "read operation ", ops[i], " failed although the stream is healthy: ", msg);
        c.state(mc::mix(h, ops[i] * 2 + ok));
    }
    env.active = false;
    for (int i = 0; i < n; ++i) { uint64_t h = 0; try { h = readOp(r, ops[i]); } catch (mc::Violation&) { throw; } catch (std::exception& e) { mc::fail(mc::cat("read operation ", ops[i], " fails once the stream is healthy again: ", e.what())); } MC_CHECK(h == ref[ops[i]], "read operation ", ops[i], " delivers wrong content once the stream is healthy again"); c.step(); }
    MC_CHECK(readOp(r, 12) == ref[12], "enumeration differs after a failure");
    c.outcome(mc::mix(ops[0], ops[1]));
}

// every read request delivers any smaller number of bytes, once
static void shortLengths(mc::Ctx& c)
{
    using Policy = ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy; const ReadDoc& R = readSubject(); static std::map<int, uint64_t> ref; c.setDeviationBudget(1);
    const int mode = c.choose(4, "directory precedence / header precedence / discrepancies ignored / edit session"), op = mode == 3 ? 0 : c.choose(kReadOps, "read op"); const bool openToo = c.flip("the failing request is part of opening");
    auto st = std::make_shared<MemStream>(R.file); bool armed = false, fired = false;
    auto env = [&](bool write, uint64_t off, uint64_t size) -> int
    {
        if (write || !armed || size < 1 || (mode == 3 && off == 0)) return 0; const int n = (int)std::min<uint64_t>(size, 330); const int a = c.deviate(1 + n + (size > 330), "bytes delivered"); if (!a) return 0; fired = true; const uint64_t k = a <= n ? a - 1 : size - 1;
        c.say([&](auto& o) { o << "  the request for " << size << " bytes at " << off << " delivers " << k; }); return (int)(100 + k);
    };
    auto run = [&](const std::function<int(bool, uint64_t, uint64_t)>& e) -> uint64_t
    {
        st->env = e; armed = openToo; uint64_t h = 0;
        if (mode == 3) { auto w = CreateCZIReaderWriter(); w->Create(st); armed = !openToo; Doc d = readDoc(w.get()); readMd(w.get(), d); h = d.hash(); armed = false; w->Close(); return h; }
        auto r = CreateCZIReader(); ICZIReader::OpenOptions oo; oo.ignore_sizem_for_pyramid_subblocks = true; oo.subBlockDirectoryInfoPolicy = (Policy)(mode == 0 ? 0 : mode == 1 ? 0x81 : 0x80); r->Open(st, &oo); armed = !openToo; return readOp(r, op);
    };
    const int key = mode * 100 + op; if (!ref.count(key)) { auto s = st; st = std::make_shared<MemStream>(R.file); ref[key] = run(nullptr); st = s; }
    bool ok = true; uint64_t h = 0; std::string msg; c.step(); try { h = run(env); } catch (mc::Violation&) { throw; } catch (std::exception& e) { ok = false; msg = e.what(); } st->env = nullptr;
    c.say([&](auto& o) { o << "read op " << op << (ok ? " ok" : " error: " + msg); });
    MC_CHECK(ok || fired, "read operation ", op, " failed although the stream is healthy: ", msg); MC_CHECK(!ok || h == ref[key], "read operation ", op, fired ? " delivered wrong content instead of reporting the short read" : " delivered wrong content");
    c.state(mc::mix(h, key * 4 + ok * 2 + fired)); c.outcome(mc::mix(h, key * 4 + ok * 2 + fired));
}

static struct Reg { Reg() {
    using namespace mc;
    add({ "C06", "writer_write_faults", "6 histories x reservations; every write request fails in each of 5 ways (thorough: every pair), retried or not, Close retried", writerFaults });
    add({ "C06", "edit_write_faults", "all pairs of 12 edit operations on 2 start documents; every write request fails in each of 5 ways (thorough: every pair), retried or not, Close retried", [](Ctx& c) { editFaults(c, true, false); } });
    add({ "C07", "reader_read_faults", "open and all pairs of 13 read operations; every <=2 (thorough 3) read requests fail in each of 5 ways", [](Ctx& c) { readFaults(c, false); } });
    add({ "C07", "reader_header_faults", "as above for the sub-blocks' own headers (up to 12 dimensions), which are given precedence over the directory", [](Ctx& c) { readFaults(c, true); } });
    add({ "C07", "short_read_lengths", "each read operation in each of 3 opening modes and an edit session: each read request delivers each smaller number of bytes (up to 330)", shortLengths });
    add({ "C07", "edit_read_faults", "all pairs of 12 edit operations; every read request fails in each of 5 ways (thorough: every pair)", [](Ctx& c) { editFaults(c, false, true); } });
} } reg;
