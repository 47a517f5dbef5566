// C02 (edit sessions), C03, C04: all bounded histories of an edit session on every kind of start document.
#include "czi.h"
#include "stats.h"
using namespace cz; using namespace libCZI;
using D = DimensionIndex;

struct Model { std::map<int, Sb> sb; std::map<int, Att> at; Md md; GUID guid{};
    Doc doc() const { Doc d; for (auto& p : sb) d.sbs.push_back(p.second); for (auto& p : at) d.atts.push_back(p.second); d.md = md; d.guid = guid; return d; } };

static Md md(size_t n, uint32_t seed, size_t a = 0) { Md m; m.present = true; m.xml = pattern(n, seed); m.att = pattern(a, seed + 1); return m; }
static Att att(int g, const char* name, size_t n, uint32_t seed) { Att a; a.guid = guid(g); a.type = "CZTXT"; a.name = name; a.data = pattern(n, seed); return a; }
static Sb sbd(std::vector<std::pair<D, int>> dims, int m, int x, int y, size_t n, uint32_t seed) { Sb s = makeSb(dims, m, x, y, 2, 2, PixelType::Gray8, seed); s.data = pattern(n, seed); return s; }

static Doc base()
{
    Doc d; d.guid = guid(60);
    d.sbs.push_back(sbd({ {D::C,0} }, 0, 0, 0, 4, 1)); d.sbs.push_back(sbd({ {D::C,0} }, 1, 2, 0, 4, 2)); d.sbs.push_back(sbd({ {D::C,1},{D::S,0} }, -1, -9, 4, 40, 3));
    d.sbs[1].meta = pattern(9, 4); d.sbs[2].att = pattern(17, 5);
    d.atts.push_back(att(1, "a", 10, 6)); d.atts.push_back(att(2, "b", 300, 7)); d.md = md(42, 8);
    return d;
}
// start documents; returns bytes and description
static std::vector<std::pair<Bytes, Doc>> starts()
{
    std::vector<std::pair<Bytes, Doc>> v; Doc e; e.guid = guid(61);
    v.push_back({ Bytes(), e });
    v.push_back({ writeDoc(base()), base() });
    v.push_back({ writeDoc(e), e });
    Doc b = base();
    auto reserved = [&](const Doc& d) {
        auto st = std::make_shared<MemStream>(); auto w = CreateCZIWriter(); auto info = std::make_shared<CCziWriterInfo>(d.guid);
        info->SetReservedSizeForMetadataSegment(true, 500); info->SetReservedSizeForSubBlockDirectory(true, 40); info->SetReservedSizeForAttachmentsDirectory(true, 40);
        w->Create(st, info); for (auto& s : d.sbs) supply(s, HowMem, [&](const auto& i) { w->SyncAddSubBlock(i); }); for (auto& a : d.atts) w->SyncAddAttachment(attInfo(a)); if (d.md.present) w->SyncWriteMetadata(mdInfo(d.md)); w->Close(); return *st->mem; };
    v.push_back({ reserved(b), b });
    {   // segments marked deleted in the middle and at the tail
        auto st = std::make_shared<MemStream>(reserved(b)); auto rw = CreateCZIReaderWriter(); rw->Create(st);
        Sb x = sbd({ {D::C,7} }, 7, 1, 1, 700, 9); supply(x, HowMem, [&](const auto& i) { rw->SyncAddSubBlock(i); }); rw->RemoveSubBlock(0); rw->RemoveAttachment(0); rw->Close(); rw.reset();
        rw = CreateCZIReaderWriter(); rw->Create(st); int k = -1; rw->EnumerateSubBlocks([&](int i, const SubBlockInfo& inf) { if (inf.mIndex == 7) k = i; return true; }); if (k >= 0) rw->RemoveSubBlock(k); rw->Close();
        Doc q = b; q.sbs.erase(q.sbs.begin()); q.atts.erase(q.atts.begin()); v.push_back({ *st->mem, q });
    }
    { Doc q = b; q.atts.clear(); q.md = Md(); v.push_back({ writeDoc(q), q }); }     // only sub-blocks
    return v;
}

static bool dupSb(const Sb& a, const Sb& b) { return a.dims == b.dims && a.mValid && b.mValid && a.m == b.m && a.layer0() && b.layer0(); }

struct Session
{
    mc::Ctx& c; std::shared_ptr<MemStream> st; std::shared_ptr<ICziReaderWriter> rw; Model m; bool full; std::set<int> everSb, everAt;
    Session(mc::Ctx& c, bool full) : c(c), full(full) {}
    void open(const Bytes& b, const Doc& d, bool fresh, int guidMode)
    {
        st = std::make_shared<MemStream>(b); reopen(d, fresh, guidMode);
    }
    void reopen(const Doc& d, bool fresh, int guidMode)
    {
        rw = CreateCZIReaderWriter(); c.step();
        std::shared_ptr<CCziReaderWriterInfo> inf; GUID g = d.guid;
        if (guidMode == 1) { inf = std::make_shared<CCziReaderWriterInfo>(guid(88)); if (fresh) g = guid(88); }
        else if (guidMode == 2) { inf = std::make_shared<CCziReaderWriterInfo>(guid(89)); inf->SetForceFileGuid(true); g = guid(89); }
        else if (fresh) { inf = std::make_shared<CCziReaderWriterInfo>(d.guid); }
        rw->Create(st, inf);
        m = Model(); m.md = d.md; m.guid = g; everSb.clear(); everAt.clear();
        std::vector<int> k, q; Doc got = readDoc(rw.get(), &k, &q); readMd(rw.get(), got); Doc want = d; want.guid = g;
        std::string r = diffDoc(want, got); MC_CHECK(r.empty(), "after opening the edit session: ", r);
        for (size_t i = 0; i < k.size(); ++i) { m.sb[k[i]] = got.sbs[i]; everSb.insert(k[i]); } for (size_t i = 0; i < q.size(); ++i) { m.at[q[i]] = got.atts[i]; everAt.insert(q[i]); }
        MC_CHECK(m.sb.size() == k.size() && m.at.size() == q.size(), "two items share a key");
    }
    // the session view, item by item; 'newSb'/'newAt': exactly one additional item with these contents under a new key
    void view(const Sb* newSb, const Att* newAt)
    {
        std::vector<int> k, q; Doc got = readDoc(rw.get(), &k, &q); readMd(rw.get(), got);
        size_t seen = 0; bool added = false;
        for (size_t i = 0; i < k.size(); ++i)
        {
            auto it = m.sb.find(k[i]);
            if (it != m.sb.end()) { ++seen; MC_CHECK(it->second.key() == got.sbs[i].key(), "sub-block with key ", k[i], " should be ", it->second.key(), " but is ", got.sbs[i].key()); }
            else { MC_CHECK(newSb && !added && newSb->key() == got.sbs[i].key(), "unexpected sub-block with key ", k[i], ": ", got.sbs[i].key()); added = true; m.sb[k[i]] = *newSb; ++seen; everSb.insert(k[i]); }
        }
        MC_CHECK(seen == m.sb.size(), "the session shows ", seen, " of ", m.sb.size(), " sub-blocks"); MC_CHECK(!newSb || added, "the added sub-block is not there");
        seen = 0; added = false;
        for (size_t i = 0; i < q.size(); ++i)
        {
            auto it = m.at.find(q[i]);
            if (it != m.at.end()) { ++seen; MC_CHECK(it->second.key() == got.atts[i].key(), "attachment with key ", q[i], " should be ", it->second.key(), " but is ", got.atts[i].key()); }
            else { MC_CHECK(newAt && !added && newAt->key() == got.atts[i].key(), "unexpected attachment with key ", q[i], ": ", got.atts[i].key()); added = true; m.at[q[i]] = *newAt; ++seen; everAt.insert(q[i]); }
        }
        MC_CHECK(seen == m.at.size(), "the session shows ", seen, " of ", m.at.size(), " attachments"); MC_CHECK(!newAt || added, "the added attachment is not there");
        MC_CHECK(m.md.present == got.md.present && m.md.xml == got.md.xml && m.md.att == got.md.att, "document metadata seen by the session differs");
        MC_CHECK(!memcmp(&got.guid, &m.guid, 16), "file GUID seen by the session differs");
        // keys of removed items
        for (int x : everSb) if (!m.sb.count(x)) { MC_CHECK(!rw->TryGetSubBlockInfo(x, nullptr), "removed sub-block ", x, " is still there"); MC_CHECK(!rw->ReadSubBlock(x), "removed sub-block ", x, " can still be read"); }
        for (int x : everAt) if (!m.at.count(x)) { MC_CHECK(!rw->TryGetAttachmentInfo(x, nullptr), "removed attachment ", x, " is still there"); MC_CHECK(!rw->ReadAttachment(x), "removed attachment ", x, " can still be read"); }
    }
    template <typename F> bool attempt(F f) { c.step(); try { f(); return true; } catch (mc::Violation&) { throw; } catch (std::exception&) { return false; } }
    int firstOf(const std::map<int, Sb>& x) { return x.begin()->first; }

    // one operation; op in [0,count)
    static int count(int level) { return level == 0 ? 37 : level == 1 ? 18 : 11; }
    static int map(int level, int op)
    {
        static const int l1[] = { 0, 1, 2, 4, 6, 8, 13, 14, 16, 17, 19, 20, 25, 28, 31, 33, 34, 36 }, l2[] = { 0, 4, 6, 8, 14, 16, 20, 25, 28, 34, 36 };
        return level == 0 ? op : level == 1 ? l1[op] : l2[op];
    }
    // returns false if the operation does not apply to the current state (redundant)
    bool apply(int op, int stepNo)
    {
        const Sb* ns = nullptr; const Att* na = nullptr; Sb s; Att a; const uint32_t seed = 1000 + stepNo * 50 + op;
        if (op < 5)
        {
            switch (op)
            {
            case 0: s = sbd({ {D::C,1} }, stepNo, 50 + stepNo, 0, 4, seed); break;
            case 1: s = sbd({ {D::C,0} }, 1, 77, 77, 8, seed); break;                 // duplicate as long as the original is there
            case 2: s = sbd({ {D::C,0} }, -1, 3, 3, 5, seed); break;                  // without M-index
            case 3: s = sbd({ {D::C,0} }, 1, 0, 0, 4, seed); s.lw = s.lh = 8; s.pyr = SubBlockPyramidType::SingleSubBlock; break;
            case 4: s = sbd({ {D::Z,0},{D::C,9},{D::T,2},{D::R,3},{D::S,4},{D::I,5},{D::H,6},{D::V,7} }, 2 + stepNo, 3, 4, 5000, seed); s.meta = pattern(33, seed); break;
            }
            bool dup = false; for (auto& p : m.sb) if (dupSb(p.second, s)) dup = true;
            c.say([&](auto& o) { o << "add sub-block " << s.head() << " data " << s.data.size() << (dup ? " (duplicate)" : ""); });
            bool ok = attempt([&] { supply(s, (How)((op + stepNo) % 3), [&](const auto& i) { rw->SyncAddSubBlock(i); }); }); MC_CHECK(ok != dup, ok ? "a duplicate sub-block was accepted" : "an acceptable sub-block was refused", ": ", s.head());
            if (ok) ns = &s;
        }
        else if (op < 14)
        {   // replace
            const int which = (op - 5) / 4, what = (op - 5) % 4; int key;
            if (which == 2) { key = stepNo % 3 == 0 ? -1 : stepNo % 3 == 1 ? 1000 : 0x7fffffff; for (int x : everSb) if (!m.sb.count(x)) key = x; }
            else { if (m.sb.empty() || (which == 1 && m.sb.size() == 1)) return false; key = which == 0 ? m.sb.begin()->first : m.sb.rbegin()->first; }
            switch (what)
            {
            case 0: s = which == 2 ? sbd({ {D::C,0} }, 55, 0, 0, 4, seed) : m.sb[key]; if (which != 2) { s.data = pattern(s.data.size(), seed); } break;    // same size, same place
            case 1: s = sbd({ {D::C,3} }, 20 + stepNo, -1, -2, 32, seed); break;
            case 2: s = sbd({ {D::C,3},{D::T,5} }, 20 + stepNo, -1, -2, 33, seed); break;
            case 3: s = sbd({ {D::Z,0},{D::C,9},{D::T,2},{D::R,3},{D::S,4},{D::I,5},{D::H,6},{D::V,7} }, 20 + stepNo, 3, 4, 5000, seed); s.att = pattern(3, seed); break;
            }
            c.say([&](auto& o) { o << "replace sub-block " << key << " by " << s.head() << " data " << s.data.size(); });
            bool ok = attempt([&] { supply(s, (How)((op + stepNo) % 3), [&](const auto& i) { rw->ReplaceSubBlock(key, i); }); }); MC_CHECK(ok == (which != 2), ok ? "replacing a non-existing sub-block succeeded" : "replacing a sub-block failed", ", key ", key);
            if (ok) m.sb[key] = s;
        }
        else if (op < 17)
        {
            const int which = op - 14; int key;
            if (which == 2) { key = stepNo % 3 == 0 ? -1 : stepNo % 3 == 1 ? 1000 : (-2147483647 - 1); for (int x : everSb) if (!m.sb.count(x)) key = x; }
            else { if (m.sb.empty() || (which == 1 && m.sb.size() == 1)) return false; key = which == 0 ? m.sb.begin()->first : m.sb.rbegin()->first; }
            c.say([&](auto& o) { o << "remove sub-block " << key; });
            bool ok = attempt([&] { rw->RemoveSubBlock(key); }); MC_CHECK(ok == (which != 2), ok ? "removing a non-existing sub-block succeeded" : "removing a sub-block failed", ", key ", key);
            if (ok) m.sb.erase(key);
        }
        else if (op < 20)
        {
            a = op == 17 ? att(10 + stepNo, "new", 10, seed) : op == 18 ? att(1, "a", 4, seed) : att(20 + stepNo, "large", 5000, seed);
            bool dup = false; for (auto& p : m.at) if (p.second.id() == a.id()) dup = true;
            c.say([&](auto& o) { o << "add attachment " << a.id() << " " << a.data.size() << (dup ? " (duplicate)" : ""); });
            bool ok = attempt([&] { rw->SyncAddAttachment(attInfo(a)); }); MC_CHECK(ok != dup, ok ? "a duplicate attachment was accepted" : "an acceptable attachment was refused", ": ", a.id());
            if (ok) na = &a;
        }
        else if (op < 27)
        {
            const int which = (op - 20) / 3, what = (op - 20) % 3; int key;
            if (which == 2) { key = -1; for (int x : everAt) if (!m.at.count(x)) key = x; }
            else { if (m.at.empty() || (which == 1 && m.at.size() == 1)) return false; key = which == 0 ? m.at.begin()->first : m.at.rbegin()->first; }
            a = what == 0 ? (which == 2 ? att(55, "x", 5, seed) : m.at[key]) : what == 1 ? att(30 + stepNo, "rep", 33, seed) : att(31 + stepNo, "rep2", 5000, seed); if (what == 0) a.data = pattern(which ? 0 : 32, seed);
            c.say([&](auto& o) { o << "replace attachment " << key << " by " << a.id() << " " << a.data.size(); });
            bool ok = attempt([&] { rw->ReplaceAttachment(key, attInfo(a)); }); MC_CHECK(ok == (which != 2), ok ? "replacing a non-existing attachment succeeded" : "replacing an attachment failed", ", key ", key);
            if (ok) m.at[key] = a;
        }
        else if (op < 30)
        {
            const int which = op - 27; int key;
            if (which == 2) { key = 1000; for (int x : everAt) if (!m.at.count(x)) key = x; }
            else { if (m.at.empty() || (which == 1 && m.at.size() == 1)) return false; key = which == 0 ? m.at.begin()->first : m.at.rbegin()->first; }
            c.say([&](auto& o) { o << "remove attachment " << key; });
            bool ok = attempt([&] { rw->RemoveAttachment(key); }); MC_CHECK(ok == (which != 2), ok ? "removing a non-existing attachment succeeded" : "removing an attachment failed", ", key ", key);
            if (ok) m.at.erase(key);
        }
        else if (op < 36)
        {
            static const int xs[] = { 1, 64, 65, 243, 3000, 300 }, as[] = { 0, 0, 0, 0, 700, 1 };
            Md n = md(xs[op - 30], seed, as[op - 30]); c.say([&](auto& o) { o << "write metadata " << n.xml.size() << "+" << n.att.size(); });
            bool ok = attempt([&] { rw->SyncWriteMetadata(mdInfo(n)); }); MC_CHECK(ok, "writing metadata was refused"); m.md = n;
        }
        else
        {
            c.say([&](auto& o) { o << "close and reopen"; });
            rw->Close(); c.step(2); rw.reset(); Doc d = m.doc(); reopen(d, false, stepNo % 2 ? 0 : 2);
            return true;
        }
        if (full) view(ns, na);
        else if (ns || na)
        {   // find the key of the new item
            std::set<int> k; if (ns) { rw->EnumerateSubBlocks([&](int i, const SubBlockInfo&) { if (!m.sb.count(i)) { m.sb[i] = s; everSb.insert(i); } return true; }); }
            if (na) { rw->EnumerateAttachments([&](int i, const AttachmentInfo&) { if (!m.at.count(i)) { m.at[i] = a; everAt.insert(i); } return true; }); }
        }
        return true;
    }
};

static void edits(mc::Ctx& c, const char* prop, int level, int depth)
{
    static const auto ST = starts(); const bool c02 = std::string(prop) == "C02";
    const int k = c.choose((int)ST.size(), "start document"); const int gm = c.choose(level == 0 ? 3 : 1, "guid mode");
    Session s(c, !c02); s.open(ST[k].first, ST[k].second, k == 0, gm);
    for (int i = 0; i < depth; ++i)
    {
        const int op = c.choose(Session::count(level) + 1, "op (0 = close)"); if (op == 0) break;
        if (!s.apply(Session::map(level, op - 1), i)) throw mc::Prune();
        c.state(mc::mix(s.m.doc().hash(), mc::hashBytes(s.st->mem->data(), s.st->mem->size())));
    }
    s.rw->Close(); c.step(); const Doc want = s.m.doc(); const Bytes b = *s.st->mem; c.outcome(mc::hashBytes(b.data(), b.size()));
    std::string r;
    if (c02) { StructOpt so; so.fresh = false; Doc g = checkStructure(b, so); r = diffDoc(want, g); MC_CHECK(r.empty(), "independent parser: ", r); return; }
    s.rw.reset(); Doc g = readAll(b, want.md.present); r = diffDoc(want, g); MC_CHECK(r.empty(), "reopened with a reader: ", r);
    Doc g2 = readViaRw(b); r = diffDoc(want, g2); MC_CHECK(r.empty(), "reopened with an edit session: ", r);
}

// every field of the description of an added or replacing sub-block
static void editDescriptions(mc::Ctx& c, const char* prop)
{
    static const auto ST = starts(); const bool c02 = std::string(prop) == "C02"; c.setDeviationBudget(c.thorough() ? 3 : 2);
    Session s(c, true); s.open(ST[1].first, ST[1].second, false, 0);
    Sb n = chooseDescription(c, 11); const int op = c.choose(3, "op"); c.say([&](auto& o) { o << (op == 0 ? "add " : "replace ") << n.head(); });
    if (op == 0) { bool ok = s.attempt([&] { supply(n, HowMem, [&](const auto& i) { s.rw->SyncAddSubBlock(i); }); }); MC_CHECK(ok, "an acceptable sub-block was refused: ", n.head()); s.view(&n, nullptr); }
    else { const int key = op == 1 ? s.m.sb.begin()->first : s.m.sb.rbegin()->first; bool ok = s.attempt([&] { supply(n, HowMem, [&](const auto& i) { s.rw->ReplaceSubBlock(key, i); }); }); MC_CHECK(ok, "replacing a sub-block failed: ", n.head()); s.m.sb[key] = n; s.view(nullptr, nullptr); }
    c.state(mc::hashStr(n.head(), op)); s.rw->Close(); c.step(); const Doc want = s.m.doc(); const Bytes b = *s.st->mem; c.outcome(mc::hashBytes(b.data(), b.size())); std::string r;
    if (c02) { StructOpt so; so.fresh = false; Doc g = checkStructure(b, so); r = diffDoc(want, g); MC_CHECK(r.empty(), "independent parser: ", r); return; }
    Doc g = readAll(b, want.md.present); r = diffDoc(want, g); MC_CHECK(r.empty(), "reopened with a reader: ", r);
    Doc g2 = readViaRw(b); r = diffDoc(want, g2); MC_CHECK(r.empty(), "reopened with an edit session: ", r);
}

// every way of supplying the contents of an added or replacing sub-block x the sizes of its parts
static void editSupply(mc::Ctx& c, const char* prop)
{
    static const auto ST = starts(); const bool c02 = std::string(prop) == "C02"; static const int sizes[] = { 0, 1, 33, 255, 257, 4097, 12, 32, 256, 4096, 8193, 12289 }; const int n = c.thorough() ? 12 : 6;
    const int k = c.choose(4, "start document"); static const int ks[] = { 1, 3, 4, 0 }; Session s(c, true); s.open(ST[ks[k]].first, ST[ks[k]].second, ks[k] == 0, 0);
    const int op = c.choose(k == 3 ? 1 : 3, "op"), how = c.choose(HowCount, "how"); const int dsz = c.choose(n, "data size"), msz = c.choose(n, "metadata size"), asz = (msz + dsz) % 2 ? c.choose(2, "attachment?") * 2 : c.choose(n, "attachment size");
    Sb b = sbd({ {D::C,5},{D::T,2} }, 3, 5, 6, 4, 21); b.data = pattern(sizes[dsz], 31); b.meta = pattern(sizes[msz], 32); b.att = pattern(sizes[asz], 33);
    if (how == HowStrided || how == HowLines) { int w2 = std::max(1, sizes[dsz]); b.ph = b.lh = 1; if (w2 % 3 == 0) { b.ph = b.lh = 3; w2 /= 3; } b.pw = b.lw = w2; if (dsz == 0) b.data = pattern(1, 3); if (dsz % 2 == 0 && w2 % 2 == 0) { b.pt = PixelType::Gray16; b.pw = b.lw = w2 / 2; } }
    c.say([&](auto& o) { o << (op == 0 ? "add " : op == 1 ? "replace first by " : "replace last by ") << b.head() << " how " << how << " data " << b.data.size() << " metadata " << b.meta.size() << " attachment " << b.att.size(); });
    if (op == 0) { bool ok = s.attempt([&] { supply(b, (How)how, [&](const auto& i) { s.rw->SyncAddSubBlock(i); }, 4096); }); MC_CHECK(ok, "an acceptable sub-block was refused: ", b.head()); s.view(&b, nullptr); }
    else { const int key = op == 1 ? s.m.sb.begin()->first : s.m.sb.rbegin()->first; bool ok = s.attempt([&] { supply(b, (How)how, [&](const auto& i) { s.rw->ReplaceSubBlock(key, i); }, 4096); }); MC_CHECK(ok, "replacing a sub-block failed: ", b.head()); s.m.sb[key] = b; s.view(nullptr, nullptr); }
    c.state(mc::mix(dsz * 1000 + msz, asz * 100 + how * 16 + op * 4 + k)); s.rw->Close(); c.step(); const Doc want = s.m.doc(); const Bytes f = *s.st->mem; c.outcome(mc::hashBytes(f.data(), f.size())); std::string r;
    if (c02) { StructOpt so; so.fresh = false; Doc g = checkStructure(f, so); r = diffDoc(want, g); MC_CHECK(r.empty(), "independent parser: ", r); return; }
    Doc g = readAll(f, want.md.present); r = diffDoc(want, g); MC_CHECK(r.empty(), "reopened with a reader: ", r);
}

// many items: every k-th is removed / replaced, others are added
static void editMany(mc::Ctx& c, const char* prop)
{
    const bool c02 = std::string(prop) == "C02"; static const int ns[] = { 2, 7, 8, 9, 10, 11, 31, 32, 33, 64, 65, 100, 127, 128, 129, 300, 1000 }; const int n = ns[c.choose(c.thorough() ? 17 : 15, "items")], op = c.choose(6, "op"), every = 1 + c.choose(4, "every k-th"), extra = c.choose(3, "added") * (n / 2), kind = c.choose(2, "attachments too"); const bool twice = c.flip("second session");
    Doc d; d.guid = guid(12); for (int i = 0; i < n; ++i) d.sbs.push_back(sbd({ {D::C, i % 3},{D::S, i % 2} }, i, i * 3 % 50, i, 4 + i % 37, 500 + i)); if (kind) for (int i = 0; i < n; ++i) d.atts.push_back(att(100 + i, mc::cat("a", i).c_str(), i % 40, 900 + i)); d.md = md(300, 3);
    Session s(c, true); s.open(writeDoc(d), d, false, 0); std::vector<int> keys, ak; for (auto& p : s.m.sb) keys.push_back(p.first); for (auto& p : s.m.at) ak.push_back(p.first);
    auto one = [&](size_t i) { const int k = keys[i]; if (op == 0 || (op == 4 && i % 2)) { s.rw->RemoveSubBlock(k); s.m.sb.erase(k); } else { Sb q = s.m.sb[k]; q.x += 1000; q.data = pattern(op == 1 ? q.data.size() : op == 2 ? 900 : 1, 50 + (uint32_t)i); supply(q, HowMem, [&](const auto& x) { s.rw->ReplaceSubBlock(k, x); }); s.m.sb[k] = q; } c.step(); };
    auto oneA = [&](size_t i) { const int k = ak[i]; if (op == 0 || (op == 4 && i % 2)) { s.rw->RemoveAttachment(k); s.m.at.erase(k); } else { Att q = s.m.at[k]; q.data = pattern(op == 1 ? q.data.size() : op == 2 ? 900 : 1, 50 + (uint32_t)i); s.rw->ReplaceAttachment(k, attInfo(q)); s.m.at[k] = q; } c.step(); };
    if (op < 5) { if (every == 4) { for (size_t i = keys.size(); i-- > 0;) one(i); for (size_t i = ak.size(); i-- > 0;) oneA(i); } else { for (size_t i = 0; i < keys.size(); i += every) one(i); for (size_t i = 0; i < ak.size(); i += every) oneA(i); } } s.view(nullptr, nullptr);
    auto fresh = [&](int base) { for (int i = 0; i < extra; ++i) { Sb q = sbd({ {D::C, 5},{D::S, 1} }, base + i, i, -i, 10 + i % 200, 3000 + base + i); supply(q, HowMem, [&](const auto& x) { s.rw->SyncAddSubBlock(x); }); s.rw->EnumerateSubBlocks([&](int k, const SubBlockInfo& inf) { if (!s.m.sb.count(k)) { MC_CHECK(fromInfo(inf).head() == q.head(), "the added sub-block is ", fromInfo(inf).head()); s.m.sb[k] = q; } return true; }); MC_CHECK((int)s.m.sb.size() > 0, "no sub-block"); c.step(); } };
    fresh(5000); s.view(nullptr, nullptr);
    if (twice) { s.rw->Close(); s.rw.reset(); Doc q = s.m.doc(); s.reopen(q, false, 0); fresh(9000); Md m2 = md(3000, 9); s.rw->SyncWriteMetadata(mdInfo(m2)); s.m.md = m2; s.view(nullptr, nullptr); }
    s.rw->Close(); c.step(); const Doc want = s.m.doc(); const Bytes b = *s.st->mem; c.outcome(mc::hashBytes(b.data(), b.size())); c.state(mc::mix(n * 100 + op * 10 + every, extra * 4 + kind * 2 + twice)); std::string r;
    if (c02) { StructOpt so; so.fresh = false; Doc g = checkStructure(b, so); r = diffDoc(want, g); MC_CHECK(r.empty(), "independent parser: ", r); return; }
    Doc g = readAll(b, want.md.present); r = diffDoc(want, g); MC_CHECK(r.empty(), "reopened with a reader: ", r); c.step();
}
// the file GUID of edit sessions
static void editGuid(mc::Ctx& c)
{
    auto pat = [](int k) { GUID g{}; uint8_t* p = (uint8_t*)&g; if (k < 16) p[k] = 1; else if (k < 32) { memset(p, 0xff, 16); p[k - 16] = 0; } else if (k == 32) memset(p, 0xff, 16); else { for (int i = 0; i < 16; ++i) p[i] = (uint8_t)(k == 33 ? i + 1 : 0x80 + i); } return g; };
    const int k = c.choose(35, "GUID of the document"), k2 = c.choose(35, "GUID of the session"), mode = c.choose(4, "mode"); const bool change = c.flip("edit"); Doc d = base(); d.guid = pat(k); auto st = mode == 3 ? std::make_shared<MemStream>() : std::make_shared<MemStream>(writeDoc(d)); auto rw = CreateCZIReaderWriter();
    std::shared_ptr<CCziReaderWriterInfo> inf; GUID want = d.guid; if (mode >= 1) { inf = std::make_shared<CCziReaderWriterInfo>(pat(k2)); if (mode == 2) inf->SetForceFileGuid(true); if (mode >= 2) want = pat(k2); } rw->Create(st, inf); c.step();
    GUID g = rw->GetFileHeaderInfo().fileGuid; MC_CHECK(!memcmp(&g, &want, 16), "the session reports another file GUID"); if (change) { Md m2 = md(100, 3); rw->SyncWriteMetadata(mdInfo(m2)); supply(sbd({ {D::C,2} }, 9, 1, 1, 10, 3), HowMem, [&](const auto& i) { rw->SyncAddSubBlock(i); }); } rw->Close(); rw.reset(); c.step(); c.state(mc::mix(k * 35 + k2, mode * 2 + change));
    auto r = CreateCZIReader(); r->Open(std::make_shared<MemStream>(*st->mem)); g = r->GetFileHeaderInfo().fileGuid; MC_CHECK(!memcmp(&g, &want, 16), "the file carries another GUID"); c.outcome(mc::hashBytes((const uint8_t*)&g, 16));
}

// ------------------------------------------------------------------------------------------------ C04
static std::vector<Sb> shapes()
{
    std::vector<Sb> v; uint32_t n = 300;
    auto add = [&](std::vector<std::pair<D, int>> dims, int m, int x, int y, int lw, int lh, int pw, int ph) { Sb s = makeSb(dims, m, x, y, pw, ph, PixelType::Gray8, n++); s.lw = lw; s.lh = lh; if (lw != pw) s.pyr = SubBlockPyramidType::SingleSubBlock; v.push_back(s); };
    add({ {D::C,0},{D::S,0} }, 0, 0, 0, 4, 4, 4, 4);
    add({ {D::C,1},{D::S,1} }, 3, -10, 20, 6, 2, 6, 2);
    add({ {D::C,-2} }, -1, 100, -50, 4, 8, 4, 8);                              // no scene, no M
    add({ {D::C,0},{D::S,0} }, 1, -20, -3, 8, 8, 4, 4);                        // pyramid 1/2
    add({ {D::C,0},{D::S,0} }, -1, 0, 0, 36, 18, 4, 2);                        // 3^2
    add({ {D::C,0},{D::S,1} }, -1, 7, 7, 20, 4, 4, 4);                         // not identified as a layer (x: 5.0)
    add({}, 9, 1, 1, 2, 2, 2, 2);                                              // no dimension at all
    add({ {D::Z,5},{D::C,0},{D::T,-7},{D::S,0} }, 2, 30, 30, 16, 16, 4, 4);    // 2^2
    add({ {D::C,0},{D::S,0} }, 4, 2, 2, 5, 5, 5, 4);                           // only one extent differs
    add({ {D::S,2} }, -1, 3, 5, 64, 2, 2, 1);                                  // 2^5, wide
    return v;
}
static void checkStats(mc::Ctx& c, ISubBlockRepository* r, const std::vector<Sb>& set)
{
    RefStats e = refStats(set); std::string d = diffStats(e, r->GetStatistics()); MC_CHECK(d.empty(), "statistics: ", d);
}
static void checkPyr(mc::Ctx& c, ISubBlockRepository* r, const std::vector<Sb>& set)
{
    std::string d = diffPyramid(refPyramid(set), r->GetPyramidStatistics()); MC_CHECK(d.empty(), "pyramid statistics: ", d);
}
static void statsReader(mc::Ctx& c)
{
    static const auto SH = shapes(); Doc d; d.guid = guid(3); CZIWriterOptions wo; wo.allow_duplicate_subblocks = true; auto w = CreateCZIWriter(&wo); auto st = std::make_shared<MemStream>(); w->Create(st, std::make_shared<CCziWriterInfo>(d.guid));
    const int depth = c.thorough() ? 4 : 3;
    for (int i = 0; i < depth; ++i)
    {
        const int k = c.choose((int)SH.size() + 1, "shape"); if (!k) break;
        supply(SH[k - 1], HowMem, [&](const auto& q) { w->SyncAddSubBlock(q); }); d.sbs.push_back(SH[k - 1]); c.step();
        std::string e = diffStats(refStats(d.sbs), w->GetStatistics()); MC_CHECK(e.empty(), "statistics of the writer: ", e);
    }
    w->Close(); c.step(); c.state(d.hash());
    auto r = CreateCZIReader(); r->Open(std::make_shared<MemStream>(c.flip("directory in the order of addition") ? inOrderOfAddition(*st->mem) : *st->mem));
    if (c.flip("pyramid first")) { checkPyr(c, r.get(), d.sbs); checkStats(c, r.get(), d.sbs); } else { checkStats(c, r.get(), d.sbs); checkPyr(c, r.get(), d.sbs); }
    checkPyr(c, r.get(), d.sbs);
    c.outcome(d.hash());
}
// histories of an edit session with queries at any moment
static void statsEdit(mc::Ctx& c)
{
    static const auto SH = shapes(); static Bytes startDoc; static std::vector<Sb> startSbs;
    if (startDoc.empty()) { Doc d; d.guid = guid(3); d.sbs = { SH[0], SH[3], SH[1] }; startSbs = d.sbs; startDoc = writeDoc(d); }
    const bool withStart = c.flip("start from a document"); auto st = withStart ? std::make_shared<MemStream>(startDoc) : std::make_shared<MemStream>();
    auto rw = CreateCZIReaderWriter(); rw->Create(st, std::make_shared<CCziReaderWriterInfo>(guid(3)));
    std::map<int, Sb> m; auto sync = [&](const Sb* add) { rw->EnumerateSubBlocks([&](int k, const SubBlockInfo& i) { if (!m.count(k)) m[k] = add ? *add : fromInfo(i); return true; }); };
    sync(nullptr); auto set = [&] { std::vector<Sb> v; for (auto& p : m) v.push_back(p.second); return v; };
    const int depth = c.thorough() ? 4 : 3;
    for (int i = 0; i < depth; ++i)
    {
        const int q = c.choose(3, "query"); if (q & 1) checkStats(c, rw.get(), set()); if (q & 2) checkPyr(c, rw.get(), set());
        const int op = c.choose(4, "op"); c.step();
        if (op == 0) break;
        if (op == 1) { const int k = c.choose(6, "shape"); Sb s = SH[(k * 3 + i) % SH.size()]; bool dup = false; for (auto& p : m) if (dupSb(p.second, s)) dup = true; if (dup) throw mc::Prune(); c.say([&](auto& o) { o << "add " << s.head(); }); supply(s, HowMem, [&](const auto& x) { rw->SyncAddSubBlock(x); }); sync(&s); }
        else { if (m.empty()) throw mc::Prune(); const int which = c.choose((int)m.size(), "item"); auto it = m.begin(); std::advance(it, which); int key = it->first;
            if (op == 2) { c.say([&](auto& o) { o << "remove " << key; }); rw->RemoveSubBlock(key); m.erase(it); }
            else { const int k = c.choose(4, "shape"); const Sb& s = SH[(k * 3 + 1 + i) % SH.size()]; c.say([&](auto& o) { o << "replace " << key << " by " << s.head(); }); supply(s, HowMem, [&](const auto& x) { rw->ReplaceSubBlock(key, x); }); m[key] = s; } }
        uint64_t h = 5; for (auto& p : m) h = mc::mix(h, mc::hashStr(p.second.head(), p.first)); c.state(mc::mix(h, q));
    }
    checkStats(c, rw.get(), set()); checkPyr(c, rw.get(), set()); checkStats(c, rw.get(), set());
    rw->Close(); c.step(); auto r = CreateCZIReader(); r->Open(std::make_shared<MemStream>(*st->mem)); checkStats(c, r.get(), set()); checkPyr(c, r.get(), set());
    Doc o; o.sbs = set(); c.outcome(o.hash());
}
// replacing a sub-block by one which differs from it in a few fields only, with queries before and in between
static void statsFields(mc::Ctx& c)
{
    static const auto SH = shapes(); const int a = c.choose(3, "kept"), b = c.choose(4, "replaced"); static const int ia[] = { 0, 3, 2 }, ib[] = { 1, 7, 5, 6 }; Doc d; d.guid = guid(3); d.sbs = { SH[ia[a]], SH[ib[b]] };
    auto st = std::make_shared<MemStream>(writeDoc(d)); auto rw = CreateCZIReaderWriter(); rw->Create(st); int key = -1, other = -1; rw->EnumerateSubBlocks([&](int k, const SubBlockInfo& i) { (fromInfo(i).head() == d.sbs[1].head() ? key : other) = k; return true; }); MC_CHECK(key >= 0 && other >= 0, "sub-blocks not found");
    for (int i = 0; i < 2; ++i)
    {
        const int q = c.choose(4, "query"); if (q & 1) checkStats(c, rw.get(), d.sbs); if (q & 2) checkPyr(c, rw.get(), d.sbs);
        Sb& s = d.sbs[1]; int budget = c.thorough() ? 2 : 1;
        for (int k = 0; k < budget; ++k) switch (c.choose(17, "changed field"))
        {
        case 0: s.x += 200; break; case 1: s.x -= 200; break; case 2: s.y += 200; break; case 3: s.y -= 200; break; case 4: s.lw = s.pw; s.lh = s.ph; break; case 5: s.pw = std::max(1, s.lw / 2); s.ph = std::max(1, s.lh / 2); break; case 6: s.ph = 1; break; case 7: s.pw = 1; break; case 8: s.lw += 50; break; case 9: s.lh += 50; break;
        case 10: s.mValid = !s.mValid; s.m = s.mValid ? 12 : 0; break; case 11: s.mValid = true; s.m += 5; break; case 12: s.pyr = (SubBlockPyramidType)(((int)s.pyr + 1) % 3); break; case 13: for (auto& p : s.dims) if (p.first == D::S) p.second += 4; break; case 14: for (auto& p : s.dims) if (p.first == D::C) p.second += 4; break; case 15: s.dims.erase(std::remove_if(s.dims.begin(), s.dims.end(), [](auto& p) { return p.first == D::S; }), s.dims.end()); break;
        case 16: if (!s.hasDim(D::T)) { s.dims.push_back({ D::T, 3 }); std::sort(s.dims.begin(), s.dims.end()); } break;
        }
        s.data = pattern((size_t)s.pw * s.ph, 5 + i); c.say([&](auto& o) { o << "query " << q << ", replace by " << s.head(); }); supply(s, HowMem, [&](const auto& x) { rw->ReplaceSubBlock(key, x); }); c.step(); c.state(mc::hashStr(s.head(), q * 4 + i));
    }
    if (c.flip("pyramid first")) checkPyr(c, rw.get(), d.sbs); checkStats(c, rw.get(), d.sbs); checkPyr(c, rw.get(), d.sbs); c.outcome(d.hash());
}
// coordinates, M-indices and positions at the limits of the number range
static void statsExtreme(mc::Ctx& c)
{
    static const int base[] = { 0x7ffffffc, (int)0x80000000, -2, 2000000000, -2000000000 }; const int b = base[c.choose(5, "values")], kind = c.choose(6, "what varies"), n = c.thorough() ? 4 : 3; Doc d; d.guid = guid(3); auto st = std::make_shared<MemStream>(); CZIWriterOptions wo; wo.allow_duplicate_subblocks = true; auto w = CreateCZIWriter(&wo); w->Create(st, std::make_shared<CCziWriterInfo>(d.guid));
    for (int i = 0; i < n; ++i)
    {
        const int v = b + c.choose(4, "value"); Sb s = makeSb({ { D::Z, kind == 0 ? v : 0 }, { D::C, kind == 1 ? v : 0 }, { D::S, 0 } }, 0, 0, 0, 2, 2, PixelType::Gray8, 10 + i); s.mValid = true; s.m = 0; const int room = b == 0x7ffffffc ? 0x7fffffff - v : 3; // the far edge stays representable
        if (kind == 2) { if (v == INT32_MAX || v == INT32_MIN) throw mc::Prune(); s.m = v; } if (kind == 3) { s.x = v; s.lw = s.pw = 1 + i % 2; if (s.lw > room) throw mc::Prune(); s.data = pattern(s.pw * s.ph, i); } if (kind == 4) { s.y = v; s.lh = s.ph = 1 + i % 2; if (s.lh > room) throw mc::Prune(); s.data = pattern(s.pw * s.ph, i); }
        if (kind == 5) { if (v < 0 || v == INT32_MAX) throw mc::Prune(); for (auto& p : s.dims) if (p.first == D::S) p.second = v; } d.sbs.push_back(s); supply(s, HowMem, [&](const auto& q) { w->SyncAddSubBlock(q); }); c.step();
        std::string e = diffStats(refStats(d.sbs), w->GetStatistics()); MC_CHECK(e.empty(), "statistics of the writer: ", e);
    }
    w->Close(); c.state(d.hash()); auto r = CreateCZIReader(); r->Open(std::make_shared<MemStream>(c.flip("directory in the order of addition") ? inOrderOfAddition(*st->mem) : *st->mem)); checkStats(c, r.get(), d.sbs); checkPyr(c, r.get(), d.sbs);
    auto rw = CreateCZIReaderWriter(); rw->Create(st); checkStats(c, rw.get(), d.sbs); int key = -1; rw->EnumerateSubBlocks([&](int k, const SubBlockInfo& i) { if (key < 0 && fromInfo(i).head() == d.sbs[0].head()) key = k; return true; }); MC_CHECK(key >= 0, "sub-block not found"); rw->RemoveSubBlock(key); d.sbs.erase(d.sbs.begin()); checkStats(c, rw.get(), d.sbs); checkPyr(c, rw.get(), d.sbs); c.step(3); c.outcome(d.hash());
}
// zoom factors: every pair of logical and physical extent in a range
static void statsZoom(mc::Ctx& c)
{
    const int pw = 1 + c.choose(3, "pw"), ph = 1 + c.choose(3, "ph"); const int n = c.thorough() ? 300 : 90; const int lw = 1 + c.choose(n, "lw"); const int lh = c.choose(3, "lh") == 0 ? lw * ph / pw + 1 : c.choose(2, "lh2") ? lw : ph;
    Sb s = makeSb({ {D::C,0} }, 0, 0, 0, pw, ph, PixelType::Gray8, 1); s.lw = lw; s.lh = lh; Doc d; d.guid = guid(1); d.sbs.push_back(s);
    c.state(mc::mix(lw * 1000 + lh, pw * 10 + ph));
    auto r = CreateCZIReader(); r->Open(std::make_shared<MemStream>(writeDoc(d))); checkStats(c, r.get(), d.sbs); checkPyr(c, r.get(), d.sbs); c.step(2); c.outcome(mc::mix(lw * 1000 + lh, pw * 10 + ph));
}

static struct Reg { Reg() {
    using namespace mc;
    for (const char* p : { "C02", "C03" })
    {
        add({ p, "edit_descriptions", "add/replace with every field of a sub-block description over edge values, all combinations of <=2 (thorough 3) deviating fields", [p](Ctx& c) { editDescriptions(c, p); } });
        add({ p, "edit_supply", "add/replace x 4 start documents x 6 ways of supplying the contents x 6 (12) sizes of data, metadata, attachment", [p](Ctx& c) { editSupply(c, p); } });
        add({ p, "edit_histories_2", "all sequences of <=2 (thorough 3) operations of 37 kinds on 6 start documents x 3 GUID modes, close, reopen", [p](Ctx& c) { edits(c, p, 0, c.thorough() ? 3 : 2); } });
        add({ p, "edit_histories_3", "all sequences of <=3 (thorough 4) operations of 18 kinds on 6 start documents", [p](Ctx& c) { edits(c, p, 1, c.thorough() ? 4 : 3); } });
        add({ p, "edit_histories_4", "all sequences of <=4 (thorough 5) operations of 11 kinds on 6 start documents", [p](Ctx& c) { edits(c, p, 2, c.thorough() ? 5 : 4); } });
        add({ p, "edit_many", "15 (17) numbers of items from 2 to 129 (1000) x 6 operations on every k-th item x additions x attachments x a second session", [p](Ctx& c) { editMany(c, p); } });
    }
    add({ "C03", "edit_guids", "35 x 35 GUID patterns of document and session x 4 modes x with and without edits", editGuid });
    add({ "C04", "statistics_reader", "all sequences of <=3 (thorough 4) sub-blocks out of 10 shapes, written and read", statsReader });
    add({ "C04", "statistics_edit_session", "all sequences of <=3 (thorough 4) additions, replacements, removals with queries in between", statsEdit });
    add({ "C04", "statistics_replaced_fields", "3 x 4 pairs of sub-blocks; two replacements of one of them, each changing one (thorough: two) of 17 fields, with any pattern of queries in between", statsFields });
    add({ "C04", "statistics_extreme_values", "all sequences of 3 (4) sub-blocks with Z, C, M, x, y or S out of 5 ranges of 4 values up to the limits of 32 bits; writer, reader, edit session after a removal", statsExtreme });
    add({ "C04", "statistics_pyramid_factor", "all logical extents 1..90 (300) x physical extents 1..3", statsZoom });
} } reg;
