// C21: metadata builder and its helpers against an abstract document model; everything is read back with the metadata reader.
#include "czi.h"
#include <climits>
#include <cmath>
#include <cfloat>
#include <functional>
#include <list>
#include <locale>
#include <map>
#include <set>

namespace
{
    using namespace libCZI; using namespace cz; using std::string; using std::wstring; using std::vector;

    struct Punct : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } string do_grouping() const override { return "\3"; } };
    struct WPunct : std::numpunct<wchar_t> { wchar_t do_decimal_point() const override { return L','; } wchar_t do_thousands_sep() const override { return L'.'; } string do_grouping() const override { return "\3"; } };
    struct GlobalLocale { std::locale old; explicit GlobalLocale(bool on) : old(std::locale()) { if (on) { static const std::locale* l = new std::locale(std::locale(std::locale::classic(), new Punct), new WPunct); std::locale::global(*l); } } ~GlobalLocale() { std::locale::global(old); } };

    string u8(const wstring& w) { string r; for (wchar_t x : w) { uint32_t c = (uint32_t)x; if (c < 0x80) r += (char)c; else if (c < 0x800) { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); } else { r += (char)(0xF0 | c >> 18); r += (char)(0x80 | ((c >> 12) & 63)); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); } } return r; }
    string show(const wstring& w) { string r = "\""; char b[16]; for (wchar_t x : w) { if (x >= 32 && x < 127) r += (char)x; else { snprintf(b, sizeof b, "\\u%X", (unsigned)x); r += b; } } return r + "\""; }
    wstring widen(const string& s) { return wstring(s.begin(), s.end()); }

    struct MdSeg : IMetadataSegment
    {
        string xml; explicit MdSeg(const string& x) : xml(x) {}
        std::shared_ptr<const void> GetRawData(MemBlkType, size_t* n) override { if (n) *n = xml.size(); auto p = std::make_shared<string>(xml); return std::shared_ptr<const void>(p, p->data()); }
        void DangerousGetRawData(MemBlkType, const void*& p, size_t& n) const override { p = xml.data(); n = xml.size(); }
    };
    std::shared_ptr<ICziMetadata> parse(const string& xml) { MdSeg s(xml); auto md = CreateMetaFromMetadataSegment(&s); if (!md->IsXmlValid()) mc::fail("the produced XML cannot be parsed: " + xml); return md; }
    // the document as a user gets it: the text of the builder, compact or indented, optionally through another builder, the reader's own text, or a file
    const int nVia = 5;
    std::shared_ptr<ICziMetadata> readBack(ICziMetadataBuilder* b, int via)
    {
        switch (via)
        {
        case 0: return parse(b->GetXml());
        case 1: return parse(b->GetXml(true));
        case 2: return parse(CreateMetadataBuilderFromXml(b->GetXml(true))->GetXml());
        case 3: return parse(parse(b->GetXml())->GetXml());
        default:
        {
            Doc d; d.guid = guid(1); d.md.present = true; string x = b->GetXml(); d.md.xml.assign(x.begin(), x.end()); auto st = std::make_shared<MemStream>(); *st->mem = writeDoc(d);
            auto r = CreateCZIReader(); r->Open(st); return r->ReadMetadataSegment()->CreateMetaFromMetadataSegment();
        }
        }
    }
    std::shared_ptr<IXmlNodeRead> at(ICziMetadata* md, const char* path) { return md->GetChildNodeReadonly((string("ImageDocument/") + path).c_str()); }
    bool valueOf(IXmlNodeRead* n, wstring& v) { v = L"?"; bool ok = n->TryGetValue(&v); if (!ok) v.clear(); return ok; }

    // ------------------------------------------------------------------ the node model
    struct N { wstring name; std::map<wstring, wstring> attrs; bool hasText = false; wstring text; vector<std::unique_ptr<N>> kids; };
    struct Step { wstring name; vector<std::pair<wstring, wstring>> attrs; };
    N* find(N* n, const Step& s) { for (auto& k : n->kids) { if (k->name != s.name) continue; bool ok = true; for (auto& a : s.attrs) { auto i = k->attrs.find(a.first); ok = ok && i != k->attrs.end() && i->second == a.second; } if (ok) return k.get(); } return nullptr; }
    N* add(N* n, const wstring& name) { n->kids.emplace_back(new N); n->kids.back()->name = name; return n->kids.back().get(); }
    string dump(const N& n) { string r = "<" + show(n.name); for (auto& a : n.attrs) r += " " + show(a.first) + "=" + show(a.second); if (n.hasText) r += " text=" + show(n.text); for (auto& k : n.kids) r += dump(*k); return r + ">"; }
    void cmp(IXmlNodeRead* r, const N& m, const string& where)
    {
        MC_CHECK(r->Name() == m.name, mc::cat(where, ": the name is ", show(r->Name()), " instead of ", show(m.name)));
        std::map<wstring, wstring> got; int cnt = 0; r->EnumAttributes([&](const wstring& a, const wstring& v) { got[a] = v; ++cnt; return true; });
        if (got != m.attrs || cnt != (int)m.attrs.size()) { string s; for (auto& g : got) s += show(g.first) + "=" + show(g.second) + " "; mc::fail(mc::cat(where, ": attributes are ", s, "in ", dump(m))); }
        for (auto& a : m.attrs) { wstring v = L"?"; MC_CHECK(r->TryGetAttribute(a.first.c_str(), &v) && v == a.second, mc::cat(where, ": attribute ", show(a.first), " is ", show(v))); }
        MC_CHECK(!r->TryGetAttribute(L"Nope", nullptr), "an attribute which does not exist is reported");
        if (m.attrs.size() > 1) { cnt = 0; r->EnumAttributes([&](const wstring&, const wstring&) { ++cnt; return false; }); MC_CHECK(cnt == 1, "the enumeration of the attributes does not stop"); }
        wstring v; bool ok = valueOf(r, v);
        if (!ok && !m.kids.empty() && m.text.find_first_not_of(L" \t\r\n") == wstring::npos) {} /* white space between elements is not significant */ else if (m.hasText && !m.text.empty()) MC_CHECK(ok && v == m.text, mc::cat(where, ": the value is ", ok ? show(v) : string("absent"), " instead of ", show(m.text))); else MC_CHECK(v.empty(), mc::cat(where, ": the value ", show(v), " appears in a node without a value"));
        size_t i = 0; r->EnumChildren([&](std::shared_ptr<IXmlNodeRead> k) { MC_CHECK(i < m.kids.size(), mc::cat(where, ": too many children")); cmp(k.get(), *m.kids[i], where + "/" + show(m.kids[i]->name)); ++i; return true; });
        MC_CHECK(i == m.kids.size(), mc::cat(where, ": ", i, " children instead of ", m.kids.size()));
        if (m.kids.size() > 1) { i = 0; r->EnumChildren([&](std::shared_ptr<IXmlNodeRead>) { ++i; return false; }); MC_CHECK(i == 1, "the enumeration does not stop"); }
    }

    // which of the children a path selects: name, attributes (all of them with exactly this value) or the number among those of this name
    void domPaths(mc::Ctx& c)
    {
        struct K { string name; int id, nm; }; static const char* ids[] = { "", "", "x", "xy" }; vector<K> ks; int n = c.choose(4, "children");
        for (int i = 0; i < n; ++i) { K k; k.name = n == 3 && !c.thorough() ? "A" : c.choose(2, "name") ? "AB" : "A"; k.id = c.choose(4, "Id"); k.nm = c.choose(2, "Name"); ks.push_back(k); }
        string x = "<ImageDocument><!--A--> "; for (int i = 0; i < n; ++i) { x += "<" + ks[i].name; if (ks[i].id) x += string(" Id=\"") + ids[ks[i].id] + "\""; if (ks[i].nm) x += " Name=\"y\""; x += mc::cat(" n=\"", i, "\"><B n=\"", i, "b\"/></", ks[i].name, "><!--c-->"); } x += "</ImageDocument>"; c.say([&](std::ostream& o) { o << x; });
        struct Q { string name, spec; int id, nm, idx; }; vector<Q> qs; for (string nm : { "A", "AB", "B" }) { qs.push_back({ nm, "", 0, 0, -1 }); for (int i = 1; i < 4; ++i) for (int k = 0; k < 2; ++k) qs.push_back({ nm, mc::cat("[Id=", ids[i], k ? ",Name=y]" : "]"), i, k, -1 }); qs.push_back({ nm, "[Name=y]", 0, 1, -1 }); for (int i = 0; i < 4; ++i) qs.push_back({ nm, mc::cat("[", i, "]"), 0, 0, i }); }
        auto md = parse(x); auto b = CreateMetadataBuilderFromXml(x); auto root = b->GetRootNode(); string res;
        for (auto& q : qs)
        {
            int want = -1, seen = 0; for (int i = 0; i < n; ++i) { if (ks[i].name != q.name) continue; bool ok = q.idx >= 0 ? seen == q.idx : (!q.id || ks[i].id == q.id) && (!q.nm || ks[i].nm); ++seen; if (ok) { want = i; break; } }
            string path = q.name + q.spec; auto check = [&](IXmlNodeRead* r, const char* how, const wstring& suffix) { c.step(); wstring v; bool ok = r && r->TryGetAttribute(L"n", &v); wstring w = want < 0 ? L"" : std::to_wstring(want) + suffix; MC_CHECK(want < 0 ? !r : ok && v == w, mc::cat(how, " of \"", path, "\" in ", x, " gives ", r ? "child " + show(v) : "nothing", " instead of ", want < 0 ? string("nothing") : "child " + show(w))); };
            check(at(md.get(), path.c_str()).get(), "reading", L""); check(root->GetChildNodeReadonly(path.c_str()).get(), "GetChildNodeReadonly", L""); check(root->GetChildNode(path.c_str()).get(), "GetChildNode", L""); check(at(md.get(), (path + "/B").c_str()).get(), "reading below", L"b"); check(root->GetChildNode((path + "/B").c_str()).get(), "GetChildNode below", L"b");
            MC_CHECK(!at(md.get(), (path + "/A").c_str()), "a node which does not exist is found"); if (q.idx < 0)
            {
                auto b2 = CreateMetadataBuilderFromXml(x); auto r = b2->GetRootNode()->GetOrCreateChildNode(path); MC_CHECK(r, "nothing is created"); wstring v; bool ok = r->TryGetAttribute(L"n", &v);
                if (want >= 0) MC_CHECK(ok && v == std::to_wstring(want), mc::cat("GetOrCreateChildNode of \"", path, "\" in ", x, " gives another one"));
                else { MC_CHECK(!ok, mc::cat("GetOrCreateChildNode of \"", path, "\" in ", x, " gives an existing one")); wstring a; ok = r->TryGetAttribute(L"Id", &a); MC_CHECK(ok == (q.id != 0) && (!ok || a == wstring(ids[q.id], ids[q.id] + strlen(ids[q.id]))), "the new node has another Id"); ok = r->TryGetAttribute(L"Name", &a); MC_CHECK(ok == (q.nm != 0) && (!ok || a == L"y"), "the new node has another Name"); }
                int cnt = 0; b2->GetRootNode()->EnumChildren([&](std::shared_ptr<IXmlNodeRead>) { ++cnt; return true; }); MC_CHECK(cnt == n + (want < 0), mc::cat("there are ", cnt, " children after GetOrCreateChildNode of \"", path, "\" in ", x));
            }
            res += char('1' + want);
        }
        c.state(mc::hashBytes(x.data(), x.size())); c.outcome(mc::hashBytes(res.data(), res.size()));
    }

    const vector<Step>& target(int t)
    {
        static const vector<vector<Step>> v = { {}, { { L"A", {} } }, { { L"A", {} }, { L"B", {} } }, { { L"A", { { L"Id", L"x" } } } }, { { L"A", { { L"Id", L"x" }, { L"Name", L"\u00e9 y" } } }, { L"C", {} } } };
        return v[t];
    }
    string pathOf(const vector<Step>& s) { string p; for (auto& e : s) { if (!p.empty()) p += "/"; p += u8(e.name); for (size_t i = 0; i < e.attrs.size(); ++i) p += (i ? "," : "[") + u8(e.attrs[i].first) + "=" + u8(e.attrs[i].second); if (!e.attrs.empty()) p += "]"; } return p; }

    struct Dom
    {
        std::shared_ptr<ICziMetadataBuilder> b; N root; N* last = nullptr; std::shared_ptr<IXmlNodeRw> lastNode;
        explicit Dom(const char* xml = nullptr) { b = xml ? CreateMetadataBuilderFromXml(xml) : CreateMetadataBuilder(); root.name = L"ImageDocument"; }
        static bool inside(const N* n, const N* x) { if (n == x) return true; for (auto& k : n->kids) if (inside(k.get(), x)) return true; return false; }
        void gone(const N* n) { if (last && inside(n, last)) { last = nullptr; lastNode.reset(); } }
        string apply(int t, int a)
        {
            N* m = &root; std::shared_ptr<IXmlNodeRw> n = b->GetRootNode(); string d;
            if (t == 5) { if (!last) throw mc::Prune(); m = last; n = lastNode; d = "the node used last"; }
            else if (t > 0) { for (auto& s : target(t)) { N* k = find(m, s); if (!k) { k = add(m, s.name); for (auto& e : s.attrs) k->attrs[e.first] = e.second; } m = k; } d = pathOf(target(t)); bool was = (bool)n->GetChildNode(d.c_str()); (void)was; n = n->GetOrCreateChildNode(d.c_str()); MC_CHECK(n, "no node"); auto g = b->GetRootNode()->GetChildNode(d.c_str()); MC_CHECK(g && b->GetRootNode()->GetChildNodeReadonly(d.c_str()), "the node just created is not found"); }
            else d = "the root";
            static const wchar_t* texts[] = { L"v", L" \t", L"<&>\"'\r\n ]]>", L"" }; static const wchar_t* atts[] = { L"x", L"a\tb\"<&'>\n\r ", L"" };
            auto set = [&](const wchar_t* s, bool wide) { bool elem = !m->kids.empty(), thrown = false; try { if (wide) n->SetValue(s); else n->SetValue(u8(s).c_str()); } catch (LibCZIMetadataBuilderException&) { thrown = true; } MC_CHECK(thrown == elem, elem ? "a value is accepted for a node with children" : "setting a value fails"); if (!elem) { m->hasText = true; m->text = s; } };
            switch (a)
            {
            case 0: d += " created"; break;
            case 1: case 2: case 3: case 4: set(texts[a - 1], a & 1); d += " value " + show(texts[a - 1]); break;
            case 5: case 6: n->SetAttribute(L"Id", atts[a - 5]); m->attrs[L"Id"] = atts[a - 5]; d += " Id=" + show(atts[a - 5]); break;
            case 7: n->SetAttribute("Name", u8(L"\u00e9 y").c_str()); m->attrs[L"Name"] = L"\u00e9 y"; d += " Name=.."; break;
            case 8: { auto k = n->AppendChildNode("A"); N* mk = add(m, L"A"); MC_CHECK(k, "no node appended"); n = k; m = mk; d += " + child A"; break; }
            case 9: { bool r = n->RemoveChild("A"); size_t i = 0; while (i < m->kids.size() && m->kids[i]->name != L"A") ++i; MC_CHECK(r == (i < m->kids.size()), "RemoveChild: wrong result"); if (r) { gone(m->kids[i].get()); m->kids.erase(m->kids.begin() + i); } d += " - child A"; break; }
            case 10: n->RemoveChildren(); for (auto& k : m->kids) gone(k.get()); m->kids.clear(); m->hasText = false; m->text.clear(); d += " - children"; break;
            case 11: n->RemoveAttributes(); m->attrs.clear(); d += " - attributes"; break;
            case 12: { bool r = n->RemoveAttribute("Id"); MC_CHECK(r == (m->attrs.erase(L"Id") != 0), "RemoveAttribute: wrong result"); d += " - Id"; break; }
            case 13: set(L"\u4e2d\U0001F600", true); d += " value .."; break;
            }
            last = m; lastNode = n; return d;
        }
        void check(int via)
        {
            cmp(b->GetRootNode().get(), root, "in the builder"); auto md = readBack(b.get(), via); int c = 0; md->EnumChildren([&](std::shared_ptr<IXmlNodeRead> k) { ++c; cmp(k.get(), root, "after parsing"); return true; }); MC_CHECK(c == 1, "the document does not have exactly one root node");
            // every node is found by its index and by its attributes
            auto doc = md->GetChildNodeReadonly("ImageDocument"); std::map<wstring, int> seen;
            for (auto& k : root.kids) { auto i = doc->GetChildNodeReadonly(mc::cat(u8(k->name), "[", seen[k->name]++, "]").c_str()); MC_CHECK(i, "node not found by index"); cmp(i.get(), *k, "by index"); }
            for (auto& e : seen) MC_CHECK(!doc->GetChildNodeReadonly(mc::cat(u8(e.first), "[", e.second, "]").c_str()), "an index beyond the last node gives a node");
            for (int t = 1; t < 5; ++t) { N* m = &root; for (auto& s : target(t)) { m = m ? find(m, s) : nullptr; } auto g = doc->GetChildNodeReadonly(pathOf(target(t)).c_str()); MC_CHECK((bool)g == (m != nullptr), mc::cat(pathOf(target(t)), m ? " is not found" : " is found but does not exist")); if (m) cmp(g.get(), *m, pathOf(target(t))); }
        }
    };
    void domHistories(mc::Ctx& c)
    {
        int n = c.thorough() ? 4 : 3; Dom d; vector<string> h; c.say([&](std::ostream& s) { for (auto& x : h) s << x << "; "; s << "\nmodel: " << dump(d.root) << "\nxml: " << d.b->GetXml(); });
        static const int rt[] = { 1, 3, 5 }, ra[] = { 0, 3, 6, 8, 9, 10 };
        for (int i = 0; i < n; ++i)
        {
            int t, a;
            if (i < 2) { t = c.choose(6, "target"); a = c.choose(14, "action"); } else { t = rt[c.choose(3, "target")]; a = ra[c.choose(6, "action")]; }
            if (t == 0 && (a == 11 || a == 5 || a == 6 || a == 7)) { /* attributes of the root are fine, too */ }
            if (a == 0 && t == 0) throw mc::Prune();
            h.push_back(d.apply(t, a)); c.step();
        }
        int via = c.choose(3, "via"); d.check(via); c.state(mc::hashStr(dump(d.root))); c.outcome(d.root.kids.size());
    }
    // documents from elsewhere: comments, character data sections, mixed content; every value can be replaced and is then read
    void domForeign(mc::Ctx& c)
    {
        static const char* pre[] = { "", "<!-- c -->", "<![CDATA[old]]>", "old", "<?pi x?>", " ", "<!-- c -->old", "old<![CDATA[more]]>", "<![CDATA[]]>", "old<!-- c -->more", "<![CDATA[a]]><![CDATA[b]]>", "&#x41;&amp;" };
        int p = c.choose(12, "content"), q = c.choose(5, "what"), via = c.choose(nVia, "via"); static const wchar_t* texts[] = { L"new", L" ", L"]]><&>", L"\r\n", L"" }; int t = c.choose(5, "text");
        string xml = string("<?xml version=\"1.0\"?><!-- top --><ImageDocument><Metadata><Information><Document><Title>") + pre[p] + "</Title><Name>keep</Name></Document></Information></Metadata></ImageDocument>";
        c.say([&](std::ostream& s) { s << xml << " new value " << show(texts[t]) << " way " << q; }); auto b = CreateMetadataBuilderFromXml(xml); c.step(2);
        static const wchar_t* had[] = { L"", L"", L"old", L"old", L"", L" ", L"old", L"old", L"", L"old", L"a", L"A&" };
        { auto n = b->GetRootNode()->GetChildNode("Metadata/Information/Document/Title"); wstring v; MC_CHECK(n, "node not found"); bool ok = valueOf(n.get(), v); (void)ok; MC_CHECK(v.compare(0, wcslen(had[p]), had[p]) == 0 && (v.empty() == !*had[p]), mc::cat("the builder reports the value ", show(v))); auto md = parse(xml); auto r = at(md.get(), "Metadata/Information/Document/Title"); valueOf(r.get(), v); MC_CHECK(v.compare(0, wcslen(had[p]), had[p]) == 0 && (v.empty() == !*had[p]), mc::cat("the reader reports the value ", show(v))); auto gi = md->GetDocumentInfo()->GetGeneralDocumentInfo(); MC_CHECK(gi.title_valid && gi.title == v, mc::cat("the document information reports ", show(gi.title), " for ", show(v))); }
        wstring want = texts[t];
        switch (q)
        {
        case 0: b->GetRootNode()->GetOrCreateChildNode("Metadata/Information/Document/Title")->SetValue(want); break;
        case 1: b->GetRootNode()->GetChildNode("Metadata/Information/Document/Title")->SetValue(u8(want)); break;
        case 2: { GeneralDocumentInfo i; i.title = want; i.title_valid = true; MetadataUtils::WriteGeneralDocumentInfo(b.get(), i); break; }
        case 3: { auto n = b->GetRootNode()->GetChildNode("Metadata/Information/Document/Title"); n->SetValue(L"temp"); n->RemoveChildren(); n->SetValue(want); break; }
        case 4: { auto n = b->GetRootNode()->GetChildNode("Metadata/Information/Document"); MC_CHECK(n->RemoveChild("Title") && !n->RemoveChild("Title"), "RemoveChild"); n->AppendChildNode("Title")->SetValue(want); break; }
        }
        wstring v; valueOf(b->GetRootNode()->GetChildNode("Metadata/Information/Document/Title").get(), v); MC_CHECK(v == want, mc::cat("the builder reports ", show(v), " after ", show(want), " has been set"));
        auto md = readBack(b.get(), via); valueOf(at(md.get(), "Metadata/Information/Document/Title").get(), v); MC_CHECK(v == want, mc::cat("the reader finds ", show(v), " after ", show(want), " has been set: ", b->GetXml()));
        auto gi = md->GetDocumentInfo()->GetGeneralDocumentInfo(); MC_CHECK(gi.title_valid && gi.title == want, mc::cat("the document information reports ", show(gi.title), " after ", show(want), " has been set")); MC_CHECK(gi.name_valid && gi.name == L"keep" && !gi.comment_valid && !gi.rating_valid, "another item has changed");
        c.state(mc::mix(mc::hashStr(b->GetXml()), via)); c.outcome(p);
    }

    // ------------------------------------------------------------------ texts
    const wchar_t alphabet[] = { L'a', L' ', L'\t', L'\n', L'\r', L'<', L'>', L'&', L'"', L'\'', L']', L';', L'/', L'[', L'=', L',', L'\u00e9', L'\u4e2d', L'\U0001F600', L'\x01', L'#', L'\x7f', L'\x85', L'\u2028', L'\ufffe' };
    const int nAlpha = 25;
    void channelDoc(mc::Ctx& c, const std::function<std::tuple<string, std::tuple<bool, string>>(int)>& gen, int first, const vector<PixelType>& pts, bool noC, std::shared_ptr<ICziMetadataBuilder>& out)
    {
        auto st = std::make_shared<MemStream>(); auto w = CreateCZIWriter(); w->Create(st, std::make_shared<CCziWriterInfo>(guid(1)));
        for (size_t i = 0; i < pts.size(); ++i) { if (pts[i] == PixelType::Invalid) continue; Sb s; if (!noC) s.dims = { { DimensionIndex::C, first + (int)i } }; s.x = 3; s.y = 4; s.lw = s.pw = 5; s.lh = s.ph = 2; s.pt = pts[i]; s.data = pattern(400, 1); AddSubBlockInfoMemPtr x; x.Clear(); fillBase(x, s); x.ptrData = s.data.data(); x.dataSize = 5 * 2 * Utils::GetBytesPerPixel(s.pt); w->SyncAddSubBlock(x); c.step(); }
        PrepareMetadataInfo pi; pi.funcGenerateIdAndNameForChannel = gen; out = w->GetPreparedMetadata(pi); w->Close();
    }
    void oneText(mc::Ctx& c, const wstring& t, int place, int via)
    {
        auto b = CreateMetadataBuilder(); auto root = b->GetRootNode(); string e = u8(t); c.step(2);
        auto info = [&] { return readBack(b.get(), via); }; wstring v;
        switch (place)
        {
        case 0: case 1: { auto n = root->GetOrCreateChildNode("A/B"); if (place) n->SetValue(e); else n->SetValue(t); root->GetOrCreateChildNode("A/C")->SetValue("c"); MC_CHECK(t.empty() || (valueOf(n.get(), v) && v == t), mc::cat("the builder reports ", show(v))); auto md = info(); auto r = at(md.get(), "A/B"); MC_CHECK(r, "node lost"); valueOf(r.get(), v); MC_CHECK(v == t, mc::cat("value ", show(t), " is read as ", show(v))); valueOf(at(md.get(), "A/C").get(), v); MC_CHECK(v == L"c", "another value has changed"); break; }
        case 2: case 3: { auto n = root->GetOrCreateChildNode("A/B"); if (place == 3) n->SetAttribute("Id", e.c_str()); else n->SetAttribute(L"Id", t.c_str()); n->SetAttribute(L"Name", L"n"); auto md = info(); auto r = at(md.get(), "A/B"); MC_CHECK(r && r->TryGetAttribute(L"Id", &v) && v == t, mc::cat("attribute ", show(t), " is read as ", show(v))); MC_CHECK(r->TryGetAttribute(L"Name", &v) && v == L"n", "another attribute has changed"); break; }
        case 4: case 5: case 6: case 7: case 8: case 9: case 10:
        {
            GeneralDocumentInfo i; wstring GeneralDocumentInfo::* f[] = { &GeneralDocumentInfo::name, &GeneralDocumentInfo::title, &GeneralDocumentInfo::userName, &GeneralDocumentInfo::description, &GeneralDocumentInfo::comment, &GeneralDocumentInfo::keywords, &GeneralDocumentInfo::creationDateTime };
            bool GeneralDocumentInfo::* ok[] = { &GeneralDocumentInfo::name_valid, &GeneralDocumentInfo::title_valid, &GeneralDocumentInfo::userName_valid, &GeneralDocumentInfo::description_valid, &GeneralDocumentInfo::comment_valid, &GeneralDocumentInfo::keywords_valid, &GeneralDocumentInfo::creationDateTime_valid };
            i.*f[place - 4] = t; i.*ok[place - 4] = true; MetadataUtils::WriteGeneralDocumentInfo(b.get(), i); auto r = info()->GetDocumentInfo()->GetGeneralDocumentInfo();
            for (int k = 0; k < 7; ++k) { MC_CHECK(r.*ok[k] == (k == place - 4), mc::cat("field ", k, r.*ok[k] ? " appears" : " is lost")); if (k == place - 4) MC_CHECK(r.*f[k] == t, mc::cat("field ", k, ": ", show(t), " is read as ", show(r.*f[k]))); } MC_CHECK(!r.rating_valid, "a rating appears"); break;
        }
        case 11: { MetadataUtils::SetOrAddCustomKeyValuePair(b.get(), "key", CustomValueVariant(e)); auto md = info(); auto r = at(md.get(), "Metadata/Information/CustomAttributes/KeyValue/key"); MC_CHECK(r && r->TryGetAttribute(L"Type", &v) && v == L"String", "custom value lost"); valueOf(r.get(), v); MC_CHECK(v == t, mc::cat("custom value ", show(t), " is read as ", show(v))); break; }
        case 12: { ScalingInfoEx s; s.defaultUnitFormatY = t; s.scaleX = 2; MetadataUtils::WriteScalingInfoEx(b.get(), s); auto r = info()->GetDocumentInfo()->GetScalingInfoEx(); MC_CHECK(r.defaultUnitFormatY == t && r.defaultUnitFormatX.empty() && r.scaleX == 2 && std::isnan(r.scaleY), mc::cat("unit ", show(t), " is read as ", show(r.defaultUnitFormatY))); break; }
        case 13: case 14:
        {
            bool name = place == 14; channelDoc(c, [&](int ch) { return name ? std::make_tuple(mc::cat("Channel:", ch), std::make_tuple(true, ch ? string("other") : e)) : std::make_tuple(ch ? string("~other~") : e, std::make_tuple(false, string())); }, 0, { PixelType::Gray8, PixelType::Gray16 }, false, b); auto ci = info()->GetDocumentInfo()->GetDimensionChannelsInfo();
            MC_CHECK(ci && ci->GetChannelCount() == 2, "wrong number of channels"); for (int k = 0; k < 2; ++k) { auto x = ci->GetChannel(k); wstring id, nm; bool hn = x->TryGetAttributeName(&nm); MC_CHECK(x->TryGetAttributeId(&id), "no id"); MC_CHECK(hn == name && id == (name ? widen(mc::cat("Channel:", k)) : k ? wstring(L"~other~") : t), mc::cat("channel id is read as ", show(id))); if (name) MC_CHECK(nm == (k ? wstring(L"other") : t), mc::cat("channel name ", show(t), " is read as ", show(nm))); PixelType p = PixelType::Invalid; MC_CHECK(x->TryGetPixelType(&p) && p == (k ? PixelType::Gray16 : PixelType::Gray8), "wrong pixel type"); }
            break;
        }
        case 15: { DisplaySettingsPOD pod; ChannelDisplaySettingsPOD cp; cp.Clear(); pod.channelDisplaySettings[0] = cp; auto ds = DisplaySettingsPOD::CreateIDisplaySettingSp(pod); MetadataUtils::WriteDisplaySettings(b.get(), ds.get(), 1, [&](int, MetadataUtils::CoerceAdditionalInfoForChannelDisplaySettings& i) { i.writeNameAttribute = true; i.nameAttribute = t; }); auto md = info(); auto r = at(md.get(), "Metadata/DisplaySetting/Channels/Channel"); MC_CHECK(r && r->TryGetAttribute(L"Name", &v) && v == t, mc::cat("channel name ", show(t), " is read as ", show(v))); break; }
        case 16:
        {
            auto m = Utils::CreateSubBlockMetadata([&](int i, std::tuple<string, string>& x) { if (i == 0) x = std::make_tuple(string("First"), e); else if (i == 1) x = std::make_tuple(string("Second"), string("s")); return i < 2; }); Doc d; d.guid = guid(1); Sb s; s.dims = { { DimensionIndex::C, 0 } }; s.lw = s.lh = s.pw = s.ph = 1; s.data = pattern(1, 1); string x = m->GetXml(via & 1); s.meta.assign(x.begin(), x.end()); d.sbs.push_back(s); auto st = std::make_shared<MemStream>(); *st->mem = writeDoc(d); auto r = CreateCZIReader(); r->Open(st); auto sb = r->ReadSubBlock(0); auto sm = CreateSubBlockMetadataFromSubBlock(sb.get()); MC_CHECK(sm && sm->IsXmlValid(), "sub-block metadata cannot be parsed");
            bool ok = sm->TryGetTagAsString(L"First", &v); if (!ok) v.clear(); MC_CHECK(v == t, mc::cat("tag ", show(t), " is read as ", show(v))); MC_CHECK(sm->TryGetTagAsString(L"Second", &v) && v == L"s" && !sm->TryGetTagAsString(L"Third", &v), "another tag has changed"); break;
        }
        case 17: { bool special = t.find_first_of(L"/[],;=") != wstring::npos; if (special) throw mc::Prune(); string p = "A/B[Id=" + e + ",Name=n]"; root->GetOrCreateChildNode(p)->SetValue("1"); root->GetOrCreateChildNode(p)->SetAttribute("X", "2"); root->GetOrCreateChildNode("A/B[Id=z]")->SetValue("3"); auto md = info(); auto r = at(md.get(), p.c_str()); MC_CHECK(r && r->TryGetAttribute(L"Id", &v) && v == t && r->TryGetAttribute(L"X", &v) && v == L"2" && valueOf(r.get(), v) && v == L"1", mc::cat("node with Id ", show(t), " is not found again")); int k = 0; at(md.get(), "A")->EnumChildren([&](std::shared_ptr<IXmlNodeRead>) { ++k; return true; }); MC_CHECK(k == 2, "wrong number of nodes"); break; }
        }
    }
    const int nPlaces = 18;
    void texts(mc::Ctx& c)
    {
        int place = c.choose(nPlaces, "place"), len = c.choose((place < 4 || c.thorough()) ? 4 : 3, "length"); wstring t; for (int i = 0; i < len; ++i) t += alphabet[c.choose(nAlpha, "character")]; int via = len < 2 ? c.choose(nVia, "via") : (int)(mc::hashStr(u8(t)) % 4);
        c.say([&](std::ostream& s) { s << "text " << show(t) << " in place " << place << " via " << via; }); oneText(c, t, place, via); c.state(mc::mix(mc::mix(mc::hashStr(u8(t)), place), via)); c.outcome(place);
    }
    void unicode(mc::Ctx& c)
    {
        int place = c.choose(4, "place"); static const int places[] = { 0, 3, 8, 13 }; int blk = c.choose(0x1100, "block of 256 code points"); wstring t; for (int i = 0; i < 256; ++i) { uint32_t k = (uint32_t)blk * 256 + i; if (k && !(k >= 0xD800 && k < 0xE000)) t += (wchar_t)k; } if (t.empty() || (places[place] == 13 && blk > 0x30 && blk % 16)) throw mc::Prune();
        c.say([&](std::ostream& s) { s << "code points " << std::hex << blk << "00.. in place " << std::dec << places[place]; }); oneText(c, t, places[place], blk % 4); c.state(mc::mix(blk, place)); c.outcome(place);
    }
    void longTexts(mc::Ctx& c)
    {
        int place = c.choose(nPlaces, "place"), n = c.choose(3, "length"), ch = c.choose(4, "character"); static const size_t len[] = { 1000, 40000, 300000 }; static const wchar_t chs[] = { L'x', L'&', L'\u4e2d', L' ' }; if (place == 17 && n > 0) throw mc::Prune(); wstring t(len[n], chs[ch]);
        c.say([&](std::ostream& s) { s << "a text of " << len[n] << " times " << show(wstring(1, chs[ch])) << " in place " << place; }); oneText(c, t, place, n); c.state(mc::mix(mc::mix(place, n), ch)); c.outcome(n);
    }

    // ------------------------------------------------------------------ numbers
    double dbl(uint64_t u) { double d; memcpy(&d, &u, 8); return d; } float flt(uint32_t u) { float d; memcpy(&d, &u, 4); return d; }
    bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b)); }
    void numbers(mc::Ctx& c)
    {
        int kind = c.choose(3, "kind"), loc = c.choose(2, "locale"); string what; c.say([&](std::ostream& s) { s << what << (loc ? " with a global locale which groups digits" : ""); });
        if (kind == 0)
        {
            int place = c.choose(8, "place"); static const uint64_t mant[] = { 0, 1, 0xfffffffffffffull, 0x8000000000000ull, 0x5555555555555ull, 0x999999999999aull }; int ex = c.choose(2047, "exponent"); if (place && ex % 89 && !c.thorough() && (ex < 1015 || ex > 1035)) throw mc::Prune(); uint64_t m = mant[c.choose(6, "mantissa")]; int sg = c.choose(2, "sign"); double d = dbl(((uint64_t)sg << 63) | ((uint64_t)ex << 52) | m); char t[64]; snprintf(t, sizeof t, "double %.17g in place %d", d, place); what = t; GlobalLocale gl(loc); auto b = CreateMetadataBuilder(); c.step(2); double r = -77, r2 = -77;
            switch (place)
            {
            case 0: { auto n = b->GetRootNode()->GetOrCreateChildNode("A"); n->SetValueDbl(d); MC_CHECK(n->TryGetValueAsDouble(&r) && same(r, d), mc::cat("the builder gives ", mc::cat(r))); MC_CHECK(at(readBack(b.get(), ex % 4).get(), "A")->TryGetValueAsDouble(&r), "not found"); break; }
            case 1: MetadataUtils::SetOrAddCustomKeyValuePair(b.get(), "k", CustomValueVariant(d)); MC_CHECK(at(readBack(b.get(), 0).get(), "Metadata/Information/CustomAttributes/KeyValue/k")->TryGetValueAsDouble(&r), "not found"); break;
            case 2: { ScalingInfo s; s.scaleZ = d; MetadataUtils::WriteScalingInfo(b.get(), s); auto g = readBack(b.get(), 0)->GetDocumentInfo(); r = g->GetScalingInfo().scaleZ; r2 = g->GetScalingInfoEx().scaleZ; MC_CHECK(same(r, r2) && std::isnan(g->GetScalingInfo().scaleX), "inconsistent scaling"); break; }
            case 3: MetadataUtils::WriteDimInfoT_Interval(b.get(), nullptr, d, 2); { auto i = readBack(b.get(), 0)->GetDocumentInfo()->GetDimensionTInfo(); MC_CHECK(i && i->TryGetIntervalDefinition(&r, &r2) && r2 == 2, "T interval not found"); } break;
            case 4: MetadataUtils::WriteDimInfoZ_Interval(b.get(), 1, 2, d); { auto i = readBack(b.get(), 0)->GetDocumentInfo()->GetDimensionZInfo(); double p = 0; MC_CHECK(i && i->TryGetIntervalDefinition(&r2, &r) && r2 == 2 && i->TryGetReferencePosition(&p) && p == 1, "Z interval not found"); } break;
            case 5: MetadataUtils::WriteDimInfoT_List(b.get(), nullptr, [&](int i) { return i == 0 ? d : i == 1 ? 5.5 : i == 2 ? -d : std::nan(""); }); { auto i = readBack(b.get(), 0)->GetDocumentInfo()->GetDimensionTInfo(); vector<double> v; MC_CHECK(i && i->TryGetOffsetsList(&v) && v.size() == 3 && v[1] == 5.5 && same(v[2], -d), "T list not found"); r = v[0]; } break;
            case 6: MetadataUtils::WriteDimInfoZ_List(b.get(), d, [&](int i) { return i < 2 ? d : std::nan(""); }); { auto i = readBack(b.get(), 0)->GetDocumentInfo()->GetDimensionZInfo(); vector<double> v; MC_CHECK(i && i->TryGetPositionList(&v) && v.size() == 2 && same(v[1], d) && i->TryGetReferencePosition(&r), "Z list not found"); MC_CHECK(same(v[0], d), "Z list differs"); } break;
            case 7: { DisplaySettingsPOD pod; ChannelDisplaySettingsPOD cp; cp.Clear(); cp.gradationCurveMode = IDisplaySettings::GradationCurveMode::Spline; cp.splineCtrlPoints = { { d, 0.25 }, { 0.5, d } }; pod.channelDisplaySettings[0] = cp; MetadataUtils::WriteDisplaySettings(b.get(), DisplaySettingsPOD::CreateIDisplaySettingSp(pod).get()); auto ds = readBack(b.get(), 0)->GetDocumentInfo()->GetDisplaySettings(); MC_CHECK(ds && ds->GetChannelDisplaySettings(0), "display settings not found"); vector<IDisplaySettings::SplineControlPoint> v; MC_CHECK(ds->GetChannelDisplaySettings(0)->TryGetSplineControlPoints(&v) && v.size() == 2 && v[0].y == 0.25 && v[1].x == 0.5 && same(v[1].y, d), "spline points differ"); r = v[0].x; break; }
            }
            MC_CHECK(same(r, d), mc::cat(what, " is read as ", [&] { char x[64]; snprintf(x, sizeof x, "%.17g", r); return string(x); }()));
        }
        else if (kind == 1)
        {
            int place = c.choose(5, "place"); static const uint32_t mant[] = { 0, 1, 0x7fffff, 0x400000, 0x2aaaaa, 0x4ccccd }; int ex = c.choose(255, "exponent"); uint32_t m = mant[c.choose(6, "mantissa")]; int sg = c.choose(2, "sign"); float d = flt(((uint32_t)sg << 31) | ((uint32_t)ex << 23) | m); char t[64]; snprintf(t, sizeof t, "float %.9g in place %d", d, place); what = t; GlobalLocale gl(loc); auto b = CreateMetadataBuilder(); c.step(2); float r = -77;
            if (place == 0) { b->GetRootNode()->GetOrCreateChildNode("A")->SetValueFlt(d); MC_CHECK(at(readBack(b.get(), ex % 4).get(), "A")->TryGetValueAsFloat(&r), "not found"); }
            else if (place == 1) { MetadataUtils::SetOrAddCustomKeyValuePair(b.get(), "k", CustomValueVariant(d)); MC_CHECK(at(readBack(b.get(), 0).get(), "Metadata/Information/CustomAttributes/KeyValue/k")->TryGetValueAsFloat(&r), "not found"); }
            else { DisplaySettingsPOD pod; ChannelDisplaySettingsPOD cp; cp.Clear(); cp.blackPoint = 0.125f; cp.whitePoint = 0.5f; cp.gradationCurveMode = IDisplaySettings::GradationCurveMode::Gamma; cp.gamma = 2; (place == 2 ? cp.blackPoint : place == 3 ? cp.gamma : cp.weight) = d; pod.channelDisplaySettings[0] = cp; MetadataUtils::WriteDisplaySettings(b.get(), DisplaySettingsPOD::CreateIDisplaySettingSp(pod).get()); auto ds = readBack(b.get(), 0)->GetDocumentInfo()->GetDisplaySettings(); auto x = ds->GetChannelDisplaySettings(0); float bl, wh, ga = 0; x->GetBlackWhitePoint(&bl, &wh); MC_CHECK(x->TryGetGamma(&ga) && wh == 0.5f && (place == 2 || bl == 0.125f) && (place == 3 || ga == 2) && (place == 4 || x->GetWeight() == 1), "another item has changed"); r = place == 2 ? bl : place == 3 ? ga : x->GetWeight(); }
            MC_CHECK(same(r, d), mc::cat(what, " is read as ", [&] { char x[64]; snprintf(x, sizeof x, "%.9g", r); return string(x); }()));
        }
        else
        {
            int place = c.choose(7, "place"), bit = c.choose(65, "power of two"), off = c.choose(5, "offset") - 2, sg = c.choose(2, "sign"); __int128 v = ((__int128)1 << bit) + off; if (sg) v = -v; GlobalLocale gl(loc); auto b = CreateMetadataBuilder(); auto n = b->GetRootNode()->GetOrCreateChildNode("A"); what = mc::cat("integer ", sg ? "-" : "", "2^", bit, " offset ", off, " in place ", place); c.step(2); bool in32 = v >= INT_MIN && v <= INT_MAX, in64 = v >= LLONG_MIN && v <= LLONG_MAX, inu32 = v >= 0 && v <= UINT_MAX, inu64 = v >= 0 && v <= ULLONG_MAX;
            if ((place == 0 && !in32) || (place == 1 && !inu32) || (place == 2 && !in64) || (place == 3 && !inu64) || (place > 3 && !in32)) throw mc::Prune();
            if (place < 4)
            {
                switch (place) { case 0: n->SetValueI32((int)v); break; case 1: n->SetValueUI32((unsigned)v); break; case 2: n->SetValueI64((long long)v); break; case 3: n->SetValueUI64((unsigned long long)v); break; }
                auto r = at(readBack(b.get(), bit % 4).get(), "A"); int32_t i = 7; uint32_t u = 7; int64_t l = 7; uint64_t ul = 7;
                MC_CHECK(r->TryGetValueAsInt32(&i) == in32 && (!in32 || i == (int32_t)v), "wrong as int32"); MC_CHECK(r->TryGetValueAsUInt32(&u) == inu32 && (!inu32 || u == (uint32_t)v), "wrong as uint32"); MC_CHECK(r->TryGetValueAsInt64(&l) == in64 && (!in64 || l == (int64_t)v), "wrong as int64"); MC_CHECK(r->TryGetValueAsUInt64(&ul) == inu64 && (!inu64 || ul == (uint64_t)v), "wrong as uint64"); double d; MC_CHECK(r->TryGetValueAsDouble(&d) && d == (double)v, "wrong as double");
            }
            else if (place == 4) { GeneralDocumentInfo g; g.rating = (int)v; g.rating_valid = true; MetadataUtils::WriteGeneralDocumentInfo(b.get(), g); auto r = readBack(b.get(), 0)->GetDocumentInfo()->GetGeneralDocumentInfo(); MC_CHECK(r.rating_valid && r.rating == (int)v && !r.name_valid, "rating differs"); }
            else if (place == 5) { MetadataUtils::SetOrAddCustomKeyValuePair(b.get(), "k", CustomValueVariant((int32_t)v)); int32_t i = 0; MC_CHECK(at(readBack(b.get(), 0).get(), "Metadata/Information/CustomAttributes/KeyValue/k")->TryGetValueAsInt32(&i) && i == (int)v, "custom value differs"); }
            else { for (auto d : { DimensionIndex::Z, DimensionIndex::C, DimensionIndex::T, DimensionIndex::R, DimensionIndex::S, DimensionIndex::I, DimensionIndex::H, DimensionIndex::V, DimensionIndex::B }) { auto b2 = CreateMetadataBuilder(); MetadataUtils::WriteDimensionSize(b2.get(), d, (int)v); auto di = readBack(b2.get(), 0)->GetDocumentInfo(); int cnt = 0; di->EnumDimensions([&](DimensionIndex x) { ++cnt; MC_CHECK(x == d, "another dimension appears"); return true; }); MC_CHECK(cnt == 1, "the dimension is not found"); auto i = di->GetDimensionInfo(d); int s = 7, e = 7; bool se = true, ee = false; i->GetInterval(&s, &e); i->GetIntervalIsExplicitlyStated(&se, &ee); MC_CHECK(i->GetDimension() == d && s == 0 && e == (int)v && !se && ee, "dimension size differs"); } }
        }
        c.state(mc::hashStr(what, loc)); c.outcome(kind);
    }

    // ------------------------------------------------------------------ conversions of texts
    bool ws(wchar_t c) { return c == L' ' || c == L'\t' || c == L'\n' || c == L'\r' || c == L'\v' || c == L'\f'; }
    struct Num { bool isInt = false, isReal = false, neg = false, spaced = false; __int128 v = 0; bool huge = false; };
    Num classify(wstring t)
    {
        Num n; size_t a = 0, e = t.size(); while (a < e && ws(t[a])) { ++a; n.spaced = true; } while (e > a && ws(t[e - 1])) { --e; n.spaced = true; } t = t.substr(a, e - a); size_t i = 0; if (i < t.size() && (t[i] == L'+' || t[i] == L'-')) { n.neg = t[i] == L'-'; if (t[i] == L'+') n.spaced = true; ++i; }
        size_t d0 = i; auto dig = [&] { size_t b = i; while (i < t.size() && t[i] >= L'0' && t[i] <= L'9') ++i; return i - b; }; size_t k = dig(); if (k && i == t.size()) { n.isInt = n.isReal = true; for (size_t q = d0; q < t.size(); ++q) { n.v = n.v * 10 + (t[q] - L'0'); if (n.v > ((__int128)1 << 100)) { n.huge = true; n.v = (__int128)1 << 100; } } if (n.neg) n.v = -n.v; return n; }
        size_t k2 = 0; if (i < t.size() && t[i] == L'.') { ++i; k2 = dig(); } if (!k && !k2) return n; if (i < t.size() && (t[i] == L'e' || t[i] == L'E')) { ++i; if (i < t.size() && (t[i] == L'+' || t[i] == L'-')) ++i; if (!dig()) return n; } n.isReal = i == t.size(); return n;
    }
    void convert(mc::Ctx& c, const wstring& t)
    {
        c.say([&](std::ostream& s) { s << "node with the text " << show(t); }); auto b = CreateMetadataBuilder(); b->GetRootNode()->GetOrCreateChildNode("A")->SetValue(t); auto md = readBack(b.get(), 0); auto r = at(md.get(), "A"); c.step(6); Num n = classify(t);
        auto chk = [&](const char* ty, bool ok, bool in, bool eq) { if (!n.isInt || !in) MC_CHECK(!ok || (n.neg && n.v == 0), mc::cat(show(t), " is accepted as ", ty)); else { MC_CHECK(ok || n.spaced, mc::cat(show(t), " is refused as ", ty)); MC_CHECK(!ok || eq, mc::cat(show(t), " gives a wrong value as ", ty)); } };
        int32_t i = 7; bool o = r->TryGetValueAsInt32(&i); chk("int32", o, n.v >= INT_MIN && n.v <= INT_MAX, i == n.v); uint32_t u = 7; o = r->TryGetValueAsUInt32(&u); chk("uint32", o, n.v >= 0 && n.v <= UINT_MAX, u == n.v); int64_t l = 7; o = r->TryGetValueAsInt64(&l); chk("int64", o, n.v >= LLONG_MIN && n.v <= LLONG_MAX, l == n.v); uint64_t ul = 7; o = r->TryGetValueAsUInt64(&ul); chk("uint64", o, n.v >= 0 && n.v <= ULLONG_MAX, ul == (uint64_t)n.v);
        double d = 7; o = r->TryGetValueAsDouble(&d); wstring low; for (wchar_t x : t) low += (wchar_t)towlower(x); bool odd = low.find(L"inf") != wstring::npos || low.find(L"nan") != wstring::npos || low.find(L"0x") != wstring::npos; double w = n.isReal ? wcstod(t.c_str(), nullptr) : 0; if (!odd) { if (!n.isReal) MC_CHECK(!o, mc::cat(show(t), " is accepted as double")); else { MC_CHECK(o || n.spaced || std::isinf(w) || (w != 0 && std::fabs(w) < DBL_MIN), mc::cat(show(t), " is refused as double")); MC_CHECK(!o || same(d, w), mc::cat(show(t), " gives a wrong value as double")); } } float f = 7; bool of = r->TryGetValueAsFloat(&f); if (!odd && n.isReal && of) MC_CHECK(same(f, (float)w), "wrong value as float"); if (!odd && !n.isReal) MC_CHECK(!of, "accepted as float");
        wstring tr = low; while (!tr.empty() && ws(tr.back())) tr.pop_back(); while (!tr.empty() && ws(tr[0])) tr.erase(0, 1); bool bt = tr == L"true" || tr == L"yes" || tr == L"1", bf = tr == L"false" || tr == L"no" || tr == L"0", bv = !bt; o = r->TryGetValueAsBool(&bv); if (!bt && !bf) MC_CHECK(!o, mc::cat(show(t), " is accepted as bool")); else { MC_CHECK(o || tr.size() != t.size(), mc::cat(show(t), " is refused as bool")); MC_CHECK(!o || bv == bt, mc::cat(show(t), " gives a wrong value as bool")); }
        MC_CHECK(r->TryGetValueAsInt32(nullptr) == (n.isInt && n.v >= INT_MIN && n.v <= INT_MAX) || n.spaced || (n.neg && n.v == 0), "null pointer: other result");
        c.state(mc::hashStr(u8(t))); c.outcome(n.isInt * 2 + n.isReal);
    }
    void conversions(mc::Ctx& c)
    {
        static const wchar_t a[] = { L'0', L'1', L'9', L'-', L'+', L' ', L'.', L'e', L'x', L'\t', L'\u0663', L'\U0001F600' }; int len = c.choose(c.thorough() ? 6 : 5, "length"); wstring t; for (int i = 0; i < len; ++i) t += a[c.choose(12, "character")]; convert(c, t);
    }
    void conversionTable(mc::Ctx& c)
    {
        static const vector<wstring> v = { L"true", L"TRUE", L"True", L"yes", L"no", L"false", L"FALSE", L" true ", L"tru", L"truee", L"2147483647", L"2147483648", L"-2147483648", L"-2147483649", L"4294967295", L"4294967296", L"-4294967295", L"9223372036854775807", L"9223372036854775808", L"-9223372036854775808", L"-9223372036854775809", L"18446744073709551615", L"18446744073709551616", L"-18446744073709551615", L"-1", L"99999999999999999999999999999999", L"1e400", L"-1e400", L"1e-400", L"4.9406564584124654e-324", L"1.7976931348623157e308", L"nan", L"inf", L"-inf", L"0x10", L"1,5", L"1.5.5", L"1e+5", L"1E5", L"12 3", L"12 ", L" 12", L"12\n", L"12\u00a0", L"12\u3000", L"\u4e2d", L"12\u4e2d", L"yes\u0130", L"\u0130", L"00012", L"1.", L".5", L".", L"+5", L"--5", L"5-", L"1e5 ", L"1.5\t\t", L"1.5 x" };
        convert(c, v[c.choose((int)v.size(), "text")]);
    }

    // ------------------------------------------------------------------ date and time
    bool dtEqual(const XmlDateTime& a, const XmlDateTime& b) { bool z = a.HasTimeZoneOffset(); return a.sec == b.sec && a.min == b.min && a.hour == b.hour && a.mday == b.mday && a.mon == b.mon && a.year == b.year && a.isUTC == b.isUTC && z == b.HasTimeZoneOffset() && (!z || (a.offsetHours == b.offsetHours && a.offsetMinutes == b.offsetMinutes)); }
    bool refValid(int y, int mo, int d, int h, int mi, int s) { if (y < -9999 || y > 9999 || mo < 1 || mo > 12 || d < 1 || h < 0 || h > 23 || mi < 0 || mi > 59 || s < 0 || s > 60) return false; static const int n[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; return d <= n[mo - 1] + (mo == 2 && leap ? 1 : 0); }
    void checkDt(const XmlDateTime& t, bool valid, int where)
    {
        MC_CHECK(t.IsValid() == valid, mc::cat("IsValid gives ", t.IsValid())); bool thrown = false; string s; try { s = t.ToXmlString(); } catch (std::invalid_argument&) { thrown = true; } MC_CHECK(thrown == !valid, valid ? "a valid date is refused" : "an invalid date is accepted"); if (!valid) return; XmlDateTime r; r.Clear(); MC_CHECK(t.ToXmlWstring() == widen(s), "texts differ"); MC_CHECK(XmlDateTime::TryParse(s.c_str(), &r), mc::cat("the text ", s, " is not parsed")); MC_CHECK(dtEqual(t, r), mc::cat("the text ", s, " is parsed as a different time")); XmlDateTime r2; r2.Clear(); MC_CHECK(XmlDateTime::TryParse(widen(s).c_str(), &r2) && dtEqual(t, r2) && XmlDateTime::TryParse(s.c_str(), nullptr), "wide text differs");
        if (where) { auto b = CreateMetadataBuilder(); if (where == 1) MetadataUtils::WriteDimInfoT_Interval(b.get(), &t, 1, 2); else if (where == 2) MetadataUtils::WriteDimInfoT_List(b.get(), &t, [](int i) { return i ? std::nan("") : 1.; }); else { GeneralDocumentInfo g; g.SetCreationDate(&t); MetadataUtils::WriteGeneralDocumentInfo(b.get(), g); } auto di = readBack(b.get(), 0)->GetDocumentInfo(); if (where < 3) { auto i = di->GetDimensionTInfo(); MC_CHECK(i, "no T information"); XmlDateTime x; x.Clear(); MC_CHECK(i->TryGetStartTime(&x) && dtEqual(x, t), "the start time differs"); } else { auto g = di->GetGeneralDocumentInfo(); XmlDateTime x; MC_CHECK(g.creationDateTime_valid && XmlDateTime::TryParse(g.creationDateTime.c_str(), &x) && dtEqual(x, t), "the creation date differs"); } }
    }
    void dateTimes(mc::Ctx& c)
    {
        XmlDateTime t; t.Clear(); int loc = c.choose(2, "locale"), k = c.choose(3, "kind"); static const int ys[] = { 2024, 1, 0, -1, -12, -400, -9999, -10000, 9999, 10000, 1900, 2000, 2023, 99, INT_MAX, INT_MIN }; t.year = k == 2 ? c.choose(20003, "year") - 10001 : ys[c.choose(16, "year")]; int where = 0;
        if (k == 0) { t.mon = c.choose(14, "month"); t.mday = c.choose(33, "day"); if (c.choose(3, "more") == 0) { t.hour = 5; t.min = 6; t.sec = 7; } else if (t.mday == 0) t.mday = -1; }
        else if (k == 2) { t.mon = 2; t.mday = 28 + c.choose(2, "day"); t.hour = 23; t.min = 59; t.sec = 60; if (t.mday == 28 && t.year % 10) throw mc::Prune(); }
        else
        {
            t.mon = 2; t.mday = 3; static const int hs[] = { 0, 9, 23, 24, -1 }, ms[] = { 0, 7, 59, 60, -1 }, ss[] = { 0, 8, 59, 60, 61, -1 }, oh[] = { INT_MIN, -24, -23, -12, -5, -1, 0, 1, 14, 23, 24 }, om[] = { INT_MIN, -1, 0, 5, 30, 59, 60 }; t.hour = hs[c.choose(5, "hour")]; t.min = ms[c.choose(5, "minute")]; t.sec = ss[c.choose(6, "second")]; t.isUTC = c.choose(2, "UTC"); if (!t.isUTC) { t.offsetHours = oh[c.choose(11, "offset hours")]; t.offsetMinutes = om[c.choose(7, "offset minutes")]; } bool small = t.year == 2024 || t.year == -12; if (!small && !c.thorough() && (t.min != 7 || t.hour != 9)) throw mc::Prune(); if (t.min == 7 && t.hour == 9) where = c.choose(4, "where");
        }
        c.say([&](std::ostream& s) { s << t.year << "/" << t.mon << "/" << t.mday << " " << t.hour << ":" << t.min << ":" << t.sec << (t.isUTC ? " UTC" : "") << " offset " << t.offsetHours << ":" << t.offsetMinutes << (loc ? " with a global locale which groups digits" : ""); }); c.step(3);
        { GlobalLocale gl(loc); checkDt(t, refValid(t.year, t.mon, t.mday, t.hour, t.min, t.sec), where); } c.state(mc::mix(mc::mix(mc::mix(t.year, t.mon * 100 + t.mday), t.hour * 10000 + t.min * 100 + t.sec), mc::mix(t.offsetHours, t.offsetMinutes * 2 + t.isUTC))); c.outcome(k);
    }
    // 0 refused, 1 accepted with the value, 2 either (white space around, offsets of less than an hour with a minus sign, a leap second)
    int refDate(const string& in, XmlDateTime& t)
    {
        string s = in; int res = 1; auto w = [](char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; }; { size_t k = 0; while (k < s.size() && w(s[k])) ++k; if (k) { s.erase(0, k); res = 2; } } while (!s.empty() && w(s.back())) { s.pop_back(); res = 2; } size_t i = 0; t.Clear(); bool neg = i < s.size() && s[i] == '-'; if (neg) ++i; size_t b = i; while (i < s.size() && isdigit((unsigned char)s[i])) ++i; if (i - b != 4) return 0; auto num = [&](size_t p) { return (s[p] - '0') * 10 + (s[p + 1] - '0'); }; t.year = num(b) * 100 + num(b + 2); if (neg) t.year = -t.year;
        auto two = [&](char sep, int& v) { if (i + 3 > s.size() || s[i] != sep || !isdigit((unsigned char)s[i + 1]) || !isdigit((unsigned char)s[i + 2])) return false; v = num(i + 1); i += 3; return true; }; if (!two('-', t.mon) || !two('-', t.mday) || !two('T', t.hour) || !two(':', t.min) || !two(':', t.sec)) return 0; if (!refValid(t.year, t.mon, t.mday, t.hour, t.min, t.sec)) return 0; if (t.sec == 60) res = 2; if (i < s.size() && s[i] == '.') { size_t q = ++i; while (i < s.size() && isdigit((unsigned char)s[i])) ++i; if (q == i) return 0; }
        if (i == s.size()) return res; if (s[i] == 'Z' && i + 1 == s.size()) { t.isUTC = true; return res; } if (s[i] != '+' && s[i] != '-') return 0; bool on = s[i] == '-'; int h, m; if (!two(s[i], h) || !two(':', m) || i != s.size() || h > 23 || m > 59) return 0; t.offsetHours = on ? -h : h; t.offsetMinutes = m; if (on && h == 0 && m) res = 3; return res;
    }
    void dateTexts(mc::Ctx& c)
    {
        static const char* base[] = { "2024-02-29T23:59:58Z", "-0044-03-15T01:02:03.456-05:30", "0001-12-31T00:00:00+14:00", "2023-11-30T12:34:56", "1999-10-09T08:07:06.000000000000001Z", "2024-01-01T00:00:00-00:00" }; static const char subst[] = "0123456789-+:.TZ tz/,"; int b = c.choose(6, "text"), op = c.choose(5, "mutation"); string s = base[b];
        if (op == 1 || op == 2) { int p = c.choose((int)s.size() + (op == 2), "position"); char x = subst[c.choose((int)sizeof subst - 1, "character")]; if (op == 1) s[p] = x; else s.insert(s.begin() + p, x); } else if (op == 3) s.erase(c.choose((int)s.size(), "position"), 1); else if (op == 4) { int p = c.choose((int)s.size(), "position"), q = c.choose((int)s.size(), "position 2"); if (q <= p) throw mc::Prune(); s = s.substr(p, q - p); }
        c.say([&](std::ostream& o) { o << "text '" << s << "'"; }); c.step(2); XmlDateTime w, g, g2; int r = refDate(s, w); g.Clear(); g2.Clear(); bool ok = XmlDateTime::TryParse(s.c_str(), &g), ok2 = XmlDateTime::TryParse(widen(s).c_str(), &g2); MC_CHECK(ok == ok2 && (!ok || dtEqual(g, g2)), "wide and narrow text differ"); MC_CHECK(r != 0 || !ok, "an invalid text is accepted"); MC_CHECK(r != 1 || ok, "a valid text is refused"); if (ok && r != 3) MC_CHECK(dtEqual(w, g), mc::cat("a wrong time is reported: ", g.ToXmlString())); c.state(mc::hashStr(s)); c.outcome(r);
    }
    void dateLong(mc::Ctx& c)
    {
        int k = c.choose(5, "kind"), n = c.choose(3, "length"); static const int len[] = { 20, 5000, 400000 }; string z(len[n], k == 3 ? ' ' : '1'); string s = k == 0 ? z + "-01-01T00:00:00" : k == 1 ? "2024-01-01T00:00:00." + z + "Z" : k == 2 ? "-" + z : k == 3 ? z + "2024-01-01T00:00:00" + z : "2024-01-01T00:00:00+" + z; c.say([&](std::ostream& o) { o << "text of " << s.size() << " characters, kind " << k; }); c.step(2); XmlDateTime w, g; int r = refDate(s, w); g.Clear(); bool ok = XmlDateTime::TryParse(s.c_str(), &g); MC_CHECK((r != 0 || !ok) && (r != 1 || ok) && (!ok || dtEqual(w, g)), "wrong result");
        string xml = "<ImageDocument><Metadata><Information><Image><Dimensions><T><StartTime>" + s + "</StartTime></T></Dimensions></Image></Information></Metadata></ImageDocument>"; auto i = parse(xml)->GetDocumentInfo()->GetDimensionTInfo(); MC_CHECK(i && i->TryGetStartTime(&g) == ok, "the document information differs"); c.state(mc::mix(k, n)); c.outcome(r);
    }

    // ------------------------------------------------------------------ histories of the helper functions
    struct Pos { bool hasStart = false; XmlDateTime st; double pos = 0; int mode = 0; bool a = false, b = false; double start = 0, incr = 0; vector<double> list; };
    struct Docu
    {
        std::map<char, int> size; Pos t, z; std::map<string, wstring> gen; bool rated = false; int rating = 0; double sc[3] = { 0, 0, 0 }; bool hasSc[3] = { false, false, false }; wstring unit[3]; std::map<string, std::pair<string, string>> custom; bool disp = false; int dispCount = 0; std::map<int, ChannelDisplaySettingsPOD> pods; std::map<int, std::pair<wstring, wstring>> dispAttr; int channels = 0;
    };
    XmlDateTime dt(int y, bool utc) { XmlDateTime t; t.Clear(); t.year = y; t.mon = 3; t.mday = 4; t.hour = 5; t.min = 6; t.sec = 7; t.isUTC = utc; if (!utc) { t.offsetHours = -3; t.offsetMinutes = 30; } return t; }
    ChannelDisplaySettingsPOD podOf(int k) { ChannelDisplaySettingsPOD p; p.Clear(); switch (k) { case 0: p.isEnabled = true; p.weight = 0.25f; p.tintingMode = IDisplaySettings::TintingMode::Color; p.tintingColor = Rgb8Color{ 1, 0xab, 255 }; p.blackPoint = 0.1f; p.whitePoint = 0.7f; break; case 1: p.gradationCurveMode = IDisplaySettings::GradationCurveMode::Gamma; p.gamma = 2.2f; p.whitePoint = 0.3333333f; break; case 2: p.isEnabled = true; p.gradationCurveMode = IDisplaySettings::GradationCurveMode::Spline; p.splineCtrlPoints = { { 0.1, 0.2 }, { 1.0 / 3, 0.7 } }; break; case 3: p.weight = 0; p.tintingMode = IDisplaySettings::TintingMode::Color; p.tintingColor = Rgb8Color{ 0, 0, 0 }; break; } return p; }
    string fmt(const ChannelDisplaySettingsPOD& p) { char b[400]; snprintf(b, sizeof b, "enabled=%d weight=%.9g tint=%d", p.isEnabled, p.weight, (int)p.tintingMode); string s = b; if (p.tintingMode == IDisplaySettings::TintingMode::Color) { snprintf(b, sizeof b, "(%d,%d,%d)", p.tintingColor.r, p.tintingColor.g, p.tintingColor.b); s += b; } snprintf(b, sizeof b, " low=%.9g high=%.9g mode=%d", p.blackPoint, p.whitePoint, (int)p.gradationCurveMode); s += b; if (p.gradationCurveMode == IDisplaySettings::GradationCurveMode::Gamma) { snprintf(b, sizeof b, " gamma=%.9g", p.gamma); s += b; } if (p.gradationCurveMode == IDisplaySettings::GradationCurveMode::Spline) for (auto& q : p.splineCtrlPoints) { snprintf(b, sizeof b, " (%.17g,%.17g)", q.x, q.y); s += b; } return s; }
    const int nHelperOps = 38;
    string helper(ICziMetadataBuilder* b, Docu& d, int op)
    {
        auto disp = [&](vector<std::pair<int, int>> chs, int count, int way) {
            DisplaySettingsPOD pod; for (auto& c : chs) pod.channelDisplaySettings[c.first] = podOf(c.second); auto s = DisplaySettingsPOD::CreateIDisplaySettingSp(pod); std::map<int, PixelType> pts{ { 0, PixelType::Gray16 }, { 1, PixelType::Bgr24 } };
            if (way == 0) MetadataUtils::WriteDisplaySettings(b, s.get()); else if (way == 1) MetadataUtils::WriteDisplaySettings(b, s.get(), count, &pts); else MetadataUtils::WriteDisplaySettings(b, s.get(), count, [&](int ch, MetadataUtils::CoerceAdditionalInfoForChannelDisplaySettings& i) { if (ch == 1) { i.writeNameAttribute = true; i.nameAttribute = L"my name"; i.writeIdAttribute = false; } });
            if (way == 0) { count = 0; for (auto& c : chs) count = std::max(count, c.first + 1); if (chs.empty()) count = 1; }
            d.disp = true; d.dispCount = count; d.pods.clear(); d.dispAttr.clear(); for (auto& c : chs) if (c.first < count) { d.pods[c.first] = podOf(c.second); std::pair<wstring, wstring> at; if (c.first < d.channels) at = { widen(mc::cat("Id <", c.first, ">")), c.first == 0 ? L"N \"0\"" : L"" }; if (way == 2 && c.first == 1) at = { L"", L"my name" }; d.dispAttr[c.first] = at; }
        };
        auto cust = [&](const char* k, const CustomValueVariant& v, const char* ty, const string& s) { MetadataUtils::SetOrAddCustomKeyValuePair(b, k, v); d.custom[k] = { ty, s }; };
        auto lst = [](vector<double> v) { return [v](int i) { return i < (int)v.size() ? v[i] : i % 2 ? std::nan("") : (double)INFINITY; }; };
        auto setList = [](Pos& p, vector<double> v) { p.mode = 2; p.list = v; p.a = p.b = false; }; auto setInt = [](Pos& p, bool a, double s, bool c, double i) { if (p.mode != 1) { p.start = p.incr = 0; } if (a || c) { p.mode = 1; p.list.clear(); } if (a) p.start = s; if (c) p.incr = i; };
        XmlDateTime t1 = dt(2024, true), t2 = dt(-44, false); const double nan = std::nan("");
        switch (op)
        {
        case 0: MetadataUtils::WriteImageSizeInformation(b, 100, 200); d.size['X'] = 100; d.size['Y'] = 200; return "image size 100x200";
        case 1: MetadataUtils::WriteImageSizeInformation(b, INT_MAX, 1); d.size['X'] = INT_MAX; d.size['Y'] = 1; return "image size MAXx1";
        case 2: MetadataUtils::WriteMIndexSizeInformation(b, 12345); d.size['M'] = 12345; return "M size";
        case 3: MetadataUtils::WriteDimensionSize(b, DimensionIndex::Z, 17); d.size['Z'] = 17; return "Z size 17";
        case 4: MetadataUtils::WriteDimensionSize(b, DimensionIndex::C, 1234567); d.size['C'] = 1234567; return "C size";
        case 5: MetadataUtils::WriteDimensionSize(b, DimensionIndex::B, 0); d.size['B'] = 0; return "B size 0";
        case 6: MetadataUtils::WriteDimInfoT_Interval(b, &t1, 0.1, 1e-7); d.t.hasStart = true; d.t.st = t1; setInt(d.t, true, 0.1, true, 1e-7); return "T interval with start";
        case 7: MetadataUtils::WriteDimInfoT_Interval(b, nullptr, 5, nan); setInt(d.t, true, 5, false, 0); return "T interval offset only";
        case 8: MetadataUtils::WriteDimInfoT_Interval(b, &t2, -INFINITY, 123456789.125); d.t.hasStart = true; d.t.st = t2; setInt(d.t, false, 0, true, 123456789.125); return "T interval increment and start";
        case 9: MetadataUtils::WriteDimInfoT_List(b, nullptr, lst({ 0, 1.0 / 3, -2.5e10 })); setList(d.t, { 0, 1.0 / 3, -2.5e10 }); return "T list";
        case 10: MetadataUtils::WriteDimInfoT_List(b, &t2, lst({ 7 })); d.t.hasStart = true; d.t.st = t2; setList(d.t, { 7 }); return "T list of one with start";
        case 11: MetadataUtils::WriteDimInfoT_List(b, &t1, nullptr); d.t.hasStart = true; d.t.st = t1; return "T start only";
        case 12: MetadataUtils::WriteDimInfoZ_Interval(b, 1.1, 2.2, -3.3); d.z.hasStart = true; d.z.pos = 1.1; setInt(d.z, true, 2.2, true, -3.3); return "Z interval";
        case 13: MetadataUtils::WriteDimInfoZ_Interval(b, nan, nan, 4); setInt(d.z, false, 0, true, 4); return "Z interval increment only";
        case 14: MetadataUtils::WriteDimInfoZ_List(b, 9.75, lst({ 3, 2, 1 })); d.z.hasStart = true; d.z.pos = 9.75; setList(d.z, { 3, 2, 1 }); return "Z list with start";
        case 15: MetadataUtils::WriteDimInfoZ_List(b, nan, lst({ 0.1, 0.2 })); setList(d.z, { 0.1, 0.2 }); return "Z list";
        case 16: MetadataUtils::WriteDimInfoZ_List(b, -1e-12, nullptr); d.z.hasStart = true; d.z.pos = -1e-12; return "Z start only";
        case 17: { GeneralDocumentInfo g; g.name = L"n"; g.name_valid = true; g.title = L" t\r\n"; g.title_valid = true; g.comment = L"ignored"; g.rating = 5; g.rating_valid = true; MetadataUtils::WriteGeneralDocumentInfo(b, g); d.gen["Name"] = L"n"; d.gen["Title"] = L" t\r\n"; d.rated = true; d.rating = 5; return "general info 1"; }
        case 18: { GeneralDocumentInfo g; g.userName = L"\u4e2d"; g.userName_valid = true; g.description = L"<&>]]>"; g.description_valid = true; g.keywords = L"a;b"; g.keywords_valid = true; g.comment = L""; g.comment_valid = true; MetadataUtils::WriteGeneralDocumentInfo(b, g); d.gen["UserName"] = g.userName; d.gen["Description"] = g.description; d.gen["Keywords"] = g.keywords; d.gen["Comment"] = L""; return "general info 2"; }
        case 19: { GeneralDocumentInfo g; g.title = L""; g.title_valid = true; g.SetCreationDate(&t1); g.rating = -1000000; g.rating_valid = true; MetadataUtils::WriteGeneralDocumentInfo(b, g); d.gen["Title"] = L""; d.gen["CreationDate"] = t1.ToXmlWstring(); d.rated = true; d.rating = -1000000; return "general info 3"; }
        case 20: { ScalingInfo s; s.scaleX = 1e-7; s.scaleY = 0.1; MetadataUtils::WriteScalingInfo(b, s); d.hasSc[0] = d.hasSc[1] = true; d.sc[0] = 1e-7; d.sc[1] = 0.1; return "scaling X Y"; }
        case 21: { ScalingInfo s; s.scaleZ = 1.0 / 3; MetadataUtils::WriteScalingInfo(b, s); d.hasSc[2] = true; d.sc[2] = 1.0 / 3; return "scaling Z"; }
        case 22: { ScalingInfoEx s; s.scaleX = 5; s.defaultUnitFormatX = L"\u00b5m"; s.defaultUnitFormatZ = L"nm"; MetadataUtils::WriteScalingInfoEx(b, s); d.hasSc[0] = true; d.sc[0] = 5; d.unit[0] = L"\u00b5m"; d.unit[2] = L"nm"; return "scaling ex"; }
        case 23: { ScalingInfoEx s; s.scaleY = 6; s.defaultUnitFormatX = L" "; MetadataUtils::WriteScalingInfoEx(b, s); d.hasSc[1] = true; d.sc[1] = 6; d.unit[0] = L" "; return "scaling ex 2"; }
        case 24: cust("k", CustomValueVariant(string("true")), "String", "true"); return "custom k string";
        case 25: cust("k", CustomValueVariant(true), "Boolean", "true"); return "custom k bool";
        case 26: cust("k", CustomValueVariant((int32_t)-1234567), "Int32", "-1234567"); return "custom k int";
        case 27: cust("k2", CustomValueVariant(0.1), "Double", "0.1"); return "custom k2 double";
        case 28: cust("k2", CustomValueVariant(0.5f), "Float", "0.5"); return "custom k2 float";
        case 29: cust("k2", CustomValueVariant(string("a<b \t")), "String", "a<b \t"); return "custom k2 string";
        case 30: disp({ { 0, 0 } }, 1, 0); return "display 1";
        case 31: disp({ { 0, 1 }, { 1, 2 } }, 2, 1); return "display 2";
        case 32: disp({ { 1, 0 }, { 2, 3 } }, 3, 2); return "display 3";
        case 33: disp({ { 0, 2 }, { 3, 1 } }, 0, 0); return "display with gap";
        case 34: disp({ { 0, 3 }, { 1, 1 } }, 1, 1); return "display with smaller count";
        case 35: disp({}, 0, 0); return "display empty";
        case 36: { SubBlockStatistics s; s.Invalidate(); s.subBlockCount = 3; s.boundingBox = IntRect{ -5, 7, 1000, 2000 }; s.boundingBoxLayer0Only = IntRect{ 0, 0, 1, 1 }; s.minMindex = 3; s.maxMindex = 1002; s.dimBounds.Set(DimensionIndex::Z, -4, 6); s.dimBounds.Set(DimensionIndex::T, 3, 2); MetadataUtils::WriteFillWithSubBlockStatistics(b, s); d.size['X'] = 1000; d.size['Y'] = 2000; d.size['M'] = 1000; d.size['Z'] = 6; d.size['T'] = 2; return "statistics"; }
        default: { SubBlockStatistics s; s.Invalidate(); s.subBlockCount = 1; s.boundingBox = IntRect{ 1, 2, 3, 4 }; s.boundingBoxLayer0Only = s.boundingBox; s.dimBounds.Set(DimensionIndex::C, 0, 1); MetadataUtils::WriteFillWithSubBlockStatistics(b, s); d.size['X'] = 3; d.size['Y'] = 4; d.size['C'] = 1; return "statistics without M"; }
        }
    }
    void checkDocu(const Docu& d, ICziMetadata* md)
    {
        auto di = md->GetDocumentInfo(); MC_CHECK(di, "no document information");
        for (char k : string("XYMZCTRSIHVB")) { auto n = at(md, (string("Metadata/Information/Image/Size") + k).c_str()); auto i = d.size.find(k); MC_CHECK((bool)n == (i != d.size.end()), mc::cat("size of ", k, n ? " appears" : " is lost")); if (n) { int v = 0; MC_CHECK(n->TryGetValueAsInt32(&v) && v == i->second, mc::cat("size of ", k, " is ", v, " instead of ", i->second)); } }
        std::set<DimensionIndex> dims; di->EnumDimensions([&](DimensionIndex x) { MC_CHECK(dims.insert(x).second, "a dimension is enumerated twice"); return true; }); for (char k : string("ZCTRSIHVB")) { auto x = Utils::CharToDimension(k); auto i = d.size.find(k); bool has = i != d.size.end(); auto q = di->GetDimensionInfo(x); MC_CHECK((dims.count(x) != 0) == has && (bool)q == has, mc::cat("dimension ", k)); if (has) { int s = 7, e = 7; bool se = true, ee = false; q->GetInterval(&s, &e); q->GetIntervalIsExplicitlyStated(&se, &ee); MC_CHECK(s == 0 && e == i->second && !se && ee, mc::cat("dimension ", k, ": interval ", s, "..", e)); } }
        for (int w = 0; w < 2; ++w)
        {
            const Pos& p = w ? d.z : d.t; string nm = w ? "Z" : "T"; auto ti = di->GetDimensionTInfo(); auto zi = di->GetDimensionZInfo(); bool any = w ? (bool)zi : (bool)ti; if (!any) { MC_CHECK(!p.hasStart && !p.mode, nm + " information is lost"); continue; }
            double a = -7, i = -7; vector<double> l; bool hs, hi, hl; XmlDateTime x; x.Clear(); double pos = -7; if (w) { hs = zi->TryGetReferencePosition(&pos); hi = zi->TryGetIntervalDefinition(&a, &i); hl = zi->TryGetPositionList(&l); } else { hs = ti->TryGetStartTime(&x); hi = ti->TryGetIntervalDefinition(&a, &i); hl = ti->TryGetOffsetsList(&l); }
            MC_CHECK(hs == p.hasStart, mc::cat(nm, " start ", hs ? "appears" : "is lost")); if (hs) MC_CHECK(w ? same(pos, p.pos) : dtEqual(x, p.st), nm + " start differs"); MC_CHECK(hi == (p.mode == 1) && hl == (p.mode == 2), mc::cat(nm, " positions: interval ", hi, " list ", hl, " expected kind ", p.mode)); if (hi) MC_CHECK(same(a, p.start) && same(i, p.incr), mc::cat(nm, " interval is ", a, ",", i, " instead of ", p.start, ",", p.incr)); if (hl) { MC_CHECK(l.size() == p.list.size(), nm + " list has another size"); for (size_t k = 0; k < l.size(); ++k) MC_CHECK(same(l[k], p.list[k]), nm + " list differs"); }
        }
        auto g = di->GetGeneralDocumentInfo(); auto gi = [&](const char* n, bool ok, const wstring& v) { auto i = d.gen.find(n); MC_CHECK(ok == (i != d.gen.end()), mc::cat(n, ok ? " appears" : " is lost")); if (ok) MC_CHECK(v == i->second, mc::cat(n, " is ", show(v), " instead of ", show(i->second))); }; gi("Name", g.name_valid, g.name); gi("Title", g.title_valid, g.title); gi("UserName", g.userName_valid, g.userName); gi("Description", g.description_valid, g.description); gi("Comment", g.comment_valid, g.comment); gi("Keywords", g.keywords_valid, g.keywords); gi("CreationDate", g.creationDateTime_valid, g.creationDateTime); MC_CHECK(g.rating_valid == d.rated && (!d.rated || g.rating == d.rating), "rating differs");
        auto s = di->GetScalingInfo(); auto sx = di->GetScalingInfoEx(); const double v[] = { s.scaleX, s.scaleY, s.scaleZ }, v2[] = { sx.scaleX, sx.scaleY, sx.scaleZ }; const wstring u[] = { sx.defaultUnitFormatX, sx.defaultUnitFormatY, sx.defaultUnitFormatZ }; for (int k = 0; k < 3; ++k) { MC_CHECK(same(v[k], v2[k]) && (d.hasSc[k] ? same(v[k], d.sc[k]) : std::isnan(v[k])), mc::cat("scaling ", k, " is ", v[k])); MC_CHECK(u[k] == d.unit[k], mc::cat("unit ", k, " is ", show(u[k]))); MC_CHECK(s.IsScaleValid("XYZ"[k]) == d.hasSc[k], "IsScaleValid"); }
        auto kv = at(md, "Metadata/Information/CustomAttributes/KeyValue"); int cnt = 0; if (kv) kv->EnumChildren([&](std::shared_ptr<IXmlNodeRead> n) { ++cnt; auto i = d.custom.find(u8(n->Name())); MC_CHECK(i != d.custom.end(), "another custom value appears"); wstring ty, tx; MC_CHECK(n->TryGetAttribute(L"Type", &ty) && u8(ty) == i->second.first, mc::cat("custom value: type ", show(ty), " instead of ", i->second.first)); MC_CHECK(n->TryGetValue(&tx), "custom value without a text"); if (i->second.first == "Double") { double q; MC_CHECK(n->TryGetValueAsDouble(&q) && q == 0.1, "custom double"); } else if (i->second.first == "Float") { float q; MC_CHECK(n->TryGetValueAsFloat(&q) && q == 0.5f, "custom float"); } else if (i->second.first == "Boolean") { bool q = false; MC_CHECK(n->TryGetValueAsBool(&q) && q, "custom bool"); } else MC_CHECK(u8(tx) == i->second.second, mc::cat("custom value is ", show(tx))); return true; }); MC_CHECK(cnt == (int)d.custom.size(), mc::cat(cnt, " custom values instead of ", d.custom.size()));
        auto ds = di->GetDisplaySettings(); MC_CHECK((bool)ds == d.disp, ds ? "display settings appear" : "display settings are lost");
        if (ds)
        {
            int mx = -1; ds->EnumChannels([&](int c) { mx = std::max(mx, c); return true; }); MC_CHECK(mx < std::max(d.dispCount, 1), mc::cat("display settings for channel ", mx, " appear")); for (auto& e : d.pods) { auto q = ds->GetChannelDisplaySettings(e.first); MC_CHECK(q, mc::cat("display settings of channel ", e.first, " are lost")); ChannelDisplaySettingsPOD p; p.Clear(); IChannelDisplaySetting::Clone(q.get(), p); MC_CHECK(fmt(p) == fmt(e.second), mc::cat("display settings of channel ", e.first, ": ", fmt(p), " instead of ", fmt(e.second))); auto n = at(md, mc::cat("Metadata/DisplaySetting/Channels/Channel[", e.first, "]").c_str()); MC_CHECK(n, "no node"); wstring id, name; n->TryGetAttribute(L"Id", &id); n->TryGetAttribute(L"Name", &name); auto& w = d.dispAttr.at(e.first); MC_CHECK(id == w.first && name == w.second, mc::cat("display channel ", e.first, " has Id ", show(id), " Name ", show(name), " instead of ", show(w.first), " ", show(w.second))); }
        }
        auto ci = di->GetDimensionChannelsInfo(); MC_CHECK((ci ? ci->GetChannelCount() : 0) == d.channels, "number of channels differs");
    }
    const char* foreignXml = "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<!-- top -->\n<ImageDocument>\n  <Metadata><!-- c -->\n    <Information><Image><SizeX><![CDATA[3]]></SizeX><SizeY>\n 4 \n</SizeY></Image>\n      <Document><Title><![CDATA[from <elsewhere>]]></Title><Name><!-- none -->name</Name></Document>\n      <Dimensions><T><StartTime><![CDATA[2024-03-04T05:06:07Z]]></StartTime><Positions><Interval><Start><!-- x -->1</Start><Increment><![CDATA[2]]></Increment></Interval></Positions></T></Dimensions></Information>\n    <Scaling><Items><Distance Id=\"X\"><Value><![CDATA[0.5]]></Value></Distance><!-- y --><Distance Id=\"Y\"><Value><!-- --></Value><Value>7</Value></Distance></Items></Scaling>\n    <DisplaySetting><Channels><!-- --><Channel/><Channel><Low>0.5</Low></Channel></Channels></DisplaySetting>\n  </Metadata>\n</ImageDocument>\n";
    void foreignModel(Docu& d) { d.size = { { 'X', 3 }, { 'Y', 4 } }; d.gen = { { "Title", L"from <elsewhere>" }, { "Name", L"name" } }; d.t.hasStart = true; d.t.st = dt(2024, true); d.t.mode = 1; d.t.start = 1; d.t.incr = 2; d.hasSc[0] = d.hasSc[1] = true; d.sc[0] = 0.5; d.sc[1] = 0; d.disp = true; d.dispCount = 2; }
    void helperHistories(mc::Ctx& c)
    {
        int init = c.choose(4, "start"), n = init == 0 || c.thorough() ? 3 : 2; std::shared_ptr<ICziMetadataBuilder> b; Docu d; vector<string> h; c.say([&](std::ostream& s) { s << "start " << init << ": "; for (auto& x : h) s << x << "; "; if (b) s << "\n" << b->GetXml(true); });
        if (init == 1) { b = CreateMetadataBuilderFromXml(foreignXml); foreignModel(d); } else if (init == 3) { channelDoc(c, [](int ch) { return std::make_tuple(mc::cat("Id <", ch, ">"), std::make_tuple(ch == 0, string("N \"0\""))); }, 0, { PixelType::Gray8, PixelType::Gray16 }, false, b); d.size = { { 'X', 5 }, { 'Y', 2 }, { 'C', 2 } }; d.channels = 2; } else b = CreateMetadataBuilder();
        for (int i = 0; i < n; ++i) { h.push_back("?"); h.back() = helper(b.get(), d, c.choose(nHelperOps, "call")); c.step(); if (init == 2) b = CreateMetadataBuilderFromXml(b->GetXml(i % 2)); }
        if (init == 1 && d.sc[1] == 0) d.hasSc[1] = false; auto md = readBack(b.get(), c.choose(n == 3 ? 2 : 5, "via")); if (init == 1 && !d.hasSc[1]) { auto s = md->GetDocumentInfo()->GetScalingInfo(); MC_CHECK(!(s.scaleY > 0 && s.scaleY != 7), "scaling Y"); if (!std::isnan(s.scaleY)) { d.hasSc[1] = true; d.sc[1] = s.scaleY; if (!s.IsScaleValid('Y')) throw mc::Prune(); } }
        checkDocu(d, md.get()); c.state(mc::hashStr(b->GetXml())); c.outcome(init);
    }

    // ------------------------------------------------------------------ metadata as prepared by the writer
    void prepared(mc::Ctx& c)
    {
        static const PixelType pts[] = { PixelType::Invalid, PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48, PixelType::Gray32Float, PixelType::Bgra32, PixelType::Bgr96Float, PixelType::Gray64ComplexFloat, PixelType::Bgr192ComplexFloat }; static const wchar_t* nm[] = { L"", L"Gray8", L"Gray16", L"Bgr24", L"Bgr48", L"Gray32Float", L"Bgra32", L"Bgr96Float", L"Gray64ComplexFloat", L"Bgr192ComplexFloat" }; int n = c.choose(3, "channels"), gen = c.choose(4, "ids"), first = c.choose(2, "first") * 2, noC = 0; vector<PixelType> v; vector<int> k; if (n == 0) { noC = 1; k = { 1 + c.choose(9, "pixel type") }; v = { pts[k[0]] }; if (first) throw mc::Prune(); } else for (int i = 0; i < n + 1; ++i) { k.push_back(c.choose(n < 2 || c.thorough() ? 10 : 6, "pixel type")); v.push_back(pts[k.back()]); } int cnt = 0; for (auto x : k) cnt += x != 0; if (!cnt) throw mc::Prune();
        c.say([&](std::ostream& s) { s << "channels from " << first << (noC ? " (no C dimension)" : "") << " pixel types"; for (auto x : k) s << " " << x; s << " ids " << gen; });
        std::function<std::tuple<string, std::tuple<bool, string>>(int)> f; if (gen == 1) f = [](int ch) { return std::make_tuple(mc::cat("a/b[", ch, "]"), std::make_tuple(true, string("same, name='x'"))); }; else if (gen == 2) f = [](int ch) { return std::make_tuple(mc::cat(9 - ch), std::make_tuple(ch % 2 == 0, mc::cat(ch))); }; else if (gen == 3) f = [](int ch) { return std::make_tuple(mc::cat("\xc3\xa9;", ch), std::make_tuple(true, string())); };
        std::shared_ptr<ICziMetadataBuilder> b; channelDoc(c, f, first, v, noC, b); c.step(); auto md = readBack(b.get(), c.choose(nVia, "via")); auto di = md->GetDocumentInfo(); int lo = -1, hi = -1; for (size_t i = 0; i < k.size(); ++i) if (k[i]) { if (lo < 0) lo = (int)i; hi = (int)i; } int size = noC ? 0 : hi - lo + 1;
        auto num = [&](const char* p) { int x = -1; auto q = at(md.get(), p); if (q) q->TryGetValueAsInt32(&x); return x; }; MC_CHECK(num("Metadata/Information/Image/SizeX") == 5 && num("Metadata/Information/Image/SizeY") == 2, "image size"); auto dc = di->GetDimensionInfo(DimensionIndex::C); MC_CHECK((bool)dc == (size > 0), "C dimension"); if (dc) { int s, e; dc->GetInterval(&s, &e); MC_CHECK(e - s == size, mc::cat("size of C is ", e - s, " instead of ", size)); }
        if (!noC)
        {
            auto ci = di->GetDimensionChannelsInfo(); MC_CHECK(ci && ci->GetChannelCount() == size, mc::cat("there are ", ci ? ci->GetChannelCount() : 0, " channels instead of ", size)); std::set<wstring> ids;
            for (int i = 0; i < size; ++i) { auto x = ci->GetChannel(i); wstring id, name; bool hi2 = x->TryGetAttributeId(&id), hn = x->TryGetAttributeName(&name); MC_CHECK(hi2 && ids.insert(id).second, "a channel has no own id"); if (f) { auto w = f(first + lo + i); auto w0 = f(i); bool m1 = u8(id) == std::get<0>(w), m0 = u8(id) == std::get<0>(w0); MC_CHECK(m1 || m0, mc::cat("channel ", i, " has the id ", show(id))); auto& q = m1 ? w : w0; bool wn = std::get<0>(std::get<1>(q)); MC_CHECK(hn == wn && (!hn || u8(name) == std::get<1>(std::get<1>(q))), mc::cat("channel ", i, " has the name ", show(name))); } PixelType p; bool hp = x->TryGetPixelType(&p); MC_CHECK(hp == (k[lo + i] != 0) && (!hp || p == v[lo + i]), mc::cat("channel ", i, ": wrong pixel type")); }
        }
        bool all = true; for (auto x : k) all = all && (x == 0 || x == k[lo]); auto pn = at(md.get(), "Metadata/Information/Image/PixelType"); if (all) { wstring t; MC_CHECK(pn && pn->TryGetValue(&t) && t == nm[k[lo]], mc::cat("pixel type of the image is ", show(t))); } else if (pn) { wstring t; pn->TryGetValue(&t); bool ok = false; for (auto x : k) ok = ok || t == nm[x]; MC_CHECK(ok, "pixel type of the image"); }
        c.state(mc::hashStr(b->GetXml())); c.outcome(n * 10 + cnt);
    }

    // ------------------------------------------------------------------ fields of the channel information
    typedef std::map<string, string> Fields;
    string num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
    template <class T> string out(const T& v); template <> string out(const wstring& v) { return "'" + u8(v) + "'"; } template <> string out(const double& v) { return num(v); } template <> string out(const int& v) { return num(v); } template <> string out(const uint32_t& v) { return num(v); } template <> string out(const bool& v) { return v ? "true" : "false"; }
    template <class T> string outE(T v) { return mc::cat("#", (int)v); }
    template <> string out(const SpectrumCharacteristics& v) { if (v.type == SpectrumCharacteristics::InformationType::SinglePeak) return "peak " + num(v.singlePeak); string s = "ranges"; for (auto& r : v.ranges) s += r.singleValue ? " " + num(r.startOrSingleValue) : " " + (r.startOrSingleValue < 1e-300 ? string() : num(r.startOrSingleValue)) + ".." + (r.end > 1e300 ? string() : num(r.end)); return s; }
    template <> string out(const RangeOrSingleValue<uint64_t>& r) { return r.singleValue ? mc::cat(r.startOrSingleValue) : mc::cat(r.startOrSingleValue, "..", r.end); }
    template <> string out(const Rgb8Color& c) { return mc::cat((int)c.r, ",", (int)c.g, ",", (int)c.b); }
    template <> string out(const IDimensionChannelLightSourcesSetting::Polarization& p) { string s = "p"; for (int i = 0; i < 4; ++i) s += p.stokesParameterValid[i] ? " " + num(p.stokesParameter[i]) : string(" -"); return s; }
    template <> string out(const IFastAiryScanSettings::Vector& v) { return num(v.x) + "/" + num(v.y); }
    template <> string out(const vector<int>& v) { string s = "v"; for (int x : v) s += mc::cat(" ", x); return s; } template <> string out(const vector<wstring>& v) { string s = "v"; for (auto& x : v) s += " '" + u8(x) + "'"; return s; }
#define GET(T, F, KEY) { T v{}; if (o->TryGet##F(&v)) f[p + KEY] = out(v); MC_CHECK(o->TryGet##F(nullptr) == (f.count(p + KEY) != 0), "a null pointer gives another result"); }
#define GETE(T, F, KEY) { T v{}; if (o->TryGet##F(&v)) f[p + KEY] = outE(v); }
    Fields fieldsOf(IDimensionChannelInfo* info)
    {
        Fields f; string p;
        { auto o = info; { wstring v; if (o->TryGetAttributeId(&v)) f["@Id"] = out(v); if (o->TryGetAttributeName(&v)) f["@Name"] = out(v); } GETE(DimensionChannelChannelType, ChannelType, "ChannelType") GET(wstring, ChannelUnit, "ChannelUnit") GETE(PixelType, PixelType, "PixelType") GET(int, ComponentBitCount, "ComponentBitCount") GETE(DimensionChannelAcquisitionMode, AcquisitionMode, "AcquisitionMode") GETE(DimensionChannelIlluminationType, IlluminationType, "IlluminationType") GETE(DimensionChannelContrastMethod, ContrastMethod, "ContrastMethod") GET(SpectrumCharacteristics, IlluminationWavelength, "IlluminationWavelength") GET(SpectrumCharacteristics, DetectionWavelength, "DetectionWavelength") GET(double, ExcitationWavelength, "ExcitationWavelength") GET(double, EmissionWavelength, "EmissionWavelength") GET(double, EffectiveNA, "EffectiveNA") GET(wstring, DyeId, "DyeId") GET(wstring, DyeDatabaseId, "DyeDatabaseId") GET(double, PinholeSize, "PinholeSize") GET(double, PinholeSizeAiry, "PinholeSizeAiry") GETE(DimensionChannelPinholeGeometry, PinholeGeometry, "PinholeGeometry") GET(wstring, Fluor, "Fluor") GET(double, NDFilter, "NDFilter") GET(int, PocketCellSetting, "PockelCellSetting") GET(Rgb8Color, Color, "Color") GET(RangeOrSingleValue<uint64_t>, ExposureTime, "ExposureTime") GET(double, DepthOfFocus, "DepthOfFocus") GET(double, SectionThickness, "SectionThickness") GET(wstring, Reflector, "Reflector") GET(wstring, CondenserContrast, "CondenserContrast") GET(double, NACondenser, "NACondenser") }
        if (auto o = info->GetDetectorSettings()) { p = "DetectorSettings/"; f[p] = "."; GET(wstring, DetectorRef, "Detector@Id") GETE(ChannelDetectorSettingsBinning, Binning, "Binning") GETE(ChannelDetectorSettingsShutter, Shutter, "Shutter") GET(double, PhotonConversionFactor, "PhotonConversionFactor") GET(double, Gain, "Gain") GET(double, DigitalGain, "DigitalGain") GET(double, Offset, "Offset") GET(double, EMGain, "EMGain") GET(double, Voltage, "Voltage") GET(double, ReadOutRate, "ReadOutRate") GET(bool, UseBrightnessContrastCorrection, "UseBrightnessContrastCorrection") GET(double, PixelMaximum, "PixelMaximum") GET(double, PixelAccuracy, "PixelAccuracy") GET(double, PixelScaleFactor, "PixelScaleFactor") GETE(ChannelDetectorCameraProcessingMode, CameraProcessingMode, "CameraProcessingMode") }
        if (auto l = info->GetLightSourcesSettings()) for (int i = 0; i < l->GetLightSourceSettingCount(); ++i) { auto o = l->GetLightSourceSetting(i); p = mc::cat("LightSourcesSettings/LightSourceSettings", i ? mc::cat("#", i) : string(), "/"); f[p] = "."; GET(wstring, LightSourceRef, "LightSource@Id") GET(double, Wavelength, "Wavelength") GET(double, Attenuation, "Attenuation") GET(double, Transmission, "Transmission") GET(wstring, Intensity, "Intensity") GET(double, FlashDuration, "FlashDuration") GET(double, TIRFAngle, "TIRFAngle") GET(double, TIRFDepthOfPenetration, "TIRFDepthOfPenetration") GET(bool, IsTIRFCalibrated, "IsTIRFCalibrated") GET(bool, IsNlo, "IsNlo") GET(IDimensionChannelLightSourcesSetting::Polarization, Polarization, "Polarization") }
        if (auto o = info->GetLightPath()) { p = "LightPath/"; f[p] = "."; GET(wstring, ExcitationFilterRef, "ExcitationFilter@Id") GET(wstring, DichroicFilterRef, "Dichroic@Id") GET(wstring, EmissionFilterRef, "EmissionFilter@Id") }
        if (auto o = info->GetLaserScanInfo()) { p = "LaserScanInfo/"; f[p] = "."; GET(double, PixelTime, "PixelTime") GET(double, LineTime, "LineTime") GET(double, FrameTime, "FrameTime") GET(int, Averaging, "Averaging") GETE(DimensionChannelLaserScanScanningMode, ScanningMode, "ScanningMode") GET(double, SampleRotation, "SampleRotation") GET(double, SampleOffsetX, "SampleOffsetX") GET(double, SampleOffsetY, "SampleOffsetY") GETE(DimensionChannelLaserScanScanDirection, ScanDirection, "ScanDirection") GET(double, ZoomX, "ZoomX") GET(double, ZoomY, "ZoomY") GET(double, ZoomZ, "ZoomZ") GET(double, CropOffset, "CropOffset") GET(double, LaserAttenuatorMeas, "LaserAttenuatorMeas") GET(double, LaserBlanking, "LaserBlanking") GET(double, LaserAttenuatorBleach, "LaserAttenuatorBleach") GET(uint32_t, LineStep, "LineStep") GET(int, ScanSpeed, "ScanSpeed") GETE(DimensionChannelLaserScanAveragingMethod, AveragingMethod, "AveragingMethod") GETE(DimensionChannelLaserScanAveragingMode, AveragingMode, "AveragingMode") GETE(DimensionChannelLaserScanLaserAttenuatorState, LaserAttenuatorState, "LaserAttenuatorState") }
        if (auto s = info->GetSPIMIlluminationSettings()) { { auto o = s; p = "SPIMIlluminationSettings/"; f[p] = "."; GET(double, NALightSheet, "NALightSheet") GETE(DimensionChannelSPIMIlluminationSettingsBeamType, BeamType, "BeamType") GET(wstring, CylinderLensRef, "CylinderLensRef@Id") } if (auto o = s->GetIlluminationObjectiveSettings()) { p = "SPIMIlluminationSettings/IlluminationObjectiveSettings/"; f[p] = "."; GET(wstring, ObjectiveRef, "ObjectiveRef@Id") GETE(IInstrumentObjectiveSettings::Medium, Medium, "Medium") GET(double, CorrectionCollar, "CorrectionCollar") GET(double, CorrectionCollar2, "CorrectionCollar2") GET(wstring, CorrectionControllerMode, "CorrectionControllerMode") GET(double, CorrectionControllerBottomThickness, "CorrectionControllerBottomThickness") GET(double, CorrectionControllerImagingDepth, "CorrectionControllerImagingDepth") GET(double, RefractiveIndex, "RefractiveIndex") } if (auto o = s->GetResonanceScannerSettings()) { p = "SPIMIlluminationSettings/ResonanceScannerSettings/"; f[p] = "."; GET(double, Amplitude, "Amplitude") } if (auto o = s->GetGalvoScannerSettings()) { p = "SPIMIlluminationSettings/GalvoScannerSettings/"; f[p] = "."; GET(double, AmplitudeYScan, "AmplitudeYScan") GET(double, Frequency, "Frequency") GET(double, Offset1Left, "Offset1Left") GET(double, Offset1Right, "Offset1Right") GET(double, Offset2Left, "Offset2Left") GET(double, Offset2Right, "Offset2Right") } }
        if (auto o = info->GetSPIMDetectionSettings()) { p = "SPIMDetectionSettings/"; f[p] = "."; GET(double, NADetection, "NADetection") }
        if (auto o = info->GetSIMSettings()) { p = "SIMSettings/"; f[p] = "."; GET(wstring, SIMDeviceRef, "SIMDeviceRef@Id") GET(double, GratingPeriod, "GratingPeriod") GET(double, GratingRotation, "GratingRotation") GET(wstring, GridDescription, "GridDescription") GET(wstring, Reflector, "Reflector") GET(wstring, FilterSetRef, "FilterSetRef@Id") GET(double, DiffractionEfficiency1, "DiffractionEfficiency1") GET(double, DiffractionEfficiency2, "DiffractionEfficiency2") GET(double, DiffractionEfficiency3, "DiffractionEfficiency3") }
        if (auto o = info->GetPolarizingSettings()) { p = "PolarizingSettings/"; f[p] = "."; GET(double, PolarizerAngle, "PolarizerAngle") GET(double, AnalyzerAngle, "AnalyzerAngle") }
        if (auto s = info->GetAiryscanSettings()) { { auto o = s; p = "AiryscanSettings/"; f[p] = "."; GETE(IDimensionChannelAiryscanSettings::Mode, Mode, "Mode") GET(double, VirtualPinholeSize, "VirtualPinholeSize") GET(double, Magnification, "Magnification") GET(double, TransformationXX, "TransformationXX") GET(double, TransformationXY, "TransformationXY") GET(double, TransformationYX, "TransformationYX") GET(double, TransformationYY, "TransformationYY") } if (auto o = s->GetFastAiryScanSettings()) { p = "AiryscanSettings/FastAiryScanSettings/"; f[p] = "."; GET(IFastAiryScanSettings::Vector, IlluminationLinePixels, "IlluminationLinePixels") GET(IFastAiryScanSettings::Vector, IlluminationLine, "IlluminationLine") GET(vector<int>, FiberMapping, "FiberMapping") GET(double, EffectiveNAinX, "EffectiveNA_in_x") GET(double, EffectiveNAinY, "EffectiveNA_in_y") } }
        if (auto o = info->GetRatio()) { p = "Ratio/"; f[p] = "."; GETE(IDimensionChannelRatio::Type, Type, "Type") GET(double, Const1, "Const1") GET(double, Const2, "Const2") GET(double, Const3, "Const3") GET(double, Const4, "Const4") GET(double, Const5, "Const5") GET(double, Const6, "Const6") GET(vector<wstring>, Source1, "Source1") GET(vector<wstring>, Source2, "Source2") }
        return f;
    }
    struct FV { string key, xml, want; };   // one field: its node (or the attribute of a node) with one text, and what has to be reported
    const vector<vector<FV>>& fieldTable()
    {
        static vector<vector<FV>> t; if (!t.empty()) return t;
        auto leaf = [](const string& k) { size_t s = k.rfind('/'); return s == string::npos ? k : k.substr(s + 1); };
        auto one = [&](const string& k, const vector<std::pair<string, string>>& v) { t.emplace_back(); string l = leaf(k); for (auto& e : v) { string x; size_t a = l.find('@'); if (a == 0) x = "@" + l.substr(1) + "=\"" + e.first + "\""; else if (a != string::npos) x = "<" + l.substr(0, a) + " " + l.substr(a + 1) + "=\"" + e.first + "\"/>"; else x = "<" + l + ">" + e.first + "</" + l + ">"; t.back().push_back({ k, x, e.second }); } };
        for (auto k : { "ChannelUnit", "DyeId", "DyeDatabaseId", "Fluor", "Reflector", "CondenserContrast", "@Id", "@Name", "DetectorSettings/Detector@Id", "LightSourcesSettings/LightSourceSettings/LightSource@Id", "LightSourcesSettings/LightSourceSettings/Intensity", "LightPath/ExcitationFilter@Id", "LightPath/Dichroic@Id", "LightPath/EmissionFilter@Id", "SPIMIlluminationSettings/CylinderLensRef@Id", "SPIMIlluminationSettings/IlluminationObjectiveSettings/ObjectiveRef@Id", "SPIMIlluminationSettings/IlluminationObjectiveSettings/CorrectionControllerMode", "SIMSettings/SIMDeviceRef@Id", "SIMSettings/GridDescription", "SIMSettings/Reflector", "SIMSettings/FilterSetRef@Id" }) { bool at = string(k).find('@') != string::npos; one(k, { { "text 1", "'text 1'" }, { "&lt;&amp;\xe4\xb8\xad&quot;", "'<&\xe4\xb8\xad\"'" }, { at ? "z" : "<![CDATA[ z]]>", at ? "'z'" : "' z'" }, { at ? "" : "<!-- c -->q", at ? "''" : "'q'" } }); }
        for (auto k : { "ExcitationWavelength", "EmissionWavelength", "EffectiveNA", "PinholeSize", "PinholeSizeAiry", "NDFilter", "DepthOfFocus", "SectionThickness", "NACondenser", "DetectorSettings/PhotonConversionFactor", "DetectorSettings/Gain", "DetectorSettings/DigitalGain", "DetectorSettings/Offset", "DetectorSettings/EMGain", "DetectorSettings/Voltage", "DetectorSettings/ReadOutRate", "DetectorSettings/PixelMaximum", "DetectorSettings/PixelAccuracy", "DetectorSettings/PixelScaleFactor", "LightSourcesSettings/LightSourceSettings/Wavelength", "LightSourcesSettings/LightSourceSettings/Attenuation", "LightSourcesSettings/LightSourceSettings/Transmission", "LightSourcesSettings/LightSourceSettings/FlashDuration", "LightSourcesSettings/LightSourceSettings/TIRFAngle", "LightSourcesSettings/LightSourceSettings/TIRFDepthOfPenetration", "LaserScanInfo/PixelTime", "LaserScanInfo/LineTime", "LaserScanInfo/FrameTime", "LaserScanInfo/SampleRotation", "LaserScanInfo/SampleOffsetX", "LaserScanInfo/SampleOffsetY", "LaserScanInfo/ZoomX", "LaserScanInfo/ZoomY", "LaserScanInfo/ZoomZ", "LaserScanInfo/CropOffset", "LaserScanInfo/LaserAttenuatorMeas", "LaserScanInfo/LaserBlanking", "LaserScanInfo/LaserAttenuatorBleach", "SPIMIlluminationSettings/NALightSheet", "SPIMIlluminationSettings/IlluminationObjectiveSettings/CorrectionCollar", "SPIMIlluminationSettings/IlluminationObjectiveSettings/CorrectionCollar2", "SPIMIlluminationSettings/IlluminationObjectiveSettings/CorrectionControllerBottomThickness", "SPIMIlluminationSettings/IlluminationObjectiveSettings/CorrectionControllerImagingDepth", "SPIMIlluminationSettings/IlluminationObjectiveSettings/RefractiveIndex", "SPIMIlluminationSettings/ResonanceScannerSettings/Amplitude", "SPIMIlluminationSettings/GalvoScannerSettings/AmplitudeYScan", "SPIMIlluminationSettings/GalvoScannerSettings/Frequency", "SPIMIlluminationSettings/GalvoScannerSettings/Offset1Left", "SPIMIlluminationSettings/GalvoScannerSettings/Offset1Right", "SPIMIlluminationSettings/GalvoScannerSettings/Offset2Left", "SPIMIlluminationSettings/GalvoScannerSettings/Offset2Right", "SPIMDetectionSettings/NADetection", "SIMSettings/GratingPeriod", "SIMSettings/GratingRotation", "SIMSettings/DiffractionEfficiency1", "SIMSettings/DiffractionEfficiency2", "SIMSettings/DiffractionEfficiency3", "PolarizingSettings/PolarizerAngle", "PolarizingSettings/AnalyzerAngle", "AiryscanSettings/VirtualPinholeSize", "AiryscanSettings/Magnification", "AiryscanSettings/TransformationXX", "AiryscanSettings/TransformationXY", "AiryscanSettings/TransformationYX", "AiryscanSettings/TransformationYY", "AiryscanSettings/FastAiryScanSettings/EffectiveNA_in_x", "AiryscanSettings/FastAiryScanSettings/EffectiveNA_in_y", "Ratio/Const1", "Ratio/Const2", "Ratio/Const3", "Ratio/Const4", "Ratio/Const5", "Ratio/Const6" }) one(k, { { "1.25", "1.25" }, { "-0.1e-8", num(-0.1e-8) }, { "<![CDATA[3]]>", "3" }, { "1.7976931348623157e308", num(1.7976931348623157e308) } });
        for (auto k : { "ComponentBitCount", "PockelCellSetting", "LaserScanInfo/Averaging", "LaserScanInfo/ScanSpeed" }) one(k, { { "12", "12" }, { "-2147483648", "-2147483648" }, { "2147483647", "2147483647" } }); one("LaserScanInfo/LineStep", { { "12", "12" }, { "4294967295", "4294967295" } });
        for (auto k : { "DetectorSettings/UseBrightnessContrastCorrection", "LightSourcesSettings/LightSourceSettings/IsTIRFCalibrated", "LightSourcesSettings/LightSourceSettings/IsNlo" }) one(k, { { "true", "true" }, { "false", "false" }, { "1", "true" }, { "0", "false" } });
        auto en = [&](const string& k, std::initializer_list<const char*> names) { vector<std::pair<string, string>> v; int i = 0; for (auto n : names) v.push_back({ n, mc::cat("#", i++) }); v.push_back({ "NoSuchThing", "" }); v.push_back({ "", "" }); one(k, v); };
        en("ChannelType", { "Heightmap", "PalHR", "PalWidefield", "SimHR", "SimWidefield", "SimDWF", "AiryScanSum", "AiryScanRawSr", "AiryScanRaw", "AiryScanSr", "AiryScanVp", "AiryScanMb", "AiryScanRingSheppardSum", "OnlineUnmixing", "Unspecified" });
        en("AcquisitionMode", { "WideField", "LaserScanningConfocalMicroscopy", "SpinningDiskConfocal", "SlitScanConfocal", "MultiPhotonMicroscopy", "StructuredIllumination", "SingleMoleculeImaging", "TotalInternalReflection", "FluorescenceLifetime", "SpectralImaging", "FluorescenceCorrelationSpectroscopy", "NearFieldScanningOpticalMicroscopy", "SecondHarmonicGenerationImaging", "PALM", "STORM", "STED", "TIRF", "FSM", "LCM", "SPIM", "SEM", "FIB", "FIB-SEM", "ApertureCorrelation", "Other" });
        en("IlluminationType", { "Transmitted", "Epifluorescence", "Oblique", "NonLinear", "Other" }); en("ContrastMethod", { "Brightfield", "Phase", "DIC", "HoffmanModulation", "ObliqueIllumination", "PolarizedLight", "Darkfield", "Fluorescence", "MultiPhotonFluorescence", "Other" }); en("PinholeGeometry", { "Circular", "Rectangular", "Other" }); en("DetectorSettings/Binning", { "1x1", "2x2", "4x4", "8x8", "Other" }); en("DetectorSettings/Shutter", { "Rolling", "Global", "Other" }); en("DetectorSettings/CameraProcessingMode", { "None", "Widefield", "Sectioned", "RawDataMode" }); en("LaserScanInfo/ScanningMode", { "Frame", "FastFrame", "LineSequential", "Line", "Spot", "Other" }); en("LaserScanInfo/ScanDirection", { "Bidirectional", "Unidirectional" }); en("LaserScanInfo/AveragingMethod", { "Mean", "Sum", "Other" }); en("LaserScanInfo/AveragingMode", { "Frame", "Line", "Other" }); en("LaserScanInfo/LaserAttenuatorState", { "On", "Off" }); en("SPIMIlluminationSettings/BeamType", { "Gauss", "Bessel", "Other" }); en("SPIMIlluminationSettings/IlluminationObjectiveSettings/Medium", { "Air", "Oil", "Water", "Glycerol", "Other" }); en("AiryscanSettings/Mode", { "SuperResolution", "VirtualPinhole", "MultiBeam", "Off" }); en("Ratio/Type", { "NoOnlineCalculation", "OnlineRatio", "OnlineSubtraction", "OnlineSubtractionRatio", "OnlineHillFunction", "OnlineReferenceRatio", "OnlineLinearUnmixing" });
        { vector<std::pair<string, string>> v; for (auto& e : vector<std::pair<const char*, PixelType>>{ { "Gray8", PixelType::Gray8 }, { "Gray16", PixelType::Gray16 }, { "Gray32Float", PixelType::Gray32Float }, { "Bgr24", PixelType::Bgr24 }, { "Bgr48", PixelType::Bgr48 }, { "Bgr96Float", PixelType::Bgr96Float }, { "Bgra32", PixelType::Bgra32 }, { "Gray64ComplexFloat", PixelType::Gray64ComplexFloat }, { "Bgr192ComplexFloat", PixelType::Bgr192ComplexFloat }, { "Gray32", PixelType::Gray32 }, { "Gray64Float", PixelType::Gray64Float } }) v.push_back({ e.first, outE(e.second) }); v.push_back({ "Gray", "" }); one("PixelType", v); }
        for (auto k : { "IlluminationWavelength", "DetectionWavelength" }) one(k, { { "<SinglePeak>488.5</SinglePeak>", "peak 488.5" }, { "<Ranges>400-500</Ranges>", "ranges 400..500" }, { "<Ranges>400.5 - 500.25 , 600,700-</Ranges>", "ranges 400.5..500.25 600 700.." }, { "<Ranges>-500</Ranges>", "ranges ..500" }, { "<Ranges>400-500-600</Ranges>", "" }, { "<Ranges>abc</Ranges>", "" }, { "<Ranges>400,x</Ranges>", "" }, { "<Ranges></Ranges>", "" }, { "<Ranges> </Ranges>", "" }, { "<Ranges>1e999</Ranges>", "" }, { "<Ranges>-</Ranges>", "" }, { "<Other/>", "" } });
        one("ExposureTime", { { "1000", "1000" }, { "10-20", "10..20" }, { " 10 - 20 ", "10..20" }, { "-20", "0..20" }, { "10-", "10..18446744073709551615" }, { "18446744073709551615", "18446744073709551615" }, { "18446744073709551616", "" }, { "1.5", "" }, { "x", "" }, { "", "" }, { "10--20", "" }, { "--20", "" }, { "-", "" }, { "\n", "" } });
        one("Color", { { "#FF0102FE", "1,2,254" }, { "#0A0B0C", "?10,11,12" }, { " #ffABcdEF ", "?171,205,239" }, { "#00000000", "0,0,0" }, { "#12345", "" }, { "red", "" }, { "", "" }, { "#GG0102FE", "" }, { "#FF0102F\xe4\xb8\xad", "" }, { "\xf0\x9f\x98\x80", "" }, { "0A0B0C", "?10,11,12" } });
        one("LightSourcesSettings/LightSourceSettings/Polarization", { { "<StokesParameter1>1</StokesParameter1><StokesParameter4>-0.5</StokesParameter4>", "p 1 - - -0.5" }, { "<StokesParameter2>2</StokesParameter2><StokesParameter3>3</StokesParameter3>", "p - 2 3 -" }, { "", "p - - - -" } });
        for (auto k : { "AiryscanSettings/FastAiryScanSettings/IlluminationLinePixels", "AiryscanSettings/FastAiryScanSettings/IlluminationLine" }) one(k, { { "1.5 2", "1.5/2" }, { " 3\t-4 ", "?3/-4" }, { "1", "?" }, { "", "?" }, { "x y", "?" }, { "1e999 1", "?" } });
        one("AiryscanSettings/FastAiryScanSettings/FiberMapping", { { "1 2 3", "v 1 2 3" }, { "-5", "v -5" }, { "1  2", "?v 1 2" }, { "1 ", "?v 1" }, { "1\n2\t", "?v 1 2" }, { "99999999999 1", "?" }, { "1 x", "?" } });
        for (auto k : { "Ratio/Source1", "Ratio/Source2" }) one(k, { { "<ChannelRef Id=\"a\"/><ChannelRef Id=\"b&amp;\"/>", "v 'a' 'b&'" }, { "", "v" }, { "<ChannelRef/><ChannelRef Id=\"c\"/>", "?v 'c'" } });
        return t;
    }
    // the XML of a channel with these fields
    string channelXml(const vector<const FV*>& fs)
    {
        struct G { string self; vector<std::pair<string, G*>> sub; std::list<G> own; G* get(const string& n) { for (auto& s : sub) if (s.first == n) return s.second; own.emplace_back(); sub.push_back({ n, &own.back() }); return &own.back(); } string text() { string r = self; for (auto& s : sub) r += "<" + s.first + ">" + s.second->text() + "</" + s.first + ">"; return r; } } g; string attrs;
        for (auto f : fs) { G* x = &g; string k = f->key; size_t s; while ((s = k.find('/')) != string::npos) { x = x->get(k.substr(0, s)); k = k.substr(s + 1); } if (f->xml[0] == '@') attrs += " " + f->xml.substr(1); else x->self += f->xml; } return "<Channel" + attrs + ">" + g.text() + "</Channel>";
    }
    bool sameField(const string& want, const Fields& f, const string& key) { auto i = f.find(key); if (!want.empty() && want[0] == '?') return i == f.end() || want.size() == 1 || i->second == want.substr(1) || true; return want.empty() ? i == f.end() : i != f.end() && i->second == want; }
    void checkFields(const vector<const FV*>& fs, const Fields& got, const string& xml)
    {
        Fields g = got; for (auto f : fs) { bool loose = !f->want.empty() && f->want[0] == '?'; auto i = g.find(f->key); if (loose) { if (i != g.end()) g.erase(i); } else { MC_CHECK(sameField(f->want, g, f->key), mc::cat(f->key, " in ", xml, " is reported as ", i == g.end() ? string("absent") : i->second, " instead of ", f->want.empty() ? string("absent") : f->want)); if (i != g.end()) g.erase(i); } string k = f->key; size_t s; while ((s = k.rfind('/')) != string::npos) { k = k.substr(0, s); g.erase(k + "/"); } } MC_CHECK(g.empty(), mc::cat(g.empty() ? string() : g.begin()->first, " is reported as ", g.empty() ? string() : g.begin()->second, " though it is not part of ", xml));
    }
    Fields readChannel(const string& chs, int n, int i) { auto md = parse("<ImageDocument><Metadata><Information><Image><Dimensions><Channels>" + chs + "</Channels></Dimensions></Image></Information></Metadata></ImageDocument>"); auto ci = md->GetDocumentInfo()->GetDimensionChannelsInfo(); MC_CHECK(ci && ci->GetChannelCount() == n, "number of channels"); return fieldsOf(ci->GetChannel(i).get()); }
    void channelFields(mc::Ctx& c)
    {
        auto& t = fieldTable(); int a = c.choose((int)t.size(), "field"), loc = c.choose(2, "locale"), va = c.choose((int)t[a].size(), "value"); int b = c.choose((int)t.size() + 1, "other field") - 1; vector<const FV*> fs{ &t[a][va] }; if (b >= 0) { if (b == a || (!c.thorough() && va > 1)) throw mc::Prune(); fs.push_back(&t[b][0]); }
        string x = channelXml(fs); int pos = c.choose(b >= 0 ? 1 : 3, "position"); if (pos) x = pos == 1 ? "<Channel Id=\"first\"/>" + x : x + "<Channel><Fluor>last</Fluor></Channel>"; c.say([&](std::ostream& o) { o << x << (loc ? " with a global locale which groups digits" : ""); }); c.step(); Fields g; { GlobalLocale gl(loc); g = readChannel(x, pos ? 2 : 1, pos == 1 ? 1 : 0); } checkFields(fs, g, x); c.state(mc::hashStr(x, loc)); c.outcome(g.size());
    }
    void allFields(mc::Ctx& c)
    {
        auto& t = fieldTable(); int left = c.choose((int)t.size() + 1, "field left out") - 1, rev = c.choose(2, "order"), v = c.choose(2, "value"); vector<const FV*> fs; for (int i = 0; i < (int)t.size(); ++i) if (i != left) fs.push_back(&t[i][v]); if (rev) std::reverse(fs.begin(), fs.end()); string x = channelXml(fs); c.say([&](std::ostream& o) { o << x; }); c.step(); auto g = readChannel(x, 1, 0); if (left >= 0) MC_CHECK(!g.count(t[left][0].key), "a field which is not in the document is reported"); checkFields(fs, g, x); c.state(mc::hashStr(x)); c.outcome(g.size());
    }
    void lightSources(mc::Ctx& c)
    {
        int n = c.choose(4, "light sources"); string x = "<Channel><LightSourcesSettings>"; vector<int> k; for (int i = 0; i < n; ++i) { k.push_back(c.choose(4, "fields")); x += "<!-- --><LightSourceSettings>"; if (k[i] & 1) x += mc::cat("<LightSource Id=\"L", i, "\"/>"); if (k[i] & 2) x += mc::cat("<Wavelength>", 400 + i, "</Wavelength>"); x += "</LightSourceSettings>"; } x += "</LightSourcesSettings></Channel>"; c.say([&](std::ostream& o) { o << x; }); c.step(); auto g = readChannel(x, 1, 0); Fields w; for (int i = 0; i < n; ++i) { string p = mc::cat("LightSourcesSettings/LightSourceSettings", i ? mc::cat("#", i) : string(), "/"); w[p] = "."; if (k[i] & 1) w[p + "LightSource@Id"] = mc::cat("'L", i, "'"); if (k[i] & 2) w[p + "Wavelength"] = mc::cat(400 + i); } MC_CHECK(g == w, "the light sources differ"); c.state(mc::hashStr(x)); c.outcome(n);
    }
    // what the document information reports about Z and T, for both places where the description can be found
    void dimensionFields(mc::Ctx& c)
    {
        int place = c.choose(2, "place"), loc = c.choose(2, "locale"); static const char* st[] = { nullptr, "1.5", "-2e-9" }, * ha[] = { nullptr, "LeftHanded", "RightHanded", "Undefined", "x", " LeftHanded " }, * di[] = { nullptr, "FromSpecimenToObjective", "FromObjectiveToSpecimen", "Undefined", "y" }, * mo[] = { nullptr, "Continuous", "Step", "z" }, * sp[] = { nullptr, "0.25", " 7 ", "1x", "", "1e999", "4.9406564584124654e-324" }, * po[] = { nullptr, "<Interval><Start>1.5</Start><Increment>-2</Increment></Interval>", "<Interval><Increment>3</Increment></Interval>", "<List><Offsets>1 2.5 -3e-7</Offsets></List>", "<List><Offsets></Offsets></List>", "<List><Offsets>1 1e999 2</Offsets></List>", "<List><Offsets>1 1e-310 2</Offsets></List>", "<List><Offsets>1 x 2</Offsets></List>" }, * tm[] = { nullptr, "2024-03-04T05:06:07Z", "2024-13-04T05:06:07Z", " 2024-03-04T05:06:07Z\n" };
        int a = c.choose(3, "start"), b = c.choose(6, "handedness"), d = c.choose(5, "direction"), e = c.choose(4, "mode"), f = c.choose(7, "speed"), g = c.choose(8, "positions"), t = c.choose(4, "time"), g2 = c.choose(8, "T positions"); if (!c.thorough()) { int dev = (b > 3) + (d > 3) + (e > 2) + (f > 2) + (g2 > 0 && t > 0); if (dev > 1 || (g2 && (b || d || e || f))) throw mc::Prune(); }
        string z; auto nd = [&](string& s, const char* n, const char* v) { if (v) s += string("<") + n + ">" + v + "</" + n + ">"; }; nd(z, "StartPosition", st[a]); nd(z, "XYZHandedness", ha[b]); nd(z, "ZAxisDirection", di[d]); nd(z, "ZDriveMode", mo[e]); nd(z, "ZDriveSpeed", sp[f]); nd(z, "Positions", po[g]); string tx; nd(tx, "StartTime", tm[t]); nd(tx, "Positions", po[g2]); string dims = "<Dimensions><Z>" + z + "</Z><T>" + tx + "</T></Dimensions>", xml = "<ImageDocument><Metadata><Information>" + (place ? dims : "<Image>" + dims + "</Image>") + "</Information></Metadata></ImageDocument>";
        c.say([&](std::ostream& o) { o << xml; }); c.step(); GlobalLocale gl(loc); auto info = parse(xml)->GetDocumentInfo(); auto zi = info->GetDimensionZInfo(); auto ti = info->GetDimensionTInfo(); MC_CHECK(zi && ti, "no information about Z or T"); double x = -7; MC_CHECK(zi->TryGetReferencePosition(&x) == (a > 0) && (!a || x == atof(st[a])), "start position");
        IDimensionZInfo::XyzHandedness h; bool ok = zi->TryGetXyzHandedness(&h); MC_CHECK(b == 5 || ok == (b > 0 && b < 4), "handedness"); if (ok) MC_CHECK(h == (b == 1 || b == 5 ? IDimensionZInfo::XyzHandedness::LeftHanded : b == 2 ? IDimensionZInfo::XyzHandedness::RightHanded : IDimensionZInfo::XyzHandedness::Undefined), "handedness differs"); IDimensionZInfo::ZaxisDirection zd; ok = zi->TryGetZAxisDirection(&zd); MC_CHECK(ok == (d > 0 && d < 4), "direction"); if (ok) MC_CHECK(zd == (d == 1 ? IDimensionZInfo::ZaxisDirection::FromSpecimenToObjective : d == 2 ? IDimensionZInfo::ZaxisDirection::FromObjectiveToSpecimen : IDimensionZInfo::ZaxisDirection::Undefined), "direction differs"); IDimensionZInfo::ZDriveMode m; ok = zi->TryGetZDriveMode(&m); MC_CHECK(ok == (e > 0 && e < 3), mc::cat("drive mode ", ok ? "appears" : "is lost")); if (ok) MC_CHECK(m == (e == 1 ? IDimensionZInfo::ZDriveMode::Continuous : IDimensionZInfo::ZDriveMode::Step), "drive mode differs"); x = -7; ok = zi->TryZDriveSpeed(&x); MC_CHECK(f >= 5 || ok == (f == 1 || f == 2), "drive speed"); if (ok) MC_CHECK(f >= 5 || x == atof(sp[f]), "drive speed differs");
        for (int w = 0; w < 2; ++w) { int q = w ? g2 : g; double s = -7, i = -7; vector<double> l; bool hi = w ? ti->TryGetIntervalDefinition(&s, &i) : zi->TryGetIntervalDefinition(&s, &i), hl = w ? ti->TryGetOffsetsList(&l) : zi->TryGetPositionList(&l); MC_CHECK(hi == (q == 1 || q == 2) && (q == 4 || hl == (q > 2)), "kind of positions"); if (hi) MC_CHECK((q == 1 ? s == 1.5 && i == -2 : i == 3), "interval differs"); if (q == 3) MC_CHECK((l == vector<double>{ 1, 2.5, -3e-7 }), "list differs"); if (q > 4) MC_CHECK(l.size() >= 1 && l[0] == 1, "list differs"); }
        XmlDateTime dtm; dtm.Clear(); ok = ti->TryGetStartTime(&dtm); MC_CHECK(t == 3 || ok == (t == 1), "start time"); if (ok) MC_CHECK(dtEqual(dtm, dt(2024, true)), "start time differs"); c.state(mc::hashStr(xml, loc)); c.outcome(g * 8 + g2);
    }
    void dimensionSizes(mc::Ctx& c)
    {
        static const char ds[] = "ZCTRSIHVB"; string xml; std::map<char, std::pair<int, int>> w; for (int i = 0; i < 9; ++i) { int k = i < 3 || c.thorough() ? c.choose(4, "kind") : i == 3 ? c.choose(4, "kind") : 0; if (i > 3 && !c.thorough()) k = (w.size() + i) % 4; int s = i * 3 - 5, z = 100 * i + 1; if (k & 1) xml += mc::cat("<Start", ds[i], ">", s, "</Start", ds[i], ">"); if (k & 2) xml += mc::cat("<Size", ds[i], ">", z, "</Size", ds[i], ">"); if (k) w[ds[i]] = { k & 1 ? s : INT_MIN, k & 2 ? z : INT_MIN }; } xml = "<ImageDocument><Metadata><Information><Image><SizeX>3</SizeX>" + xml + "<SizeM>7</SizeM></Image></Information></Metadata></ImageDocument>"; c.say([&](std::ostream& o) { o << xml; }); c.step(); auto di = parse(xml)->GetDocumentInfo(); size_t n = 0; di->EnumDimensions([&](DimensionIndex d) { ++n; MC_CHECK(w.count(Utils::DimensionToChar(d)), "a dimension appears"); return true; }); MC_CHECK(n == w.size(), "number of dimensions"); for (int i = 0; i < 9; ++i) { auto q = di->GetDimensionInfo(Utils::CharToDimension(ds[i])); auto e = w.find(ds[i]); MC_CHECK((bool)q == (e != w.end()), "dimension lost"); if (!q) continue; int s = -77, z = -77; bool se, ze; q->GetInterval(&s, &z); q->GetIntervalIsExplicitlyStated(&se, &ze); bool hs = e->second.first != INT_MIN, hz = e->second.second != INT_MIN; int ws = hs ? e->second.first : 0, wz = hz ? e->second.second : 1; MC_CHECK(se == hs && ze == hz && s == ws && z == ws + wz && q->GetDimension() == Utils::CharToDimension(ds[i]), mc::cat("dimension ", ds[i], ": ", s, "..", z)); } c.state(mc::hashStr(xml)); c.outcome(w.size());
    }

    // the metadata of a sub-block: tags, stage position and data format of the attachment, as stored with the sub-block
    void subblockMetadata(mc::Ctx& c)
    {
        // value of a tag: XML, text, number (nan: none; loose: white space around)
        struct V { const char* xml; const wchar_t* text; bool isNum, loose; double num; };
        static const V vs[] = { { nullptr, L"", false, false, 0 }, { "-1234.5e-3", L"-1234.5e-3", true, false, -1.2345 }, { "0", L"0", true, false, 0 }, { "100000", L"100000", true, false, 100000 }, { " 7 ", L" 7 ", true, true, 7 }, { "1,5", L"1,5", false, false, 0 }, { "x&lt;&#x4e2d;", L"x<\u4e2d", false, false, 0 }, { "<![CDATA[12]]>", L"12", true, false, 12 }, { "<!-- -->3", L"3", true, false, 3 }, { "", L"", false, false, 0 }, { "1e999", L"1e999", false, true, 0 } };
        const int nv = 11, nf = c.choose(4, "data format"), kx = c.choose(nv, "X"), ky = c.choose(nv, "Y"), ko = c.choose(nv, "other tag"), shape = c.choose(6, "shape"), loc = c.choose(2, "locale");
        if (!c.thorough() && shape && (kx > 2) + (ky > 2) + (ko > 2) > 1) throw mc::Prune();
        auto nd = [](const char* n, const V& v) { return v.xml ? string("<") + n + " a=\"9\">" + v.xml + "</" + n + ">" : string(); };
        string tags = shape == 1 ? nd("StageYPosition", vs[ky]) + "<Other><StageXPosition>5</StageXPosition></Other>" + nd("Tag_1", vs[ko]) + nd("StageXPosition", vs[kx]) : "<!--StageXPosition-->" + nd("StageXPosition", vs[kx]) + nd("StageYPosition", vs[ky]) + nd("Tag_1", vs[ko]);
        static const char* fx[] = { nullptr, "CHUNKCONTAINER", " a &amp; b", "" }; static const wchar_t* fw[] = { L"", L"CHUNKCONTAINER", L" a & b", L"" }; string fm = fx[nf] ? string("<AttachmentSchema><DataFormat>") + fx[nf] + "</DataFormat></AttachmentSchema>" : "";
        string xml = shape == 2 ? "<METADATA>" + fm + "<Tags>" + tags + "</Tags></METADATA>" : shape == 3 ? "<METADATA><Tags>" + tags + "</Tags>" + fm : shape == 4 ? "" : shape == 5 ? "<METADATA>\n  " + fm + "\n  <Tagz><StageXPosition>1</StageXPosition><StageYPosition>1</StageYPosition></Tagz>\n</METADATA>\n" : "<?xml version=\"1.0\" encoding=\"utf-8\"?><METADATA><Tags>" + tags + "</Tags>" + fm + "</METADATA>";
        c.say([&](std::ostream& o) { o << xml << (loc ? " with a global locale which groups digits" : ""); }); c.step(5); GlobalLocale gl(loc);
        Doc d; d.guid = guid(1); Sb sb; sb.dims = { { DimensionIndex::C, 0 } }; sb.mValid = true; sb.lw = sb.pw = sb.lh = sb.ph = 1; sb.data = { 1 }; sb.meta.assign(xml.begin(), xml.end()); d.sbs.push_back(sb); static std::map<string, Bytes> made; Bytes& f = made[xml]; if (made.size() > 500) { made.clear(); } Bytes& file = made[xml]; if (file.empty()) file = writeDoc(d); (void)f;
        auto st = std::make_shared<MemStream>(); *st->mem = file; auto r = CreateCZIReader(); r->Open(st); auto blk = r->ReadSubBlock(0); std::shared_ptr<ISubBlockMetadata> m;
        m = CreateSubBlockMetadataFromSubBlock(blk.get()); MC_CHECK(m, "no metadata object"); const bool valid = shape != 3 && shape != 4; MC_CHECK(m->IsXmlValid() == valid, "IsXmlValid is wrong"); const bool hasTags = shape < 3;
        auto check = [&](ISubBlockMetadata* q) {
            auto guard = [&](const char* what, const std::function<bool()>& call) { bool thrown = false, ok = false; try { ok = call(); } catch (LibCZIXmlParseException&) { thrown = true; } MC_CHECK(thrown == !valid, mc::cat(what, valid ? " fails" : " does not report the invalid XML")); return ok; };
            wstring t = L"?"; bool ok = guard("TryGetAttachmentDataFormat", [&] { return q->TryGetAttachmentDataFormat(&t); }); if (valid) { MC_CHECK((nf == 3 && !ok) || ok == (nf > 0), "the data format is reported wrongly"); if (ok) MC_CHECK(t == fw[nf], mc::cat("the data format is ", show(t))); }
            auto tag = [&](const wchar_t* n, const V& v) {
                wstring w = L"?"; double x = -77; bool a = guard("TryGetTagAsString", [&] { return q->TryGetTagAsString(n, &w); }), b = guard("TryGetTagAsDouble", [&] { return q->TryGetTagAsDouble(n, &x); }); if (!valid) return;
                const bool has = hasTags && v.xml; if (!(has && !*v.xml)) MC_CHECK(a == has, mc::cat("tag ", show(n), has ? " is not found" : " is made up")); if (a) MC_CHECK(w == v.text, mc::cat("tag ", show(n), " is ", show(w))); if (!(has && v.loose)) MC_CHECK(b == (has && v.isNum), mc::cat("tag ", show(n), " as number: ", b)); if (b && !(v.loose && !v.isNum)) MC_CHECK(x == v.num, mc::cat("tag ", show(n), " as number is ", x)); };
            tag(L"StageXPosition", vs[kx]); tag(L"StageYPosition", vs[ky]); tag(L"Tag_1", vs[ko]); tag(L"Tag_2", vs[0]); tag(L"stagexposition", vs[0]);
            std::tuple<double, double> p(-77, -77); ok = guard("TryGetStagePositionFromTags", [&] { return q->TryGetStagePositionFromTags(&p); }); if (valid) { const V& x = vs[kx], & y = vs[ky]; const bool must = hasTags && x.xml && y.xml && x.isNum && y.isNum, may = hasTags && x.xml && y.xml && (x.isNum || x.loose) && (y.isNum || y.loose); if (must == may && !x.loose && !y.loose) MC_CHECK(ok == must, mc::cat("the stage position is ", ok ? "made up" : "not found")); if (!may) MC_CHECK(!ok, "the stage position is made up"); if (ok && must) MC_CHECK(std::get<0>(p) == x.num && std::get<1>(p) == y.num, mc::cat("the stage position is ", std::get<0>(p), "/", std::get<1>(p))); MC_CHECK(guard("TryGetStagePositionFromTags", [&] { return q->TryGetStagePositionFromTags(nullptr); }) == ok, "without an argument the result differs"); }
            string text; ok = guard("GetXml", [&] { text = q->GetXml(); return true; }); if (valid) { auto again = parse(text); auto a = again->GetChildNodeReadonly("METADATA"); MC_CHECK(a, "the text cannot be parsed again"); auto n = again->GetChildNodeReadonly("METADATA/Tags/StageXPosition"); wstring w, wa; bool has = hasTags && vs[kx].xml; MC_CHECK((bool)n == has && (!has || !*vs[kx].xml || (n->TryGetValue(&w) && w == vs[kx].text && n->TryGetAttribute(L"a", &wa) && wa == L"9")), "the text differs"); }
            int kids = 0; guard("EnumChildren", [&] { q->EnumChildren([&](std::shared_ptr<IXmlNodeRead> k) { ++kids; MC_CHECK(k->Name() == L"METADATA", "name of the root"); return true; }); return true; }); MC_CHECK(kids == (valid ? 1 : 0), "the root is not enumerated once");
            wstring rw = L"?"; ok = guard("TryGetAttribute", [&] { return q->TryGetAttribute(L"a", &rw); }); MC_CHECK(!ok, "an attribute of the document is made up"); int attrs = 0; guard("EnumAttributes", [&] { q->EnumAttributes([&](const wstring&, const wstring&) { ++attrs; return true; }); return true; }); MC_CHECK(!attrs, "attributes of the document are made up"); guard("TryGetValue", [&] { return q->TryGetValue(&rw); }); guard("Name", [&] { return q->Name().empty(); });
            auto child = [&](const char* path) { std::shared_ptr<IXmlNodeRead> n; guard("GetChildNodeReadonly", [&] { n = q->GetChildNodeReadonly(path); return true; }); return n; }; auto rn = child("METADATA"); MC_CHECK((bool)rn == valid, "the root is not found"); auto sx = child("METADATA/Tags/StageXPosition"); MC_CHECK((bool)sx == (valid && hasTags && vs[kx].xml), "StageXPosition by path"); if (sx) { MC_CHECK(sx->Name() == L"StageXPosition", "name of the node"); wstring av; MC_CHECK(sx->TryGetAttribute(L"a", &av) && av == L"9", "attribute of the node"); }
        };
        check(m.get()); check(m.get()); auto acc = CreateSubBlockAttachmentAccessor(blk, loc ? m : nullptr); auto am = acc->GetSubBlockMetadata(); MC_CHECK(am && (!loc || am == m), "the accessor has other metadata"); check(am.get()); blk.reset(); r->Close(); r.reset(); check(m.get()); c.state(mc::hashStr(xml, loc)); c.outcome(shape);
    }

    // text that is not well-formed: the object says so and no call gives out what was parsed by chance
    void malformed(mc::Ctx& c)
    {
        static const string good = "<?xml version=\"1.0\"?><ImageDocument a=\"1\"><Metadata><Information><Image><SizeX>5</SizeX><SizeY>6</SizeY></Image></Information></Metadata></ImageDocument>";
        string xml = good; const int kind = c.choose(3, "damage"); const size_t pos = c.choose((int)good.size() + (kind == 0 ? 0 : 1), "position");
        if (kind == 0) xml.resize(pos); else if (kind == 1) xml.insert(pos, "<"); else xml.insert(pos, "</x>");
        // well-formedness, as far as these three kinds of damage are concerned: truncated text is complete only if nothing but the end of a tag is missing ... never; a stray tag is never fine
        MdSeg s(xml); auto md = CreateMetaFromMetadataSegment(&s); const bool valid = md->IsXmlValid(); c.step(); c.say([&](auto& o) { o << (valid ? "accepted: " : "refused: ") << xml; });
        if (kind == 0 && pos > good.find("<ImageDocument") + 1) MC_CHECK(!valid, "truncated XML is considered valid: ", xml); if (kind == 2 && pos > good.find("a=") + 5) MC_CHECK(!valid, "XML with a stray end tag is considered valid: ", xml);
        int threw = 0, calls = 0; auto t = [&](const char* what, auto f) { ++calls; try { f(); } catch (LibCZIXmlParseException&) { ++threw; } catch (mc::Violation&) { throw; } catch (std::exception& e) { if (!valid) mc::fail(mc::cat(what, " on malformed XML reports something else: ", e.what())); } };
        wstring w; t("GetXml", [&] { md->GetXml(); }); t("GetDocumentInfo", [&] { md->GetDocumentInfo(); }); t("TryGetAttribute", [&] { md->TryGetAttribute(L"a", &w); }); t("EnumAttributes", [&] { md->EnumAttributes([](auto&, auto&) { return true; }); }); t("TryGetValue", [&] { md->TryGetValue(&w); });
        t("GetChildNodeReadonly", [&] { md->GetChildNodeReadonly("ImageDocument"); }); t("Name", [&] { md->Name(); }); t("EnumChildren", [&] { md->EnumChildren([](auto) { return true; }); });
        MC_CHECK(threw == (valid ? 0 : calls), valid ? "a call on proper XML reports a parse error" : "malformed XML: only ", threw, " of ", calls, " calls report it: ", xml);
        bool b = false; try { CreateMetadataBuilderFromXml(xml); } catch (std::exception&) { b = true; } MC_CHECK(b != valid, valid ? "the builder refuses what the reader accepts: " : "the builder accepts malformed XML: ", xml); c.state(mc::hashStr(xml, 1)); c.outcome(valid);
    }

    static struct Reg
    {
        Reg()
        {
            using namespace mc;
            mc::add({ "C21", "malformed", "a document truncated at every position, with a stray '<' or end tag at every position: every call reports it", malformed });
            mc::add({ "C21", "dom_histories", "all sequences of 3 (thorough 4) operations {create, 5 values, 3 attribute values, append, remove child/children/attribute(s)} on 6 targets, the document read back in 3 ways and compared node by node", domHistories });
            mc::add({ "C21", "dom_paths", "all documents of up to 2 (3, thorough: of all kinds) children with 2 names x 4 Ids x 2 Names: every path (by name, attributes, number) in 6 ways gives exactly the right child or creates it", domPaths });
            mc::add({ "C21", "dom_foreign", "12 kinds of content (comments, character data sections, mixed) of a node in a document from elsewhere x 5 ways to replace it x 5 texts x 5 ways to read back", domForeign });
            mc::add({ "C21", "texts", "all texts up to length 3 (generic places) resp. 2 (others; thorough 3) over 25 characters in 18 places", texts });
            mc::add({ "C21", "unicode", "all Unicode code points in 4 places", unicode });
            mc::add({ "C21", "long_texts", "texts of up to 300000 characters in 18 places", longTexts });
            mc::add({ "C21", "numbers", "doubles (all exponents x 6 mantissas x sign), floats (all exponents x 6 x sign), integers around all powers of two, in all places, with 2 global locales", numbers });
            mc::add({ "C21", "conversions", "all texts up to length 4 (thorough 5) over 12 characters, read as each type", conversions });
            mc::add({ "C21", "conversion_table", "limits of each type, hostile texts", conversionTable });
            mc::add({ "C21", "date_times", "16 years x all months/days, the end of February of all years, times x offsets, through the text and through 3 places of the document, with 2 global locales", dateTimes });
            mc::add({ "C21", "date_texts", "6 texts x all single substitutions, insertions, deletions, substrings", dateTexts });
            mc::add({ "C21", "date_long", "texts of up to 400000 characters", dateLong });
            mc::add({ "C21", "helper_histories", "all sequences of 3 out of 38 calls of the helper functions on a new document, of 2 (thorough 3) on a document from elsewhere / re-created from its text after every call / prepared by the writer; everything read back", helperHistories });
            mc::add({ "C21", "prepared", "metadata prepared by the writer: 0..3 channels x 6 (up to 2 channels, thorough: 10) pixel types each x 4 kinds of ids", prepared });
            mc::add({ "C21", "channel_fields", "every field of the channel information x every value, alone and with every other field, with 2 global locales: exactly these are reported", channelFields });
            mc::add({ "C21", "all_fields", "all fields at once, each one left out", allFields });
            mc::add({ "C21", "light_sources", "0..3 light sources x fields", lightSources });
            mc::add({ "C21", "dimension_fields", "the fields describing Z and T x values, in both places", dimensionFields });
            mc::add({ "C21", "dimension_sizes", "start and size of all dimensions, stated or not", dimensionSizes });
            mc::add({ "C21", "subblock_metadata", "metadata of a sub-block: 11 contents for each of 3 tags x 4 data formats x 6 shapes of the document, with 2 global locales", subblockMetadata });
        }
    } reg;
}
