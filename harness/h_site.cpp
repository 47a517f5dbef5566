// C26: a site object supplied by the user. Bitmaps of any memory layout, any decoder, any log level: the results stay the same;
// a failure of the site is reported, frees everything, and the next call is right.
#include "compose.h"
#include <set>
using namespace cp; using mc::Ctx;

namespace
{
    struct Injected : std::runtime_error { using std::runtime_error::runtime_error; };
    struct Cfg { int pad = -1; uint8_t fill = 0; bool ownDecoder = false; unsigned log = 0; int failAt = 0; std::string text() const { return mc::cat(pad < 0 ? "the default site's bitmaps" : mc::cat("bitmaps with ", pad, " units of padding filled with ", (int)fill), ownDecoder ? ", own decoder" : "", log ? mc::cat(", log levels ", log) : ""); } };
    struct State { Cfg cfg; int calls = 0, live = 0, created = 0, decoders = 0, logs = 0, terminated = 0; std::string bad, last; } S;
    void event(const char* what) { S.last = what; if (++S.calls == S.cfg.failAt) throw Injected("injected failure of the site"); }
    // lines start at multiples of the size of a pixel's component
    uint32_t unit(PixelType p) { return p == PixelType::Gray16 || p == PixelType::Bgr48 ? 2 : p == PixelType::Gray32Float ? 4 : 1; }
    class SiteBitmap : public GuardBitmap
    {
    public:
        SiteBitmap(PixelType p, uint32_t w, uint32_t h, uint32_t pad, uint8_t fill) : GuardBitmap(p, w, h, pad, fill) { ++S.live; }
        ~SiteBitmap() override { --S.live; if (locks) S.bad = mc::cat("a bitmap of the site was released with lock count ", locks); for (size_t i = 0; i < G; ++i) if (mem[i] != guardByte || mem[mem.size() - 1 - i] != guardByte) S.bad = "a byte outside of a bitmap of the site was modified"; }
    };
    struct Decoder : libCZI::IDecoder
    {
        std::shared_ptr<libCZI::IDecoder> d;
        std::shared_ptr<libCZI::IBitmapData> Decode(const void* p, size_t n, const PixelType* pt, const uint32_t* w, const uint32_t* h, const char* args) override
        {
            event("Decode"); auto b = d->Decode(p, n, pt, w, h, args); if (!b) return b; Pic q = picOf(b.get()); auto r = std::make_shared<SiteBitmap>(q.pt, q.w, q.h, (S.cfg.pad + 1) * unit(q.pt), S.cfg.fill);
            for (int y = 0; y < q.h; ++y) if (q.w) memcpy(r->row(y), q.at(0, y), (size_t)q.w * bpp(q.pt)); return r;
        }
    };
    struct Site : libCZI::ISite
    {
        libCZI::ISite* def() { return libCZI::GetDefaultSiteObject(libCZI::SiteObjectType::Default); }
        bool IsEnabled(int l) override { if (l < 0 || l > 5) S.bad = mc::cat("IsEnabled was asked for level ", l); return l >= 0 && l < 32 && ((S.cfg.log >> l) & 1); }
        void Log(int l, const char* m) override { ++S.logs; if (l < 0 || l > 5) S.bad = mc::cat("a message of level ", l); if (!m) S.bad = "a message without text"; else { volatile size_t n = strlen(m); (void)n; } }
        std::shared_ptr<libCZI::IDecoder> GetDecoder(libCZI::ImageDecoderType t, const char* a) override
        {
            event("GetDecoder"); ++S.decoders; auto d = def()->GetDecoder(t, a); if (!S.cfg.ownDecoder) return d; auto r = std::make_shared<Decoder>(); r->d = d; return r;
        }
        std::shared_ptr<libCZI::IBitmapData> CreateBitmap(PixelType p, uint32_t w, uint32_t h, uint32_t stride, uint32_t er, uint32_t ec) override
        {
            event("CreateBitmap"); ++S.created; if (er || ec) S.bad = "extra rows or columns were asked for";
            if (S.cfg.pad < 0) return def()->CreateBitmap(p, w, h, stride, er, ec);
            uint32_t pad = (uint32_t)S.cfg.pad * unit(p); if (stride) { if (stride < w * bpp(p)) { S.bad = mc::cat("a bitmap of ", w, " pixels with stride ", stride, " was asked for"); stride = w * bpp(p); } pad = stride - w * bpp(p); }
            return std::make_shared<SiteBitmap>(p, w, h, pad, S.cfg.fill);
        }
        void TerminateProgram(TerminationReason r, const char* m) override { ++S.terminated; if (r != TerminationReason::BitmapDestroyedWithLockCountNotZero || !m) S.bad = "wrong reason or no message when terminating"; }
    } site;
    struct Install { Install() { libCZI::SetSiteObject(&site); } } install;

    struct Res { Pic pic; Bytes bytes; bool failed = false; std::string err; bool ofSite = true; bool operator==(const Res& o) const { return failed == o.failed && pic == o.pic && bytes == o.bytes; } };
    struct Op { std::string text; bool view = false; std::function<Res()> run; };
    Res of(const std::shared_ptr<libCZI::IBitmapData>& b) { Res r; MC_CHECK(b, "no bitmap"); r.pic = picOf(b.get()); r.ofSite = dynamic_cast<SiteBitmap*>(b.get()) != nullptr; return r; }
    const PixelType PT[] = { PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48, PixelType::Gray32Float, PixelType::Bgra32 };
    enum Comp { Raw, Z0, Z1, Z1HiLo, Jxr, NComp };
    const char* compName[] = { "uncompressed", "zstd0", "zstd1", "zstd1 with hi-lo packing", "JPEG XR" };
    // false if this pixel type cannot be compressed that way
    bool compress(Sb& s, const Pic& p, Comp k)
    {
        const uint32_t st = (uint32_t)(p.w * bpp(p.pt)); std::shared_ptr<libCZI::IMemoryBlock> b; s.data = p.px; s.comp = 0; if (k == Raw) return true;
        if (k == Z1HiLo && p.pt != PixelType::Gray16 && p.pt != PixelType::Bgr48) return false; if (k == Jxr && (p.pt == PixelType::Gray32Float || p.pt == PixelType::Bgra32)) return false;
        if (k == Z0) b = libCZI::ZstdCompress::CompressZStd0Alloc(p.w, p.h, st, p.pt, p.px.data(), nullptr);
        else if (k == Jxr) b = libCZI::JxrLibCompress::Compress(p.pt, p.w, p.h, st, p.px.data(), nullptr);
        else { libCZI::CompressParametersOnMap m; m.map[(int)libCZI::CompressionParameterKey::ZSTD_PREPROCESS_DOLOHIBYTEPACKING] = libCZI::CompressParameter(k == Z1HiLo); b = libCZI::ZstdCompress::CompressZStd1Alloc(p.w, p.h, st, p.pt, p.px.data(), &m); }
        const uint8_t* q = (const uint8_t*)b->GetPtr(); s.data.assign(q, q + b->GetSizeOfData()); s.comp = (int)(k == Z0 ? libCZI::CompressionMode::Zstd0 : k == Jxr ? libCZI::CompressionMode::JpgXr : libCZI::CompressionMode::Zstd1); return true;
    }
    Tile tile(int x, int y, int lw, int lh, int pw, int ph, int m, PixelType pt, Comp k, uint32_t seed, int scene)
    {
        Tile t; t.sb = makeSb(scene < 0 ? std::vector<std::pair<D, int>>{ { D::C, 0 } } : std::vector<std::pair<D, int>>{ { D::C, 0 }, { D::S, scene } }, m, x, y, pw, ph, pt, seed); t.sb.lw = lw; t.sb.lh = lh; if (pw != lw || ph != lh) t.sb.pyr = SubBlockPyramidType::MultiSubBlock; if (!compress(t.sb, testPic(pt, pw, ph, seed), k)) throw mc::Prune(); return t;
    }
    Op operation(Ctx& c)
    {
        S = State(); Op o; const int kind = c.choose(8, "operation"); static const int sz[][2] = { { 1, 1 }, { 5, 3 }, { 17, 4 } };
        if (kind == 0)
        {
            const PixelType pt = PT[c.choose(6, "pixel type")]; const Comp k = (Comp)c.choose(NComp, "compression"); const auto& z = sz[c.choose(3, "size")]; Sb s = makeSb({ { D::C, 0 } }, 0, 0, 0, z[0], z[1], pt, 3); if (!compress(s, testPic(pt, z[0], z[1], 3), k)) throw mc::Prune();
            static const int dm[][2] = { { 0, 0 }, { 1, 0 }, { 0, 1 }, { -1, 0 }, { 0, -1 }, { 3, 2 } }; const auto& m = dm[c.choose(6, "declared size")]; s.pw = s.lw = std::max(1, z[0] + m[0]); s.ph = s.lh = std::max(1, z[1] + m[1]); const int lenient = c.choose(2, "lenient");
            Doc d; d.guid = guid(1); d.sbs = { s }; auto r = libCZI::CreateCZIReader(); r->Open(std::make_shared<MemStream>(writeDoc(d))); o.text = mc::cat("decoding a ", compName[k], " sub-block of ", name(pt), " ", z[0], "*", z[1], " declared as ", s.pw, "*", s.ph, lenient ? ", lenient" : "");
            o.view = k == Raw && s.data.size() >= (size_t)s.pw * s.ph * bpp(pt);
            o.run = [r, lenient] { auto b = r->ReadSubBlock(0); libCZI::CreateBitmapOptions co; co.handle_jpgxr_bitmap_mismatch = co.handle_uncompressed_data_size_mismatch = co.handle_zstd_data_size_mismatch = lenient != 0; return of(b->CreateBitmap(&co)); };
        }
        else if (kind <= 3)
        {
            const PixelType pt = PT[c.choose(5, "pixel type")], dst = PT[c.choose(5, "destination pixel type")]; const Comp k = (Comp)c.choose(NComp, "compression"); const bool layer = c.flip("pyramid layer"), border = kind == 1 && c.flip("tile border"), vis = c.flip("visibility check"); const int sc = c.flip("scenes") ? 0 : -1;
            std::vector<Tile> t = { tile(0, 0, 7, 6, 7, 6, 0, pt, k, 21, sc), tile(5, 2, 7, 6, 7, 6, 1, pt, k, 22, sc < 0 ? sc : 1) }; if (layer) t.push_back(tile(0, 0, 12, 8, 6, 4, 2, pt, k, 23, sc)); auto r = open(t);
            const int what = c.choose(3, "zoom / layer"); o.text = mc::cat(kind == 1 ? "tile" : kind == 2 ? "scaling" : "pyramid-layer", " accessor, ", compName[k], " tiles of ", name(pt), " to ", name(dst), layer ? ", with a pyramid layer" : "", border ? ", with border" : "", " variant ", what);
            o.run = [=]
            {
                libCZI::CDimCoordinate pl; pl.Set(D::C, 0); const libCZI::IntRect roi{ -1, 1, 12, 7 };
                auto opt = [&](auto& q) { q.Clear(); q.backGroundColor = { 0.3f, 0.6f, 0.9f }; q.drawTileBorder = border; };
                if (kind == 1) { libCZI::ISingleChannelTileAccessor::Options q; opt(q); q.useVisibilityCheckOptimization = vis; auto a = r->CreateSingleChannelTileAccessor(); if (what == 2) { GuardBitmap g(dst, roi.w, roi.h); a->Get(&g, roi.x, roi.y, &pl, &q); Res x; x.pic = g.pic(); return x; } return of(what ? a->Get(roi, &pl, &q) : a->Get(dst, roi, &pl, &q)); }
                if (kind == 2) { libCZI::ISingleChannelScalingTileAccessor::Options q; opt(q); q.useVisibilityCheckOptimization = vis; auto a = r->CreateSingleChannelScalingTileAccessor(); return of(what == 2 ? a->Get(roi, &pl, 0.7f, &q) : a->Get(dst, roi, &pl, what ? 0.5f : 1.f, &q)); }
                libCZI::ISingleChannelPyramidLayerTileAccessor::Options q; opt(q); auto a = r->CreateSingleChannelPyramidLayerTileAccessor(); libCZI::ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo pi; pi.minificationFactor = 2; pi.pyramidLayerNo = what == 1 ? 1 : 0; return of(what == 2 ? a->Get(roi, &pl, pi, &q) : a->Get(dst, roi, &pl, pi, &q));
            };
        }
        else if (kind == 4)
        {
            const PixelType pt = PT[c.choose(6, "pixel type")]; const auto& z = sz[c.choose(3, "size")]; const int w = 1 + c.choose(9, "width"), h = 1 + c.choose(5, "height"); const bool roi = c.flip("with regions"); auto g = std::make_shared<GuardBitmap>(testPic(pt, z[0], z[1], 5)); o.text = mc::cat("resizing ", name(pt), " ", z[0], "*", z[1], " to ", w, "*", h, roi ? " with regions" : "");
            const int sw = z[0], sh = z[1]; o.run = [=] { return of(roi ? libCZI::Utils::NearestNeighborResize(g.get(), w, h, libCZI::DblRect{ 0, 0, (double)sw, (double)sh }, libCZI::DblRect{ 0, 0, (double)w, (double)h }) : libCZI::Utils::NearestNeighborResize(g.get(), w, h)); };
        }
        else if (kind == 5)
        {
            const int n = 1 + c.choose(3, "channels"); const auto& z = sz[c.choose(3, "size")]; auto v = std::make_shared<std::vector<std::shared_ptr<GuardBitmap>>>(); auto ci = std::make_shared<std::vector<libCZI::Compositors::ChannelInfo>>(n);
            for (int i = 0; i < n; ++i) { const PixelType pt = PT[c.choose(3, "pixel type")]; v->push_back(std::make_shared<GuardBitmap>(testPic(pt, z[0], z[1], 30 + i))); auto& x = (*ci)[i]; x.Clear(); x.weight = 0.5f + 0.5f * i; if (i == 0) { const int wk = c.choose(4, "weight"); if (wk == 1) x.weight = -1; if (wk == 2) x.weight = std::numeric_limits<float>::quiet_NaN(); if (wk == 3) x.weight = 0; } x.blackPoint = 0.1f; x.whitePoint = 0.9f; x.enableTinting = i == 1; x.tinting.color = { 20, 200, 90 }; }
            const int alpha = c.choose(2, "alpha"); o.text = mc::cat("composing ", n, " channels ", z[0], "*", z[1], alpha ? " to Bgra32" : " to Bgr24"); o.run = [=] { std::vector<libCZI::IBitmapData*> p; for (auto& b : *v) p.push_back(b.get()); Res r = of(alpha ? libCZI::Compositors::ComposeMultiChannel_Bgra32(200, n, p.data(), ci->data()) : libCZI::Compositors::ComposeMultiChannel_Bgr24(n, p.data(), ci->data())); for (auto& b : *v) b->check("channel"); return r; };
        }
        else if (kind == 7)
        {
            static const char* col[] = { "<Color>#FF112233</Color>", "<Color>nonsense</Color>", "<Color></Color>", "", "<Color>#12</Color>" }, *pts[] = { "<Points>0.1,0.2 0.5,0.6</Points>", "<Points>x</Points>", "<Points></Points>", "", "<Points>0.1,0.2,0.3</Points>" }, *mode[] = { "<Mode>Spline</Mode>", "<Mode>spline</Mode>", "<Mode>Ramp</Mode>", "" };
            std::string xml = "<?xml version=\"1.0\" encoding=\"utf-8\"?><ImageDocument><Metadata><DisplaySetting><Channels>"; for (int i = 0; i < 2; ++i) { xml += mc::cat("<Channel Id=\"Channel:", i, "\">"); xml += col[c.choose(5, "colour")]; xml += mode[c.choose(4, "mode")]; xml += pts[c.choose(5, "points")]; xml += "</Channel>"; } xml += "</Channels></DisplaySetting></Metadata></ImageDocument>";
            o.text = "display settings of " + xml; o.view = true; o.run = [xml]
            {
                Doc d; d.guid = guid(1); d.md.present = true; d.md.xml.assign(xml.begin(), xml.end()); auto r = libCZI::CreateCZIReader(); r->Open(std::make_shared<MemStream>(writeDoc(d))); auto ds = r->ReadMetadataSegment()->CreateMetaFromMetadataSegment()->GetDocumentInfo()->GetDisplaySettings(); std::ostringstream t; t << (ds != nullptr);
                if (ds) ds->EnumChannels([&](int i) { auto q = ds->GetChannelDisplaySettings(i); libCZI::Rgb8Color k{ 0, 0, 0 }; const bool tint = q->TryGetTintingColorRgb8(&k); t << "|" << i << " " << q->GetIsEnabled() << tint << (int)k.r << "," << (int)k.g << "," << (int)k.b << " " << (int)q->GetGradationCurveMode(); std::vector<libCZI::IDisplaySettings::SplineControlPoint> cp; if (q->TryGetSplineControlPoints(&cp)) for (auto& x : cp) t << " " << x.x << ":" << x.y; return true; });
                Res x; const std::string u = t.str(); x.bytes.assign(u.begin(), u.end()); return x;
            };
        }
        else
        {
            const PixelType pt = PT[c.choose(4, "pixel type")]; const auto& z = sz[c.choose(3, "size")]; const int pad = c.choose(2, "padding") * 5; auto g = std::make_shared<GuardBitmap>(testPic(pt, z[0], z[1], 8), pad); o.text = mc::cat("JPEG XR compression of ", name(pt), " ", z[0], "*", z[1]);
            const int w = z[0], h = z[1]; o.run = [=] { auto b = libCZI::JxrLibCompress::Compress(pt, w, h, g->stride, g->row(0), nullptr); Res r; const uint8_t* q = (const uint8_t*)b->GetPtr(); r.bytes.assign(q, q + b->GetSizeOfData()); g->check("source"); return r; };
        }
        c.say([&](auto& s) { s << o.text; }); return o;
    }
    Res perform(const Op& o, const Cfg& k)
    {
        S = State(); S.cfg = k; Res r; try { r = o.run(); } catch (mc::Violation&) { throw; } catch (std::exception& e) { r = Res(); r.failed = true; r.err = e.what(); }
        S.cfg.failAt = 0; MC_CHECK(S.bad.empty(), o.text, " with ", k.text(), ": ", S.bad); MC_CHECK(S.live == 0, o.text, " with ", k.text(), ": ", S.live, " bitmaps of the site are not released", r.failed ? mc::cat(" after the error '", r.err, "'") : ""); MC_CHECK(!S.terminated, o.text, ": the site was asked to terminate the program"); return r;
    }
    std::vector<Cfg> configs(bool thorough)
    {
        std::vector<Cfg> v; auto add = [&](int pad, int fill, bool own, unsigned log) { Cfg k; k.pad = pad; k.fill = (uint8_t)fill; k.ownDecoder = own; k.log = log; v.push_back(k); };
        for (int pad : { 0, 1, 3, 16 }) for (int fill : { 0, 0xA5 }) for (int own = 0; own < 2; ++own) for (unsigned log : { 0u, 0x3fu }) add(pad, fill, own, log);
        for (int l = 0; l < 6; ++l) add(-1, 0, false, 1u << l); add(-1, 0, false, 0x3f); if (thorough) for (int pad = 2; pad < 40; ++pad) if (pad != 3) add(pad, 0x3c, pad & 1, pad & 2 ? 0x3f : 0); return v;
    }
    void layouts(Ctx& c)
    {
        Op o = operation(c); const Res want = perform(o, Cfg()); static const auto K = configs(false), KT = configs(true);
        for (auto& k : c.thorough() ? KT : K)
        {
            c.step(); const Res got = perform(o, k);
            MC_CHECK(got.failed == want.failed, o.text, " with ", k.text(), want.failed ? " succeeds" : " fails", " (", got.err, want.err, ")"); MC_CHECK(got.bytes == want.bytes, o.text, " with ", k.text(), ": the data differ"); MC_CHECK(got.pic == want.pic, o.text, " with ", k.text(), ": ", diff(want.pic, got.pic));
            MC_CHECK(got.failed || k.pad < 0 || o.view || got.ofSite, o.text, " with ", k.text(), ": the bitmap was not created by the site");
        }
        c.state(mc::hashBytes((const uint8_t*)o.text.data(), o.text.size())); c.outcome(mc::mix(mc::hashBytes(want.pic.px.data(), want.pic.px.size()), mc::hashBytes(want.bytes.data(), want.bytes.size())));
    }
    void failures(Ctx& c)
    {
        Op o = operation(c); const Res want = perform(o, Cfg()); Cfg k; k.pad = 1; k.fill = 0x77; k.ownDecoder = c.flip("own decoder"); if (c.flip("logging")) k.log = 0x3f;
        for (int n = 1; n < 200; ++n)
        {
            c.step(); k.failAt = n; Res r = perform(o, k); if (S.calls < n) break; const std::string at = mc::cat(o.text, ": call ", n, " of the site (", S.last, ") fails");
            MC_CHECK(r.failed, at, ", but no error is reported"); c.outcome(mc::mix(n, S.created * 64 + S.decoders));
            k.failAt = 0; Res again = perform(o, k); MC_CHECK(again == want, at, "; the next call gives ", again.failed ? mc::cat("an error (", again.err, ")") : diff(want.pic, again.pic));
        }
        c.state(mc::hashBytes((const uint8_t*)o.text.data(), o.text.size()));
    }
    void lockHistories(Ctx& c)
    {
        S = State(); if (c.flip("logging")) S.cfg.log = 0x3f; const int view = c.choose(2, "bitmap of the default site / view of a sub-block"); std::shared_ptr<libCZI::IBitmapData> b;
        if (view) { Doc d; d.guid = guid(1); d.sbs = { makeSb({ { D::C, 0 } }, 0, 0, 0, 3, 2, PixelType::Gray8, 1) }; auto r = libCZI::CreateCZIReader(); r->Open(std::make_shared<MemStream>(writeDoc(d))); b = r->ReadSubBlock(0)->CreateBitmap(); } else b = site.def()->CreateBitmap(PixelType::Gray8, 3, 2, 0, 0, 0);
        const int n = c.choose(c.thorough() ? 9 : 7, "length"); int locks = 0; std::string h; void* first = nullptr;
        for (int i = 0; i < n; ++i)
        {
            c.step(); const bool lock = c.flip("lock"); h += lock ? 'L' : 'U';
            if (lock) { auto l = b->Lock(); MC_CHECK(l.ptrDataRoi && l.stride >= 3 && l.size >= 6, h, ": Lock gives no usable memory"); if (!first) first = l.ptrDataRoi; MC_CHECK(first == l.ptrDataRoi, h, ": Lock gives other memory"); ++locks; }
            else { bool t = false; try { b->Unlock(); } catch (std::exception&) { t = true; } MC_CHECK(t == (locks == 0), h, locks ? ": Unlock is refused" : ": an unbalanced Unlock is accepted"); if (locks) --locks; }
            MC_CHECK(b->GetLockCount() == locks, h, ": the lock count is ", b->GetLockCount(), " instead of ", locks);
        }
        b.reset(); MC_CHECK(S.bad.empty(), h, ": ", S.bad); MC_CHECK(S.terminated == (locks ? 1 : 0), h, ", then released: the site is asked ", S.terminated, " times to terminate the program"); c.state(mc::mix(view, locks)); c.outcome(locks);
    }
    void installing(Ctx& c)
    {
        const int n = c.choose(4, "calls"); for (int i = 0; i < n; ++i) { c.step(); bool t = false; Site other; try { libCZI::SetSiteObject(&other); } catch (std::exception&) { t = true; } MC_CHECK(t, "a second site object is accepted"); }
        Op o = operation(c); S = State(); Cfg k; k.pad = 2; perform(o, k); c.state(n); c.outcome(n);
    }
    struct Reg { Reg() {
        using namespace mc;
        const char* ops = "decoding (6 pixel types x 5 compressions x 3 sizes x 6 declared sizes x strict/lenient), 3 accessors (25 pixel type pairs x 5 compressions x layers x scenes x options), resizing, composing 1..3 channels (proper and improper weights), JPEG XR compression, display settings (10000 proper and improper XML texts)";
        add({ "C26", "site_layouts", mc::cat(ops, "; each with 39 (76) site configurations (line padding x initial content x decoder x log levels) against the default site"), layouts });
        add({ "C26", "site_failures", mc::cat(ops, "; every call to the site fails once: error reported, everything released, next call right"), failures });
        add({ "C26", "lock_histories", "all sequences of <=6 (8) Lock/Unlock calls on two kinds of bitmaps, then released", lockHistories });
        add({ "C26", "installing", "a second site object is refused, the first stays in use", installing });
    } } reg;
}
