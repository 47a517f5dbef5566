// C11, C12, C18: performance options, scaled composition, masks.
#include "compose.h"
using namespace cp; using mc::Ctx;

namespace
{
    struct Opt { bool sortByM = true, vis = false, maskAware = false, onlyCompressed = true; std::string filter; std::shared_ptr<libCZI::ISubBlockCacheOperation> cache; float bg[3] = { 0.2f, 0.5f, 0.7f }; };
    template <typename O> void setOpt(O& o, const Opt& q)
    {
        o.Clear(); o.backGroundColor = { q.bg[0], q.bg[1], q.bg[2] }; o.sortByM = q.sortByM; o.maskAware = q.maskAware; o.subBlockCache = q.cache; o.onlyUseSubBlockCacheForCompressedData = q.onlyCompressed;
        if (!q.filter.empty()) o.sceneFilter = libCZI::Utils::IndexSetFromString(std::wstring(q.filter.begin(), q.filter.end()));
    }
    enum Kind { KTile, KScale, KPyramid };
    struct Rq { Kind kind; Rect roi; float zoom; int minification, layer; std::string text() const { return mc::cat(kind == KTile ? "tile" : kind == KScale ? "scaling" : "pyramid-layer", " accessor, region (", roi.x, ",", roi.y, ",", roi.w, ",", roi.h, ")", kind == KScale ? mc::cat(" zoom ", zoom) : kind == KPyramid ? mc::cat(" minification ", minification, " layer ", layer) : ""); } };
    // the picture, or the type of the error
    Pic get(libCZI::ICZIReader* r, const libCZI::CDimCoordinate& plane, const Rq& q, const Opt& o, PixelType pt, std::string& err, bool once = false)
    {
        err.clear();
        try
        {
            if (q.kind == KTile)
            {
                auto a = r->CreateSingleChannelTileAccessor(); libCZI::ISingleChannelTileAccessor::Options op; setOpt(op, o); op.useVisibilityCheckOptimization = o.vis;
                GuardBitmap g(pt, q.roi.w, q.roi.h); a->Get(&g, q.roi.x, q.roi.y, &plane, &op); g.check("tile accessor"); return g.pic();
            }
            if (q.kind == KScale)
            {
                auto a = r->CreateSingleChannelScalingTileAccessor(); libCZI::ISingleChannelScalingTileAccessor::Options op; setOpt(op, o); op.useVisibilityCheckOptimization = o.vis;
                const libCZI::IntRect roi{ q.roi.x, q.roi.y, q.roi.w, q.roi.h }; auto sz = a->CalcSize(roi, q.zoom);
                const double ew = (double)q.roi.w * q.zoom, eh = (double)q.roi.h * q.zoom; MC_CHECK(std::abs(sz.w - ew) < 1.001 && std::abs(sz.h - eh) < 1.001, "CalcSize gives ", sz.w, "*", sz.h, " for ", q.text());
                if (!sz.w || !sz.h) { err = "empty"; return {}; }
                GuardBitmap g(pt, sz.w, sz.h); a->Get(&g, roi, &plane, q.zoom, &op); g.check("scaling accessor"); if (once) return g.pic();
                auto b = a->Get(pt, roi, &plane, q.zoom, &op); Pic p = picOf(b.get()); MC_CHECK(p == g.pic(), q.text(), ": the overloads give different pictures: ", diff(g.pic(), p)); return p;
            }
            auto a = r->CreateSingleChannelPyramidLayerTileAccessor(); libCZI::ISingleChannelPyramidLayerTileAccessor::Options op; setOpt(op, o);
            libCZI::ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo pi; pi.minificationFactor = (uint8_t)q.minification; pi.pyramidLayerNo = (uint8_t)q.layer;
            int p = 1; for (int i = 0; i < q.layer; ++i) p *= q.minification; const int w = q.roi.w / p, h = q.roi.h / p; if (!w || !h) { err = "empty"; return {}; }
            GuardBitmap g(pt, w, h); a->Get(&g, q.roi.x, q.roi.y, &plane, pi, &op); g.check("pyramid-layer accessor"); if (once) return g.pic();
            auto b = a->Get(pt, libCZI::IntRect{ q.roi.x, q.roi.y, q.roi.w, q.roi.h }, &plane, pi, &op); Pic pp = picOf(b.get()); MC_CHECK(pp == g.pic(), q.text(), ": the overloads give different pictures: ", diff(g.pic(), pp)); return pp;
        }
        catch (mc::Violation&) { throw; } catch (std::exception& e) { err = e.what(); return {}; }
    }
    Tile tile(int x, int y, int lw, int lh, int pw, int ph, int m, PixelType pt, uint32_t seed, std::vector<std::pair<D, int>> dims = { { D::C, 0 } })
    {
        Tile t; t.sb = makeSb(dims, m, x, y, pw, ph, pt, seed); t.sb.lw = lw; t.sb.lh = lh; setPic(t.sb, testPic(pt, pw, ph, seed)); if (pw != lw || ph != lh) t.sb.pyr = SubBlockPyramidType::MultiSubBlock; return t;
    }
    void compress(Tile& t)
    {
        auto blk = libCZI::ZstdCompress::CompressZStd0Alloc(t.sb.pw, t.sb.ph, (uint32_t)(t.sb.pw * bpp(t.sb.pt)), t.sb.pt, t.sb.data.data(), nullptr);
        const uint8_t* p = (const uint8_t*)blk->GetPtr(); t.sb.data.assign(p, p + blk->GetSizeOfData()); t.sb.comp = (int)libCZI::CompressionMode::Zstd0;
    }
    Mask makeMask(int w, int h, int kind, uint32_t seed)
    {
        Mask m; m.w = w; m.h = h; m.bit.resize((size_t)w * h); uint32_t v = seed * 7919 + 1; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { v = v * 1664525u + 1013904223u; m.bit[(size_t)y * w + x] = kind == 0 ? 0 : kind == 1 ? 1 : kind == 2 ? (x + y) & 1 : (v >> 20) & 1; } return m;
    }
    libCZI::CDimCoordinate plane0() { libCZI::CDimCoordinate c; c.Set(D::C, 0); return c; }
    void describe(Ctx& c, const std::vector<Tile>& tiles) { c.say([&](std::ostream& o) { for (auto& t : tiles) o << "  tile " << t.sb.head() << (t.hasMask ? " with mask" : "") << "\n"; }); }
    uint64_t hashTiles(const std::vector<Tile>& tiles) { uint64_t h = 3; for (auto& t : tiles) h = mc::hashStr(t.sb.key(), h); return h; }

    // ------------------------------------------------------------------ C11: visibility check
    void visibility(Ctx& c)
    {
        static const Rect shapes[] = { {0,0,6,5}, {3,0,5,5}, {0,2,9,4}, {2,1,3,2}, {-3,-2,7,6}, {0,0,9,7}, {5,3,4,4}, {0,0,3,7} };
        const int n = 2 + c.choose(c.thorough() ? 3 : 2, "tiles"); std::vector<Tile> tiles; const int masks = c.choose(3, "masks");
        for (int i = 0; i < n; ++i)
        {
            const Rect& s = shapes[c.choose(n == 4 ? 5 : 8, "tile")]; tiles.push_back(tile(s.x, s.y, s.w, s.h, s.w, s.h, masks == 1 ? n - 1 - i : i, PixelType::Gray8, 60 + i));
            if (masks == 1 || (masks == 2 && i == n - 1)) { Tile& t = tiles.back(); t.hasMask = true; t.mask = makeMask(s.w, s.h, 3, i); setMask(t.sb, t.mask); }
        }
        auto r = open(tiles); auto pl = plane0(); describe(c, tiles); std::string e1, e2;
        static const Rect rois[] = { {-4,-3,15,12}, {0,0,9,7}, {1,1,5,3}, {2,0,2,2} }; static const float zooms[] = { 1.f, .5f, 1.f / 3, .7f, .25f, 1.5f, 2.f, .9f };
        for (const Rect& roi : rois) for (int ma = 0; ma < (masks ? 2 : 1); ++ma) for (int srt = 0; srt < 2; ++srt) for (int k = -1; k < 8; ++k)
        {
            Rq q{ k < 0 ? KTile : KScale, roi, k < 0 ? 1.f : zooms[k], 0, 0 }; Opt o; o.maskAware = ma; o.sortByM = srt; c.step();
            Pic a = get(r.get(), pl, q, o, PixelType::Gray8, e1); o.vis = true; Pic b = get(r.get(), pl, q, o, PixelType::Gray8, e2);
            MC_CHECK(e1 == e2, q.text(), ": without visibility check '", e1, "', with it '", e2, "'"); MC_CHECK(a == b, q.text(), ma ? " mask-aware" : "", srt ? "" : " unsorted", ": the visibility check changes the picture: ", diff(a, b));
        }
        c.state(hashTiles(tiles));
    }
    // scaled pictures in which covering tiles end at the same border with various left edges (rounding of the geometry)
    void visibilityScaled(Ctx& c)
    {
        const int x1 = c.choose(4, "left edge beneath") * 3, x2 = c.choose(4, "left edge on top") * 2 - 1, w = 20 + c.choose(c.thorough() ? 12 : 6, "right edge"); const bool vertical = c.flip("vertical");
        if (x2 > x1) throw mc::Prune();
        auto mk = [&](int a, int b, int m, uint32_t seed) { return vertical ? tile(0, a, 3, b - a, 3, b - a, m, PixelType::Gray8, seed) : tile(a, 0, b - a, 3, b - a, 3, m, PixelType::Gray8, seed); };
        std::vector<Tile> tiles = { mk(x1, w, 0, 3), mk(x2, w, 1, 4) }; auto r = open(tiles); auto pl = plane0(); describe(c, tiles); std::string e1, e2;
        for (int roiLen = w; roiLen <= w + 8; ++roiLen) for (int start = -3; start <= 2; ++start) for (int z = 1; z <= 24; ++z)
        {
            const float zoom = z / 20.f; Rq q{ KScale, vertical ? Rect{ 0, start, 3, roiLen } : Rect{ start, 0, roiLen, 3 }, zoom, 0, 0 }; if (vertical) q.roi.w = 30; else q.roi.h = 30; Opt o; c.step();
            Pic a = get(r.get(), pl, q, o, PixelType::Gray8, e1); o.vis = true; Pic b = get(r.get(), pl, q, o, PixelType::Gray8, e2);
            MC_CHECK(e1 == e2 && a == b, q.text(), ": the visibility check changes the picture: ", e1, "/", e2, " ", diff(a, b));
        }
        c.state(hashTiles(tiles));
    }
    // ------------------------------------------------------------------ C11: cache
    struct PruningCache : libCZI::ISubBlockCacheOperation
    {   // a cache which is pruned by somebody else at any moment
        std::shared_ptr<libCZI::ISubBlockCache> c = libCZI::CreateSubBlockCache(); Ctx& ctx; explicit PruningCache(Ctx& x) : ctx(x) {}
        void prune() { const int a = ctx.deviate(4, "prune now"); if (!a) return; libCZI::ISubBlockCacheControl::PruneOptions o; if (a == 1) o.maxSubBlockCount = 0; else if (a == 2) o.maxSubBlockCount = 1; else o.maxMemoryUsage = 40; c->Prune(o); }
        CacheItem Get(int i) override { prune(); auto r = c->Get(i); return r; }
        void Add(int i, const CacheItem& it) override { prune(); c->Add(i, it); }
    };
    std::vector<Tile> pyramidDoc(int variant)
    {
        std::vector<Tile> t;
        t.push_back(tile(0, 0, 8, 8, 8, 8, 0, PixelType::Gray8, 31)); t.push_back(tile(6, 2, 8, 8, 8, 8, 1, PixelType::Gray8, 32)); t.push_back(tile(-4, 4, 8, 6, 8, 6, 2, PixelType::Gray8, 33));
        t.push_back(tile(0, 0, 16, 16, 8, 8, -1, PixelType::Gray8, 34));
        for (size_t i = 0; i < t.size(); ++i)
        {
            if (variant & 1) { if (i != 1) { t[i].hasMask = true; t[i].mask = makeMask(t[i].sb.pw, t[i].sb.ph, i == 0 ? 2 : 3, (uint32_t)i); setMask(t[i].sb, t[i].mask); } }
            if ((variant & 2) && i % 2 == 0) compress(t[i]);
        }
        return t;
    }
    void cacheHistory(Ctx& c)
    {
        const int variant = c.choose(4, "document"); auto tiles = pyramidDoc(variant); auto r = open(tiles); auto pl = plane0(); const int mode = c.choose(2, "mode"); c.setDeviationBudget(mode == 0 ? (c.thorough() ? 3 : 2) : (c.thorough() ? 1 : 0));
        static const Rq qs[] = { { KTile, { -4, 0, 12, 10 }, 1, 0, 0 }, { KTile, { 5, 1, 6, 6 }, 1, 0, 0 }, { KScale, { -4, 0, 18, 12 }, 1.f, 0, 0 }, { KScale, { -4, 0, 18, 12 }, .5f, 0, 0 }, { KScale, { 0, 0, 14, 10 }, .7f, 0, 0 }, { KPyramid, { 0, 0, 16, 16 }, 1, 2, 1 }, { KPyramid, { -4, 0, 18, 10 }, 1, 2, 0 } };
        auto cache = std::make_shared<PruningCache>(c); const int depth = mode ? 3 : 2; uint64_t h = variant; std::string e1, e2;
        for (int i = 0; i < depth; ++i)
        {
            const Rq& q = qs[c.choose(i == 0 ? 7 : 7, "request")]; Opt o; const int v = c.choose(variant & 1 ? 4 : 3, "options"); o.maskAware = v == 1 || v == 3; o.onlyCompressed = v >= 2; if (!(variant & 1)) { o.maskAware = false; o.vis = v == 1; } else o.vis = v == 3;
            Opt plain = o; plain.vis = false; c.say([&](std::ostream& s) { s << "  " << q.text() << (o.maskAware ? " mask-aware" : "") << (o.onlyCompressed ? " cache only compressed" : " cache all") << (o.vis ? " visibility check" : ""); });
            o.cache = cache; Pic b = get(r.get(), pl, q, o, PixelType::Gray8, e2, true);
            static std::map<std::string, std::pair<Pic, std::string>> memo; auto key = mc::cat(variant, q.text(), plain.maskAware); auto it = memo.find(key);
            if (it == memo.end()) { Pic a = get(r.get(), pl, q, plain, PixelType::Gray8, e1); it = memo.emplace(key, std::make_pair(a, e1)).first; }
            MC_CHECK(it->second.second == e2, q.text(), ": without cache '", it->second.second, "', with it '", e2, "'"); MC_CHECK(it->second.first == b, q.text(), o.maskAware ? " mask-aware" : "", ": the cache changes the picture: ", diff(it->second.first, b));
            c.step(); h = mc::hashStr(mc::cat(q.text(), v), h); auto s = cache->c->GetStatistics(libCZI::ISubBlockCacheStatistics::kMemoryUsage | libCZI::ISubBlockCacheStatistics::kElementsCount); h = mc::mix(h, s.elementsCount * 100000 + s.memoryUsage); c.state(h);
        }
    }
    // ------------------------------------------------------------------ C12/C18: reference of the scaling accessor
    struct RefTile { const Tile* t; Pic pic; };
    double zoomOf(const Sb& s) { return (double)std::max(s.pw, s.ph) / (s.pw >= s.ph ? s.lw : s.lh); }
    void checkScaled(const std::vector<Tile>& tiles, const std::vector<Pic>& pics, const Rq& q, const Opt& o, const Pic& got)
    {
        // groups: per scene if more than one scene is involved
        std::map<int, Rect> box; for (auto& t : tiles) if (t.sb.hasDim(D::S)) { int s = t.sb.dim(D::S, 0); Rect b{ t.sb.x, t.sb.y, t.sb.x + t.sb.lw, t.sb.y + t.sb.lh }; auto it = box.find(s); if (it == box.end()) box[s] = b; else it->second = { std::min(b.x, it->second.x), std::min(b.y, it->second.y), std::max(b.w, it->second.w), std::max(b.h, it->second.h) }; }
        std::vector<int> involved; for (auto& b : box) { if (!o.filter.empty() && o.filter != std::to_string(b.first)) continue; Sb s; s.x = b.second.x; s.y = b.second.y; s.lw = b.second.w - s.x; s.lh = b.second.h - s.y; if (isect(q.roi, s)) involved.push_back(b.first); }
        std::vector<std::vector<int>> groups; if (involved.empty()) { groups.push_back({}); for (size_t i = 0; i < tiles.size(); ++i) if (!tiles[i].sb.hasDim(D::S)) groups[0].push_back((int)i); }
        for (int s : involved) { groups.emplace_back(); for (size_t i = 0; i < tiles.size(); ++i) if (tiles[i].sb.hasDim(D::S) && tiles[i].sb.dim(D::S, 0) == s) groups.back().push_back((int)i); }
        std::vector<int> order;
        for (auto& g : groups)
        {
            std::vector<int> v; for (int i : g) if (isect(q.roi, tiles[i].sb) && tiles[i].sb.dim(D::C, 0) == 0) v.push_back(i);
            if (v.empty()) continue;
            double start = 1e30, best = 0; for (int i : v) { const double z = zoomOf(tiles[i].sb); best = std::max(best, z); if (z >= q.zoom / 1.05) start = std::min(start, z); } if (start > 1e29) start = best;
            std::vector<int> w; for (int i : v) { const double z = zoomOf(tiles[i].sb); if (z > start * 0.96 && z < start * 1.8) w.push_back(i); }
            std::stable_sort(w.begin(), w.end(), [&](int a, int b) { const double za = zoomOf(tiles[a].sb), zb = zoomOf(tiles[b].sb); if (std::abs(za - zb) > .001) return za < zb; return tiles[a].sb.m < tiles[b].sb.m; });
            order.insert(order.end(), w.begin(), w.end());
        }
        const double sx = (double)q.roi.w / got.w, sy = (double)q.roi.h / got.h, eps0 = 1e-6, eps = std::max(1e-6, 1e-6 * sx);
        Pic bg(got.pt, 1, 1); fillPic(bg, o.bg[0], o.bg[1], o.bg[2]);
        for (int y = 0; y < got.h; ++y) for (int x = 0; x < got.w; ++x)
        {
            const double X = q.roi.x + x * sx, Y = q.roi.y + y * sy; bool ok = false, sure = false; std::string cand;
            int sureTile = -1; for (auto it = order.rbegin(); it != order.rend() && !ok; ++it)
            {
                // the order of tiles of one pyramid layer is not specified: any of them may be on top
                if (sure && (tiles[sureTile].sb.layer0() || tiles[*it].sb.layer0() || std::abs(zoomOf(tiles[sureTile].sb) - zoomOf(tiles[*it].sb)) > .001 || tiles[sureTile].sb.dim(D::S, -1) != tiles[*it].sb.dim(D::S, -1))) break;
                const Sb& s = tiles[*it].sb; const Pic& p = pics[*it];
                // position relative to the part of the tile inside of the region
                const double l = std::max<double>(s.x, q.roi.x), t = std::max<double>(s.y, q.roi.y), r = std::min<double>((double)s.x + s.lw, (double)q.roi.x + q.roi.w), b = std::min<double>((double)s.y + s.lh, (double)q.roi.y + q.roi.h);
                if (X < l - eps || X > r + eps || Y < t - eps || Y > b + eps) continue;
                const bool inside = X > l - eps && X < r - eps && Y > t - eps && Y < b - eps && !(X > l - eps && X < l + eps && X < l) && !(Y < t && Y > t - eps);
                const double fx = (X - s.x) * s.pw / s.lw, fy = (Y - s.y) * s.ph / s.lh; bool all = true;
                for (double ex : { -eps0, eps0 }) for (double ey : { -eps0, eps0 })
                {
                    int ix = (int)std::floor(fx + ex + .5), iy = (int)std::floor(fy + ey + .5); ix = std::min(std::max(ix, 0), p.w - 1); iy = std::min(std::max(iy, 0), p.h - 1);
                    if (o.maskAware && tiles[*it].hasMask && !tiles[*it].mask.get(ix, iy)) { all = false; continue; }
                    uint8_t px[48]; convert(p.pt, p.at(ix, iy), got.pt, px); if (!memcmp(px, got.at(x, y), bpp(got.pt))) ok = true; cand += mc::cat(" tile ", *it, "(", ix, ",", iy, ")=", (int)px[0]);
                }
                if (!sure && inside && all && X > l + eps - 2 * eps && Y > t - eps) { sure = !(std::abs(X - l) < eps && X < l) && !(std::abs(Y - t) < eps && Y < t); if (sure) sureTile = *it; }
            }
            if (!ok && !sure && !memcmp(bg.px.data(), got.at(x, y), bpp(got.pt))) ok = true;
            MC_CHECK(ok, q.text(), o.maskAware ? " mask-aware" : "", ": pixel (", x, ",", y, ") at document position (", X, ",", Y, ") is ", (int)got.at(x, y)[0], ", acceptable:", cand, sure ? "" : " or what is beneath", "\n  ", got.text());
        }
    }
    void checkPyramid(const std::vector<Tile>& tiles, const std::vector<Pic>& pics, const Rq& q, const Opt& o, const Pic& got)
    {
        int p = 1; for (int i = 0; i < q.layer; ++i) p *= q.minification; const Rect reg{ q.roi.x, q.roi.y, got.w * p, got.h * p }; std::vector<Layer> l;
        auto fl = [&](int v) { return v >= 0 ? v / p : -((-v + p - 1) / p); };
        for (size_t i = 0; i < tiles.size(); ++i)
        {
            const Sb& s = tiles[i].sb; if (!isect(reg, s) || s.dim(D::C, 0) != 0) continue; if (!o.filter.empty() && s.hasDim(D::S) && o.filter != std::to_string(s.dim(D::S, 0))) continue;
            const double f = 1 / zoomOf(s); int layer = 0; double m = 1; while (std::round(f) > m) { m *= q.minification; ++layer; } if (layer != q.layer) continue;
            l.push_back({ &pics[i], fl(s.x - q.roi.x), fl(s.y - q.roi.y), o.maskAware && tiles[i].hasMask ? &tiles[i].mask : nullptr, s.mValid, s.m });
        }
        Pic base(got.pt, got.w, got.h); fillPic(base, o.bg[0], o.bg[1], o.bg[2]); checkPicture(base, l, o.sortByM, got, false, [&] { return q.text(); });
    }
    std::vector<Pic> picsOf(const std::vector<Tile>& tiles) { std::vector<Pic> p; for (auto& t : tiles) p.push_back(picOfSb(t.sb)); return p; }

    void scaling(Ctx& c)
    {
        // layer 0: 1..3 tiles; layer 1 and 2 complete, partial or absent
        const int n = 1 + c.choose(3, "layer-0 tiles"), l1 = c.choose(4, "layer 1"), l2 = c.choose(3, "layer 2"); std::vector<Tile> tiles; const bool other = c.flip("other channel");
        static const Rect s0[] = { {0,0,12,8}, {8,2,8,10}, {-4,6,9,9}, {0,0,5,5} }; uint32_t seed = 100;
        for (int i = 0; i < n; ++i) { const Rect& r = s0[c.choose(4, "tile")]; tiles.push_back(tile(r.x, r.y, r.w, r.h, r.w, r.h, (i * 2) % 3, PixelType::Gray8, seed++)); }
        if (l1 & 1) tiles.push_back(tile(-4, 0, 12, 16, 6, 8, -1, PixelType::Gray8, seed++)); if (l1 & 2) tiles.push_back(tile(8, 0, 8, 12, 4, 6, -1, PixelType::Gray8, seed++));
        if (l2 == 1) tiles.push_back(tile(-4, 0, 20, 16, 5, 4, -1, PixelType::Gray8, seed++)); if (l2 == 2) tiles.push_back(tile(0, 0, 12, 16, 3, 4, -1, PixelType::Gray8, seed++));
        if (other) tiles.insert(tiles.begin(), tile(-4, 0, 30, 30, 30, 30, 0, PixelType::Gray8, seed++, { { D::C, 1 } }));
        auto r = open(tiles); auto pl = plane0(); describe(c, tiles); auto pics = picsOf(tiles); std::string e;
        static const Rect rois[] = { {-4,0,20,16}, {0,0,12,8}, {-6,-3,17,13}, {9,3,5,7}, {2,1,3,3} }; static const float zooms[] = { 1.f, .5f, .25f, .75f, .3f, .4f, .6f, .9f, .1f, 1.f / 3, 1.02f, 1.3f, 2.f, 3.7f, .52f, .53f, .55f, .26f, .27f };
        for (const Rect& roi : rois) for (float z : zooms)
        {
            Rq q{ KScale, roi, z, 0, 0 }; Opt o; c.step(); Pic p = get(r.get(), pl, q, o, PixelType::Gray8, e); if (e == "empty") continue; MC_CHECK(e.empty(), q.text(), " failed: ", e); checkScaled(tiles, pics, q, o, p);
        }
        c.state(hashTiles(tiles));
    }
    void scalingPixelTypes(Ctx& c)
    {
        static const PixelType pts[] = { PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48, PixelType::Gray32Float };
        const PixelType s = pts[c.choose(5, "tile")], d = pts[c.choose(5, "requested")]; const int mk = c.choose(5, "mask"); if (!convertible(s, d)) throw mc::Prune();
        std::vector<Tile> tiles = { tile(0, 0, 11, 9, 11, 9, 0, s, 1), tile(5, -3, 10, 9, 10, 9, 1, s, 2), tile(0, 0, 12, 10, 6, 5, -1, s, 3) };
        if (mk) for (size_t i = 0; i < 3; ++i) { Tile& t = tiles[i]; t.hasMask = true; t.mask = makeMask(mk == 4 ? t.sb.pw - 3 : t.sb.pw, mk == 4 ? t.sb.ph + 2 : t.sb.ph, mk == 4 ? 1 : mk - 1 ? mk : 0, 5 + (uint32_t)i); setMask(t.sb, t.mask); }
        auto r = open(tiles); auto pl = plane0(); auto pics = picsOf(tiles); std::string e;
        static const Rect rois[] = { {0,-3,15,12}, {3,2,6,5}, {-2,-5,20,20} }; static const float zooms[] = { 1.f, .5f, .75f, .3f, 2.f, 1.4f };
        for (const Rect& roi : rois) for (float z : zooms) for (int ma = 0; ma < (mk ? 2 : 1); ++ma)
        {
            Rq q{ KScale, roi, z, 0, 0 }; Opt o; o.maskAware = ma; c.step(); Pic p = get(r.get(), pl, q, o, d, e); if (e == "empty") continue; MC_CHECK(e.empty(), q.text(), " failed: ", e); checkScaled(tiles, pics, q, o, p);
        }
        for (int layer = 0; layer < 2; ++layer) for (const Rect& roi : rois) for (int ma = 0; ma < (mk ? 2 : 1); ++ma) { Rq q{ KPyramid, roi, 1, 2, layer }; Opt o; o.maskAware = ma; c.step(); Pic p = get(r.get(), pl, q, o, d, e); if (e == "empty") continue; MC_CHECK(e.empty(), q.text(), " failed: ", e); checkPyramid(tiles, pics, q, o, p); }
        c.state(mc::hashStr(mc::cat((int)s, ",", (int)d, ",", mk)));
    }
    void scalingScenes(Ctx& c)
    {
        // two scenes side by side (and optionally a third, far away), each with or without a pyramid
        std::vector<Tile> tiles; uint32_t seed = 200; const int n = 1 + c.choose(3, "scenes"); const int over = c.choose(2, "pyramid tiles reach beyond layer 0") * 8;
        for (int s = 0; s < n; ++s)
        {
            const int x = s == 2 ? 100 : s * 16, layers = c.choose(4, "layers"); std::vector<std::pair<D, int>> dims = { { D::C, 0 }, { D::S, s == 1 ? 3 : s } };
            tiles.push_back(tile(x, 0, 12, 12, 12, 12, 0, PixelType::Gray8, seed++, dims)); tiles.push_back(tile(x + 6, 4, 8, 10, 8, 10, 1, PixelType::Gray8, seed++, dims));
            if (layers & 1) tiles.push_back(tile(x, 0, 14, 14, 7, 7, -1, PixelType::Gray8, seed++, dims)); if (layers & 2) tiles.push_back(tile(x, 0, 16 + over, 16 + over, 4 + over / 4, 4 + over / 4, -1, PixelType::Gray8, seed++, dims));
        }
        auto r = open(tiles); auto pl = plane0(); describe(c, tiles); auto pics = picsOf(tiles); std::string e;
        static const Rect rois[] = { {0,0,32,16}, {2,2,8,8}, {10,0,12,12}, {-3,-3,130,20}, {40,0,10,10}, {14,0,2,16}, {112,14,20,6}, {2,17,34,5} }; static const float zooms[] = { 1.f, .5f, .25f, .75f, .3f, .15f, 1.4f, .53f };
        for (const char* f : { "", "0", "3", "7" }) for (const Rect& roi : rois)
        {
            for (float z : zooms) { Rq q{ KScale, roi, z, 0, 0 }; Opt o; o.filter = f; c.step(); Pic p = get(r.get(), pl, q, o, PixelType::Gray8, e); if (e == "empty") continue; MC_CHECK(e.empty(), q.text(), " failed: ", e); checkScaled(tiles, pics, q, o, p); }
            for (int layer = 0; layer < 4; ++layer) { Rq q{ KPyramid, roi, 1, 2, layer }; Opt o; o.filter = f; c.step(); Pic p = get(r.get(), pl, q, o, PixelType::Gray8, e); if (e == "empty") continue; MC_CHECK(e.empty(), q.text(), " failed: ", e); checkPyramid(tiles, pics, q, o, p); }
        }
        c.state(hashTiles(tiles));
    }
    void pyramid(Ctx& c)
    {
        const int mf = 2 + c.choose(3, "minification"); const int n = 1 + c.choose(2, "tiles"); std::vector<Tile> tiles; uint32_t seed = 300; static const int pos[] = { 0, -8, 3, -1, 8, -5 };
        for (int i = 0; i < n; ++i) for (int layer = 0; layer < 3; ++layer)
        {
            int p = 1; for (int k = 0; k < layer; ++k) p *= mf; if (i == 0 && layer == 0) {} const int x = pos[c.choose(i ? 3 : 6, "x")], y = i ? 2 : pos[(x & 3) + 1];
            const int m = mf == 3 ? n - 1 - i : i; tiles.push_back(tile(x, y, 4 * p, 3 * p, 4, 3, m, PixelType::Gray8, seed++)); if (layer) tiles.back().sb.m = m + 2 * layer;
        }
        auto r = open(tiles); auto pl = plane0(); describe(c, tiles); auto pics = picsOf(tiles); std::string e;
        static const Rect rois[] = { {0,0,32,32}, {-8,-8,24,24}, {-3,1,17,19}, {1,-1,9,9}, {5,5,64,64} };
        for (const Rect& roi : rois) for (int layer = 0; layer < 4; ++layer) for (int srt = 0; srt < 3; ++srt) { Rq q{ KPyramid, roi, 1, mf, layer }; Opt o; o.sortByM = srt; if (srt == 2) o.filter = "1"; c.step(); Pic p = get(r.get(), pl, q, o, PixelType::Gray8, e); if (e == "empty") continue; MC_CHECK(e.empty(), q.text(), " failed: ", e); checkPyramid(tiles, pics, q, o, p); }
        for (const Rect& roi : rois) for (float z : { 1.f, .5f, .3f }) { Rq q{ KScale, roi, z, 0, 0 }; Opt o; o.filter = "1"; c.step(); Pic p = get(r.get(), pl, q, o, PixelType::Gray8, e); if (e == "empty") continue; MC_CHECK(e.empty(), q.text(), " failed: ", e); checkScaled(tiles, pics, q, o, p); }
        c.state(hashTiles(tiles));
    }
    // ------------------------------------------------------------------ C10/C12: the ways of asking for the same picture
    void requestForms(Ctx& c, bool tileAccessor)
    {
        static const int orgs[][2] = { { 0, 0 }, { 5, -7 }, { -100, 30 } }; const auto& og = orgs[c.choose(3, "origin")]; const int ox = og[0], oy = og[1], before = c.choose(2, "pyramid tile starts before layer 0") * 4;
        static const PixelType pts[] = { PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Gray32Float }; const PixelType pt = pts[c.choose(4, "pixel type")], other = pt == PixelType::Gray8 ? PixelType::Bgr24 : PixelType::Gray8;
        std::vector<Tile> tiles = { tile(ox, oy, 8, 8, 8, 8, 0, pt, 11), tile(ox + 6, oy, 8, 8, 8, 8, 1, pt, 12), tile(ox - before, oy - before, 20, 16, 10, 8, 2, pt, 13), tile(ox + 3, oy + 1, 8, 8, 8, 8, 0, other, 14, { { D::C, 1 } }) };
        if (c.flip("other channel first")) std::rotate(tiles.begin(), tiles.begin() + 3, tiles.end());
        auto plain = open(tiles); auto pl = plane0(); describe(c, tiles);
        Bytes file; { Doc d; d.guid = guid(1); for (auto& t : tiles) d.sbs.push_back(t.sb); file = writeDoc(d); }
        static const libCZI::CZIFrameOfReference fr[] = { libCZI::CZIFrameOfReference::Invalid, libCZI::CZIFrameOfReference::Default, libCZI::CZIFrameOfReference::RawSubBlockCoordinateSystem, libCZI::CZIFrameOfReference::PixelCoordinateSystem };
        const int def = c.choose(4, "default frame"); auto r = libCZI::CreateCZIReader(); { libCZI::ICZIReader::OpenOptions o; o.default_frame_of_reference = fr[def]; r->Open(std::make_shared<MemStream>(file), &o); }
        static const Rect rel[] = { { 2, 1, 10, 6 }, { 0, 0, 8, 8 }, { 1, 3, 2, 4 } };
        for (const Rect& R : rel) for (int what = tileAccessor ? 0 : 1; what < (tileAccessor ? 1 : 6); ++what)
        {
            Rq q; q.roi = { ox + R.x, oy + R.y, R.w, R.h }; q.kind = what == 0 ? KTile : what < 4 ? KScale : KPyramid; q.zoom = what == 1 ? 1.f : what == 2 ? 0.5f : 0.7f; q.minification = 2; q.layer = what - 4;
            std::string e; Opt nb; nb.bg[0] = nb.bg[1] = nb.bg[2] = std::numeric_limits<float>::quiet_NaN(); Pic want = get(plain.get(), pl, q, nb, pt, e, true); MC_CHECK(e.empty(), q.text(), ": ", e);
            for (int f = 1; f < 4; ++f) for (int overload = 0; overload < 3; ++overload) for (int null = 0; null < 2; ++null)
            {
                const bool pixel = fr[f] == libCZI::CZIFrameOfReference::PixelCoordinateSystem || (f == 1 && def == 3); const int x = q.roi.x - (pixel ? ox : 0), y = q.roi.y - (pixel ? oy : 0); c.step();
                const libCZI::IntRectAndFrameOfReference rc{ fr[f], { x, y, q.roi.w, q.roi.h } }; const libCZI::IntPointAndFrameOfReference at{ fr[f], { x, y } }; Pic got; std::shared_ptr<libCZI::IBitmapData> b; GuardBitmap g(pt, want.w, want.h);
                if (q.kind == KTile) { auto a = r->CreateSingleChannelTileAccessor(); libCZI::ISingleChannelTileAccessor::Options o; o.Clear(); auto p = null ? nullptr : &o; if (overload == 0) b = a->Get(rc, &pl, p); else if (overload == 1) b = a->Get(pt, rc, &pl, p); else a->Get(&g, at, &pl, p); }
                else if (q.kind == KScale) { auto a = r->CreateSingleChannelScalingTileAccessor(); libCZI::ISingleChannelScalingTileAccessor::Options o; o.Clear(); auto p = null ? nullptr : &o; if (overload == 0) b = a->Get(rc, &pl, q.zoom, p); else if (overload == 1) b = a->Get(pt, rc, &pl, q.zoom, p); else a->Get(&g, rc, &pl, q.zoom, p); }
                else { auto a = r->CreateSingleChannelPyramidLayerTileAccessor(); libCZI::ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo pi; pi.minificationFactor = 2; pi.pyramidLayerNo = (uint8_t)q.layer; libCZI::ISingleChannelPyramidLayerTileAccessor::Options o; o.Clear(); auto p = null ? nullptr : &o; if (overload == 0) b = a->Get(rc, &pl, pi, p); else if (overload == 1) b = a->Get(pt, rc, &pl, pi, p); else a->Get(&g, at, &pl, pi, p); }
                if (b) got = picOf(b.get()); else { g.check("accessor"); got = g.pic(); }
                MC_CHECK(got.pt == want.pt && got == want, q.text(), ", overload ", overload, ", frame ", (int)fr[f], " (default ", (int)fr[def], "), ", null ? "no" : "default", " options: ", diff(want, got));
            }
            c.outcome(mc::hashBytes(want.at(0, 0), (size_t)want.w * bpp(pt)));
        }
        c.state(mc::mix(hashTiles(tiles), def));
    }
    // ------------------------------------------------------------------ C11/C12: many tiles
    std::vector<Tile> manyDoc(int n, int perm, bool scenes, bool layers, bool compressed)
    {
        std::vector<Tile> tiles; int side = 1; while (side * side < n) ++side; uint32_t seed = 4000;
        auto pyr = [&](int p) { for (int y = 0; y < 3 * side + 2; y += 4 * p) for (int x = 0; x < 3 * side + 2; x += 4 * p) { std::vector<std::pair<D, int>> d = { { D::C, 0 } }; if (scenes) d.emplace_back(D::S, 0); tiles.push_back(tile(x, y, 4 * p, 4 * p, 4, 4, -1, PixelType::Gray8, seed++, d)); } };
        if (layers && perm == 1) pyr(2);
        for (int i = 0; i < n; ++i)
        {
            std::vector<std::pair<D, int>> d = { { D::C, 0 } }; if (scenes) d.emplace_back(D::S, i >= n / 2 ? 1 : 0); int m = i; switch (perm) { case 1: m = n - 1 - i; break; case 2: m = (i ^ 1) < n ? i ^ 1 : i; break; case 3: m = (i + n / 2) % n; break; case 4: m = (i * 7919 % 104729) * 512 + i; break; }
            tiles.push_back(tile(i % side * 3, i / side * 3, 5, 4, 5, 4, m, PixelType::Gray8, seed++, d)); if (compressed && i % 3 == 1) compress(tiles.back());
        }
        if (layers && perm != 1) pyr(2); if (layers) pyr(4);
        return tiles;
    }
    const int manyN[] = { 9, 16, 17, 25, 33, 64, 100 };
    void manyScaled(Ctx& c)
    {
        const int n = manyN[c.choose(c.thorough() ? 7 : 6, "tiles")], perm = c.choose(5, "order of M"); const bool scenes = c.flip("scenes"), layers = c.flip("layers"); auto tiles = manyDoc(n, perm, scenes, layers, false); auto r = open(tiles); auto pl = plane0(); auto pics = picsOf(tiles); std::string e;
        const int i = c.choose(2, "region"), k = c.choose(6, "zoom"); int side = 1; while (side * side < n) ++side; const Rect roi = i == 0 ? Rect{ 0, 0, 3 * side + 2, 3 * side + 1 } : Rect{ 2, 3, 2 * side, 2 * side + 3 }; static const float zooms[] = { 1.f, .5f, .25f, .7f, .4f, 1.5f };
        Rq q{ KScale, roi, zooms[k], 0, 0 }; Opt o; c.step(); Pic p = get(r.get(), pl, q, o, PixelType::Gray8, e); MC_CHECK(e.empty(), q.text(), " failed: ", e); checkScaled(tiles, pics, q, o, p);
        c.state(mc::mix(hashTiles(tiles), i * 10 + k));
    }
    void manyOptions(Ctx& c)
    {
        const int n = manyN[c.choose(c.thorough() ? 7 : 6, "tiles")], perm = c.choose(5, "order of M"); const bool scenes = c.flip("scenes"), layers = c.flip("layers"); auto tiles = manyDoc(n, perm, scenes, layers, true); auto r = open(tiles); auto pl = plane0(); std::string e1, e2;
        int side = 1; while (side * side < n) ++side; auto cache = libCZI::CreateSubBlockCache();
        for (const Rect roi : { Rect{ 0, 0, 3 * side + 2, 3 * side + 1 }, Rect{ 2, 3, 2 * side, 2 * side + 3 } }) for (float z : { 0.f, 1.f, .5f, .7f, 1.3f }) for (int v = 0; v < 6; ++v)
        {
            Rq q{ z == 0 ? KTile : KScale, roi, z == 0 ? 1 : z, 0, 0 }; Opt o; o.sortByM = v & 1; c.step(); Pic a = get(r.get(), pl, q, o, PixelType::Gray8, e1); o.vis = v < 4; if (v >= 2) { o.cache = cache; o.onlyCompressed = v & 1; } Pic b = get(r.get(), pl, q, o, PixelType::Gray8, e2);
            MC_CHECK(e1 == e2 && a == b, n, " tiles, ", q.text(), o.sortByM ? "" : " unsorted", o.vis ? " visibility check" : "", o.cache ? " cache" : "", ": the picture changes: ", e1, "/", e2, " ", diff(a, b));
            if (v == 5) { libCZI::ISubBlockCacheControl::PruneOptions po; po.maxSubBlockCount = n / 2; cache->Prune(po); }
        }
        c.state(hashTiles(tiles));
    }
    // tiles of pyramid layers which cover huge areas: 1..3 tiles of 2x2..8x4 units; a unit is up to 2^26 pixels wide
    void hugeTiles(Ctx& c, bool c12)
    {
        static const int units[] = { 1000, 11586, 32768, 46341, 60000, 1 << 20, 1 << 26 }; const int u = units[c.choose(7, "unit")], n = 1 + c.choose(3, "tiles"), org = c.choose(2, "origin") ? -4 : 0; std::vector<Tile> tiles; uint32_t seed = 900;
        static const Rect sh[] = { {0,0,2,2}, {2,0,2,2}, {0,2,4,1}, {1,1,8,4}, {0,0,4,4}, {3,-1,2,6} };
        for (int i = 0; i < n; ++i) { const Rect& r = sh[c.choose(6, "tile")]; for (auto& t : tiles) if (t.sb.x == (r.x + org) * u && t.sb.y == (r.y + org) * u) throw mc::Prune(); tiles.push_back(tile((r.x + org) * u, (r.y + org) * u, r.w * u, r.h * u, r.w * 2, r.h * 2, -1, PixelType::Gray8, seed++)); }
        if (c.flip("layer-0 tile")) tiles.push_back(tile(org * u, org * u, 4, 4, 4, 4, 0, PixelType::Gray8, seed++));
        auto r = open(tiles); auto pl = plane0(); describe(c, tiles); auto pics = picsOf(tiles); std::string e1, e2; static const Rect rois[] = { {0,0,4,4}, {-1,-1,10,7}, {1,0,3,2}, {0,0,1,6} };
        for (const Rect& g : rois) for (float f : { 2.f, 1.f, 1.5f })
        {
            Rq q{ KScale, { (g.x + org) * u, (g.y + org) * u, g.w * u, g.h * u }, f / u, 0, 0 }; Opt o; c.step(); Pic a = get(r.get(), pl, q, o, PixelType::Gray8, e1); if (e1 == "empty") continue; MC_CHECK(e1.empty(), q.text(), " failed: ", e1);
            if (c12) { checkScaled(tiles, pics, q, o, a); continue; }
            for (int v = 0; v < 4; ++v) { Opt o1; o1.sortByM = v & 1; if (v >= 2) o1.cache = libCZI::CreateSubBlockCache(); Pic b0 = v & 1 ? a : get(r.get(), pl, q, o1, PixelType::Gray8, e1); o1.vis = true; Pic b = get(r.get(), pl, q, o1, PixelType::Gray8, e2); MC_CHECK(e1 == e2 && b0 == b, q.text(), o1.sortByM ? "" : " unsorted", ": the visibility check changes the picture: ", e1, "/", e2, " ", diff(b0, b)); }
        }
        c.state(hashTiles(tiles)); c.outcome(hashTiles(tiles));
    }
    // ------------------------------------------------------------------ C18: masks at scale 1
    void masks(Ctx& c)
    {
        static const int ws[] = { 1, 3, 7, 8, 9, 15, 17 }; const int w = ws[c.choose(7, "width")], h = 1 + c.choose(2, "height") * 2; const int dw = c.choose(3, "mask width"), dh = c.choose(3, "mask height"), kind = c.choose(4, "mask"), lower = c.choose(3, "lower tile"); const PixelType pts[] = { PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24 }; const PixelType pt = pts[c.choose(3, "pixel type")], dpt = pts[c.choose(3, "requested")];
        std::vector<Tile> tiles; Tile low = tile(-1, 0, w + 1, h, w + 1, h, 0, pt, 5), top = tile(0, 0, w, h, w, h, 1, pt, 6);
        const int mw = std::max(1, w + (dw == 1 ? -1 : dw == 2 ? 3 : 0)), mh = std::max(1, h + (dh == 1 ? -1 : dh == 2 ? 2 : 0)); top.hasMask = true; top.mask = makeMask(mw, mh, kind, 3); setMask(top.sb, top.mask);
        const uint32_t stride = (mw + 7) / 8 + c.choose(2, "stride") * 3; top.sb.att = maskAttachment(top.mask, stride);
        if (lower) { if (lower == 2) { low.hasMask = true; low.mask = makeMask(w + 1, h, 3, 9); setMask(low.sb, low.mask); } tiles.push_back(low); } tiles.push_back(top);
        auto r = open(tiles); auto pl = plane0(); auto pics = picsOf(tiles); std::string e; static const Rect rois[] = { {-2,-1,21,6}, {1,0,9,2}, {3,1,5,1} };
        for (const Rect& roi : rois) for (int ma = 0; ma < 2; ++ma)
        {
            Rq q{ KTile, roi, 1, 0, 0 }; Opt o; o.maskAware = ma; c.step(); Pic p = get(r.get(), pl, q, o, dpt, e); MC_CHECK(e.empty(), q.text(), " failed: ", e);
            std::vector<Layer> l; for (size_t i = 0; i < tiles.size(); ++i) if (isect(roi, tiles[i].sb)) l.push_back({ &pics[i], tiles[i].sb.x - roi.x, tiles[i].sb.y - roi.y, ma && tiles[i].hasMask ? &tiles[i].mask : nullptr, true, tiles[i].sb.m });
            Pic base(dpt, roi.w, roi.h); fillPic(base, o.bg[0], o.bg[1], o.bg[2]); checkPicture(base, l, true, p, false, [&] { return q.text() + (ma ? " mask-aware" : ""); });
            q.kind = KScale; p = get(r.get(), pl, q, o, dpt, e); MC_CHECK(e.empty(), q.text(), " failed: ", e); checkPicture(base, l, true, p, false, [&] { return q.text() + (ma ? " mask-aware" : ""); });
        }
        c.state(hashTiles(tiles));
    }
    // ------------------------------------------------------------------ C18: chunk containers
    void chunks(Ctx& c)
    {
        // a sequence of up to 3 chunks: other GUIDs of sizes 1,2,30 and masks (valid / improper), optionally a tail of stray bytes
        const int n = c.choose(c.thorough() ? 5 : 4, "chunks"), fmt = c.choose(4, "data format"); Bytes att; struct Ck { libCZI::GUID g; uint32_t off, size; }; std::vector<Ck> want; int firstMask = -1; bool proper = false; const Mask m = makeMask(5, 3, 3, 1), m2 = makeMask(5, 3, 2, 1);
        for (int i = 0; i < n; ++i)
        {
            const int k = c.choose(10, "chunk"); Bytes b;
            auto u32 = [&](Bytes& x, size_t at, uint32_t v) { for (int j = 0; j < 4; ++j) x[at + j] = (uint8_t)(v >> (8 * j)); };
            if (k < 3) { const uint32_t sz = k == 0 ? 1 : k == 1 ? 2 : 30; libCZI::GUID g = guid(50 + k); b.resize(20); memcpy(b.data(), &g, 16); u32(b, 16, sz); Bytes p = pattern(sz, 9); b.insert(b.end(), p.begin(), p.end()); }
            else
            {
                b = maskAttachment(k == 4 ? m2 : m, k == 5 ? 4 : 1); bool ok = true;
                switch (k) { case 6: u32(b, 28, 1); ok = false; break;          // unknown representation
                             case 7: u32(b, 32, 0); ok = false; break;          // stride too small
                             case 8: u32(b, 24, 100); ok = false; break;        // height beyond the data
                             case 9: b.resize(20 + 11); u32(b, 16, 11); ok = false; break; }   // too short to be a mask
                if (firstMask < 0) { firstMask = k; proper = ok; }
            }
            Ck ck; memcpy(&ck.g, b.data(), 16); ck.off = (uint32_t)att.size() + 20; ck.size = (uint32_t)b.size() - 20; want.push_back(ck); att.insert(att.end(), b.begin(), b.end());
        }
        const int tail = c.choose(3, "stray bytes"); att.insert(att.end(), tail == 1 ? 1 : tail == 2 ? 20 : 0, 0x77); if (att.size() < 21) {}
        Tile t = tile(0, 0, 5, 3, 5, 3, 0, PixelType::Gray8, 4); static const char* fm[] = { "<METADATA><AttachmentSchema><DataFormat>CHUNKCONTAINER</DataFormat></AttachmentSchema></METADATA>", "", "<METADATA><AttachmentSchema><DataFormat>OTHER</DataFormat></AttachmentSchema></METADATA>", "<METADATA><AttachmentSchema>" };
        t.sb.meta.assign(fm[fmt], fm[fmt] + strlen(fm[fmt])); t.sb.att = att; t.hasMask = fmt == 0 && firstMask >= 0 && proper; if (t.hasMask) t.mask = firstMask == 4 ? m2 : m;
        std::vector<Tile> tiles = { t }; auto r = open(tiles); auto sb = r->ReadSubBlock(0); auto md = libCZI::CreateSubBlockMetadataFromSubBlock(sb.get()); auto acc = libCZI::CreateSubBlockAttachmentAccessor(sb, md); c.step();
        MC_CHECK(acc->HasChunkContainer() == (fmt == 0), "HasChunkContainer() is ", acc->HasChunkContainer());
        for (int stop = 0; stop <= n + 1; ++stop)
        {
            std::vector<Ck> got; bool threw = false, ret = false;
            try { ret = acc->EnumerateChunksInChunkContainer([&](int i, const libCZI::ISubBlockAttachmentAccessor::ChunkInfo& ci) { MC_CHECK(i == (int)got.size(), "chunk delivered with index ", i, " as number ", got.size()); got.push_back({ ci.guid, ci.offset, ci.size }); return (int)got.size() != stop; }); }
            catch (mc::Violation&) { throw; } catch (std::exception&) { threw = true; }
            if (fmt != 0 || att.size() < 21) { MC_CHECK(threw && got.empty(), "an attachment which is no chunk container was enumerated"); continue; }
            const size_t expect = stop ? std::min<size_t>(stop, want.size()) : want.size(); if (n == 0) continue;
            MC_CHECK(!threw && ret, "enumeration of a proper chunk container failed"); MC_CHECK(got.size() == expect, "enumeration gave ", got.size(), " chunk(s), expected ", expect);
            for (size_t i = 0; i < got.size(); ++i) MC_CHECK(!memcmp(&got[i].g, &want[i].g, 16) && got[i].off == want[i].off && got[i].size == want[i].size, "chunk ", i, " is reported with offset ", got[i].off, " size ", got[i].size, ", expected ", want[i].off, "/", want[i].size);
        }
        auto pl = plane0(); std::string e; auto pics = picsOf(tiles); Rq q{ KTile, { -1, -1, 7, 5 }, 1, 0, 0 }; Opt o; o.maskAware = true; Pic p = get(r.get(), pl, q, o, PixelType::Gray8, e); MC_CHECK(e.empty(), "mask-aware composition failed: ", e);
        Pic base(PixelType::Gray8, 7, 5); fillPic(base, o.bg[0], o.bg[1], o.bg[2]); checkPicture(base, { { &pics[0], 1, 1, t.hasMask ? &t.mask : nullptr, true, 0 } }, true, p, false, [&] { return std::string("mask-aware composition"); });
        c.state(mc::hashBytes(att.data(), att.size(), fmt));
    }

    static struct Reg { Reg() { using namespace mc;
        add({ "C11", "visibility", "all documents of 2..3 (thorough: 4) tiles over 8 shapes, with none/all/topmost masked; tile accessor and scaling accessor at 8 zooms, 4 regions, sorted and unsorted, mask-aware or not: with vs. without visibility check", visibility });
        add({ "C11", "visibility_scaled_edges", "two tiles ending at the same border with varying left edges; 9 region sizes x 6 starts x 24 zooms: with vs. without visibility check", visibilityScaled });
        add({ "C11", "cache_histories", "all histories of 2 requests out of 7 (three accessors) x options on one shared cache, over 4 documents (masks, compression), with up to 2 (thorough: 3) prunings by others at any cache access, and of 3 requests with none (thorough: 1)", cacheHistory });
        add({ "C11", "many_tiles", "9..64 (thorough: 100) overlapping tiles x 5 orders of M x scenes x pyramid layers; tile and scaling accessor, 2 regions, sorted and not: plain vs. visibility check and/or cache", manyOptions });
        add({ "C11", "huge_tiles", "1..3 pyramid tiles out of 6 shapes on grids of 7 units up to 2^26 pixels, with or without a layer-0 tile, 2 origins; 4 regions x 3 zooms, sorted and not: plain vs. visibility check (and cache)", [](Ctx& c) { hugeTiles(c, false); } });
        add({ "C12", "huge_tiles", "1..3 pyramid tiles out of 6 shapes on grids of 7 units up to 2^26 pixels, with or without a layer-0 tile, 2 origins; 4 regions x 3 zooms, every pixel", [](Ctx& c) { hugeTiles(c, true); } });
        add({ "C12", "many_tiles", "9..64 (thorough: 100) overlapping tiles x 5 orders of M x scenes x pyramid layers; 2 regions x 6 zooms, every pixel", manyScaled });
        add({ "C12", "scaling_layers", "all documents of 1..3 layer-0 tiles out of 4 with complete/partial/absent layers 1 and 2 and another channel; 5 regions x 19 zooms, every pixel", scaling });
        add({ "C12", "scaling_pixel_types", "all pixel type pairs; masks none/empty/full/checkered/short; 3 regions x 6 zooms and pyramid layers 0,1", scalingPixelTypes });
        add({ "C12", "scaling_scenes", "1..3 scenes with any combination of layers, reaching beyond the scene or not; 4 scene filters x 8 regions x 8 zooms and 4 pyramid layers", scalingScenes });
        add({ "C10", "request_forms", "3 origins x pyramid tile position x 4 pixel types x order x 4 default frames; 3 regions x 3 frames x 3 overloads x with/without options of the tile accessor give one picture", [](Ctx& c) { requestForms(c, true); } });
        add({ "C12", "request_forms", "3 origins x pyramid tile position x 4 pixel types x order x 4 default frames; 3 regions x (3 zooms, 2 layers) x 3 frames x 3 overloads x with/without options give one picture", [](Ctx& c) { requestForms(c, false); } });
        add({ "C12", "pyramid_layers", "minification 2..4, 1..2 tiles on each of 3 layers at aligned and unaligned positions; 5 regions x 4 layers x sorting, and with a scene filter (which has no effect without scenes)", pyramid });
        add({ "C18", "masks", "tile widths 1..17, masks narrower/wider/lower/higher than the tile, with padding, four contents, lower tile none/plain/masked, pixel type pairs; 3 regions, with and without mask-awareness, tile and scaling accessor", masks });
        add({ "C18", "chunk_containers", "all containers of up to 3 (thorough: 4) chunks out of 10 kinds (foreign, proper and improper masks) x data format x stray bytes; enumeration stopped at every position", chunks });
        add({ "C18", "scaled_masks", "all pixel type pairs x masks; scaled and pyramid-layer composition with and without mask-awareness", scalingPixelTypes });
    } } reg;
}
