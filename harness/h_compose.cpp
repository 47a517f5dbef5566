// C10, C11, C12, C18: composition of tiles into pictures.
#include "compose.h"
using namespace cp; using mc::Ctx;

namespace
{
    std::shared_ptr<libCZI::ISubBlockRepository> repo(const std::shared_ptr<libCZI::ICZIReader>& r) { return r; }
    struct Bg { bool use; float r, g, b; };
    const Bg bgs[] = { { true, 0.f, 0.f, 0.f }, { false, 0.f, 0.f, 0.f }, { true, 1.f, 1.f, 1.f }, { true, 0.2f, 0.5f, 0.7f } };

    struct Req
    {
        Rect roi; PixelType pt; int overload = 2; Bg bg = bgs[1]; bool sortByM = true; bool vis = false; bool border = false; bool maskAware = false; int frame = 0; std::string filter; uint32_t pad = 3;
        std::shared_ptr<libCZI::ISubBlockCacheOperation> cache; bool onlyCompressed = true;
        std::string text() const { return mc::cat("region (", roi.x, ",", roi.y, ",", roi.w, ",", roi.h, ") to ", name(pt), " overload ", overload, bg.use ? mc::cat(" background ", bg.r, "/", bg.g, "/", bg.b) : " no background", sortByM ? "" : " unsorted", vis ? " visibility-check" : "", border ? " border" : "", maskAware ? " mask-aware" : "", frame ? " pixel-coordinates" : "", filter.empty() ? "" : " scenes ", filter, cache ? " cached" : ""); }
    };
    template <typename O> void setOpt(O& o, const Req& q)
    {
        o.Clear(); if (q.bg.use) o.backGroundColor = { q.bg.r, q.bg.g, q.bg.b }; o.sortByM = q.sortByM; o.drawTileBorder = q.border; o.maskAware = q.maskAware; o.subBlockCache = q.cache; o.onlyUseSubBlockCacheForCompressedData = q.onlyCompressed;
        if (!q.filter.empty()) o.sceneFilter = libCZI::Utils::IndexSetFromString(std::wstring(q.filter.begin(), q.filter.end()));
    }
    // calls the single-channel tile accessor; returns the picture
    Pic getTile(const std::shared_ptr<libCZI::ICZIReader>& r, const libCZI::CDimCoordinate& plane, const Req& q, int offX, int offY)
    {
        auto a = r->CreateSingleChannelTileAccessor(); libCZI::ISingleChannelTileAccessor::Options o; setOpt(o, q); o.useVisibilityCheckOptimization = q.vis;
        const auto f = q.frame ? libCZI::CZIFrameOfReference::PixelCoordinateSystem : libCZI::CZIFrameOfReference::RawSubBlockCoordinateSystem;
        const int x = q.roi.x - (q.frame ? offX : 0), y = q.roi.y - (q.frame ? offY : 0);
        if (q.overload == 0) { auto b = a->Get(libCZI::IntRectAndFrameOfReference{ f, { x, y, q.roi.w, q.roi.h } }, &plane, &o); return picOf(b.get()); }
        if (q.overload == 1) { auto b = a->Get(q.pt, libCZI::IntRectAndFrameOfReference{ f, { x, y, q.roi.w, q.roi.h } }, &plane, &o); return picOf(b.get()); }
        GuardBitmap g(q.pt, q.roi.w, q.roi.h, q.pad); a->Get(&g, libCZI::IntPointAndFrameOfReference{ f, { x, y } }, &plane, &o); g.check("tile accessor"); return g.pic();
    }
    bool sceneAllowed(const Sb& s, const std::string& filter)
    {
        if (filter.empty() || !s.hasDim(D::S)) return true;
        const int v = s.dim(D::S, 0); return filter == std::to_string(v) || filter == "0-1";
    }
    // what the request has to give: tiles of the plane on layer 0 intersecting the region, in M-order
    void checkTileRequest(const std::shared_ptr<libCZI::ICZIReader>& r, const std::vector<Tile>& tiles, const libCZI::CDimCoordinate& plane, const Req& q)
    {
        int ox = INT32_MAX, oy = INT32_MAX; for (auto& t : tiles) if (t.sb.layer0()) { ox = std::min(ox, t.sb.x); oy = std::min(oy, t.sb.y); }
        Pic got;
        try { got = getTile(r, plane, q, ox, oy); } catch (mc::Violation&) { throw; } catch (std::exception& e) { mc::fail(q.text() + ": failed with: " + e.what()); }
        std::vector<Layer> l; std::vector<Pic> pics; pics.reserve(tiles.size());
        for (auto& t : tiles)
        {
            if (!t.sb.layer0() || !isect(q.roi, t.sb) || !sceneAllowed(t.sb, q.filter)) continue;
            bool match = true; for (int d = (int)D::MinDim; d <= (int)D::MaxDim; ++d) { int v; if (plane.TryGetPosition((D)d, &v) && t.sb.hasDim((D)d) && t.sb.dim((D)d, 0) != v) match = false; if (plane.TryGetPosition((D)d, &v) && !t.sb.hasDim((D)d)) match = false; }
            if (!match) continue;
            pics.push_back(picOfSb(t.sb)); l.push_back({ &pics.back(), t.sb.x - q.roi.x, t.sb.y - q.roi.y, q.maskAware && t.hasMask ? &t.mask : nullptr, t.sb.mValid, t.sb.m });
        }
        Pic base(q.overload == 0 ? q.pt : q.pt, q.roi.w, q.roi.h, 0x5A); if (q.bg.use) fillPic(base, q.bg.r, q.bg.g, q.bg.b);
        if (!q.bg.use && q.overload != 2)
        {   // a new bitmap without background: what no tile covers is unspecified
            Pic cover(PixelType::Gray8, q.roi.w, q.roi.h, 0), one(PixelType::Gray8, 1, 1, 1); for (auto& t : l) for (int j = 0; j < t.pic->h; ++j) for (int i = 0; i < t.pic->w; ++i) if (!t.mask || t.mask->get(i, j)) paint(cover, one, t.x + i, t.y + j);
            MC_CHECK(got.w == base.w && got.h == base.h && got.pt == base.pt, q.text(), ": the bitmap is ", got.w, "*", got.h, " ", name(got.pt));
            for (int y = 0; y < base.h; ++y) for (int x = 0; x < base.w; ++x) if (!*cover.at(x, y)) memcpy(got.at(x, y), base.at(x, y), bpp(base.pt));
        }
        checkPicture(base, l, q.sortByM, got, q.border, [&] { return q.text(); });
    }
    libCZI::CDimCoordinate planeOf(std::initializer_list<std::pair<D, int>> l) { libCZI::CDimCoordinate c; for (auto& p : l) c.Set(p.first, p.second); return c; }

    // ------------------------------------------------------------------ C10: layouts
    Tile makeTile(int x, int y, int w, int h, int m, PixelType pt, uint32_t seed, std::vector<std::pair<D, int>> dims = { { D::C, 0 } })
    {
        Tile t; t.sb = makeSb(dims, m, x, y, w, h, pt, seed); setPic(t.sb, testPic(pt, w, h, seed)); return t;
    }
    void layouts(Ctx& c)
    {
        static const Rect shapes[] = { {0,0,3,2}, {2,0,3,2}, {-2,-1,3,3}, {1,1,2,3}, {-1,2,5,1}, {3,-2,1,5}, {0,0,1,1}, {-2,-2,7,6} };
        const int nShape = 8; const int n = 1 + c.choose(3, "tiles"); std::vector<Tile> tiles; 
        int mperm = c.choose(n == 1 ? 2 : n == 2 ? 3 : 7, "order of M"); static const int ms2[3][2] = { {0,1}, {1,0}, {-1,4} }; static const int ms3[7][3] = { {0,1,2}, {0,2,1}, {1,0,2}, {1,2,0}, {2,0,1}, {2,1,0}, {5,-1,3} };
        for (int i = 0; i < n; ++i)
        {
            const Rect& s = shapes[c.choose(nShape, "tile")]; const int m = n == 1 ? (mperm ? -1 : 5) : n == 2 ? ms2[mperm][i] : ms3[mperm][i];
            if (m == -1) for (auto& t : tiles) if (!t.sb.mValid && t.sb.x == s.x && t.sb.y == s.y) throw mc::Prune();
            tiles.push_back(makeTile(s.x, s.y, s.w, s.h, m, PixelType::Gray8, 10 + i));
        }
        const int distract = c.choose(6, "other sub-blocks"); libCZI::CDimCoordinate plane = planeOf({ { D::C, 0 } });
        if (distract == 1) { tiles.insert(tiles.begin(), makeTile(-2, -2, 7, 7, 3, PixelType::Gray8, 77, { { D::C, 1 } })); tiles.push_back(makeTile(-2, -2, 7, 7, 9, PixelType::Gray8, 78, { { D::C, 1 } })); }
        if (distract == 2) { Tile t = makeTile(-2, -2, 3, 3, 9, PixelType::Gray8, 79); t.sb.lw = 6; t.sb.lh = 6; t.sb.pyr = SubBlockPyramidType::MultiSubBlock; tiles.insert(tiles.begin(), t); t.sb.m = 10; tiles.push_back(t); }
        if (distract >= 3) { Tile t = makeTile(-2, -2, 3, 3, 9, PixelType::Gray8, 79); if (distract == 3) t.sb.lw = 6; else if (distract == 4) t.sb.lh = 6; else t.sb.pyr = SubBlockPyramidType::SingleSubBlock; tiles.insert(tiles.begin(), t); t.sb.m = 10; tiles.push_back(t); }   // minified in one direction only, without a pyramid type; full resolution with a pyramid type
        auto r = open(tiles); uint64_t h = 1;
        c.say([&](std::ostream& o) { for (auto& t : tiles) o << "  tile " << t.sb.head() << "\n"; });
        static const Rect rois[] = { {-3,-3,9,8}, {0,0,3,2}, {1,1,1,1}, {-2,-1,2,2}, {2,0,4,3}, {-1,1,6,1}, {4,3,3,2}, {40,40,2,2} };
        for (const Rect& roi : rois) for (int v = 0; v < 4; ++v)
        {
            Req q; q.roi = roi; q.pt = PixelType::Gray8; q.overload = v == 3 ? 2 : v; q.bg = v == 0 ? bgs[0] : v == 1 ? bgs[2] : v == 2 ? bgs[1] : bgs[3]; q.sortByM = v != 3; q.frame = v == 1; q.pad = v == 3 ? 0 : 5;
            checkTileRequest(r, tiles, plane, q); c.step();
        }
        for (auto& t : tiles) h = mc::hashStr(t.sb.key(), h); c.state(h); c.outcome(h);
    }
    // ------------------------------------------------------------------ C10: pixel types
    const PixelType pts[] = { PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48, PixelType::Gray32Float };
    void pixelTypes(Ctx& c)
    {
        const PixelType s1 = pts[c.choose(5, "pixel type of the first tile")], s2 = pts[c.choose(5, "pixel type of the second tile")], d = pts[c.choose(5, "requested pixel type")];
        const bool border = c.flip("border");
        std::vector<Tile> tiles = { makeTile(0, 0, 9, 7, 0, s1, 1), makeTile(5, 3, 8, 6, 1, s2, 2) };
        auto r = open(tiles); auto plane = planeOf({ { D::C, 0 } });
        const bool ok1 = convertible(s1, d), ok2 = convertible(s2, d);
        static const Rect rois[] = { {0,0,13,9}, {-1,-2,5,4}, {6,4,3,3}, {4,0,1,9}, {12,8,4,4} };
        for (const Rect& roi : rois) for (int v = 0; v < 8; ++v)
        {
            Req q; q.roi = roi; q.pt = d; q.overload = (v & 1) ? 2 : 1; q.bg = bgs[v / 2]; q.border = border; q.pad = (uint32_t)v; c.step();
            const bool need1 = isect(roi, tiles[0].sb), need2 = isect(roi, tiles[1].sb);
            if ((need1 && !ok1) || (need2 && !ok2))
            {
                GuardBitmap g(d, roi.w, roi.h, 3); bool threw = false; auto a = r->CreateSingleChannelTileAccessor(); libCZI::ISingleChannelTileAccessor::Options o; setOpt(o, q);
                try { a->Get(&g, roi.x, roi.y, &plane, &o); } catch (std::exception&) { threw = true; }
                MC_CHECK(threw, q.text(), ": conversion from ", name(ok1 ? s2 : s1), " succeeded"); g.check("failing tile accessor"); continue;
            }
            checkTileRequest(r, tiles, plane, q);
        }
        c.state(mc::hashStr(mc::cat((int)s1, ",", (int)s2, ",", (int)d, border)));
    }
    // ------------------------------------------------------------------ C10: planes and scenes
    void planes(Ctx& c)
    {
        // up to 3 tiles, each with C in {0,1}, optional S, T present or not in the whole document
        const int dimset = c.choose(4, "dimensions"); const int n = 1 + c.choose(3, "tiles"); std::vector<Tile> tiles;
        const bool hasC = dimset & 1, hasT = dimset & 2;
        for (int i = 0; i < n; ++i)
        {
            std::vector<std::pair<D, int>> dims; if (hasC) dims.emplace_back(D::C, c.choose(2, "C")); if (hasT) dims.emplace_back(D::T, c.choose(2, "T")); const int s = c.choose(3, "scene"); if (s) dims.emplace_back(D::S, s - 1);
            tiles.push_back(makeTile(i, i, 3, 3, (i * 2 + 1) % 5, PixelType::Gray8, 20 + i, dims));
        }
        auto r = open(tiles); std::string filter = c.choose(2, "filter") ? (c.flip("scene 1") ? "1" : "0") : (c.flip("both") ? "0-1" : "");
        c.say([&](std::ostream& o) { for (auto& t : tiles) o << "  tile " << t.sb.head() << "\n"; });
        std::set<int> cs, ts; for (auto& t : tiles) { if (hasC) cs.insert(t.sb.dim(D::C, 0)); if (hasT) ts.insert(t.sb.dim(D::T, 0)); }
        // every plane coordinate: none / 0 / 1 / 2 per dimension
        for (int pc = -1; pc < 3; ++pc) for (int pt = -1; pt < 3; ++pt) for (int ps = -1; ps < 1; ++ps)
        {
            libCZI::CDimCoordinate plane; if (pc >= 0) plane.Set(D::C, pc); if (pt >= 0) plane.Set(D::T, pt); if (ps >= 0) plane.Set(D::S, ps);
            auto bad = [&](const std::set<int>& have, bool has, int v) { if (!has) return v >= 0; if (v < 0) return *have.rbegin() - *have.begin() > 0; return v < *have.begin() || v > *have.rbegin(); };
            Req q; q.roi = { -1, -1, 8, 8 }; q.pt = PixelType::Gray8; q.filter = filter; q.bg = bgs[1]; c.step();
            if (ps >= 0 || bad(cs, hasC, pc) || bad(ts, hasT, pt))
            {
                GuardBitmap g(q.pt, 8, 8); bool threw = false; auto a = r->CreateSingleChannelTileAccessor(); libCZI::ISingleChannelTileAccessor::Options o; setOpt(o, q);
                try { a->Get(&g, -1, -1, &plane, &o); } catch (std::exception&) { threw = true; }
                g.check("tile accessor with an invalid plane"); MC_CHECK(threw, "the plane coordinate ", libCZI::Utils::DimCoordinateToString(&plane), " does not denote a plane of the document but was accepted"); continue;
            }
            checkTileRequest(r, tiles, plane, q);
        }
        uint64_t h = mc::hashStr(filter); for (auto& t : tiles) h = mc::hashStr(t.sb.key(), h); c.state(h);
    }
    // ------------------------------------------------------------------ C10: extreme positions
    void extremes(Ctx& c)
    {
        static const int pos[] = { 0, -5, 0x7ffffff0, (int)0x80000000, -0x7ffffff0, 0x40000000, -0x40000000 };
        const int x = pos[c.choose(7, "x")], y = pos[c.choose(7, "y")]; const int rx = pos[c.choose(7, "region x")], ry = pos[c.choose(7, "region y")];
        std::vector<Tile> tiles = { makeTile(x, y, 4, 4, 0, PixelType::Gray8, 1), makeTile(0, 0, 3, 3, 1, PixelType::Gray8, 2) };
        auto r = open(tiles); auto plane = planeOf({ { D::C, 0 } }); Req q; q.pt = PixelType::Gray8; q.bg = bgs[3];
        for (int d = -1; d <= 1; ++d) { if ((d < 0 && (rx == (int)0x80000000 || ry == (int)0x80000000))) continue; q.roi = { rx + d, ry + d, 5, 3 }; c.step(); checkTileRequest(r, tiles, plane, q); }
        c.state(mc::hashStr(mc::cat(x, ",", y, ",", rx, ",", ry)));
    }
    // ------------------------------------------------------------------ C10: plane coordinates at the limits of the number range
    void extremeCoordinates(Ctx& c)
    {
        static const D ds[] = { D::C, D::Z, D::T, D::R, D::I, D::H, D::V, D::B }; static const int base[] = { 0, 0x7ffffffc, (int)0x80000000, -2, 2000000000, -2000000000 };
        const D d = ds[c.choose(8, "dimension")]; const int b = base[c.choose(6, "values"  )], a0 = b + c.choose(4, "first"), a1 = b + c.choose(4, "second"); std::vector<Tile> tiles = { makeTile(0, 0, 4, 4, 0, PixelType::Gray8, 1, { { d, a0 } }), makeTile(1, 1, 4, 4, 1, PixelType::Gray8, 2, { { d, a1 } }) };
        auto r = open(tiles); c.say([&](std::ostream& o) { for (auto& t : tiles) o << "  tile " << t.sb.head() << "\n"; });
        for (int k = -1; k < 5; ++k)
        {
            const int64_t v64 = (int64_t)b + k; if (v64 < INT32_MIN || v64 > INT32_MAX) continue; const int v = (int)v64; libCZI::CDimCoordinate plane; plane.Set(d, v); Req q; q.roi = { -1, -1, 7, 7 }; q.pt = PixelType::Gray8; q.bg = bgs[1]; c.step();
            if (v < std::min(a0, a1) || v > std::max(a0, a1))
            {
                GuardBitmap g(q.pt, 7, 7); bool threw = false; auto a = r->CreateSingleChannelTileAccessor(); libCZI::ISingleChannelTileAccessor::Options o; setOpt(o, q);
                try { a->Get(&g, -1, -1, &plane, &o); } catch (std::exception&) { threw = true; }
                MC_CHECK(threw, "the plane coordinate ", libCZI::Utils::DimCoordinateToString(&plane), " does not denote a plane of the document but was accepted"); continue;
            }
            checkTileRequest(r, tiles, plane, q);
        }
        c.state(mc::hashStr(mc::cat((int)d, ",", a0, ",", a1)));
    }
    // ------------------------------------------------------------------ C10: the static compositor
    void staticCompositor(Ctx& c)
    {
        const PixelType s = pts[c.choose(5, "source")], d = pts[c.choose(5, "destination")]; const bool border = c.flip("border"); const int n = 1 + c.choose(2, "tiles"); if (!convertible(s, d)) throw mc::Prune();
        std::vector<Pic> pics; std::vector<std::pair<int, int>> at; static const int ps[] = { -3, 0, 2, 5 };
        for (int i = 0; i < n; ++i) { pics.push_back(testPic(s, 1 + c.choose(3, "width") * 2, 1 + c.choose(2, "height") * 3, 40 + i)); const int a = ps[c.choose(4, "x")]; at.emplace_back(a, i ? 1 : ps[c.choose(4, "y")]); }
        for (int xo : { 0, -2, 3 }) for (int useNull = 0; useNull < (border ? 1 : 2); ++useNull)
        {
            GuardBitmap g(d, 6, 5, 4); libCZI::Compositors::ComposeSingleTileOptions o; o.Clear(); o.drawTileBorder = border; std::vector<std::shared_ptr<GuardBitmap>> used; c.step();
            libCZI::Compositors::ComposeSingleChannelTiles([&](int i, std::shared_ptr<libCZI::IBitmapData>& src, int& x, int& y) { if (i >= n) return false; used.push_back(std::make_shared<GuardBitmap>(pics[i], 2)); src = used.back(); x = at[i].first; y = at[i].second; return true; }, &g, xo, -xo, useNull ? nullptr : &o);
            g.check("ComposeSingleChannelTiles"); for (auto& u : used) { u->check("ComposeSingleChannelTiles (source)"); }
            std::vector<Layer> l; for (int i = 0; i < n; ++i) { MC_CHECK(used[i]->pic() == pics[i], "a source tile was modified"); l.push_back({ &pics[i], at[i].first - xo, at[i].second + xo, nullptr, true, i }); }
            checkPicture(Pic(d, 6, 5, 0x5A), l, true, g.pic(), border, [&] { return mc::cat("composing ", n, " tile(s) of ", name(s), " to ", name(d), " with offset ", xo, ",", -xo, border ? " with border" : ""); });
        }
        c.state(mc::hashStr(mc::cat((int)s, (int)d, border, n, at[0].first, at[0].second)));
    }

    // ------------------------------------------------------------------ C10: many tiles
    void manyTiles(Ctx& c)
    {
        static const int ns[] = { 5, 9, 15, 16, 17, 18, 24, 32, 33, 40, 64, 65, 130, 300 }; const int n = ns[c.choose(c.thorough() ? 14 : 13, "number of tiles")], arr = c.choose(4, "arrangement"), perm = c.choose(9, "order of M"), scenes = c.choose(2, "scenes");
        std::vector<Tile> tiles; std::vector<int> m(n); auto gcd = [](int a, int b) { while (b) { int t = a % b; a = b; b = t; } return a; };
        for (int i = 0; i < n; ++i) switch (perm)
        {
        case 0: m[i] = i; break; case 1: m[i] = n - 1 - i; break; case 2: m[i] = (i + n / 2) % n; break; case 3: m[i] = (i ^ 1) < n ? i ^ 1 : i; break; case 4: m[i] = i * 1000003 % 7919 * 1000 + i; break;
        case 5: { int k = 7; while (gcd(k, n) != 1) ++k; m[i] = (int)((int64_t)i * k % n); break; } case 6: m[i] = i < n / 2 ? 2 * i + 1 : 2 * (i - n / 2); break; case 7: m[i] = i == 0 ? n : i == n - 1 ? 0 : i; break; case 8: m[i] = (1000000 - i * i) * 3 + (i & 1); break;
        }
        int side = 1; while (side * side < n) ++side;
        for (int i = 0; i < n; ++i)
        {
            std::vector<std::pair<D, int>> dims = { { D::C, 0 } }; if (scenes) dims.emplace_back(D::S, i % 2);
            int x, y, w = 4, h = 3; switch (arr) { case 0: x = i % side * 2; y = i / side * 2; break; case 1: x = i % 5; y = i / 5 % 4; break; case 2: x = i; y = 0; w = 3 + i % 7; break; default: x = (i * 7) % 11; y = (i * 5) % 13; w = 1 + i % 6; h = 1 + i % 4; }
            tiles.push_back(makeTile(x, y, w, h, m[i], PixelType::Gray8, 1000 + i, dims));
        }
        auto r = open(tiles); auto plane = planeOf({ { D::C, 0 } }); std::vector<int> ord(n); for (int i = 0; i < n; ++i) ord[i] = i; std::sort(ord.begin(), ord.end(), [&](int a, int b) { return m[a] < m[b]; });
        std::vector<Pic> pics; for (auto& t : tiles) pics.push_back(picOfSb(t.sb));
        for (const Rect roi : { Rect{ -1, -1, 2 * side + 6, 2 * side + 6 }, Rect{ 2, 1, 6, 5 }, Rect{ 0, 0, n + 12, 4 } }) for (int v = 0; v < 3; ++v)
        {
            Req q; q.roi = roi; q.pt = PixelType::Gray8; q.bg = bgs[3]; q.overload = 1 + (v & 1); q.vis = v == 2; c.step(); Pic got = getTile(r, plane, q, 0, 0), want(q.pt, roi.w, roi.h); fillPic(want, .2f, .5f, .7f);
            for (int i : ord) paint(want, pics[i], tiles[i].sb.x - roi.x, tiles[i].sb.y - roi.y, nullptr);
            MC_CHECK(want == got, n, " tiles, ", q.text(), ": ", diff(want, got));
        }
        // without sorting the order is not specified, but every pixel shows some covering tile
        Req q; q.roi = { -1, -1, 2 * side + 6, 2 * side + 6 }; q.pt = PixelType::Gray8; q.bg = bgs[3]; q.sortByM = false; Pic got = getTile(r, plane, q, 0, 0), bg(q.pt, 1, 1); fillPic(bg, .2f, .5f, .7f); q.vis = true; Pic again = getTile(r, plane, q, 0, 0); MC_CHECK(got == again, n, " tiles unsorted: the picture changes with the visibility check: ", diff(got, again));
        for (int y = 0; y < got.h; ++y) for (int x = 0; x < got.w; ++x) { bool any = false, ok = false; for (int i = 0; i < n && !ok; ++i) { const int X = x + q.roi.x - tiles[i].sb.x, Y = y + q.roi.y - tiles[i].sb.y; if (X < 0 || Y < 0 || X >= pics[i].w || Y >= pics[i].h) continue; any = true; ok = *got.at(x, y) == *pics[i].at(X, Y); } if (!any) ok = *got.at(x, y) == *bg.at(0, 0); MC_CHECK(ok, n, " tiles unsorted: pixel (", x, ",", y, ") shows none of the covering tiles"); }
        c.state(mc::mix(n, arr * 100 + perm * 10 + scenes));
    }

    static struct Reg { Reg() { using namespace mc;
        add({ "C10", "many_tiles", "13 numbers of tiles from 5 to 130 (thorough: 300) around the thresholds of sorting algorithms x 4 overlapping arrangements x 9 orders of M in the directory x scenes; 3 regions", manyTiles });
        add({ "C10", "layouts", "all documents with 1..3 tiles out of 8 position/size shapes, every order of M-indices and one without, with none/other-channel/pyramid (minified in both/one direction, flagged or not) distractors; 8 regions x 4 overload/background/sorting/frame-of-reference variants each", layouts });
        add({ "C10", "pixel_types", "all pairs of tile pixel types x requested pixel type x border; 5 regions x 2 overloads x 4 backgrounds and strides", pixelTypes });
        add({ "C10", "planes_and_scenes", "all documents with 1..3 overlapping tiles over C in {none,0,1}, T in {none,0,1}, S in {none,0,1}; every plane coordinate incl. invalid ones, every scene filter", planes });
        add({ "C10", "extreme_positions", "tile and region positions at the limits of 32-bit coordinates", extremes });
        add({ "C10", "extreme_coordinates", "8 dimensions x 6 ranges of values up to the limits of 32 bits x all pairs of values of two tiles; every plane in and next to the range", extremeCoordinates });
        add({ "C10", "static_compositor", "ComposeSingleChannelTiles: all pixel type pairs, 1..2 tiles over positions and sizes, offsets, border", staticCompositor });
    } } reg;
}
