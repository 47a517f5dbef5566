// C16: copying, converting, filling, resizing; C17: one-bit bitmaps; C24 (part): balance of locks. All through the public interface.
#include "compose.h"
#include <climits>

namespace
{
    using namespace cz; using namespace bm;
    using libCZI::BitonalBitmapOperations; using libCZI::IntRect; using libCZI::DblRect; using libCZI::IntPoint;
    const PixelType five[] = { PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48, PixelType::Gray32Float };
    const PixelType all[] = { PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48, PixelType::Gray32Float, PixelType::Bgra32, PixelType::Bgr96Float, PixelType::Gray32, PixelType::Gray64Float };

    // ------------------------------------------------------------------ C16
    void copyOnce(const Pic& src, const Pic& dst, int x, int y, uint32_t ps, uint32_t pd, const Mask* m, uint32_t pm, bool mpad)
    {
        ExactBitmap s(src, ps); GuardBitmap d(dst, pd); std::shared_ptr<BitBitmap> mb; if (m) mb = std::make_shared<BitBitmap>(*m, pm, mpad);
        auto what = [&] { return mc::cat("CopyAt ", name(src.pt), " ", src.w, "*", src.h, " to (", x, ",", y, ") of ", name(dst.pt), " ", dst.w, "*", dst.h, m ? mc::cat(" with mask ", m->w, "*", m->h) : std::string()); };
        bool threw = false; try { BitonalBitmapOperations::CopyAt(&s, mb.get(), IntPoint{ x, y }, &d); } catch (const std::exception&) { threw = true; }
        s.check(what()); d.check(what().c_str()); if (mb) mb->check(what());
        Pic want = dst; if (!threw) paint(want, src, x, y, m);
        if (threw) MC_CHECK(!convertible(src.pt, dst.pt), what(), ": fails");
        else if (!convertible(src.pt, dst.pt) && src.pt == dst.pt) return;   // not defined by the reference
        const std::string e = diff(want, d.pic()); MC_CHECK(e.empty(), what(), ": ", e);
    }
    void copyPositions(mc::Ctx& c)
    {
        const int t = c.choose(5, "types"); const PixelType sp = five[t], dp = five[c.choose(2, "same type") ? (t == 4 ? 4 : (t + 1 + c.choose(3, "other")) % 4) : t];
        const int N = c.thorough() ? 6 : 4; const int sw = c.choose(N + 1, "source width"), sh = c.choose(N + 1, "source height"), dw = 1 + c.choose(N, "destination width"), dh = 1 + c.choose(N, "destination height");
        const uint32_t pad = (sw + dh) % 4; const Pic src = testPic(sp, sw, sh, 5), dst = testPic(dp, dw, dh, 9);
        for (int x = -sw - 1; x <= dw + 1; ++x) for (int y = -sh - 1; y <= dh + 1; ++y) { copyOnce(src, dst, x, y, pad, 3 - pad, nullptr, 0, false); c.step(); c.state(mc::mix(mc::mix((int)sp * 16 + (int)dp, sw * 1000 + sh * 100 + dw * 10 + dh), (x + 50) * 100 + y + 50)); }
        static const int far[] = { INT_MIN, INT_MIN + 1, INT_MIN + 3, -100000, INT_MAX, INT_MAX - 1, INT_MAX - 3, 0 };
        for (int x : far) for (int y : far) { copyOnce(src, dst, x, y, pad, 1, nullptr, 0, false); c.step(); }
        c.outcome(mc::mix((int)sp, (int)dp));
    }
    void copyUnsupported(mc::Ctx& c)
    {
        const PixelType sp = all[c.choose(9, "source")], dp = all[c.choose(9, "destination")]; const Pic s = testPic(sp, 3, 2, 1), d = testPic(dp, 4, 3, 2); Mask m; m.w = 3; m.h = 2; m.bit.assign(6, 1);
        copyOnce(s, d, 1, 1, 1, 2, nullptr, 0, false); copyOnce(s, d, 1, 1, 1, 2, &m, 1, true); c.step(2); c.state((int)sp * 32 + (int)dp); c.outcome(convertible(sp, dp));
    }
    // every value
    void conversions(mc::Ctx& c)
    {
        const PixelType sp = five[c.choose(4, "source")], dp = five[c.choose(5, "destination")]; const bool masked = c.flip("with mask"); Pic s;
        static const uint16_t e[] = { 0, 1, 2, 3, 84, 85, 86, 127, 128, 170, 171, 254, 255, 256, 257, 258, 511, 512, 513, 767, 768, 769, 1000, 16383, 16384, 21845, 21846, 32766, 32767, 32768, 32769, 43690, 43691, 49152, 65279, 65280, 65281, 65532, 65533, 65534, 65535 };
        const int ne = sizeof(e) / sizeof(e[0]);
        if (sp == PixelType::Gray8) { s = Pic(sp, 256, 1); for (int i = 0; i < 256; ++i) s.px[i] = i; }
        else if (sp == PixelType::Gray16) { s = Pic(sp, 256, 256); for (int i = 0; i < 65536; ++i) st<uint16_t>(s.px.data(), (uint16_t)i, i); }
        else if (sp == PixelType::Bgr24) { const int first = c.choose(256, "blue"); if (!c.thorough() && masked && first % 16) throw mc::Prune(); s = Pic(sp, 256, 256); for (int i = 0; i < 65536; ++i) { s.px[3 * i] = first; s.px[3 * i + 1] = i >> 8; s.px[3 * i + 2] = i; } }
        else { const int first = c.choose(ne, "blue"); s = Pic(sp, ne, ne); for (int i = 0; i < ne * ne; ++i) { st<uint16_t>(s.px.data(), e[first], 3 * i); st<uint16_t>(s.px.data(), e[i / ne], 3 * i + 1); st<uint16_t>(s.px.data(), e[i % ne], 3 * i + 2); } }
        Mask m; if (masked) { m.w = s.w; m.h = s.h; m.bit.assign((size_t)s.w * s.h, 1); for (size_t i = 0; i < m.bit.size(); i += 7) m.bit[i] = 0; }
        copyOnce(s, Pic(dp, s.w, s.h, 0x42), 0, 0, 0, 0, masked ? &m : nullptr, 0, true); c.step(s.w * s.h); c.state(mc::mix(mc::hashBytes(s.px.data(), s.px.size()), (int)dp * 2 + masked)); c.outcome((int)sp * 16 + (int)dp);
    }
    void fill(mc::Ctx& c)
    {
        const PixelType pt = all[c.choose(9, "pixel type")]; const int w = c.choose(6, "width"), h = c.choose(4, "height"); const uint32_t pad = c.choose(3, "padding");
        static const float v[] = { 0, 1, 0.5f, 0.25f, -0.25f, 1.5f, 0.001f, 0.999f, 1.f / 3 };
        for (float r : v) for (float g : v) for (float b : v)
        {
            GuardBitmap d(testPic(pt, w, h, 3), pad); const Pic before = d.pic(); bool threw = false; try { libCZI::Utils::FillBitmap(&d, { r, g, b }); } catch (const std::exception&) { threw = true; } c.step();
            d.check("FillBitmap"); const bool known = pt == PixelType::Gray8 || pt == PixelType::Gray16 || pt == PixelType::Bgr24 || pt == PixelType::Bgr48 || pt == PixelType::Gray32Float || pt == PixelType::Bgra32;
            auto what = [&] { return mc::cat("filling ", name(pt), " ", w, "*", h, " with (", r, ",", g, ",", b, "): "); };
            if (threw) { MC_CHECK(!known, what(), "fails"); MC_CHECK(d.pic() == before, what(), "fails and modifies the bitmap"); c.outcome(0); continue; }
            if (!known) continue;
            const Pic got = d.pic();
            for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x)
            {
                const uint8_t* p = got.at(x, y); const double comp[] = { b, g, r }; bool ok = true; const double mean = ((double)r + g + b) / 3;
                auto near8 = [&](int val, double t) { t = t < 0 ? 0 : t > 1 ? 1 : t; return std::fabs(val - 255 * t) <= 0.501; }; auto near16 = [&](int val, double t) { t = t < 0 ? 0 : t > 1 ? 1 : t; return std::fabs(val - 65535 * t) <= 0.51; };
                switch (pt) { case PixelType::Gray8: ok = near8(p[0], mean); break; case PixelType::Gray16: ok = near16(ld<uint16_t>(p), mean); break; case PixelType::Gray32Float: ok = std::fabs(ld<float>(p) - mean) < 1e-5; break;
                case PixelType::Bgr24: for (int k = 0; k < 3; ++k) ok &= near8(p[k], comp[k]); break; case PixelType::Bgra32: for (int k = 0; k < 3; ++k) ok &= near8(p[k], comp[k]); ok &= p[3] == 255; break; default: for (int k = 0; k < 3; ++k) ok &= near16(ld<uint16_t>(p, k), comp[k]); break; }
                MC_CHECK(ok, what(), "wrong value at (", x, ",", y, "): ", got.text());
            }
            c.outcome((int)pt + 1);
        }
        c.state(mc::mix((int)pt * 100 + w * 10 + h, pad));
    }
    void border(mc::Ctx& c)
    {
        const PixelType sp = five[c.choose(5, "source")], dp = five[c.choose(5, "destination")]; if (!convertible(sp, dp)) throw mc::Prune(); const bool masked = c.flip("mask");
        const int sw = 1 + c.choose(5, "width"), sh = 1 + c.choose(5, "height"); const Pic src = testPic(sp, sw, sh, 77); Mask m; m.w = sw; m.h = sh; m.bit.assign(sw * sh, 1); if (masked) for (int i = 0; i < sw * sh; i += 3) m.bit[i] = 0;
        for (int x = -sw; x <= 6; ++x) for (int y = -sh; y <= 4; ++y)
        {
            const Pic base = testPic(dp, 6, 4, 31); GuardBitmap d(base, 2); auto s = std::make_shared<ExactBitmap>(src, 1); auto mb = std::make_shared<BitBitmap>(m, 1);
            libCZI::Compositors::ComposeSingleTileOptions o; o.drawTileBorder = true;
            if (masked) libCZI::Compositors::ComposeSingleChannelTilesMaskAware([&](int i, std::shared_ptr<libCZI::IBitmapData>& b, std::shared_ptr<libCZI::IBitonalBitmapData>& k, int& X, int& Y) { if (i) return false; b = s; k = mb; X = x; Y = y; return true; }, &d, 0, 0, &o);
            else libCZI::Compositors::ComposeSingleChannelTiles([&](int i, std::shared_ptr<libCZI::IBitmapData>& b, int& X, int& Y) { if (i) return false; b = s; X = x; Y = y; return true; }, &d, 0, 0, &o);
            s->check("composition with border"); d.check("composition with border"); mb->check("composition with border"); c.step();
            std::vector<cp::Layer> l{ { &src, x, y, masked ? &m : nullptr, false, 0 } };
            cp::checkPicture(base, l, false, d.pic(), true, [&] { return mc::cat("tile ", name(sp), " ", sw, "*", sh, " with border at (", x, ",", y, ")", masked ? " masked" : ""); });
            c.state(mc::mix((int)sp * 16 + (int)dp, sw * 10000 + sh * 1000 + (x + 9) * 20 + y + 9));
        }
        c.outcome((int)sp * 16 + (int)dp);
    }
    // checks one axis-aligned mapping; returns for a destination coordinate: 0 must not be painted, 1 must be, 2 may be
    struct Axis { double s0, s1, d0, d1; int n;      // source roi start/extent, destination roi start/extent, size of the source
        double pos(int x) const { return (x - d0) * (s1 / d1) + s0; }
        int kind(int x) const
        {
            const double p = pos(x), eps = 1e-5, scale = s1 / d1;
            if (x < d0 - 1 + eps || x > d0 + d1 + eps || p < -eps || p > n + scale - eps) return p < -eps || x < d0 - 1 - eps || x > d0 + d1 + 2 * eps || p > n + scale + eps ? 0 : 2;
            if (x >= d0 + eps && x < d0 + d1 - eps && p > eps && p < n - eps) return 1;
            if (x == 0 && d0 == 0 && d1 > 0 && p >= 0 && p < n - eps) return 1;
            return 2;
        }
        bool fits(int x, int i) const { double p = pos(x); p = p < 0 ? 0 : p > n - 1 ? n - 1 : p; return std::fabs(p - i) <= 0.5 + 1e-5; }
    };
    void checkResize(const Pic& src, const Pic& base, const Pic& got, const Axis& X, const Axis& Y, const std::function<std::string()>& what)
    {
        MC_CHECK(got.w == base.w && got.h == base.h && got.pt == base.pt, what(), ": the result has the wrong size or pixel type");
        for (int y = 0; y < got.h; ++y) for (int x = 0; x < got.w; ++x)
        {
            const int kx = X.kind(x), ky = Y.kind(y); const bool may = kx && ky, must = kx == 1 && ky == 1; bool ok = !must && !memcmp(got.at(x, y), base.at(x, y), bpp(got.pt));
            if (!ok && may) for (int j = 0; j < src.h && !ok; ++j) if (Y.fits(y, j)) for (int i = 0; i < src.w && !ok; ++i) if (X.fits(x, i)) ok = !memcmp(got.at(x, y), src.at(i, j), bpp(got.pt));
            MC_CHECK(ok, what(), ": pixel (", x, ",", y, ") ", may ? "is not the nearest source pixel" : "is outside of the target region but was painted", "; its position in the source is (", X.pos(x), ",", Y.pos(y), ")\n  source ", src.text(), "\n  result ", got.text());
        }
    }
    // a source with all pixels different
    Pic unique(PixelType pt, int w, int h) { Pic p(pt, w, h); for (int i = 0; i < w * h; ++i) for (int k = 0; k < bpp(pt); ++k) p.px[(size_t)i * bpp(pt) + k] = k == 0 ? (uint8_t)(i + 1) : k == 1 ? (uint8_t)((i + 1) >> 8 | 0x40) : (uint8_t)(i * 7 + k) & 0x3f; return p; }
    void resizeFull(mc::Ctx& c)
    {
        static const PixelType ts[] = { PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48, PixelType::Gray32Float, PixelType::Bgra32 };
        const PixelType pt = ts[c.choose(6, "pixel type")]; const int N = pt == PixelType::Gray8 ? (c.thorough() ? 40 : 20) : 5; const bool vertical = c.flip("vertical");
        const int a = 1 + c.choose(N, "source"), b = 1 + c.choose(N, "destination"); const int a2 = 1 + c.choose(3, "source, other axis"), b2 = 1 + c.choose(4, "destination, other axis");
        const int sw = vertical ? a2 : a, sh = vertical ? a : a2, dw = vertical ? b2 : b, dh = vertical ? b : b2; const Pic src = unique(pt, sw, sh); ExactBitmap s(src, (a + b) % 3);
        auto r = libCZI::Utils::NearestNeighborResize(&s, dw, dh); auto what = [&] { return mc::cat("resizing ", name(pt), " ", sw, "*", sh, " to ", dw, "*", dh); }; s.check(what());
        const Axis X{ 0, (double)sw, 0, (double)dw, sw }, Y{ 0, (double)sh, 0, (double)dh, sh }; checkResize(src, Pic(pt, dw, dh), picOf(r.get()), X, Y, what); c.step(); c.state(mc::mix(mc::mix((int)pt, a * 100 + b), a2 * 10 + b2)); c.outcome((int)pt);
    }
    void resizeRoi(mc::Ctx& c)
    {
        static const PixelType ts[] = { PixelType::Gray8, PixelType::Bgr24, PixelType::Gray16 };
        struct R { double s0, s1; }; static const R sr[] = { {0, 0}, {1, 2}, {0.5, 2}, {-1, 3}, {-2.5, 4}, {2, 3.3}, {0, 1}, {0.25, 0.5}, {1.7, 100}, {-50, 100}, {6, 2}, {-9, 3}, {3, 1} };
        static const R dr[] = { {0, 5}, {1, 3}, {0.5, 3}, {-1, 4}, {-2.25, 9.5}, {2.6, 1}, {0, 0.4}, {4, 6}, {7, 3}, {-6, 5}, {-1000000, 2000000}, {-1e12, 2e12}, {0, 1e11} };
        const PixelType pt = ts[c.choose(c.thorough() ? 3 : 2, "pixel type")]; const int sw = (int[]){ 1, 3, 4, 6 }[c.choose(4, "source width")], sh = 2, dw = (int[]){ 1, 5, 8 }[c.choose(3, "destination width")], dh = 3; const bool vertical = c.flip("vertical");
        R s = sr[c.choose(13, "source roi")], d = dr[c.choose(13, "destination roi")]; if (s.s1 == 0) s.s1 = sw;
        const int other = c.choose(3, "other axis"); const R os = other == 0 ? R{ 0, 2 } : other == 1 ? R{ 0.5, 1 } : R{ -1, 4 }, od = other == 0 ? R{ 0, 3 } : other == 1 ? R{ 1, 1.5 } : R{ 0.5, 2 };
        Axis X{ s.s0, s.s1, d.s0, d.s1, sw }, Y{ os.s0, os.s1, od.s0, od.s1, sh }; int W = sw, H = sh, DW = dw, DH = dh; if (vertical) { std::swap(X, Y); std::swap(W, H); std::swap(DW, DH); }
        const Pic src = unique(pt, W, H); ExactBitmap b(src, 1);
        auto r = libCZI::Utils::NearestNeighborResize(&b, DW, DH, DblRect{ X.s0, Y.s0, X.s1, Y.s1 }, DblRect{ X.d0, Y.d0, X.d1, Y.d1 });
        auto what = [&] { return mc::cat("resizing the region (", X.s0, ",", Y.s0, ",", X.s1, ",", Y.s1, ") of ", name(pt), " ", W, "*", H, " into (", X.d0, ",", Y.d0, ",", X.d1, ",", Y.d1, ") of ", DW, "*", DH); };
        b.check(what()); checkResize(src, Pic(pt, DW, DH), picOf(r.get()), X, Y, what); c.step(); c.state(mc::hashStr(what())); c.outcome(mc::hashBytes(picOf(r.get()).px.data(), (size_t)DW * DH * bpp(pt)));
    }

    const int longs[] = { 255, 256, 257, 1025, 32767, 32768, 32769, 65535, 65536, 65537, 70001 };
    void largeBitmaps(mc::Ctx& c)
    {
        const int n = longs[c.choose(11, "length")]; const bool vertical = c.flip("vertical"); const PixelType pt = five[c.choose(5, "pixel type")]; const int op = c.choose(4, "operation"), k = c.choose(4, "variant"); const int w = vertical ? 2 : n, h = vertical ? n : 2;
        if (op == 0) { const PixelType dp = pt == PixelType::Gray32Float ? pt : five[((int)(std::find(five, five + 5, pt) - five) + k) % 4]; static const int off[] = { 0, -1, 3, -200 }; const int o = off[k]; copyOnce(testPic(pt, w, h, 5), testPic(dp, vertical ? 3 : n + 1, vertical ? n + 1 : 3, 9), vertical ? 1 : o, vertical ? o : 1, k, 3 - k, nullptr, 0, false); }
        else if (op == 1) { Mask m; m.w = w; m.h = h; m.bit.resize((size_t)w * h); for (size_t i = 0; i < m.bit.size(); ++i) m.bit[i] = (i * 2654435761u >> 13) & 1; static const int off[] = { 0, -9, 3, -n + 5 }; const int o = off[k]; copyOnce(testPic(pt, w, h, 5), testPic(pt, vertical ? 3 : n, vertical ? n : 3, 9), vertical ? 0 : o, vertical ? o : 0, k, 3 - k, &m, k & 1, k > 1); }
        else if (op == 2)
        {
            if (k > 1) throw mc::Prune(); const int b = k ? 37 : 3; const Pic src = unique(pt, w, h); ExactBitmap s(src, 1); const int dw = vertical ? 2 : b, dh = vertical ? b : 2; auto r = libCZI::Utils::NearestNeighborResize(&s, dw, dh); Pic got = picOf(r.get()); s.check("resizing");
            for (int y = 0; y < dh; ++y) for (int x = 0; x < dw; ++x) { bool ok = false; const double px = (double)x * w / dw, py = (double)y * h / dh; for (int i = std::max(0, (int)px - 1); i <= std::min(w - 1, (int)px + 1); ++i) for (int j = std::max(0, (int)py - 1); j <= std::min(h - 1, (int)py + 1); ++j) ok |= std::fabs(i - px) <= 0.51 && std::fabs(j - py) <= 0.51 && !memcmp(got.at(x, y), src.at(i, j), bpp(pt)); MC_CHECK(ok || px > w - 1 || py > h - 1, "resizing ", w, "*", h, " to ", dw, "*", dh, ": pixel (", x, ",", y, ")"); }
        }
        else { if (k > 1) throw mc::Prune(); GuardBitmap d(testPic(pt, w, h, 3), 1); Pic want = d.pic(); libCZI::RgbFloatColor col{ 1, 1, 1 }; if (k) col = { 0, 0, 0 }; fillPic(want, col.r, col.g, col.b); libCZI::Utils::FillBitmap(&d, col); d.check("filling"); const std::string e = diff(want, d.pic()); MC_CHECK(e.empty(), "filling ", name(pt), " ", w, "*", h, ": ", e); }
        c.step(); c.state(mc::mix(mc::mix(n, (int)pt), op * 8 + k * 2 + vertical)); c.outcome(op);
    }

    // ------------------------------------------------------------------ C17
    Mask pattern(int w, int h, int kind, int at = 0)
    {
        Mask m; m.w = w; m.h = h; m.bit.resize((size_t)w * h); uint32_t v = 12345 + w * 7 + h + kind * 131 + at;
        for (auto& b : m.bit) { v = v * 1664525u + 1013904223u; b = kind == 0 ? 0 : kind == 1 ? 1 : kind == 2 ? (v >> 16) & 1 : kind == 3 ? ((v >> 16) % 10) != 0 : ((v >> 16) % 3) != 0; }
        if (kind == 9) { std::fill(m.bit.begin(), m.bit.end(), 1); m.bit[at] = 0; }
        return m;
    }
    // all bytes but the bits of the pixels have to be 'other'; padding bits of the last byte of a line are only compared if strict
    void compareBits(const BitBitmap& b, const Mask& want, const Bytes& before, bool strict, const std::function<std::string()>& what)
    {
        for (uint32_t y = 0; y < b.h; ++y) for (uint32_t x = 0; x < b.w; ++x) MC_CHECK(b.get(x, y) == (want.bit[(size_t)y * b.w + x] != 0), what(), ": pixel (", x, ",", y, ") is ", b.get(x, y));
        const Bytes now = b.bytes(); for (size_t i = 0; i < now.size(); ++i) { const uint32_t in = (uint32_t)(i % b.stride); uint8_t mask = in * 8 >= b.w ? 0xff : (in * 8 + 8 > b.w && strict) ? (uint8_t)(0xff >> (b.w % 8)) : 0; MC_CHECK(((now[i] ^ before[i]) & mask) == 0, what(), ": a bit which is not a pixel was modified (byte ", i, ")"); }
    }
    void bitPixels(mc::Ctx& c)
    {
        const int w = 1 + c.choose(c.thorough() ? 70 : 34, "width"), h = 1 + c.choose(3, "height"); const uint32_t pad = c.choose(2, "padding"); const int kind = c.choose(3, "pattern"); const bool padding = c.flip("padding bits");
        const Mask m = pattern(w, h, kind);
        for (int y = 0; y <= h; ++y) for (int x = 0; x <= w + 8; ++x) for (int v = 0; v < 2; ++v)
        {
            auto b = std::make_shared<BitBitmap>(m, pad, padding); const Bytes before = b->bytes(); auto what = [&] { return mc::cat("one-bit bitmap ", w, "*", h, " stride ", b->stride, " pixel (", x, ",", y, ")"); };
            const bool inside = x < w && y < h; bool threw = false, got = false; try { got = BitonalBitmapOperations::GetPixelValue(b, x, y); } catch (const std::exception&) { threw = true; }
            MC_CHECK(threw == !inside, what(), inside ? ": reading fails" : ": reading outside of the bitmap is not reported"); if (inside) MC_CHECK(got == (m.bit[(size_t)y * w + x] != 0), what(), ": wrong value read"); b->check(what());
            threw = false; try { BitonalBitmapOperations::SetPixelValue(b, x, y, v != 0); } catch (const std::exception&) { threw = true; }
            MC_CHECK(threw == !inside, what(), inside ? ": setting fails" : ": setting outside of the bitmap is not reported"); b->check(what());
            Mask want = m; if (inside) want.bit[(size_t)y * w + x] = v; compareBits(*b, want, before, true, what); c.step(2);
        }
        for (uint32_t big : { 0x7fffffffu, 0x80000000u, 0xffffffffu }) { auto b = std::make_shared<BitBitmap>(m, pad, padding); for (int k = 0; k < 4; ++k) { bool threw = false; try { if (k & 2) BitonalBitmapOperations::GetPixelValue(b, k & 1 ? big : 0, k & 1 ? 0 : big); else BitonalBitmapOperations::SetPixelValue(b, k & 1 ? big : 0, k & 1 ? 0 : big, true); } catch (const std::exception&) { threw = true; } MC_CHECK(threw, "access to a pixel far outside is not reported"); b->check("pixel far outside"); } }
        for (int v = 0; v < 2; ++v) { BitBitmap b(m, pad, padding); const Bytes before = b.bytes(); BitonalBitmapOperations::SetAllPixels(&b, v != 0); b.check("SetAllPixels"); Mask want = m; std::fill(want.bit.begin(), want.bit.end(), (uint8_t)v); compareBits(b, want, before, false, [&] { return mc::cat("SetAllPixels ", w, "*", h); }); c.step(); }
        c.state(mc::mix(w * 10 + h, pad * 8 + kind * 2 + padding)); c.outcome(kind);
    }
    void bitFill(mc::Ctx& c)
    {
        static const int ws[] = { 1, 2, 7, 8, 9, 15, 16, 17, 23, 24, 25, 33 }; const int w = c.thorough() ? 1 + c.choose(40, "width") : ws[c.choose(12, "width")], h = 1 + c.choose(2, "height"); const uint32_t pad = c.choose(2, "padding"); const int kind = c.choose(3, "pattern"); const bool v = c.flip("value");
        const Mask m = pattern(w, h, kind); static const int ext[] = { INT_MIN, INT_MIN + 1, -1000, INT_MAX - 1, INT_MAX };
        auto once = [&](int x, int y, int rw, int rh)
        {
            BitBitmap b(m, pad, !v); const Bytes before = b.bytes(); auto what = [&] { return mc::cat("filling (", x, ",", y, ",", rw, ",", rh, ") of a one-bit bitmap ", w, "*", h, " stride ", b.stride); };
            BitonalBitmapOperations::Fill(&b, IntRect{ x, y, rw, rh }, v); b.check(what()); Mask want = m;
            for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) if (i >= x && j >= y && (int64_t)i < (int64_t)x + rw && (int64_t)j < (int64_t)y + rh) want.bit[(size_t)j * w + i] = v;
            compareBits(b, want, before, true, what); c.step();
        };
        for (int x = -10; x <= w + 1; ++x) for (int rw = -2; rw <= w + 12; ++rw) for (int k = 0; k < 2; ++k) once(x, k ? -1 : 0, rw, k ? 2 : h);
        for (int y = -3; y <= h + 1; ++y) for (int rh = -1; rh <= h + 4; ++rh) once(0, y, w, rh);
        for (int x : ext) for (int rw : ext) { once(x, 0, rw, h); once(0, x, w, rw); } for (int x : ext) { once(x, 0, w, h); once(0, 0, x, h); once(1, 1, x, x); once(0, x, w, h); once(0, 0, w, x); }
        c.state(mc::mix(w * 10 + h, pad * 16 + kind * 2 + v)); c.outcome(kind * 2 + v);
    }
    void maskCopy(mc::Ctx& c)
    {
        const int t = c.choose(5, "type"); const PixelType sp = five[t], dp = t == 4 ? five[4] : five[(t + c.choose(2, "destination type")) % 4]; static const int ms[] = { 0, 1, 3, 4, 5, 8, 9, 17 };
        const int sw = (int[]){ 1, 4, 9, 17 }[c.choose(4, "source width")], sh = 1 + c.choose(3, "source height"), mw = ms[c.choose(8, "mask width")], mh = c.choose(4, "mask height"), kind = 1 + c.choose(2, "pattern"); const uint32_t pm = c.choose(2, "mask padding"); const bool mpad = c.flip("padding bits");
        const Mask m = pattern(mw, mh, kind); const Pic src = testPic(sp, sw, sh, 4), dst = testPic(dp, 6, 3, 8);
        for (int x = -sw - 1; x <= 7; ++x) for (int y = -sh - 1; y <= 4; ++y) { copyOnce(src, dst, x, y, 1, 2, &m, pm, mpad); c.step(); }
        for (int x : { INT_MIN, INT_MIN + 2, INT_MAX, INT_MAX - 2 }) { copyOnce(src, dst, x, 0, 1, 2, &m, pm, mpad); copyOnce(src, dst, 0, x, 1, 2, &m, pm, mpad); c.step(2); }
        c.state(mc::mix(mc::mix(t * 8 + (int)dp, sw * 10 + sh), mw * 100 + mh * 10 + kind * 4 + pm * 2 + mpad)); c.outcome(mw > sw ? 2 : mw < sw);
    }
    void decimateOnce(mc::Ctx& c, const Mask& m, int n, uint32_t pad, bool padding)
    {
        BitBitmap b(m, pad, padding); const Bytes before = b.bytes(); auto what = [&] { return mc::cat("decimating ", m.w, "*", m.h, " (stride ", b.stride, ") with neighbourhood ", n); };
        std::shared_ptr<libCZI::IBitonalBitmapData> r; try { r = BitonalBitmapOperations::Decimate(n, &b); } catch (const std::exception& e) { b.check(what()); MC_CHECK(m.w < 2 || m.h < 2 || n < 0 || n > 7, what(), ": fails: ", e.what()); return; }
        b.check(what()); MC_CHECK(b.bytes() == before, what(), ": the source was modified"); MC_CHECK(n >= 0 && n <= 7, what(), ": is accepted"); const auto sz = r->GetSize();
        MC_CHECK((int)sz.w == m.w / 2 && (int)sz.h == m.h / 2, what(), ": the result is ", sz.w, "*", sz.h); MC_CHECK(r->GetLockCount() == 0, what(), ": the result is locked");
        std::vector<uint32_t> sum((size_t)(m.w + 1) * (m.h + 1), 0); for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) sum[(size_t)(y + 1) * (m.w + 1) + x + 1] = sum[(size_t)y * (m.w + 1) + x + 1] + sum[(size_t)(y + 1) * (m.w + 1) + x] - sum[(size_t)y * (m.w + 1) + x] + !m.bit[(size_t)y * m.w + x];
        for (int y = 0; y < (int)sz.h; ++y) for (int x = 0; x < (int)sz.w; ++x)
        {
            const int x0 = std::max(0, 2 * x - n), x1 = std::min(m.w, 2 * x + n + 1), y0 = std::max(0, 2 * y - n), y1 = std::min(m.h, 2 * y + n + 1); auto S = [&](int X, int Y) { return sum[(size_t)Y * (m.w + 1) + X]; };
            const bool want = S(x1, y1) - S(x0, y1) - S(x1, y0) + S(x0, y0) == 0; MC_CHECK(BitonalBitmapOperations::GetPixelValue(r, x, y) == want, what(), ": result pixel (", x, ",", y, ") is ", !want);
        }
        c.step();
    }
    void decimate(mc::Ctx& c)
    {
        const int n = c.choose(8, "neighbourhood"), w = 1 + c.choose(c.thorough() ? 140 : 72, "width"), h = 1 + c.choose(c.thorough() ? 20 : 9, "height"); const uint32_t pad = c.choose(2, "padding") * 3; const bool padding = c.flip("padding bits");
        for (int kind : { 1, 0, 3, 4, 2 }) decimateOnce(c, pattern(w, h, kind), n, pad, padding); c.state(mc::mix(mc::mix(n, w * 32 + h), pad * 2 + padding)); c.outcome(mc::mix(n, w % 32));
    }
    void decimateSingle(mc::Ctx& c)
    {
        static const int ws[] = { 4, 15, 16, 17, 31, 32, 33, 40, 47, 48, 49, 63, 64, 65, 72 }; const int n = c.choose(8, "neighbourhood"), w = c.thorough() ? 2 + c.choose(80, "width") : ws[c.choose(15, "width")], h = (int[]){ 2, 5, 18 }[c.choose(3, "height")];
        if (h == 18 && w > 40 && !c.thorough()) throw mc::Prune();
        for (int at = 0; at < w * h; ++at) decimateOnce(c, pattern(w, h, 9, at), n, 0, true); c.state(mc::mix(n, w * 32 + h)); c.outcome(n);
    }
    void largeBits(mc::Ctx& c)
    {
        const int n = longs[c.choose(11, "length")]; const bool vertical = c.flip("vertical"); const int w = vertical ? 9 : n, h = vertical ? n : 3, op = c.choose(3, "operation"), kind = 1 + c.choose(3, "pattern"); const uint32_t pad = c.flip("padding") ? 3 : 0; const Mask m = pattern(w, h, kind);
        if (op == 0) decimateOnce(c, m, kind, pad, true);
        else if (op == 1)
        {
            static const int st[][2] = { {0, 0}, {1, 2}, {250, 260}, {0, 32770}, {5, 65530}, {-3, 70010}, {65534, 7}, {32766, 5} };
            for (auto& q : st) for (int v = 0; v < 2; ++v) { const IntRect r = vertical ? IntRect{ 1, q[0], 7, q[1] } : IntRect{ q[0], 1, q[1], 1 }; BitBitmap b(m, pad, true); const Bytes before = b.bytes(); auto what = [&] { return mc::cat("filling (", r.x, ",", r.y, ",", r.w, ",", r.h, ") of a one-bit bitmap ", w, "*", h); }; BitonalBitmapOperations::Fill(&b, r, v != 0); b.check(what()); Mask want = m; for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) if (i >= r.x && j >= r.y && i < r.x + r.w && j < r.y + r.h) want.bit[(size_t)j * w + i] = v; compareBits(b, want, before, true, what); c.step(); }
        }
        else
        {
            auto b = std::make_shared<BitBitmap>(m, pad, true); Mask want = m; const Bytes before = b->bytes();
            for (int i = 0; i < n; i += 1 + n / 400) { const uint32_t x = vertical ? i % w : i, y = vertical ? i : i % h; MC_CHECK(BitonalBitmapOperations::GetPixelValue(b, x, y) == (want.bit[(size_t)y * w + x] != 0), "one-bit bitmap ", w, "*", h, ": wrong value read at (", x, ",", y, ")"); BitonalBitmapOperations::SetPixelValue(b, x, y, !want.bit[(size_t)y * w + x]); want.bit[(size_t)y * w + x] ^= 1; }
            b->check("SetPixelValue"); compareBits(*b, want, before, true, [&] { return mc::cat("setting pixels of a one-bit bitmap ", w, "*", h); }); c.step();
        }
        c.state(mc::mix(mc::mix(n, op), kind * 4 + pad + vertical)); c.outcome(op);
    }
    void decimateRange(mc::Ctx& c) { const int n = (int[]){ -1, 8, 9, INT_MAX, INT_MIN, 100 }[c.choose(6, "neighbourhood")]; decimateOnce(c, pattern(9, 5, 2), n, 0, true); c.state(n); c.outcome(0); }

    // ------------------------------------------------------------------ C24
    // lock histories of a bitmap created by the library
    void lockHistories(mc::Ctx& c)
    {
        const int which = c.choose(3, "bitmap"); std::shared_ptr<libCZI::IBitmapData> b; std::shared_ptr<libCZI::IBitonalBitmapData> m;
        if (which == 0) { GuardBitmap g(testPic(PixelType::Bgr24, 3, 2, 1)); b = libCZI::Utils::NearestNeighborResize(&g, 4, 2); }
        else if (which == 1) { Sb s; s.dims = { {DimensionIndex::C, 0} }; setPic(s, testPic(PixelType::Gray16, 3, 2, 1)); s.lw = 3; s.lh = 2; cp::Tile t; t.sb = s; auto r = cp::open({ t }); b = r->ReadSubBlock(0)->CreateBitmap(); }
        else { BitBitmap k(pattern(9, 4, 2)); m = BitonalBitmapOperations::Decimate(1, &k); }
        int count = 0; void* ptr = nullptr; uint32_t stride = 0; uint64_t size = 0; const int depth = c.thorough() ? 14 : 10;
        for (int i = 0; i < depth; ++i)
        {
            const int before = b ? b->GetLockCount() : m->GetLockCount(); MC_CHECK(before == count, "the lock count is ", before, ", expected ", count);
            if (c.flip(i == 0 ? "lock/unlock" : "")) { void* p; uint32_t s; uint64_t n; if (b) { auto l = b->Lock(); p = l.ptrDataRoi; s = l.stride; n = l.size; } else { auto l = m->Lock(); p = l.ptrData; s = l.stride; n = l.size; } if (ptr) MC_CHECK(p == ptr && s == stride && n == size, "Lock gives other memory than before"); ptr = p; stride = s; size = n; ++count; }
            else { bool threw = false; try { if (b) b->Unlock(); else m->Unlock(); } catch (const std::exception&) { threw = true; } MC_CHECK(threw == (count == 0), count ? "Unlock fails" : "unlocking a bitmap which is not locked is not reported"); if (count) --count; }
            c.step(); c.state(mc::mix(which, i * 32 + count));
        }
        while (count > 0) { if (b) b->Unlock(); else m->Unlock(); --count; } c.outcome(which);
    }
    // every operation on bitmaps, with the k-th Lock failing, or with bitmaps it cannot process
    void lockBalance(mc::Ctx& c)
    {
        static const PixelType ts[] = { PixelType::Gray8, PixelType::Bgr24, PixelType::Gray16, PixelType::Gray32Float, PixelType::Bgra32, PixelType::Bgr96Float };
        const int op = c.choose(14, "operation"); const PixelType sp = ts[c.choose(6, "source type")], dp = ts[c.choose(6, "destination type")]; const int failAt = c.choose(6, "failing lock"); int calls = 0; auto f = [&] { return ++calls == failAt; };
        auto s = std::make_shared<ExactBitmap>(testPic(sp, 4, 4, 1), 1), s2 = std::make_shared<ExactBitmap>(testPic(sp, 4, 4, 2), 0); auto d = std::make_shared<ExactBitmap>(testPic(dp, 4, 4, 3), 2); auto k = std::make_shared<BitBitmap>(pattern(4, 4, 2));
        s->failLock = s2->failLock = d->failLock = f; k->failLock = f; bool threw = false; std::string err;
        Sb sb; sb.dims = { {DimensionIndex::C, 0} }; sb.lw = 4; sb.lh = 4; setPic(sb, testPic(sp, 4, 4, 5)); cp::Tile tile; tile.sb = sb; Mask tm = pattern(4, 4, 2); if (op == 12) { setMask(tile.sb, tm); }
        std::shared_ptr<libCZI::ICZIReader> r; if (op >= 10 && op <= 12) r = cp::open({ tile });
        libCZI::CDimCoordinate plane; plane.Set(DimensionIndex::C, 0); libCZI::Compositors::ChannelInfo ci[2]; for (auto& x : ci) { x.Clear(); x.weight = 1; x.whitePoint = 1; } ci[1].enableTinting = true; ci[1].tinting.color = { 10, 20, 30 }; libCZI::IBitmapData* src[2] = { s.get(), s2.get() };
        try
        {
            switch (op)
            {
            case 0: BitonalBitmapOperations::CopyAt(s.get(), nullptr, { 1, 1 }, d.get()); break;
            case 1: BitonalBitmapOperations::CopyAt(s.get(), k.get(), { 1, 1 }, d.get()); break;
            case 2: libCZI::Utils::NearestNeighborResize(s.get(), 3, 3); break;
            case 3: libCZI::Utils::NearestNeighborResize(s.get(), 3, 3, { 0, 0, 4, 4 }, { 0, 0, 3, 3 }); break;
            case 4: BitonalBitmapOperations::Decimate(1, k.get()); break;
            case 5: BitonalBitmapOperations::Fill(k.get(), { 0, 0, 2, 2 }, true); BitonalBitmapOperations::SetPixelValue(k.get(), 9, 9, true); break;
            case 6: { uint8_t h[16]; libCZI::Utils::CalcMd5SumHash(s.get(), h, 16); libCZI::Utils::CalcMd5SumHash(s.get(), h, failAt ? 16 : 15); break; }
            case 7: libCZI::Utils::FillBitmap(d.get(), { 1, 0, 0 }); break;
            case 8: case 9: { libCZI::Compositors::ComposeSingleTileOptions o; o.drawTileBorder = true; int n = 0; if (op == 8) libCZI::Compositors::ComposeSingleChannelTiles([&](int i, std::shared_ptr<libCZI::IBitmapData>& b, int& x, int& y) { if (i > 1) { if (failAt == 5) throw std::runtime_error("callback"); return false; } b = i ? s2 : s; x = y = i; ++n; return true; }, d.get(), 0, 0, &o);
                else libCZI::Compositors::ComposeSingleChannelTilesMaskAware([&](int i, std::shared_ptr<libCZI::IBitmapData>& b, std::shared_ptr<libCZI::IBitonalBitmapData>& mm, int& x, int& y) { if (i > 1) { if (failAt == 5) throw std::runtime_error("callback"); return false; } b = i ? s2 : s; mm = k; x = y = i; return true; }, d.get(), 0, 0, &o); break; }
            case 10: { libCZI::ISingleChannelTileAccessor::Options o; o.Clear(); o.backGroundColor = { 0, 0, 0 }; r->CreateSingleChannelTileAccessor()->Get(d.get(), -1, -1, &plane, &o); break; }
            case 11: case 12: { libCZI::ISingleChannelScalingTileAccessor::Options o; o.Clear(); o.backGroundColor = { 0, 0, 0 }; o.maskAware = op == 12; r->CreateSingleChannelScalingTileAccessor()->Get(d.get(), IntRect{ -1, -1, 8, 8 }, &plane, 0.5f, &o); break; }
            case 13: libCZI::Compositors::ComposeMultiChannel_Bgr24(d.get(), 2, src, ci); libCZI::Compositors::ComposeMultiChannel_Bgra32(d.get(), 7, 2, src, ci); break;
            }
        }
        catch (const mc::Violation&) { throw; }
        catch (const std::exception& e) { threw = true; err = e.what(); }
        auto what = [&] { return mc::cat("operation ", op, " from ", name(sp), " to ", name(dp), ", failing lock ", failAt, threw ? " (fails with '" + err + "')" : ""); };
        s->check(what()); s2->check(what()); MC_CHECK(d->locks == 0 && !d->underflow, what(), ": the lock count of the destination is ", d->locks); k->check(what()); c.step(); c.state(mc::mix(op * 64 + failAt, (int)sp * 32 + (int)dp)); c.outcome(op * 2 + threw);
    }

    // ------------------------------------------------------------------ C16: checksums (RFC 1321, computed independently)
static std::string md5(const Bytes& in)
{
    Bytes m = in; const uint64_t bits = (uint64_t)in.size() * 8; m.push_back(0x80); while (m.size() % 64 != 56) m.push_back(0); for (int i = 0; i < 8; ++i) m.push_back((uint8_t)(bits >> (8 * i)));
    uint32_t st[4] = { 0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u }; static const int sh[4][4] = { { 7, 12, 17, 22 }, { 5, 9, 14, 20 }, { 4, 11, 16, 23 }, { 6, 10, 15, 21 } };
    for (size_t o = 0; o < m.size(); o += 64)
    {
        uint32_t x[16]; for (int i = 0; i < 16; ++i) x[i] = m[o + 4 * i] | (uint32_t)m[o + 4 * i + 1] << 8 | (uint32_t)m[o + 4 * i + 2] << 16 | (uint32_t)m[o + 4 * i + 3] << 24;
        uint32_t a = st[0], b = st[1], c = st[2], d = st[3];
        for (int i = 0; i < 64; ++i)
        {
            uint32_t fn; int g; switch (i / 16) { case 0: fn = (b & c) | (~b & d); g = i; break; case 1: fn = (d & b) | (~d & c); g = (5 * i + 1) % 16; break; case 2: fn = b ^ c ^ d; g = (3 * i + 5) % 16; break; default: fn = c ^ (b | ~d); g = (7 * i) % 16; }
            const uint32_t k = (uint32_t)(int64_t)std::floor(std::fabs(std::sin(i + 1.0)) * 4294967296.0), t = a + fn + k + x[g]; const int r = sh[i / 16][i % 4]; a = d; d = c; c = b; b = b + (t << r | t >> (32 - r));
        }
        st[0] += a; st[1] += b; st[2] += c; st[3] += d;
    }
    std::string h; for (int i = 0; i < 16; ++i) h.push_back((char)(st[i / 4] >> (8 * (i % 4)))); return h;
}
static void checksums(mc::Ctx& c)
{
    if (c.flip("bitmap"))
    {
        static const PixelType pts[] = { PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48, PixelType::Gray32Float, PixelType::Bgra32 }; const PixelType pt = pts[c.choose(6, "pixel type")]; const int w = 1 + c.choose(c.thorough() ? 70 : 34, "width"), h = 1 + c.choose(6, "height"), pad = c.choose(3, "padding") * 7;
        Pic p = testPic(pt, w, h, 77 + w); GuardBitmap g(p, pad); uint8_t out[18]; memset(out, 0xEE, sizeof(out)); c.step(); const int r = libCZI::Utils::CalcMd5SumHash(&g, out + 1, 16); g.check("checksum"); MC_CHECK(g.pic() == p, "the bitmap was modified"); MC_CHECK(r == 16 && out[0] == 0xEE && out[17] == 0xEE, "checksum: returned ", r, ", or wrote outside");
        MC_CHECK(std::string((char*)out + 1, 16) == md5(p.px), "checksum of ", name(pt), " ", w, "*", h, " with padding ", pad, " is not the MD5 of the pixels"); c.outcome(mc::hashBytes(out + 1, 16));
    }
    else
    {
        static const size_t big[] = { 1023, 1024, 1025, 4096, 65535, 65536, 100001 }; const int n = c.thorough() ? 1100 : 330; const int k = c.choose(n + 7, "size"); const size_t sz = k < n ? (size_t)k : big[k - n]; const int content = c.choose(3, "content"); Bytes b = content == 0 ? Bytes(sz, 0) : content == 1 ? Bytes(sz, 0xff) : cz::pattern(sz, 5 + k);
        Bytes exact(b); exact.shrink_to_fit(); uint8_t out[18]; memset(out, 0xEE, sizeof(out)); c.step(); const int hs = c.choose(4, "hash size"); static const int hss[] = { 16, 17, 15, 0 }; bool t = false; int r = 0; try { r = libCZI::Utils::CalcMd5SumHash(exact.data(), sz, out + 1, hss[hs]); } catch (std::exception&) { t = true; }
        if (hs > 1) { MC_CHECK(t, "a hash size of ", hss[hs], " is accepted"); for (uint8_t v : out) MC_CHECK(v == 0xEE, "a refused call wrote something"); MC_CHECK(libCZI::Utils::CalcMd5SumHash(exact.data(), sz, nullptr, 0) == 16, "size of the hash"); }
        else { MC_CHECK(!t && r == 16 && out[0] == 0xEE && out[17] == 0xEE, "checksum: returned ", r, ", or wrote outside"); MC_CHECK(std::string((char*)out + 1, 16) == md5(b), "checksum of ", sz, " bytes is not the MD5"); }
        c.outcome(mc::hashBytes(out, 18));
    }
    c.state(0);
}
static struct Reg { Reg() { using namespace mc;
        add({ "C16", "checksums", "bitmaps of 6 pixel types, widths 1..34 (70), heights 1..6, 3 paddings; data of 0..329 (1099) and 7 larger sizes x 3 contents x 4 hash sizes: checksum = MD5 of exactly the pixels / data", checksums });
    add({ "C16", "copy_positions", "pixel type pairs x source 0..4 x 0..4, destination 1..4 x 1..4 (thorough 6), every offset from just outside to just outside, and offsets at the limits of int", copyPositions });
        add({ "C16", "copy_all_types", "9 x 9 pixel types: supported conversions follow the rule, others fail and change nothing", copyUnsupported });
        add({ "C16", "conversions", "every Gray8, Gray16 and Bgr24 value, 41^3 Bgr48 values, to each of 5 pixel types, plain and masked", conversions });
        add({ "C16", "fill", "9 pixel types x sizes 0..5 x 0..3 x 3 paddings x 9^3 colours incl. out of range", fill });
        add({ "C16", "tile_border", "border: convertible pixel type pairs x tile sizes 1..5 x 1..5 x every position, plain and masked", border });
        add({ "C16", "resize_full", "6 pixel types; Gray8: every pair of sizes 1..20 (thorough 40) along one axis", resizeFull });
        add({ "C16", "resize_roi", "13 source regions x 13 destination regions (fractional, partly or fully outside, huge) x sizes x both axes", resizeRoi });
        add({ "C16", "large_bitmaps", "11 lengths up to 70001, along both axes: copy (plain, masked), resize, fill x 5 pixel types x 4 variants", largeBitmaps });
        add({ "C17", "large_bitmaps", "11 lengths up to 70001, along both axes: decimate, fill, get/set pixels x 3 patterns x padding", largeBits });
        add({ "C17", "bit_pixels", "sizes 1..34 (thorough 70) x 1..3, strides, patterns: get and set every pixel, and positions outside; set all", bitPixels });
        add({ "C17", "bit_fill", "every region from -10 to beyond the bitmap, sizes around multiples of 8, both values, limits of int", bitFill });
        add({ "C17", "mask_copy", "source, mask and destination of different sizes, every offset, patterns, strides, padding bits", maskCopy });
        add({ "C17", "decimate", "neighbourhood 0..7 x widths 1..72 (thorough 140) x heights 1..9 (20) x 5 patterns x strides x padding bits", decimate });
        add({ "C17", "decimate_single_zero", "a single cleared pixel at every position, neighbourhood 0..7, widths around multiples of 8/16/32", decimateSingle });
        add({ "C17", "decimate_range", "illegal neighbourhood sizes", decimateRange });
        add({ "C24", "lock_histories", "all sequences of 10 (thorough 14) Lock/Unlock calls on bitmaps created by the library", lockHistories });
        add({ "C24", "lock_balance", "14 operations on bitmaps x 6 x 6 pixel types x failure of none or the k-th Lock (k<=5)", lockBalance });
    } } reg;
}
