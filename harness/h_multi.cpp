// C19: multi-channel composition and look-up tables. The reference computes the stated formula in double precision; a value may be
// rounded either way only where the exact value lies within 1/1000 of the middle between two integers.
#include "bmp.h"
#include <cfloat>

namespace
{
    using namespace cz; using namespace bm;
    using libCZI::Compositors; using libCZI::Utils; using libCZI::Rgb8Color;
    using CI = Compositors::ChannelInfo;
    const PixelType types[] = { PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48, PixelType::Bgra32 };
    int maxOf(PixelType p) { return p == PixelType::Gray16 || p == PixelType::Bgr48 ? 65535 : 255; }
    bool gray(PixelType p) { return p == PixelType::Gray8 || p == PixelType::Gray16; }
    int comp(PixelType p, const uint8_t* s, int i) { if (gray(p)) i = 0; return maxOf(p) == 255 ? s[i] : ld<uint16_t>(s, i); }

    // set of acceptable integers, as interval
    struct R { int lo, hi; };
    R around(double v) { return { (int)std::ceil(v - .501), (int)std::floor(v + .501) }; }
    int clamp8(int v) { return v < 0 ? 0 : v > 255 ? 255 : v; }
    double bw(double v, int max, float bp, float wp)
    {
        const int b = (int)std::ceil(bp * max), w = (int)std::floor(wp * max);
        return v <= b ? 0 : v >= w ? 1 : (v - b) / (w - b);
    }
    enum Map { Plain, BW, Lut };
    Map mapOf(const CI& ci) { return ci.lookUpTableElementCount ? Lut : ci.blackPoint <= 0 && ci.whitePoint >= 1 ? Plain : BW; }
    bool supported(PixelType p, const CI& ci) { bool k = false; for (auto t : types) k |= t == p; return k && (p != PixelType::Bgra32 || mapOf(ci) == Plain); }
    // value of the channel for component i (b, g, r): acceptable integers, and the exact value
    R value(PixelType p, const uint8_t* s, const CI& ci, int i, double& exact)
    {
        const int max = maxOf(p), n = gray(p) ? 1 : 3; const Map m = mapOf(ci); const int col = i == 0 ? ci.tinting.color.b : i == 1 ? ci.tinting.color.g : ci.tinting.color.r;
        if (m == Lut)
        {
            if (!ci.enableTinting) { const int v = ci.ptrLookUpTable[comp(p, s, i)]; exact = v; return { v, v }; }
            double f = 0; for (int k = 0; k < n; ++k) f += ci.ptrLookUpTable[comp(p, s, k)]; exact = f / (n * 255.) * col; return around(exact);
        }
        if (m == Plain)
        {
            if (!ci.enableTinting) { const int v = max == 255 ? comp(p, s, i) : comp(p, s, i) >> 8; exact = v; return { v, v }; }
            double f = 0; for (int k = 0; k < n; ++k) f += comp(p, s, k); exact = f / (n * (double)max) * col; return around(exact);
        }
        if (!ci.enableTinting) { exact = 255 * bw(comp(p, s, i), max, ci.blackPoint, ci.whitePoint); return around(exact); }
        int g = comp(p, s, 0); if (n == 3) g = (comp(p, s, 0) + comp(p, s, 1) + comp(p, s, 2) + 1) / 3;   // rounded mean
        exact = col * bw(g, max, ci.blackPoint, ci.whitePoint); return around(exact);
    }
    // the weight of a channel relative to the mean weight; all 1 if the weights are not usable
    std::vector<double> weights(const std::vector<CI>& c)
    {
        double sum = 0; for (auto& i : c) { if (!std::isfinite(i.weight) || i.weight < 0) return std::vector<double>(c.size(), 1); sum += i.weight; }
        if (sum <= FLT_EPSILON) return std::vector<double>(c.size(), 1);
        std::vector<double> w; for (auto& i : c) w.push_back((double)i.weight * c.size() / sum); return w;
    }
    void compare(const std::vector<Pic>& src, const std::vector<CI>& ci, const Pic& out, bool alpha, uint8_t alphaVal, const std::string& what)
    {
        const auto w = weights(ci); const int bp = alpha ? 4 : 3; const int n = (int)src.size();
        bool plainWeights = true; for (double v : w) if (v != 1) plainWeights = false;
        for (int y = 0; y < out.h; ++y) for (int x = 0; x < out.w; ++x)
        {
            for (int i = 0; i < 3; ++i)
            {
                int lo = 0, hi = 0;
                for (int c = 0; c < n; ++c)
                {
                    double e; R r = value(src[c].pt, src[c].at(x, y), ci[c], i, e);
                    if (!plainWeights) { R a = around(r.lo * w[c]), b = around(r.hi * w[c]), d = around(e * w[c]); r.lo = std::min(a.lo, std::min(b.lo, d.lo)); r.hi = std::max(a.hi, std::max(b.hi, d.hi)); }
                    lo += std::max(0, r.lo); hi += std::max(0, r.hi);
                }
                lo = clamp8(lo); hi = clamp8(hi); const int got = out.at(x, y)[i];
                if (got < lo || got > hi)
                {
                    std::string t; for (int c = 0; c < n; ++c) { t += mc::cat("\n  channel ", c, ": ", name(src[c].pt), " value"); for (int k = 0; k < (gray(src[c].pt) ? 1 : 3); ++k) t += mc::cat(" ", comp(src[c].pt, src[c].at(x, y), k)); t += mc::cat(" weight ", ci[c].weight, mapOf(ci[c]) == Lut ? " look-up table" : mapOf(ci[c]) == BW ? mc::cat(" black ", ci[c].blackPoint, " white ", ci[c].whitePoint) : std::string(), ci[c].enableTinting ? mc::cat(" tint r,g,b=", (int)ci[c].tinting.color.r, ",", (int)ci[c].tinting.color.g, ",", (int)ci[c].tinting.color.b) : std::string()); }
                    mc::fail(mc::cat(what, ": component ", "bgr"[i], " of pixel (", x, ",", y, ") is ", got, ", expected ", lo, lo == hi ? std::string() : mc::cat(" to ", hi), t));
                }
            }
            if (alpha) MC_CHECK(out.at(x, y)[3] == alphaVal, what, ": alpha of pixel (", x, ",", y, ") is ", (int)out.at(x, y)[3], ", expected ", (int)alphaVal);
        }
        (void)bp;
    }
    // dest: 0 = Bgr24 into a bitmap, 1 = Bgra32 into a bitmap, 2 = Bgr24 allocated, 3 = Bgra32 allocated
    void composeOnce(const std::vector<Pic>& src, const std::vector<CI>& ci, int dest, uint8_t alphaVal, uint32_t pad)
    {
        std::vector<std::unique_ptr<ExactBitmap>> b; std::vector<libCZI::IBitmapData*> p; for (auto& s : src) { b.emplace_back(new ExactBitmap(s, (uint32_t)((pad + b.size()) % 3) * 2)); p.push_back(b.back().get()); }
        const bool alpha = dest & 1; GuardBitmap d(alpha ? PixelType::Bgra32 : PixelType::Bgr24, src[0].w, src[0].h, pad, 0x77); std::shared_ptr<libCZI::IBitmapData> a;
        bool ok = true; for (size_t i = 0; i < src.size(); ++i) ok &= supported(src[i].pt, ci[i]);
        bool threw = false; std::string msg;
        const std::string what = mc::cat("composing ", src.size(), " channel(s) to ", alpha ? "Bgra32" : "Bgr24");
        try
        {
            const int n = (int)src.size();
            switch (dest) { case 0: Compositors::ComposeMultiChannel_Bgr24(&d, n, p.data(), ci.data()); break; case 1: Compositors::ComposeMultiChannel_Bgra32(&d, alphaVal, n, p.data(), ci.data()); break; case 2: a = Compositors::ComposeMultiChannel_Bgr24(n, p.data(), ci.data()); break; default: a = Compositors::ComposeMultiChannel_Bgra32(alphaVal, n, p.data(), ci.data()); }
        }
        catch (const std::exception& e) { threw = true; msg = e.what(); }
        for (auto& s : b) s->check(what); d.check(what.c_str());
        MC_CHECK(threw == !ok, what, ok ? mc::cat(" fails: ", msg) : std::string(" of a combination which is not supported does not fail")); if (threw) return;
        const Pic out = a ? picOf(a.get()) : d.pic(); MC_CHECK(out.pt == d.pt && out.w == src[0].w && out.h == src[0].h, what, ": size or pixel type of the result is wrong"); compare(src, ci, out, alpha, alphaVal, what);
    }

    // ------------------------------------------------------------------ alphabets
    const std::vector<uint8_t>& lutOf(int kind, int n)
    {
        static std::map<std::pair<int, int>, std::vector<uint8_t>> t; auto& v = t[{ kind, n }]; if (!v.empty()) return v; v.resize(n);
        for (int i = 0; i < n; ++i) { const int k = n == 256 ? i : i >> 8; v[i] = kind == 0 ? 255 - k : kind == 1 ? (uint8_t)(i * 37 + (i >> 8) * 11 + 5) : kind == 2 ? (i & 1 ? 255 : 0) : (uint8_t)(k * k / 255); }
        return v;
    }
    const uint16_t edge16[] = { 0, 1, 127, 128, 255, 256, 257, 6553, 6554, 13107, 21845, 32767, 32768, 32769, 49152, 58981, 58982, 65279, 65280, 65534, 65535 };
    const uint8_t edge8[] = { 0, 1, 2, 25, 26, 51, 63, 64, 65, 84, 85, 127, 128, 129, 191, 192, 229, 230, 253, 254, 255 };
    Pic allValues(PixelType p)
    {
        const int N = 21;
        if (p == PixelType::Gray8) { Pic s(p, 256, 1); for (int i = 0; i < 256; ++i) s.px[i] = i; return s; }
        if (p == PixelType::Gray16) { Pic s(p, 256, 256); for (int i = 0; i < 65536; ++i) st<uint16_t>(s.px.data(), (uint16_t)i, i); return s; }
        Pic s(p, N * N, N); for (int i = 0; i < N * N * N; ++i) for (int k = 0; k < 3; ++k) { const int e = k == 0 ? i % N : k == 1 ? i / N % N : i / (N * N); if (p == PixelType::Bgr48) st<uint16_t>(s.px.data(), edge16[e], 3 * i + k); else s.px[(p == PixelType::Bgr24 ? 3 : 4) * i + k] = edge8[e]; if (p == PixelType::Bgra32) s.px[4 * i + 3] = (uint8_t)(i * 7); }
        return s;
    }
    CI info(float weight, int tint, int map)
    {
        CI c; c.Clear(); c.weight = weight; static const Rgb8Color col[] = { { 0,0,0 }, { 255,255,255 }, { 255,0,0 }, { 0,255,3 }, { 1,128,254 }, { 37,200,90 } };
        c.enableTinting = tint != 0; if (tint) c.tinting.color = col[tint - 1];
        static const float bp[] = { 0, 0, 0.1f, 0.25f, 0.5f, 0.8f, 1, 0, 0.1f, -0.5f, 0.25f, 0.4f, 0.004f }, wp[] = { 1, 0.5f, 0.9f, 0.75f, 0.5f, 0.2f, 1, 0, 1, 0.5f, 1.5f, 0.41f, 0.996f };
        if (map < 13) { c.blackPoint = bp[map]; c.whitePoint = wp[map]; } else if (map >= 17) { static const float b2[] = { 0.0005f, 0, 0.0008f, 0.00001f }, w2[] = { 1, 0.9995f, 0.9992f, 0.99999f }; c.blackPoint = b2[map - 17]; c.whitePoint = w2[map - 17]; } else { c.blackPoint = 0.3f; c.whitePoint = 0.4f; }
        return c;
    }
    const int nTint = 7, nMap = 21;
    void setLut(CI& c, int map, PixelType p) { if (map >= 13 && map < 17) { const auto& l = lutOf(map - 13, maxOf(p) + 1); c.lookUpTableElementCount = (int)l.size(); c.ptrLookUpTable = l.data(); } }

    // ------------------------------------------------------------------ suites
    void values(mc::Ctx& c)
    {
        const PixelType p = types[c.choose(5, "pixel type")]; const int tint = c.choose(nTint, "tint"), map = c.choose(nMap, "mapping"), dest = c.choose(4, "destination"); static const uint8_t al[] = { 0, 255, 1, 128 };
        const Pic s = allValues(p); CI i = info(1, tint, map); setLut(i, map, p);
        composeOnce({ s }, { i }, dest, al[(tint + map) % 4], 1); c.step((size_t)s.w * s.h); c.state(mc::mix(mc::mix((int)p, tint * 100 + map), dest)); c.outcome(supported(p, i) * 10 + mapOf(i) * 2 + i.enableTinting);
    }
    // the value of one channel on top of another
    void weighted(mc::Ctx& c)
    {
        const PixelType p = types[c.choose(5, "pixel type")]; const int map = c.flip("mapping") ? 2 : 0; const int tint = c.choose(3, "tint") * 2; const int dest = c.choose(2, "destination"); const int pos = c.choose(2, "position");
        static const float w[][2] = { { 1, 1 }, { 1, 3 }, { 3, 1 }, { 0, 1 }, { 1, 0 }, { 0.3f, 0.7f }, { 1e30f, 3e30f }, { 3e38f, 3e38f }, { 3.4e38f, 1 } }; const int k = c.choose(9, "weights");
        const Pic s = allValues(p); Pic o(PixelType::Gray8, s.w, s.h); for (size_t i = 0; i < o.px.size(); ++i) o.px[i] = (uint8_t)(i * 53 / 7);
        std::vector<Pic> src; std::vector<CI> ci; for (int n = 0; n < 2; ++n) { if (n == pos) { src.push_back(s); ci.push_back(info(w[k][n], tint, map)); } else { src.push_back(o); ci.push_back(info(w[k][n], 0, 0)); } }
        composeOnce(src, ci, dest, 200, 2); c.step((size_t)s.w * s.h); c.state(mc::mix(mc::mix((int)p, map * 10 + tint), dest * 100 + pos * 50 + k)); c.outcome(k);
    }
    void combos(mc::Ctx& c)
    {
        const int n = 1 + c.choose(3, "channels"); struct Ch { PixelType p; int map, tint; }; std::vector<Ch> ch;
        static const int maps[] = { 0, 2, 10, 14 }; const int nm = c.thorough() ? 4 : 3; const int tints[] = { 0, 4, 5 };
        for (int i = 0; i < n; ++i) { Ch x; x.p = types[c.choose(5, "pixel type")]; int m = c.choose(nm, "mapping"); x.map = nm == 3 && m == 2 ? 14 : maps[m]; if (x.p == PixelType::Bgra32 && x.map && (i || m > 1)) throw mc::Prune(); x.tint = tints[c.choose(c.thorough() && n < 3 ? 3 : 2, "tint")]; ch.push_back(x); }
        static const float w[][3] = { { 1, 1, 1 }, { 0, 0, 0 }, { 1, 2, 3 }, { 3, 0, 1 }, { 0.5f, -1, 2 }, { NAN, 1, 2 }, { INFINITY, 1, 1 }, { 0.25f, 0.25f, 0.25f }, { 0, 5, 0.1f } };
        static const uint8_t pv[] = { 0, 255, 128, 37, 200, 1, 254, 90, 30, 250, 64, 100 };
        for (int k = 0; k < (c.thorough() ? 9 : 6); ++k) for (int dest = 0; dest < 2; ++dest)
        {
            std::vector<Pic> src; std::vector<CI> ci;
            for (int i = 0; i < n; ++i)
            {
                Pic s(ch[i].p, 4, 3); int step = i == 0 ? 1 : i == 1 ? 5 : 7;
                for (int q = 0; q < 12; ++q) { const uint8_t v = pv[q * step % 12]; if (gray(s.pt)) { if (s.pt == PixelType::Gray8) s.px[q] = v; else st<uint16_t>(s.px.data(), (uint16_t)(v * 257), q); } else for (int j = 0; j < 3; ++j) { const uint8_t u = (uint8_t)(j ? pv[(q * step + 3 * j) % 12] : v); if (s.pt == PixelType::Bgr48) st<uint16_t>(s.px.data(), (uint16_t)(u * 257), q * 3 + j); else s.at(q % 4, q / 4)[j] = u; } }
                src.push_back(s); CI x = info(w[k][i], ch[i].tint, ch[i].map); setLut(x, ch[i].map, ch[i].p); ci.push_back(x);
            }
            composeOnce(src, ci, dest + (k == 0 ? 2 : 0), (uint8_t)(k * 31), (uint32_t)(k + n) % 4); c.step(12);
        }
        uint64_t h = n; for (auto& x : ch) h = mc::mix(h, (int)x.p * 1000 + x.map * 10 + x.tint); c.state(h); c.outcome(n);
    }
    // geometry: widths, heights and line lengths
    void sizes(mc::Ctx& c)
    {
        const int W = c.choose(c.thorough() ? 18 : 10, "width"), H = c.choose(5, "height"), n = 1 + c.choose(3, "channels"), dest = c.choose(2, "destination"), pad = c.choose(4, "padding"), first = c.choose(5, "first type");
        if (!W || !H) { c.outcome(0); }
        std::vector<Pic> src; std::vector<CI> ci; for (int i = 0; i < n; ++i) { const PixelType p = types[(first + i) % 5]; Pic s(p, W, H); for (size_t k = 0; k < s.px.size(); ++k) s.px[k] = (uint8_t)(k * 71 + i * 13 + k / 5); src.push_back(s); ci.push_back(info(0.2f + i, i ? 4 : 0, 0)); }
        composeOnce(src, ci, dest, 9, pad); c.step(); c.state(mc::mix(W * 10 + H, n * 1000 + dest * 100 + pad * 10 + first)); c.outcome(1);
    }
    void largePictures(mc::Ctx& c)
    {
        static const int longs[] = { 255, 257, 1025, 32769, 65536, 65537 }; const int L = longs[c.choose(6, "length")]; const bool vertical = c.flip("vertical"); const int W = vertical ? 2 : L, H = vertical ? L : 2, n = 1 + c.choose(3, "channels"), dest = c.choose(2, "destination"), first = c.choose(5, "first type");
        std::vector<Pic> src; std::vector<CI> ci; for (int i = 0; i < n; ++i) { const PixelType p = types[(first + i) % 5]; Pic s(p, W, H); for (size_t k = 0; k < s.px.size(); ++k) s.px[k] = (uint8_t)(k * 71 + i * 13 + k / 5 + (k >> 13)); src.push_back(s); ci.push_back(info(0.2f + i, i ? 4 : 0, 0)); }
        composeOnce(src, ci, dest, 9, first & 3); c.step(); c.state(mc::mix(L, n * 1000 + dest * 100 + first * 2 + vertical)); c.outcome(1);
    }
    void refusals(mc::Ctx& c)
    {
        // every single wrong argument; whatever happens, nothing outside is touched and nothing stays locked
        const int kind = c.choose(13, "wrong argument"), dest = c.choose(4, "destination"), n = 1 + c.choose(3, "channels"), at = c.choose(n, "at");
        std::vector<std::unique_ptr<ExactBitmap>> b; std::vector<libCZI::IBitmapData*> p; std::vector<CI> ci; uint8_t lut[256] = {};
        for (int i = 0; i < n; ++i) { Pic s(PixelType::Gray8, 3, 2, 7); if (i == at && kind == 0) s = Pic(PixelType::Gray8, 4, 2, 7); if (i == at && kind == 1) s = Pic(PixelType::Gray8, 3, 1, 7); if (i == at && kind == 2) s = Pic(PixelType::Gray32Float, 3, 2, 0); if (i == at && kind == 3) s = Pic(PixelType::Gray16, 3, 2, 7); if (i == at && kind == 11) s = Pic(PixelType::Bgra32, 3, 2, 7); b.emplace_back(new ExactBitmap(s, 1)); p.push_back(b.back().get()); CI x = info(1, i % 2, 0); if (i == at) { if (kind == 3 || kind == 11) { x.lookUpTableElementCount = 256; x.ptrLookUpTable = lut; } if (kind == 4) { x.lookUpTableElementCount = 255; x.ptrLookUpTable = lut; } if (kind == 5) { x.lookUpTableElementCount = 256; x.ptrLookUpTable = nullptr; } if (kind == 12) { x.lookUpTableElementCount = -1; x.ptrLookUpTable = nullptr; } } ci.push_back(x); }
        if (kind == 6) p[at] = nullptr;
        const PixelType dp = kind == 10 ? (dest & 1 ? PixelType::Bgr24 : PixelType::Bgra32) : dest & 1 ? PixelType::Bgra32 : PixelType::Bgr24; GuardBitmap d(dp, 3, 2, 1);
        int cnt = kind == 7 ? 0 : n; auto* pp = kind == 8 ? nullptr : p.data(); const CI* pc = kind == 9 ? nullptr : ci.data();
        if (dest >= 2 && (kind == 10 || ((kind == 0 || kind == 1) && n == 1))) throw mc::Prune();
        bool threw = false; try { switch (dest) { case 0: Compositors::ComposeMultiChannel_Bgr24(&d, cnt, pp, pc); break; case 1: Compositors::ComposeMultiChannel_Bgra32(&d, 1, cnt, pp, pc); break; case 2: Compositors::ComposeMultiChannel_Bgr24(cnt, pp, pc); break; default: Compositors::ComposeMultiChannel_Bgra32(1, cnt, pp, pc); } } catch (const std::exception&) { threw = true; }
        static const char* const what[] = { "a source of another width", "a source of another height", "a source of an unsupported pixel type", "a 256-element look-up table with Gray16", "a look-up table with 255 elements", "a null look-up table", "a null source", "no channels", "a null array of sources", "a null array of channel information", "a destination of another pixel type", "a look-up table with Bgra32", "a negative size of the look-up table" };
        for (auto& s : b) s->check(what[kind]); d.check(what[kind]); MC_CHECK(threw, "composition with ", what[kind], " (channel ", at, " of ", n, ") does not fail"); c.step(); c.state(mc::mix(kind * 10 + dest, n * 10 + at)); c.outcome(kind);
    }

    // ------------------------------------------------------------------ look-up tables
    double toe(double g)
    {
        // the positive solution of a = ((a+1)^g - 1) / g^4, by bisection on a relative scale
        auto f = [&](double a) { return (std::pow(a + 1, g) - 1) / (g * g * g * g) - a; };
        double lo = 1e-9, hi = 1; while (f(hi) > 0) hi *= 2; for (int i = 0; i < 200; ++i) { const double m = (lo + hi) / 2; (f(m) > 0 ? lo : hi) = m; } return lo;
    }
    double gammaCurve(double x, double g) { if (g >= 1) return std::pow(x, g); const double a = toe(g); return (std::pow(a * x + 1, g) - 1) / (std::pow(a + 1, g) - 1); }
    const float bps[] = { 0, 0.1f, 0.5f, 0.9f, 1, -0.25f, 0.004f, 0.8f, 0, 0.3f }, wps[] = { 1, 0.9f, 0.5f, 1, 1, 0.5f, 0.996f, 0.2f, 1.25f, 0.304f }; const int counts[] = { 256, 65536, 1, 2, 3, 10, 0, 4096 };
    template <typename F> void checkLut(const std::string& what, size_t size, const std::function<int(size_t)>& get, int cnt, float bp, float wp, int maxOut, double tol, F curve)
    {
        MC_CHECK(size == (size_t)cnt, what, ": the table has ", size, " elements, expected ", cnt); const int b = (int)(bp * cnt), w = (int)(wp * cnt);
        for (int i = 0; i < cnt; ++i)
        {
            const int got = get(i); if (i < b) { MC_CHECK(got == 0, what, ": element ", i, " below the black point is ", got); continue; }
            if (i >= w) { MC_CHECK(got == maxOut, what, ": element ", i, " above the white point is ", got); continue; }
            if (w - b == 1) continue;      // a ramp of one element: any value of the curve
            double e = maxOut * curve((i - b) / (double)(w - b - 1)); e = e < 0 ? 0 : e > maxOut ? maxOut : e;
            MC_CHECK(got >= e - 1 - tol && got <= e + .5 + tol, what, ": element ", i, " is ", got, ", the curve gives ", e);
        }
    }
    void lutGamma(mc::Ctx& c)
    {
        static const float g[] = { 1, 0.45f, 0.5f, 0.1f, 0.3f, 0.7f, 0.8f, 0.9f, 2.2f, 1.0001f, 1.5f, 3, 10, 0.4501f, 0.05f }; const float gamma = g[c.choose(15, "gamma")]; const int k = c.choose(10, "black and white point"), cnt = counts[c.choose(8, "size")]; const bool wide = c.flip("16 bit"); const float bp = bps[k], wp = wps[k];
        const std::string what = mc::cat(wide ? "16" : "8", "-bit look-up table with ", cnt, " elements, black point ", bp, ", white point ", wp, ", gamma ", gamma); const double a = gamma < 1 ? toe(gamma) : 0; const double G = gamma;
        auto curve = [&](double x) { return G >= 1 ? std::pow(x, G) : (std::pow(a * x + 1, G) - 1) / (std::pow(a + 1, G) - 1); };
        if (wide) { auto l = Utils::Create16BitLookUpTableFromGamma(cnt, bp, wp, gamma); checkLut(what, l.size(), [&](size_t i) { return (int)l[i]; }, cnt, bp, wp, 65535, 30, curve); }
        else { auto l = Utils::Create8BitLookUpTableFromGamma(cnt, bp, wp, gamma); checkLut(what, l.size(), [&](size_t i) { return (int)l[i]; }, cnt, bp, wp, 255, .12, curve); }
        c.step(cnt + 1); c.state(mc::mix(mc::hashBytes(&gamma, 4), k * 1000000 + cnt * 2 + wide)); c.outcome(k);
    }
    void lutSpline(mc::Ctx& c)
    {
        // control points on a grid, increasing positions
        const int n = c.choose(c.thorough() ? 5 : 4, "points"); std::vector<std::pair<double, double>> pt; static const double xs[] = { 0.05, 0.2, 0.35, 0.5, 0.75, 0.9, 0.99 }, ys[] = { 0, 0.3, 0.8, 1 }; int from = 0;
        for (int i = 0; i < n; ++i) { const int left = 7 - from - (n - 1 - i); if (left <= 0) throw mc::Prune(); from += c.choose(left, "x"); pt.push_back({ xs[from], ys[c.choose(4, "y")] }); ++from; }
        const auto sd = Utils::CalcSplineDataFromPoints(n, [&](int i) { MC_CHECK(i >= 0 && i < n, "control point ", i, " of ", n, " is asked for"); return std::make_tuple(pt[i].first, pt[i].second); });
        std::string t = "spline through"; for (auto& p : pt) t += mc::cat(" (", p.first, ",", p.second, ")"); MC_CHECK((int)sd.size() == n + 1, t, ": ", sd.size(), " pieces, expected ", n + 1);
        std::vector<std::pair<double, double>> knots = { { 0, 0 } }; for (auto& p : pt) knots.push_back(p); knots.push_back({ 1, 1 });
        auto ev = [&](int i, double x, int der) { const double h = x - sd[i].xPos; const auto& k = sd[i].coefficients; return der == 0 ? ((k.a * h + k.b) * h + k.c) * h + k.d : der == 1 ? (3 * k.a * h + 2 * k.b) * h + k.c : 6 * k.a * h + 2 * k.b; };
        const double E = 1e-6;
        for (int i = 0; i <= n; ++i)
        {
            MC_CHECK(sd[i].xPos == knots[i].first, t, ": piece ", i, " starts at ", sd[i].xPos); MC_CHECK(std::abs(ev(i, knots[i].first, 0) - knots[i].second) < E && std::abs(ev(i, knots[i + 1].first, 0) - knots[i + 1].second) < E, t, ": piece ", i, " does not pass its control points");
            if (i) for (int d = 1; d <= 2; ++d) MC_CHECK(std::abs(ev(i - 1, knots[i].first, d) - ev(i, knots[i].first, d)) < 1e-4 * (1 + std::abs(ev(i, knots[i].first, d))), t, ": derivative ", d, " is not continuous at ", knots[i].first);
        }
        MC_CHECK(std::abs(ev(0, 0, 2)) < E && std::abs(ev(n, 1, 2)) < 1e-4, t, ": the second derivative does not vanish at the ends");
        auto curve = [&](double x) { int i = 0; while (i < n && x > knots[i + 1].first) ++i; return ev(i, x, 0); };
        for (int k = 0; k < 10; ++k) for (int cnt : counts) { if (cnt > 5000 && (k || !c.thorough())) continue; const auto l = Utils::Create8BitLookUpTableFromSplines(cnt, bps[k], wps[k], sd); checkLut(mc::cat(t, ", table of ", cnt, " elements, black point ", bps[k], ", white point ", wps[k]), l.size(), [&](size_t i) { return (int)l[i]; }, cnt, bps[k], wps[k], 255, 1e-3, curve); c.step(cnt + 1); }
        c.state(mc::hashStr(t)); c.outcome(n);
    }
        // ------------------------------------------------------------------ display settings to channel infos
    void displayHelper(mc::Ctx& c)
    {
        using namespace libCZI; using libCZI::PixelType;
        static const std::vector<std::vector<IDisplaySettings::SplineControlPoint>> curves = { {}, { { 0.5, 0.3 } }, { { 0.2, 0.5 }, { 0.7, 0.6 } }, { { 0.1, 0.1 }, { 0.4, 0.7 }, { 0.9, 0.8 } } }; static const float bw[][2] = { { 0, 1 }, { 0.25f, 0.5f }, { 0, 0.75f } }; static const float gam[] = { 0.45f, 2.2f, 1.f };
        DisplaySettingsPOD pod; static const int idx[] = { 0, 3 }; std::map<int, PixelType> types; static const PixelType pts[] = { PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48 }; const int n = 1 + c.choose(2, "channels"); std::string t;
        for (int i = 0; i < n; ++i)
        {
            ChannelDisplaySettingsPOD p; p.Clear(); p.isEnabled = !c.flip("disabled"); const int mode = c.choose(8, "curve"); p.weight = 0.25f + i; const int b = c.choose(3, "black/white"); p.blackPoint = bw[b][0]; p.whitePoint = bw[b][1];
            p.gradationCurveMode = mode == 0 ? IDisplaySettings::GradationCurveMode::Linear : mode < 4 ? IDisplaySettings::GradationCurveMode::Gamma : IDisplaySettings::GradationCurveMode::Spline; if (mode >= 1 && mode < 4) p.gamma = gam[mode - 1]; if (mode >= 4) p.splineCtrlPoints = curves[mode - 4]; if (c.flip("tint")) { p.tintingMode = IDisplaySettings::TintingMode::Color; p.tintingColor = { (uint8_t)(10 + i), 200, 30 }; }
            pod.channelDisplaySettings[idx[i]] = p; types[idx[i]] = pts[i ? (mode & 1) : c.choose(4, "pixel type")]; t += mc::cat(" channel ", idx[i], p.isEnabled ? "" : " disabled", " curve ", mode, " black/white ", p.blackPoint, "/", p.whitePoint);
        }
        auto ds = DisplaySettingsPOD::CreateIDisplaySettingSp(pod); const int form = c.choose(3, "settings / copy / channel by channel"); if (form == 1) { DisplaySettingsPOD q; IDisplaySettings::Clone(ds.get(), q); ds = DisplaySettingsPOD::CreateIDisplaySettingSp(q); } pod.channelDisplaySettings[77].isEnabled = true;
        c.say([&](auto& o) { o << t; }); c.step(); CDisplaySettingsHelper h; std::vector<int> asked; auto ptOf = [&](int ch) { asked.push_back(ch); return types.at(ch); };
        for (int round = 0; round < 2; ++round) { asked.clear(); if (form == 2) { int k = 0; h.Initialize([&](int& ch, std::shared_ptr<IChannelDisplaySetting>& s) { if (k == n) return false; ch = idx[k]; s = ds->GetChannelDisplaySettings(idx[k]); ++k; return true; }, ptOf); } else h.Initialize(ds.get(), ptOf); }
        typedef IDisplaySettings::GradationCurveMode GCM; typedef std::vector<IDisplaySettings::SplineControlPoint> Points;
        std::vector<int> want; for (int i = 0; i < n; ++i) if (pod.channelDisplaySettings[idx[i]].isEnabled) want.push_back(idx[i]); MC_CHECK(h.GetActiveChannels() == want && h.GetActiveChannelsCount() == (int)want.size(), "active channels:", t); MC_CHECK(CDisplaySettingsHelper::GetActiveChannels(ds.get()) == want, "active channels (static):", t); for (int a : asked) MC_CHECK(std::count(want.begin(), want.end(), a), "the pixel type of channel ", a, " is asked for although it is disabled");
        for (size_t k = 0; k < want.size(); ++k)
        {
            const auto& p = pod.channelDisplaySettings[want[k]]; const auto& ci = h.GetActiveChannel((int)k); MC_CHECK(&ci == h.GetChannelInfosArray() + k, "array of channel infos"); MC_CHECK(ci.weight == p.weight && ci.blackPoint == p.blackPoint && ci.whitePoint == p.whitePoint, "weight or black/white point of", t);
            MC_CHECK(ci.enableTinting == (p.tintingMode == IDisplaySettings::TintingMode::Color), "tinting of", t); if (ci.enableTinting) MC_CHECK(ci.tinting.color.r == p.tintingColor.r && ci.tinting.color.g == p.tintingColor.g && ci.tinting.color.b == p.tintingColor.b, "tinting colour of", t);
            const PixelType pt = types[want[k]]; const int cnt = pt == PixelType::Gray8 || pt == PixelType::Bgr24 ? 256 : 65536;
            if (p.gradationCurveMode == GCM::Linear) { MC_CHECK(ci.lookUpTableElementCount == 0, "a table for a linear curve:", t); continue; }
            MC_CHECK(ci.lookUpTableElementCount == cnt && ci.ptrLookUpTable, "the table has ", ci.lookUpTableElementCount, " elements:", t); const double bp = p.blackPoint, wp = p.whitePoint;
            auto at = [&](double x, double y) { const double pos = (bp + x * (wp - bp)) * (cnt - 1); const int i0 = (int)std::floor(pos), i1 = std::min(cnt - 1, i0 + 1); const int lo = std::min(ci.ptrLookUpTable[i0], ci.ptrLookUpTable[i1]), hi = std::max(ci.ptrLookUpTable[i0], ci.ptrLookUpTable[i1]); const double v = std::max(0.0, std::min(1.0, y)) * 255; MC_CHECK(v > lo - 1.51 && v < hi + 1.51, "the curve at ", x, " of the range is ", lo, "..", hi, " instead of ", v, ":", t); };
            at(0, 0); at(1, 1);
            const double top = cnt - 1, blackAt = bp * top, whiteAt = wp * top;
            const int below[2] = { 0, (int)blackAt - 2 }, above[2] = { cnt - 1, (int)whiteAt + 2 };
            for (int e : below) { if (e >= 0 && blackAt > e) { MC_CHECK(ci.ptrLookUpTable[e] == 0, "the table at ", e, " below the black point is not 0:", t); } }
            for (int e : above) { if (cnt > e && whiteAt + 0.5 <= e) { MC_CHECK(ci.ptrLookUpTable[e] == 255, "the table at ", e, " above the white point is not 255:", t); } }
            if (p.gradationCurveMode == GCM::Gamma)
            {
                if (p.gamma >= 1) for (double x : { 0.2, 0.5, 0.8 }) if (cnt > 256 || std::fabs(p.gamma - 1) < 0.1) at(x, std::pow(x, p.gamma));
                const auto lut = Utils::Create8BitLookUpTableFromGamma(cnt, p.blackPoint, p.whitePoint, p.gamma); MC_CHECK(std::equal(lut.begin(), lut.end(), ci.ptrLookUpTable), "the table is not that of the gamma value:", t);
            }
            else for (auto& q : p.splineCtrlPoints) at(q.x, q.y);
            const bool isSpline = p.gradationCurveMode == GCM::Spline, isGamma = p.gradationCurveMode == GCM::Gamma; auto cs = ds->GetChannelDisplaySettings(want[k]); Points cp; MC_CHECK(cs->TryGetSplineControlPoints(&cp) == isSpline, "control points:", t); if (isSpline) MC_CHECK(cp == p.splineCtrlPoints, "control points differ:", t); float g = -1; MC_CHECK(cs->TryGetGamma(&g) == isGamma && (g == -1 || g == p.gamma), "gamma:", t);
            c.outcome(mc::hashBytes(ci.ptrLookUpTable, cnt));
        }
        MC_CHECK(!ds->GetChannelDisplaySettings(1) && !ds->GetChannelDisplaySettings(-1) && !ds->GetChannelDisplaySettings(77), "settings of a channel are made up"); c.state(mc::hashStr(t));
    }
static struct Reg { Reg() {
        using namespace mc;
        add({ "C19", "channel_values", "5 source pixel types x 17 mappings (plain, 12 black/white points incl. reversed and outside 0..1, 4 look-up tables) x 7 tints x 4 destinations; all 256 / 65536 values of a gray channel, all combinations of 21 values per colour component", values });
        add({ "C19", "weighted_values", "two channels: 5 types x plain/black-white x 3 tints x 9 weight pairs x both positions x 2 destinations; all values as above", weighted });
        add({ "C19", "channel_combinations", "all assignments of 5 types x 3 mappings x 2 tints (thorough: 4 x 2-3) to 1..3 channels x 6 (9) weight vectors incl. zero, negative, NaN, infinite x destination types", combos });
        add({ "C19", "picture_sizes", "all sizes up to 9*4 (17*4), line paddings 0..3, 1..3 channels of mixed types", sizes });
        add({ "C19", "large_pictures", "6 lengths up to 65537 along both axes, 1..3 channels of mixed types", largePictures });
        add({ "C19", "refused_arguments", "every single wrong argument at every channel position of 1..3 channels, all four functions", refusals });
        add({ "C19", "display_settings", "1..2 channels: enabled x 8 curves x 3 black/white points x tint x 4 pixel types x settings/copy/single: active channels, parameters and tables are those of the display settings", displayHelper });
        add({ "C19", "gamma_tables", "15 gamma values x 10 black/white points (incl. equal, reversed, outside 0..1) x 8 sizes x 8/16 bit, all elements", lutGamma });
        add({ "C19", "spline_tables", "all splines through up to 3 (4) control points of a 7 x 4 grid x 10 black/white points x sizes, all elements", lutSpline });
    } } reg;
}
