// Reference pictures: a bitmap with guard bytes and lock counting, the documented pixel conversions, and a painter
// which defines composition pixel by pixel. Uses nothing of the library but the interface declarations.
#pragma once
#include "czi.h"
#include <cmath>

namespace bm
{
    using cz::Bytes; using libCZI::PixelType;
    inline int bpp(PixelType p)
    {
        switch (p) { case PixelType::Gray8: return 1; case PixelType::Gray16: return 2; case PixelType::Gray32Float: return 4; case PixelType::Bgr24: return 3; case PixelType::Bgr48: return 6; case PixelType::Bgr96Float: return 12; case PixelType::Bgra32: return 4; case PixelType::Gray32: return 4; case PixelType::Gray64Float: return 8; case PixelType::Gray64ComplexFloat: return 16; case PixelType::Bgr192ComplexFloat: return 48; default: return 0; }
    }
    inline const char* name(PixelType p)
    {
        switch (p) { case PixelType::Gray8: return "Gray8"; case PixelType::Gray16: return "Gray16"; case PixelType::Gray32Float: return "Gray32Float"; case PixelType::Bgr24: return "Bgr24"; case PixelType::Bgr48: return "Bgr48"; case PixelType::Bgr96Float: return "Bgr96Float"; case PixelType::Bgra32: return "Bgra32"; default: return "other"; }
    }
    // a picture in memory, tightly packed
    struct Pic
    {
        PixelType pt = PixelType::Gray8; int w = 0, h = 0; Bytes px;
        Pic() = default;
        Pic(PixelType p, int W, int H, uint8_t v = 0) : pt(p), w(W), h(H), px((size_t)W * H * bpp(p), v) {}
        uint8_t* at(int x, int y) { return px.data() + ((size_t)y * w + x) * bpp(pt); }
        const uint8_t* at(int x, int y) const { return px.data() + ((size_t)y * w + x) * bpp(pt); }
        bool operator==(const Pic& o) const { return pt == o.pt && w == o.w && h == o.h && px == o.px; }
        std::string text() const { std::ostringstream s; s << name(pt) << " " << w << "*" << h << " ["; for (int y = 0; y < h && y < 12; ++y) { if (y) s << " /"; for (int x = 0; x < w && x < 16; ++x) { s << " "; for (int i = 0; i < bpp(pt); ++i) { char b[4]; snprintf(b, 4, "%02x", at(x, y)[i]); s << b; } } } s << "]"; return s.str(); }
    };
    inline std::string diff(const Pic& want, const Pic& got)
    {
        if (want == got) return "";
        if (want.pt != got.pt) return mc::cat("pixel type is ", name(got.pt), ", expected ", name(want.pt));
        if (want.w != got.w || want.h != got.h) return mc::cat("size is ", got.w, "*", got.h, ", expected ", want.w, "*", want.h);
        for (int y = 0; y < want.h; ++y) for (int x = 0; x < want.w; ++x) if (memcmp(want.at(x, y), got.at(x, y), bpp(want.pt))) return mc::cat("pixel (", x, ",", y, ") differs\n  expected ", want.text(), "\n  found    ", got.text());
        return "?";
    }

    // bitmap handed to the library: generous stride, guard bytes around, lock counting
    class GuardBitmap : public libCZI::IBitmapData
    {
    public:
        static constexpr size_t G = 37; static constexpr uint8_t guardByte = 0xC7;
        PixelType pt; uint32_t w, h, stride; Bytes mem; int locks = 0; int lockCalls = 0; bool underflow = false;
        GuardBitmap(PixelType p, uint32_t W, uint32_t H, uint32_t pad = 3, uint8_t fill = 0x5A) : pt(p), w(W), h(H), stride(W * bpp(p) + pad), mem(2 * G + (size_t)stride * H, guardByte)
        {
            for (uint32_t y = 0; y < h; ++y) memset(row(y), fill, (size_t)w * bpp(p));
        }
        explicit GuardBitmap(const Pic& s, uint32_t pad = 3) : GuardBitmap(s.pt, s.w, s.h, pad) { for (int y = 0; y < s.h; ++y) if (s.w) memcpy(row(y), s.at(0, y), (size_t)s.w * bpp(pt)); }
        uint8_t* row(uint32_t y) { return mem.data() + G + (size_t)y * stride; }
        PixelType GetPixelType() const override { return pt; }
        libCZI::IntSize GetSize() const override { return { w, h }; }
        libCZI::BitmapLockInfo Lock() override { ++locks; ++lockCalls; libCZI::BitmapLockInfo i; i.ptrData = mem.data() + G; i.ptrDataRoi = mem.data() + G; i.stride = stride; i.size = (uint64_t)stride * h; return i; }
        void Unlock() override { if (--locks < 0) underflow = true; }
        int GetLockCount() const override { return locks; }
        Pic pic() { Pic p(pt, w, h); for (uint32_t y = 0; y < h; ++y) if (w) memcpy(p.at(0, y), row(y), (size_t)w * bpp(pt)); return p; }
        void check(const char* what)
        {
            MC_CHECK(locks == 0 && !underflow, what, ": the lock count of the bitmap is ", locks, " after the call");
            for (size_t i = 0; i < G; ++i) MC_CHECK(mem[i] == guardByte && mem[mem.size() - 1 - i] == guardByte, what, ": a byte outside of the bitmap was modified");
            for (uint32_t y = 0; y < h; ++y) for (uint32_t x = w * bpp(pt); x < stride; ++x) MC_CHECK(row(y)[x] == guardByte, what, ": padding of line ", y, " was modified");
        }
    };
    // source bitmap: exactly the addressable bytes are allocated (nothing after the last pixel), lock counting, Lock can be made to fail
    class ExactBitmap : public libCZI::IBitmapData
    {
    public:
        PixelType pt; uint32_t w, h, stride; std::unique_ptr<uint8_t, void(*)(void*)> mem{ nullptr, free }; size_t n = 0; Bytes copy; int locks = 0, lockCalls = 0; bool underflow = false; std::function<bool()> failLock;
        ExactBitmap(const Pic& s, uint32_t pad = 3) : pt(s.pt), w(s.w), h(s.h), stride(s.w * bpp(s.pt) + pad)
        {
            const size_t line = (size_t)w * bpp(pt); n = h ? (size_t)stride * (h - 1) + line : 0; mem.reset((uint8_t*)malloc(n)); if (n) memset(mem.get(), 0xB9, n);
            for (uint32_t y = 0; y < h; ++y) if (w) memcpy(mem.get() + (size_t)y * stride, s.at(0, y), line); copy.assign(mem.get(), mem.get() + n);
        }
        PixelType GetPixelType() const override { return pt; }
        libCZI::IntSize GetSize() const override { return { w, h }; }
        libCZI::BitmapLockInfo Lock() override { ++lockCalls; if (failLock && failLock()) throw std::runtime_error("Lock fails"); ++locks; libCZI::BitmapLockInfo i; i.ptrData = i.ptrDataRoi = mem.get(); i.stride = stride; i.size = n; return i; }
        void Unlock() override { if (--locks < 0) underflow = true; }
        int GetLockCount() const override { return locks; }
        void check(const std::string& what) { MC_CHECK(locks == 0 && !underflow, what, ": the lock count of a source bitmap is ", locks, underflow ? " (unlocked too often)" : "", " after the call"); MC_CHECK(!n || memcmp(mem.get(), copy.data(), n) == 0, what, ": a source bitmap was modified"); }
    };
    struct Mask { int w = 0, h = 0; std::vector<uint8_t> bit; bool get(int x, int y) const { return x < w && y < h && bit[(size_t)y * w + x]; } };
    // one-bit bitmap
    class BitBitmap : public libCZI::IBitonalBitmapData
    {
    public:
        uint32_t w, h, stride; std::unique_ptr<uint8_t, void(*)(void*)> mem{ nullptr, free }; size_t n = 0; int locks = 0; bool underflow = false; std::function<bool()> failLock;
        // 'padding': value of all bits which are not pixels
        BitBitmap(const Mask& m, uint32_t pad = 0, bool padding = true) : w(m.w), h(m.h), stride((m.w + 7) / 8 + pad)
        {
            n = h ? (size_t)stride * (h - 1) + (w + 7) / 8 : 0; mem.reset((uint8_t*)malloc(n)); if (n) memset(mem.get(), padding ? 0xff : 0, n);
            for (uint32_t y = 0; y < h; ++y) for (uint32_t x = 0; x < w; ++x) { uint8_t& b = mem.get()[(size_t)y * stride + x / 8]; const uint8_t k = 0x80 >> (x % 8); b = m.bit[(size_t)y * w + x] ? b | k : b & ~k; }
        }
        libCZI::IntSize GetSize() const override { return { w, h }; }
        libCZI::BitonalBitmapLockInfo Lock() override { if (failLock && failLock()) throw std::runtime_error("Lock fails"); ++locks; return { mem.get(), stride, n }; }
        void Unlock() override { if (--locks < 0) underflow = true; }
        int GetLockCount() const override { return locks; }
        bool get(uint32_t x, uint32_t y) const { return mem.get()[(size_t)y * stride + x / 8] & (0x80 >> (x % 8)); }
        Bytes bytes() const { return Bytes(mem.get(), mem.get() + n); }
        void check(const std::string& what) { MC_CHECK(locks == 0 && !underflow, what, ": the lock count of the one-bit bitmap is ", locks, " after the call"); }
    };
    // contents of a bitmap created by the library
    inline Pic picOf(libCZI::IBitmapData* b)
    {
        Pic p(b->GetPixelType(), b->GetWidth(), b->GetHeight()); const int before = b->GetLockCount();
        { libCZI::ScopedBitmapLockerP l{ b }; for (int y = 0; y < p.h; ++y) if (p.w) memcpy(p.at(0, y), (const uint8_t*)l.ptrDataRoi + (size_t)y * l.stride, (size_t)p.w * bpp(p.pt)); }
        MC_CHECK(before == 0 && b->GetLockCount() == 0, "the lock count of a returned bitmap is ", before);
        return p;
    }

    template <typename T> T ld(const uint8_t* p, int i = 0) { T v; memcpy(&v, p + i * sizeof(T), sizeof(T)); return v; }
    template <typename T> void st(uint8_t* p, T v, int i = 0) { memcpy(p + i * sizeof(T), &v, sizeof(T)); }
    // the rule of conversion of one pixel; false: not supported
    inline bool convert(PixelType sp, const uint8_t* s, PixelType dp, uint8_t* d)
    {
        using P = PixelType;
        switch (sp)
        {
        case P::Gray8:
        {
            const uint8_t v = s[0];
            switch (dp) { case P::Gray8: d[0] = v; return true; case P::Gray16: st<uint16_t>(d, v); return true; case P::Bgr24: d[0] = d[1] = d[2] = v; return true; case P::Bgr48: for (int i = 0; i < 3; ++i) st<uint16_t>(d, v, i); return true; case P::Gray32Float: st<float>(d, v); return true; default: return false; }
        }
        case P::Gray16:
        {
            const uint16_t v = ld<uint16_t>(s);
            switch (dp) { case P::Gray8: d[0] = v >> 8; return true; case P::Gray16: st<uint16_t>(d, v); return true; case P::Bgr24: d[0] = d[1] = d[2] = v >> 8; return true; case P::Bgr48: for (int i = 0; i < 3; ++i) st<uint16_t>(d, v, i); return true; case P::Gray32Float: st<float>(d, v); return true; default: return false; }
        }
        case P::Bgr24:
        {
            const int sum = s[0] + s[1] + s[2];
            switch (dp) { case P::Gray8: d[0] = (sum + 1) / 3; return true; case P::Gray16: st<uint16_t>(d, (uint16_t)((sum + 1) / 3)); return true; case P::Bgr24: memcpy(d, s, 3); return true; case P::Bgr48: for (int i = 0; i < 3; ++i) st<uint16_t>(d, s[i], i); return true; case P::Gray32Float: st<float>(d, sum / 3.f); return true; default: return false; }
        }
        case P::Bgr48:
        {
            const int a = ld<uint16_t>(s, 0), b = ld<uint16_t>(s, 1), c = ld<uint16_t>(s, 2), sum = a + b + c;
            switch (dp) { case P::Gray8: d[0] = (sum / 3) >> 8; return true; case P::Gray16: st<uint16_t>(d, (uint16_t)(sum / 3)); return true; case P::Bgr24: d[0] = a >> 8; d[1] = b >> 8; d[2] = c >> 8; return true; case P::Bgr48: memcpy(d, s, 6); return true; case P::Gray32Float: st<float>(d, sum / 3.f); return true; default: return false; }
        }
        case P::Gray32Float: if (dp == P::Gray32Float) { memcpy(d, s, 4); return true; } return false;
        default: return false;
        }
    }
    inline bool convertible(PixelType a, PixelType b) { uint8_t s[48] = {}, d[48]; return convert(a, s, b, d); }
    // rounding of the documented conversions may differ by one unit where a mean is computed: the reference value is exact
    inline uint8_t cb(double v) { v += 0.5; return v <= 0 ? 0 : v >= 255 ? 255 : (uint8_t)v; }
    inline uint16_t cu(double v) { v += 0.5; return v <= 0 ? 0 : v >= 65535 ? 65535 : (uint16_t)v; }
    inline void fillPic(Pic& p, float r, float g, float b)
    {
        for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x)
        {
            uint8_t* d = p.at(x, y);
            switch (p.pt)
            {
            case PixelType::Gray8: d[0] = cb((255 * (r + g + b)) / 3); break; case PixelType::Gray16: st<uint16_t>(d, cu((65535 * (r + g + b)) / 3)); break; case PixelType::Gray32Float: st<float>(d, (r + g + b) / 3); break;
            case PixelType::Bgr24: case PixelType::Bgra32: d[0] = cb(255 * b); d[1] = cb(255 * g); d[2] = cb(255 * r); if (p.pt == PixelType::Bgra32) d[3] = 255; break;
            case PixelType::Bgr48: st<uint16_t>(d, cu(65535 * b), 0); st<uint16_t>(d, cu(65535 * g), 1); st<uint16_t>(d, cu(65535 * r), 2); break;
            default: break;
            }
        }
    }
    // paints 'src' with its top-left at (x,y)
    inline void paint(Pic& dst, const Pic& src, int x, int y, const Mask* m = nullptr, bool border = false)
    {
        for (int j = 0; j < src.h; ++j) for (int i = 0; i < src.w; ++i)
        {
            const int64_t X = (int64_t)x + i, Y = (int64_t)y + j; if (X < 0 || Y < 0 || X >= dst.w || Y >= dst.h || (m && !m->get(i, j))) continue;
            uint8_t* d = dst.at((int)X, (int)Y); convert(src.pt, src.at(i, j), dst.pt, d);
            (void)border;
        }
    }
    // a picture with edge values and otherwise distinct ones
    inline Pic testPic(PixelType pt, int w, int h, uint32_t seed)
    {
        Pic p(pt, w, h); uint32_t v = seed * 2654435761u + 99991; auto next = [&] { v = v * 1664525u + 1013904223u; return v >> 8; };
        static const uint8_t e8[] = { 0, 255, 1, 254, 127, 128, 2, 253 }; static const uint16_t e16[] = { 0, 65535, 255, 256, 257, 1, 0xff00, 0x7fff, 0x8000, 0xfffe };
        const int comps = (pt == PixelType::Bgr24 || pt == PixelType::Bgr48 || pt == PixelType::Bgr96Float) ? 3 : pt == PixelType::Bgra32 ? 4 : 1;
        for (int i = 0; i < w * h; ++i) for (int k = 0; k < comps; ++k)
        {
            const uint32_t q = next(); const bool edge = (q & 3) == 0; uint8_t* d = p.px.data() + (size_t)i * bpp(pt);
            switch (pt)
            {
            case PixelType::Gray8: case PixelType::Bgr24: case PixelType::Bgra32: d[k] = edge ? e8[(q >> 4) % 8] : (uint8_t)(q >> 5); break;
            case PixelType::Gray16: case PixelType::Bgr48: st<uint16_t>(d, edge ? e16[(q >> 4) % 10] : (uint16_t)(q >> 5), k); break;
            case PixelType::Gray32Float: case PixelType::Bgr96Float: st<float>(d, edge ? -1.5f : (float)(q % 100000) / 7.f, k); break;
            default: for (int b = 0; b < bpp(pt); ++b) d[b] = (uint8_t)(q >> (b % 4 * 3)); break;
            }
        }
        return p;
    }
    inline Pic picOfSb(const cz::Sb& s) { Pic p(s.pt, s.pw, s.ph); p.px = s.data; return p; }
    inline void setPic(cz::Sb& s, const Pic& p) { s.pt = p.pt; s.pw = p.w; s.ph = p.h; s.data = p.px; }
    // sub-block attachment with a mask
    inline Bytes maskAttachment(const Mask& m, uint32_t stride = 0, int representation = 0)
    {
        if (!stride) stride = (m.w + 7) / 8; Bytes b; auto u32 = [&](uint32_t v) { for (int i = 0; i < 4; ++i) b.push_back((uint8_t)(v >> (8 * i))); };
        static const uint8_t g[16] = { 0x67,0xEA,0xE3,0xCB,0xFC,0x5B,0x2B,0x49,0xA1,0x6A,0xEC,0xE3,0x78,0x03,0x14,0x48 };
        b.insert(b.end(), g, g + 16); u32(16 + stride * m.h); u32(m.w); u32(m.h); u32(representation); u32(stride);
        for (int y = 0; y < m.h; ++y) { Bytes l(stride, 0); for (int x = 0; x < m.w; ++x) if (m.bit[(size_t)y * m.w + x]) l[x / 8] |= 0x80 >> (x % 8); b.insert(b.end(), l.begin(), l.end()); }
        return b;
    }
    inline const char* maskXml() { return "<METADATA><AttachmentSchema><DataFormat>CHUNKCONTAINER</DataFormat></AttachmentSchema></METADATA>"; }
    inline void setMask(cz::Sb& s, const Mask& m) { const char* x = maskXml(); s.meta.assign(x, x + strlen(x)); s.att = maskAttachment(m); }
}
