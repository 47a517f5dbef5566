// C15: compression and decoding of sub-block data.
#include "compose.h"
#include <cstdlib>

namespace
{
    using namespace cz; using namespace bm;
    using libCZI::CompressParameter; using libCZI::CompressionParameterKey;
    enum Codec { Raw = 0, Jxr = 4, Z0 = 5, Z1 = 6, Z1Pack = 7 };
    const char* codecName(int c) { return c == Raw ? "uncompressed" : c == Jxr ? "JPEG XR" : c == Z0 ? "zstd0" : c == Z1 ? "zstd1" : "zstd1 with hi/lo packing"; }
    int compOf(int c) { return c == Z1Pack ? 6 : c; }

    // the sub-block with the given stored bytes and description
    std::shared_ptr<libCZI::ISubBlock> subBlock(int comp, PixelType pt, int w, int h, const Bytes& data)
    {
        Sb s; s.dims = { {DimensionIndex::C, 0} }; s.lw = s.pw = w; s.lh = s.ph = h; s.pt = pt; s.comp = comp; s.data = data;
        auto st = std::make_shared<MemStream>(); auto wr = libCZI::CreateCZIWriter(); wr->Create(st, std::make_shared<libCZI::CCziWriterInfo>(guid(1)));
        supply(s, HowMem, [&](const auto& i) { wr->SyncAddSubBlock(i); }); wr->Close();
        auto r = libCZI::CreateCZIReader(); r->Open(std::make_shared<MemStream>(*st->mem)); return r->ReadSubBlock(0);
    }
    // mode 0: default options (null), 1: lenient, 2: strict
    bool decode(libCZI::ISubBlock* sb, int mode, Pic& out, std::string& err)
    {
        libCZI::CreateBitmapOptions o; o.handle_jpgxr_bitmap_mismatch = o.handle_uncompressed_data_size_mismatch = o.handle_zstd_data_size_mismatch = mode == 1;
        try { auto b = sb->CreateBitmap(mode == 0 ? nullptr : &o); MC_CHECK(b, "CreateBitmap returned nothing"); out = picOf(b.get()); return true; }
        catch (const std::exception& e) { err = e.what(); return false; }
    }
    // a source in memory with the given stride; exactly the addressable bytes (nothing after the last pixel)
    struct Source
    {
        uint8_t* p; size_t n; uint32_t stride; Bytes copy;
        Source(const Pic& s, uint32_t pad) { const size_t line = (size_t)s.w * bpp(s.pt); stride = (uint32_t)line + pad; n = (size_t)stride * (s.h - 1) + line; p = (uint8_t*)malloc(n); memset(p, 0xA5, n); for (int y = 0; y < s.h; ++y) memcpy(p + (size_t)y * stride, s.at(0, y), line); copy.assign(p, p + n); }
        ~Source() { free(p); }
        bool intact() const { return memcmp(p, copy.data(), n) == 0; }
    };
    struct Temp { int alive = 0, calls = 0; int failMode = 0; std::map<void*, size_t> blocks;
        void* alloc(size_t n) { ++calls; if (failMode == 1) return nullptr; if (failMode == 2) throw std::bad_alloc(); void* p = malloc(n); blocks[p] = n; ++alive; return p; }
        void release(void* p) { if (!p) return; MC_CHECK(blocks.erase(p) == 1, "a temporary buffer was freed which is not allocated"); --alive; free(p); } };

    struct Params { libCZI::CompressParametersOnMap map; bool use = false; };
    Params params(int codec, int level, bool haveLevel)
    {
        Params p; if (haveLevel) { p.use = true; p.map.map[(int)CompressionParameterKey::ZSTD_RAWCOMPRESSIONLEVEL] = CompressParameter(level); }
        if (codec == Z1Pack) { p.use = true; p.map.map[(int)CompressionParameterKey::ZSTD_PREPROCESS_DOLOHIBYTEPACKING] = CompressParameter(true); }
        return p;
    }
    size_t maxSize(int codec, const Pic& s) { return codec == Z0 ? libCZI::ZstdCompress::CalculateMaxCompressedSizeZStd0(s.w, s.h, s.pt) : libCZI::ZstdCompress::CalculateMaxCompressedSizeZStd1(s.w, s.h, s.pt); }

    // api 0: buffer, 1: buffer + allocator, 2: alloc, 3: alloc + allocator
    Bytes compress(int codec, int api, const Pic& pic, uint32_t pad, const Params& pa, Temp& t)
    {
        Source s(pic, pad); const libCZI::ICompressParameters* pp = pa.use ? &pa.map : nullptr; Bytes out;
        auto al = [&](size_t n) { return t.alloc(n); }; auto fr = [&](void* p) { t.release(p); };
        using Z = libCZI::ZstdCompress;
        if (codec == Jxr)
        {
            auto b = libCZI::JxrLibCompress::Compress(pic.pt, pic.w, pic.h, s.stride, s.p, pp); MC_CHECK(b, "JXR compression returned nothing");
            out.assign((uint8_t*)b->GetPtr(), (uint8_t*)b->GetPtr() + b->GetSizeOfData());
        }
        else if (api >= 2)
        {
            auto b = codec == Z0 ? (api == 2 ? Z::CompressZStd0Alloc(pic.w, pic.h, s.stride, pic.pt, s.p, pp) : Z::CompressZStd0Alloc(pic.w, pic.h, s.stride, pic.pt, s.p, al, fr, pp))
                : (api == 2 ? Z::CompressZStd1Alloc(pic.w, pic.h, s.stride, pic.pt, s.p, pp) : Z::CompressZStd1Alloc(pic.w, pic.h, s.stride, pic.pt, s.p, al, fr, pp));
            MC_CHECK(b, "compression with allocated output returned nothing");
            out.assign((uint8_t*)b->GetPtr(), (uint8_t*)b->GetPtr() + b->GetSizeOfData());
        }
        else
        {
            size_t n = maxSize(codec, pic); const size_t cap = n; std::unique_ptr<uint8_t, void(*)(void*)> d((uint8_t*)malloc(n), free); memset(d.get(), 0xEE, n);
            const bool ok = codec == Z0 ? (api == 0 ? Z::CompressZStd0(pic.w, pic.h, s.stride, pic.pt, s.p, d.get(), n, pp) : Z::CompressZStd0(pic.w, pic.h, s.stride, pic.pt, s.p, al, fr, d.get(), n, pp))
                : (api == 0 ? Z::CompressZStd1(pic.w, pic.h, s.stride, pic.pt, s.p, d.get(), n, pp) : Z::CompressZStd1(pic.w, pic.h, s.stride, pic.pt, s.p, al, fr, d.get(), n, pp));
            MC_CHECK(ok, "a destination of the advertised maximum size was found to be too small");
            MC_CHECK(n <= cap, "the size of the result (", n, ") exceeds the advertised maximum (", cap, ")");
            out.assign(d.get(), d.get() + n);
        }
        MC_CHECK(s.intact(), "compression modified the source bitmap"); MC_CHECK(t.alive == 0, "compression did not free its temporary buffer");
        if (codec != Jxr) MC_CHECK(out.size() <= maxSize(codec, pic), "the size of the result (", out.size(), ") exceeds the advertised maximum (", maxSize(codec, pic), ")");
        return out;
    }
    void roundtrip(mc::Ctx& c, int codec, const Pic& pic, uint32_t pad, int api, const Params& pa)
    {
        Temp t; Bytes z;
        auto what = [&] { return mc::cat(codecName(codec), ", ", name(pic.pt), "(", (int)pic.pt, ") ", pic.w, "*", pic.h, ", line padding ", pad, ", call variant ", api); };
        try { z = compress(codec, api, pic, pad, pa, t); } catch (const std::exception& e) { mc::fail(mc::cat(what(), ": ", e.what())); }
        auto sb = subBlock(compOf(codec), pic.pt, pic.w, pic.h, z); c.step();
        for (int mode = 0; mode < 3; ++mode)
        {
            Pic got; std::string err; if (!decode(sb.get(), mode, got, err)) mc::fail(mc::cat(what(), ": decoding the result fails: ", err));
            const std::string d = diff(pic, got); if (!d.empty()) mc::fail(mc::cat(what(), ": decoding gives another picture: ", d)); c.step();
        }
        c.state(mc::mix(mc::hashBytes(z.data(), z.size()), codec)); c.outcome(mc::mix(codec * 16 + (int)pic.pt, z.size() > pic.px.size()));
    }
    const PixelType types[] = { PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48, PixelType::Gray32Float, PixelType::Bgra32, PixelType::Bgr96Float, PixelType::Gray32, PixelType::Gray64Float, PixelType::Gray64ComplexFloat, PixelType::Bgr192ComplexFloat };
    bool libKnows(PixelType p) { try { return libCZI::Utils::GetBytesPerPixel(p) == bpp(p); } catch (const std::exception&) { return false; } }
    // contents: 0 mixed values, 1 constant, 2 incompressible bytes
    Pic content(PixelType pt, int w, int h, int kind)
    {
        if (kind == 0) return testPic(pt, w, h, w * 31 + h);
        Pic p(pt, w, h); uint64_t v = 88172645463325252ull; for (auto& b : p.px) { v ^= v << 13; v ^= v >> 7; v ^= v << 17; b = kind == 1 ? 0x3C : (uint8_t)(v >> 11); }
        return p;
    }
    void zstdRoundtrip(mc::Ctx& c)
    {
        const int codec = (int[]){ Z0, Z1, Z1Pack }[c.choose(3, "codec")]; const PixelType pt = types[c.choose(codec == Z1Pack ? 5 : 11, "pixel type")];
        if (!libKnows(pt)) throw mc::Prune();
        if (codec == Z1Pack && pt != PixelType::Gray16 && pt != PixelType::Bgr48 && pt != PixelType::Gray8) throw mc::Prune();
        const int w = 1 + c.choose(c.thorough() ? 140 : 72, "width"); const int h = 1 + c.choose(c.thorough() ? 4 : 3, "height");
        const uint32_t pad = (uint32_t[]){ 0, 1, 2, 6, 33 }[c.choose(5, "padding")];
        for (int api = 0; api < 4; ++api) roundtrip(c, codec, content(pt, w, h, api % 3), pad, api, params(codec, 0, false));
    }
    const int largeSizes[][2] = { {255,2}, {256,3}, {257,256}, {300,200}, {1023,7}, {1025,64}, {4097,5}, {32767,2}, {32768,1}, {65535,1}, {65536,2}, {65537,1}, {70000,1}, {1,300}, {2,32769}, {1,65537}, {3,70000}, {1024,1024}, {2049,1025} };
    void zstdLarge(mc::Ctx& c)
    {
        const int codec = (int[]){ Z0, Z1, Z1Pack }[c.choose(3, "codec")]; const PixelType pt = types[c.choose(codec == Z1Pack ? 4 : 5, "pixel type")]; if (codec == Z1Pack && (pt == PixelType::Bgr24 || pt == PixelType::Gray8)) throw mc::Prune();
        const auto& s = largeSizes[c.choose(19, "size")]; const int v = c.choose(4, "variant"); roundtrip(c, codec, content(pt, s[0], s[1], v == 3 ? 2 : v), v & 1 ? 3 : 0, v, params(codec, 0, false));
    }
    void zstdLevels(mc::Ctx& c)
    {
        static const int levels[] = { 0, 1, 3, 9, 19, 22, -1, -7, -131072, 23, 1000, -2147483647 - 1, 2147483647 };
        const int codec = (int[]){ Z0, Z1, Z1Pack }[c.choose(3, "codec")]; const PixelType pt = types[c.choose(5, "pixel type")]; const int level = levels[c.choose(13, "level")];
        const int kind = c.choose(3, "content"); static const int sizes[][2] = { {1, 1}, {7, 5}, {64, 3}, {200, 150} }; const auto& s = sizes[c.choose(4, "size")];
        roundtrip(c, codec, content(pt, s[0], s[1], kind), c.flip("padding") ? 4 : 0, c.choose(2, "allocating") * 2, params(codec, level, true));
    }
    // every size of the destination buffer
    void destinationSizes(mc::Ctx& c)
    {
        const int codec = (int[]){ Z0, Z1, Z1Pack }[c.choose(3, "codec")]; const PixelType pt = (PixelType[]){ PixelType::Gray16, PixelType::Gray8, PixelType::Bgr24 }[c.choose(3, "pixel type")];
        const Pic pic = content(pt, c.flip("large") ? 23 : 3, 2, c.choose(3, "content")); const uint32_t pad = c.flip("padding") ? 2 : 0; const Params pa = params(codec, 3, c.flip("level"));
        Temp t; const Bytes best = compress(codec, 0, pic, pad, pa, t);
        const size_t cap = maxSize(codec, pic);
        for (size_t n = 0; n <= cap + 3; ++n)
        {
            Source s(pic, pad); Bytes buf(n + 64, 0xD7); size_t io = n; bool ok = false; std::string err; const void* zero = nullptr; (void)zero;
            try { ok = codec == Z0 ? libCZI::ZstdCompress::CompressZStd0(pic.w, pic.h, s.stride, pic.pt, s.p, buf.data() + 32, io, pa.use ? &pa.map : nullptr) : libCZI::ZstdCompress::CompressZStd1(pic.w, pic.h, s.stride, pic.pt, s.p, buf.data() + 32, io, pa.use ? &pa.map : nullptr); }
            catch (const std::exception& e) { err = e.what(); }
            auto what = [&] { return mc::cat(codecName(codec), " of ", name(pt), " ", pic.w, "*", pic.h, " into ", n, " bytes (", best.size(), " are needed): "); };
            for (int i = 0; i < 32; ++i) MC_CHECK(buf[i] == 0xD7 && buf[32 + n + i] == 0xD7, what(), "bytes outside of the destination were written");
            if (ok)
            {
                MC_CHECK(io <= n, what(), "a result of ", io, " bytes is reported"); Pic got; std::string e2;
                auto sb = subBlock(compOf(codec), pt, pic.w, pic.h, Bytes(buf.begin() + 32, buf.begin() + 32 + io));
                MC_CHECK(decode(sb.get(), 2, got, e2) && got == pic, what(), "success is reported, but the result does not decode to the picture");
            }
            else { MC_CHECK(io == n || !err.empty(), what(), "the size was changed though 'insufficient' was reported"); MC_CHECK(n < cap, what(), "a destination of the advertised maximum size was rejected: ", err); MC_CHECK(err.empty() || n < 8, what(), "an insufficient destination gives an exception instead of 'false': ", err); }
            c.step(); c.outcome(ok ? 1 : err.empty() ? 2 : 3); c.state(mc::mix(n, codec * 8 + ok));
        }
    }
    // failing allocation of temporary buffers; invalid arguments
    void allocationFailure(mc::Ctx& c)
    {
        const int codec = (int[]){ Z0, Z1, Z1Pack }[c.choose(3, "codec")]; const PixelType pt = types[c.choose(5, "pixel type")]; const uint32_t pad = c.flip("padding") ? 4 : 0; const int api = c.flip("allocating") ? 3 : 1;
        Temp t; t.failMode = 1 + c.choose(2, "how"); const Pic pic = content(pt, 5, 4, 0); const Params pa = params(codec, 0, false); bool threw = false; Bytes z;
        try { z = compress(codec, api, pic, pad, pa, t); } catch (const mc::Violation&) { throw; } catch (const std::exception&) { threw = true; }
        MC_CHECK(t.alive == 0, "temporary memory is left");
        if (!threw) { MC_CHECK(t.calls == 0, codecName(codec), ": success is reported though the temporary buffer could not be allocated"); auto sb = subBlock(compOf(codec), pt, pic.w, pic.h, z); Pic got; std::string e; MC_CHECK(decode(sb.get(), 2, got, e) && got == pic, "wrong result"); }
        c.step(); c.state(mc::mix(codec * 100 + (int)pt, pad * 4 + api + threw)); c.outcome(threw);
    }
    void illegalArguments(mc::Ctx& c)
    {
        const int codec = (int[]){ Z0, Z1 }[c.choose(2, "codec")]; const int api = c.choose(2, "allocating"); const Pic pic = content(PixelType::Gray16, 4, 3, 0); Source s(pic, 0);
        uint32_t w = 4, h = 3, stride = 8; PixelType pt = PixelType::Gray16; const void* p = s.p; uint8_t dest[256]; void* d = dest; size_t n = sizeof(dest);
        switch (c.choose(9, "which")) { case 0: w = 0; break; case 1: h = 0; break; case 2: stride = 7; break; case 3: p = nullptr; break; case 4: pt = PixelType::Invalid; break; case 5: if (api) throw mc::Prune(); d = nullptr; break; case 6: w = 0x80000004u; stride = 8; break; case 7: w = 0xffffffffu; stride = 0xfffffffeu; break; case 8: stride = 0; break; }
        bool threw = false; try { if (api) { auto b = codec == Z0 ? libCZI::ZstdCompress::CompressZStd0Alloc(w, h, stride, pt, p, nullptr) : libCZI::ZstdCompress::CompressZStd1Alloc(w, h, stride, pt, p, nullptr); } else { if (codec == Z0) libCZI::ZstdCompress::CompressZStd0(w, h, stride, pt, p, d, n, nullptr); else libCZI::ZstdCompress::CompressZStd1(w, h, stride, pt, p, d, n, nullptr); } } catch (const std::exception&) { threw = true; }
        MC_CHECK(threw, codecName(codec), " accepts an illegal bitmap: width ", w, ", height ", h, ", stride ", stride); c.step(); c.outcome(threw); c.state(mc::mix(w, stride));
    }

    void jxrRoundtrip(mc::Ctx& c)
    {
        const PixelType pt = types[c.choose(4, "pixel type")]; const int n = c.thorough() ? 70 : 34; const int w = 1 + c.choose(n, "width"), h = 1 + c.choose(n, "height");
        const int kind = c.choose(3, "content"); const uint32_t pad = (uint32_t[]){ 0, 2, 7 }[c.choose(c.thorough() ? 3 : 2, "padding")];
        if (pad == 7 && bpp(pt) % 2 == 0) throw mc::Prune();
        Params pa; if (c.flip("quality given")) { pa.use = true; pa.map.map[(int)CompressionParameterKey::JXRLIB_QUALITY] = CompressParameter((uint32_t)1000); }
        roundtrip(c, Jxr, content(pt, w, h, kind), pad, 0, pa);
    }
    void jxrLarge(mc::Ctx& c)
    {
        const PixelType pt = types[c.choose(4, "pixel type")]; static const int sizes[][2] = { {255, 3}, {256, 256}, {257, 17}, {1, 300}, {300, 1}, {511, 130} }; const auto& s = sizes[c.choose(6, "size")];
        roundtrip(c, Jxr, content(pt, s[0], s[1], c.choose(3, "content")), c.flip("padding") ? 4 : 0, 0, Params());
    }

    Bytes pack(const Bytes& b) { Bytes o(b.size()); const size_t n = b.size() / 2; for (size_t i = 0; i < n; ++i) { o[i] = b[2 * i]; o[n + i] = b[2 * i + 1]; } if (b.size() & 1) o[2 * n] = b[2 * n]; return o; }
    // stored data of any size for a given description
    void sizeMismatch(mc::Ctx& c)
    {
        const int codec = (int[]){ Raw, Z0, Z1, Z1Pack }[c.choose(4, "codec")]; PixelType pt; if (codec == Z1Pack) pt = c.flip("pixel type") ? PixelType::Bgr48 : PixelType::Gray16; else pt = types[c.choose(11, "pixel type")];
        if (!libKnows(pt)) throw mc::Prune();
        const int w = (int[]){ 1, 3, 5, 17, 33 }[c.choose(c.thorough() ? 5 : 4, "width")], h = 1 + c.choose(4, "height");
        const size_t expected = (size_t)w * h * bpp(pt); const bool shortHeader = codec == Z1 && c.flip("one byte header");
        Bytes src = content(pt, w, h + 3, 2).px; src.resize(src.size() + 5, 0x77);
        for (size_t n = 0; n <= expected + (size_t)w * bpp(pt) * 2 + 3 && n <= src.size(); ++n)
        {
            if (!c.thorough() && expected > 200 && n > 24 && n + 24 < expected && n % ((size_t)w * bpp(pt)) > 2 && n % 13) continue;
            const Bytes plain(src.begin(), src.begin() + n); Bytes stored;
            if (codec == Raw) stored = plain;
            else if (n == 0) continue;                       // nothing to compress
            else
            {
                const Bytes in = codec == Z1Pack ? pack(plain) : plain; Bytes z(libCZI::ZstdCompress::CalculateMaxCompressedSizeZStd0((uint32_t)n, 1, PixelType::Gray8)); size_t sz = z.size();
                if (!libCZI::ZstdCompress::CompressZStd0((uint32_t)n, 1, (uint32_t)n, PixelType::Gray8, in.data(), z.data(), sz, nullptr)) mc::fail("compression failed"); z.resize(sz);
                if (codec == Z1Pack) stored = { 3, 1, 1 }; else if (codec == Z1) stored = shortHeader ? Bytes{ 1 } : Bytes{ 3, 1, 0 };
                stored.insert(stored.end(), z.begin(), z.end());
            }
            auto sb = subBlock(compOf(codec), pt, w, h, stored);
            Pic want(pt, w, h); size_t use = std::min(n, expected); if (codec == Z1Pack && n < expected) use &= ~(size_t)1; memcpy(want.px.data(), plain.data(), use);
            for (int mode = 0; mode < 3; ++mode)
            {
                Pic got; std::string err; const bool ok = decode(sb.get(), mode, got, err); c.step();
                auto what = [&] { return mc::cat(codecName(codec), ", ", name(pt), "(", (int)pt, ") ", w, "*", h, ", ", n, " bytes of ", expected, ", ", mode == 2 ? "strict" : mode ? "lenient" : "default", ": "); };
                if (mode == 2 && n != expected) MC_CHECK(!ok, what(), "no error is raised");
                else { MC_CHECK(ok, what(), "fails with '", err, "'"); const std::string d = diff(want, got); MC_CHECK(d.empty(), what(), d); }
                c.outcome(ok * 3 + mode);
            }
            c.state(mc::mix(mc::mix(codec * 20 + (int)pt, n), w * 10 + h));
        }
    }
    // stored zstd data which is cut or damaged: an error, or (if it still decodes) a picture of the described size
    void jxrMismatch(mc::Ctx& c)
    {
        const PixelType enc = types[c.choose(5, "encoded as")], pt = types[c.choose(6, "described as")]; const int ew = (int[]){ 1, 4, 17 }[c.choose(3, "encoded width")], eh = (int[]){ 1, 5 }[c.choose(2, "encoded height")];
        static Pic cachedPic[64]; static Bytes cachedData[64]; const int key = ((int)(std::find(types, types + 5, enc) - types) * 3 + (ew == 1 ? 0 : ew == 4 ? 1 : 2)) * 2 + (eh == 5);
        if (cachedData[key].empty()) { Temp t; cachedPic[key] = enc == PixelType::Gray32Float ? [&] { Pic p(enc, ew, eh); for (int i = 0; i < ew * eh; ++i) st<float>(p.px.data() + i * 4, (float)(i % 5)); return p; }() : content(enc, ew, eh, 0); cachedData[key] = compress(Jxr, 0, cachedPic[key], 0, Params(), t);
            if (enc == PixelType::Gray32Float) { auto sb = subBlock(4, enc, ew, eh, cachedData[key]); std::string e; Pic got; MC_CHECK(decode(sb.get(), 2, got, e), "Gray32Float does not decode: ", e); cachedPic[key] = got; } }
        const Pic& pic = cachedPic[key];
        for (int w : { 1, 2, 4, 5, 17, 20 }) for (int h : { 1, 2, 5, 7 })
        {
            auto sb = subBlock(4, pt, w, h, cachedData[key]); Pic want(pt, w, h); paint(want, pic, 0, 0); const bool same = pt == enc && w == ew && h == eh;
            for (int mode = 0; mode < 3; ++mode)
            {
                Pic got; std::string err; const bool ok = decode(sb.get(), mode, got, err); c.step();
                auto what = [&] { return mc::cat("JPEG XR picture ", name(enc), " ", ew, "*", eh, " described as ", name(pt), " ", w, "*", h, ", ", mode == 2 ? "strict" : mode ? "lenient" : "default", ": "); };
                if (mode == 2 && !same) { MC_CHECK(!ok, what(), "no error is raised"); }
                else if (convertible(enc, pt)) { MC_CHECK(ok, what(), "fails with '", err, "'"); const std::string d = diff(want, got); MC_CHECK(d.empty(), what(), d); }
                else if (ok) { const std::string d = diff(Pic(pt, w, h), got); MC_CHECK(d.empty(), what(), "neither an error nor black: ", d); }
                c.outcome(ok * 3 + mode);
            }
            c.state(mc::mix(key * 16 + (int)pt, w * 10 + h));
        }
    }

    static struct Reg { Reg() { using namespace mc;
#ifdef CODEC_ZSTD_ONLY   // the same with the AVX2 implementation of the byte packing
        add({ "C15", "avx_zstd_roundtrip", "zstd0, zstd1, zstd1 with packing x 11 pixel types x widths 1..72 (thorough 140) x heights 1..3 x 5 line paddings x 4 call variants, decoded in 3 modes", zstdRoundtrip });
        add({ "C15", "avx_zstd_large", "19 sizes up to 70000 along an axis and 2 million pixels x codecs x pixel types x 4 contents/paddings/call variants", zstdLarge });
        add({ "C15", "avx_zstd_levels", "13 compression levels incl. out of range x 3 codecs x 5 pixel types x 4 sizes x 3 contents", zstdLevels });
        add({ "C15", "avx_size_mismatch", "stored data of every size from 0 to beyond the described one x codec x pixel type x size, default/lenient/strict", sizeMismatch });
        return;
#endif
        add({ "C15", "zstd_roundtrip", "zstd0, zstd1, zstd1 with packing x 11 pixel types x widths 1..72 (thorough 140) x heights 1..3 x 5 line paddings x 4 call variants, decoded in 3 modes", zstdRoundtrip });
        add({ "C15", "zstd_large", "19 sizes up to 70000 along an axis and 2 million pixels x codecs x pixel types x 4 contents/paddings/call variants", zstdLarge });
        add({ "C15", "zstd_levels", "13 compression levels incl. out of range x 3 codecs x 5 pixel types x 4 sizes x 3 contents", zstdLevels });
        add({ "C15", "destination_sizes", "every destination size from 0 to the advertised maximum + 3", destinationSizes });
        add({ "C15", "allocation_failure", "temporary buffer not available (null / exception), every codec and call variant", allocationFailure });
        add({ "C15", "illegal_arguments", "9 illegal bitmaps x codecs", illegalArguments });
        add({ "C15", "jxr_roundtrip", "lossless JPEG XR: 4 pixel types x widths and heights 1..34 (thorough 70) x 3 contents x paddings", jxrRoundtrip });
        add({ "C15", "jxr_large", "lossless JPEG XR: sizes across macro-block and tile borders", jxrLarge });
        add({ "C15", "size_mismatch", "stored data of every size from 0 to beyond the described one x codec x pixel type x size, default/lenient/strict", sizeMismatch });
        add({ "C15", "jxr_mismatch", "5 encoded x 6 described pixel types x 6 encoded sizes x 24 described sizes", jxrMismatch });
    } } reg;
}
