// C08: damaged and hostile documents. Every truncation, every field x edge values, every byte x values, coupled fields,
// damaged payloads of every compression - consumed completely through the public interface under ASan.
#include "czi.h"
#include "libCZI_compress.h"
#include <climits>
using namespace cz; using namespace libCZI; using D = DimensionIndex;

class HostileStream : public MemStream
{
public:
    uint64_t requests = 0;
    explicit HostileStream(const Bytes& b) : MemStream(b) { }
    void Read(uint64_t off, void* pv, uint64_t size, uint64_t* got) override
    {
        if (++requests > 200000) mc::fail("more than 200000 stream requests for a tiny document");
        MC_CHECK(size == 0 || pv, "reading ", size, " bytes into a null buffer");
        MemStream::Read(off, pv, size, got);
    }
    void Write(uint64_t off, const void* pv, uint64_t size, uint64_t* put) override
    {
        if (++requests > 200000) mc::fail("more than 200000 stream requests for a tiny document");
        if (off > (1u << 22) || size > (1u << 22)) throw IoFault();      // a stream may refuse
        volatile uint64_t h = mc::hashBytes(pv, size); (void)h;
        MemStream::Write(off, pv, size, put);
    }
};
static volatile uint64_t sink;
static void touch(const void* p, size_t n, const char* what)
{
    MC_CHECK(n == 0 || p, what, " has ", n, " bytes but no memory"); if (n) sink = mc::hashBytes(p, n);
}
static void touch(const std::shared_ptr<IBitmapData>& b, const char* what)
{
    if (!b) return; const auto s = b->GetSize(); const int bpp = (int)Utils::GetBytesPerPixel(b->GetPixelType()); ScopedBitmapLockerSP l(b);
    const uint64_t line = (uint64_t)s.w * bpp; MC_CHECK((s.w == 0 || s.h == 0) || l.ptrDataRoi, what, ": no pixels"); MC_CHECK(s.h <= 1 || line <= l.stride, what, ": stride ", l.stride, " is smaller than a line of ", line, " bytes");
    const uint32_t step = s.h > 4096 ? s.h / 4096 : 1; for (uint32_t y = 0; y < s.h; y += step) sink = mc::hashBytes((const uint8_t*)l.ptrDataRoi + (uint64_t)y * l.stride, line); if (s.h) sink = mc::hashBytes((const uint8_t*)l.ptrDataRoi + (uint64_t)(s.h - 1) * l.stride, line);
}
static int g_ok, g_err;
template <typename F> static bool tryIt(F f) { try { f(); ++g_ok; return true; } catch (mc::Violation&) { throw; } catch (std::exception&) { ++g_err; return false; } }
static void touchSb(const std::shared_ptr<ISubBlock>& b)
{
    if (!b) return; const void* p; size_t n = 0;
    for (auto t : { ISubBlock::Data, ISubBlock::Metadata, ISubBlock::Attachment }) { auto q = b->GetRawData(t, &n); touch(q.get(), n, "sub-block data"); b->DangerousGetRawData(t, p, n); touch(p, n, "sub-block data"); }
    const Sb s = fromInfo(b->GetSubBlockInfo()); sink = mc::hashStr(s.head());
    tryIt([&] { touch(b->CreateBitmap(), "decoded bitmap"); });
    tryIt([&] { CreateBitmapOptions o; o.handle_uncompressed_data_size_mismatch = o.handle_jpgxr_bitmap_mismatch = o.handle_zstd_data_size_mismatch = false; touch(b->CreateBitmap(&o), "decoded bitmap (strict)"); });
    tryIt([&] {
        auto m = CreateSubBlockMetadataFromSubBlock(b.get()); if (!m->IsXmlValid()) return; sink = mc::hashStr(m->GetXml()); auto a = CreateSubBlockAttachmentAccessor(b, m); if (!a->HasChunkContainer()) return;
        size_t an = 0; b->GetRawData(ISubBlock::Attachment, &an); int calls = 0;
        tryIt([&] { a->EnumerateChunksInChunkContainer([&](int, const ISubBlockAttachmentAccessor::ChunkInfo& i) { MC_CHECK(++calls < 10000, "endless enumeration of chunks"); MC_CHECK((uint64_t)i.offset + i.size <= an, "chunk at ", i.offset, " of ", i.size, " bytes lies outside of the attachment of ", an, " bytes"); return true; }); });
        tryIt([&] { auto i = a->GetValidPixelMaskFromChunkContainer(); touch(i.data.get(), i.size_data, "mask"); });
        tryIt([&] { auto i = a->GetValidPixelMaskAsUncompressedBitonalBitmap(); touch(i.data.get(), i.size_data, "mask"); });
        tryIt([&] { auto m = a->CreateBitonalBitmapFromMaskInfo(); if (!m) return; ScopedBitonalBitmapLockerSP l(m); auto z = m->GetSize(); for (uint32_t y = 0; y < z.h; y += 1 + z.h / 1000) touch((const uint8_t*)l.ptrData + (uint64_t)y * l.stride, (z.w + 7ull) / 8, "mask line"); }); });
}
template <typename T> static void touchMd(T* r)
{
    tryIt([&] {
        auto s = r->ReadMetadataSegment(); if (!s) return; size_t n = 0; auto p = s->GetRawData(IMetadataSegment::XmlMetadata, &n); touch(p.get(), n, "metadata"); p = s->GetRawData(IMetadataSegment::Attachment, &n); touch(p.get(), n, "metadata attachment");
        auto m = s->CreateMetaFromMetadataSegment(); if (!m->IsXmlValid()) return; sink = mc::hashStr(m->GetXml()); auto d = m->GetDocumentInfo(); if (!d) return;
        tryIt([&] { d->GetGeneralDocumentInfo(); }); tryIt([&] { d->GetScalingInfoEx(); }); tryIt([&] { d->EnumDimensions([&](D x) { auto i = d->GetDimensionInfo(x); if (i) { int a, b; i->GetInterval(&a, &b); } return true; }); });
        tryIt([&] { auto c = d->GetDimensionChannelsInfo(); if (c) for (int i = 0; i < c->GetChannelCount() && i < 50; ++i) { auto q = c->GetChannel(i); std::wstring w; q->TryGetAttributeName(&w); PixelType pt; q->TryGetPixelType(&pt); } });
        tryIt([&] { auto z = d->GetDimensionZInfo(); if (z) { double a, b; std::vector<double> v; z->TryGetIntervalDefinition(&a, &b); z->TryGetPositionList(&v); } });
        tryIt([&] { auto z = d->GetDisplaySettings(); if (z) z->EnumChannels([&](int c) { auto q = z->GetChannelDisplaySettings(c); float a, b; if (q) { q->GetBlackWhitePoint(&a, &b); std::vector<IDisplaySettings::SplineControlPoint> v; q->TryGetSplineControlPoints(&v); } return true; }); }); });
}
template <typename T> static void touchAll(const std::shared_ptr<T>& r)
{
    tryIt([&] { auto s = r->GetStatistics(); sink = s.subBlockCount + s.sceneBoundingBoxes.size(); s.IsMIndexValid(); }); tryIt([&] { auto p = r->GetPyramidStatistics(); sink = p.scenePyramidStatistics.size(); }); tryIt([&] { r->GetFileHeaderInfo(); });
    std::vector<int> idx; tryIt([&] { r->EnumerateSubBlocks([&](int i, const SubBlockInfo& inf) { MC_CHECK(idx.size() < 5000, "endless enumeration"); idx.push_back(i); sink = mc::hashStr(fromInfo(inf).head()); tryIt([&] { inf.GetZoom(); }); return true; }); });
    for (int i : idx) tryIt([&] { touchSb(r->ReadSubBlock(i)); });
    IntRect roi{ -2,-2,9,7 }; tryIt([&] { r->EnumSubset(nullptr, &roi, true, [](int, const SubBlockInfo&) { return true; }); });
    for (int c = -1; c < 2; ++c) tryIt([&] { SubBlockInfo si; r->TryGetSubBlockInfoOfArbitrarySubBlockInChannel(c, si); });
    idx.clear(); tryIt([&] { r->EnumerateAttachments([&](int i, const AttachmentInfo& a) { MC_CHECK(idx.size() < 5000, "endless enumeration"); idx.push_back(i); sink = mc::hashStr(fromAttInfo(a).id()); return true; }); });
    for (int i : idx) tryIt([&] { auto a = r->ReadAttachment(i); if (!a) return; size_t n = 0; auto p = a->GetRawData(&n); touch(p.get(), n, "attachment"); const void* q; a->DangerousGetRawData(q, n); touch(q, n, "attachment"); sink = mc::hashStr(fromAttInfo(a->GetAttachmentInfo()).id()); });
    tryIt([&] { r->EnumerateSubset("CZTXT", nullptr, [](int, const AttachmentInfo&) { return true; }); });
    touchMd(r.get());
}
static void compose(const std::shared_ptr<ICZIReader>& r, int variant)
{
    IntRect roi{ -2,-2,9,7 };
    CDimCoordinate c0{ {D::C,0} }, none; const IDimCoordinate* pc[] = { &c0, &none };
    for (auto* p : pc)
    {
        if (variant == 0) tryIt([&] { ISingleChannelTileAccessor::Options o; o.Clear(); o.maskAware = true; o.backGroundColor = { 0,0,0 }; touch(r->CreateSingleChannelTileAccessor()->Get(PixelType::Bgr24, roi, p, &o), "composite"); });
        if (variant == 1) { tryIt([&] { ISingleChannelTileAccessor::Options o; o.Clear(); o.sortByM = true; o.useVisibilityCheckOptimization = true; o.drawTileBorder = true; o.subBlockCache = CreateSubBlockCache(); auto a = r->CreateSingleChannelTileAccessor(); touch(a->Get(roi, p, &o), "composite"); touch(a->Get(roi, p, &o), "composite"); }); }
        if (variant == 2) for (float z : { 1.f, .4f, .1f }) tryIt([&] { ISingleChannelScalingTileAccessor::Options o; o.Clear(); o.backGroundColor = { 1,1,1 }; o.maskAware = true; o.useVisibilityCheckOptimization = z == .4f; touch(r->CreateSingleChannelScalingTileAccessor()->Get(roi, p, z, &o), "scaled composite"); });
        if (variant == 3) for (int l = 0; l < 3; ++l) tryIt([&] { ISingleChannelPyramidLayerTileAccessor::Options o; o.Clear(); o.backGroundColor = { 1,1,1 }; o.maskAware = l == 0; ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo i{ 2, (uint8_t)l }; touch(r->CreateSingleChannelPyramidLayerTileAccessor()->Get(roi, p, i, &o), "pyramid composite"); });
    }
}
static void consume(mc::Ctx& c, const Bytes& f, int consumer)
{
    g_ok = g_err = 0; auto st = std::make_shared<HostileStream>(f); c.step();
    if (consumer < 4)
    {
        auto r = CreateCZIReader(); ICZIReader::OpenOptions o; if (consumer == 1) { o.lax_subblock_coordinate_checks = true; o.ignore_sizem_for_pyramid_subblocks = true; } using P = ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy;
        if (consumer == 2) o.subBlockDirectoryInfoPolicy = (P)((int)P::SubBlockHeaderPrecedence | (int)P::IgnoreDiscrepancy); if (consumer == 3) { o.lax_subblock_coordinate_checks = true; o.subBlockDirectoryInfoPolicy = (P)((int)P::SubBlockDirectoryPrecedence | (int)P::IgnoreDiscrepancy); }
        if (tryIt([&] { r->Open(st, &o); })) { touchAll(r); compose(r, consumer); compose(r, (consumer + 1) & 3); if (c.thorough()) { compose(r, (consumer + 2) & 3); compose(r, (consumer + 3) & 3); } }
        else { MC_CHECK(!tryIt([&] { r->GetStatistics(); }), "a reader that failed to open answers"); auto st2 = std::make_shared<HostileStream>(f); tryIt([&] { r->Open(st2, nullptr); }); }
        tryIt([&] { r->Close(); });
    }
    else
    {
        auto rw = CreateCZIReaderWriter();
        if (tryIt([&] { rw->Create(st); }))
        {
            touchAll(rw);
            if (consumer == 5)
            {
                std::vector<int> k, a; tryIt([&] { rw->EnumerateSubBlocks([&](int i, const SubBlockInfo&) { k.push_back(i); return true; }); }); tryIt([&] { rw->EnumerateAttachments([&](int i, const AttachmentInfo&) { a.push_back(i); return true; }); });
                Sb s = makeSb({ {D::C,0} }, 70, 0, 0, 2, 2, PixelType::Gray8, 9); s.data = pattern(20, 3);
                if (!k.empty()) { tryIt([&] { supply(s, HowMem, [&](const auto& i) { rw->ReplaceSubBlock(k[0], i); }); }); tryIt([&] { rw->RemoveSubBlock(k.back()); }); }
                tryIt([&] { s.m = 71; supply(s, HowMem, [&](const auto& i) { rw->SyncAddSubBlock(i); }); });
                Att x; x.guid = guid(77); x.type = "CZTXT"; x.name = "x"; x.data = pattern(30, 2); if (!a.empty()) { tryIt([&] { rw->ReplaceAttachment(a[0], attInfo(x)); }); tryIt([&] { rw->RemoveAttachment(a.back()); }); } tryIt([&] { x.guid = guid(78); rw->SyncAddAttachment(attInfo(x)); });
                Md m; m.present = true; m.xml = pattern(60, 4); tryIt([&] { rw->SyncWriteMetadata(mdInfo(m)); });
                touchAll(rw);
            }
        }
        tryIt([&] { rw->Close(); });
    }
    c.outcome(g_ok * 1000 + g_err);
}

// ------------------------------------------------------------------------------------------------ subjects
static Bytes compressed(const Sb& s, int mode)
{
    const uint32_t stride = (uint32_t)(s.pw * Utils::GetBytesPerPixel(s.pt)); std::shared_ptr<IMemoryBlock> m;
    if (mode == 5) m = ZstdCompress::CompressZStd0Alloc(s.pw, s.ph, stride, s.pt, s.data.data(), nullptr);
    if (mode == 6) { CompressParametersOnMap p; p.map[(int)CompressionParameterKey::ZSTD_PREPROCESS_DOLOHIBYTEPACKING] = CompressParameter(true); m = ZstdCompress::CompressZStd1Alloc(s.pw, s.ph, stride, s.pt, s.data.data(), &p); }
    if (mode == 4) m = JxrLibCompress::Compress(s.pt, s.pw, s.ph, stride, s.data.data(), nullptr);
    const uint8_t* p = (const uint8_t*)m->GetPtr(); return Bytes(p, p + m->GetSizeOfData());
}
static Bytes le32(uint32_t v) { Bytes b(4); memcpy(b.data(), &v, 4); return b; }
static void put(Bytes& a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); }
static Bytes maskChunk(int w, int h, int stride)
{
    Bytes b; const uint8_t g[16] = { 0x67,0xEA,0xE3,0xCB,0xFC,0x5B,0x2B,0x49,0xA1,0x6A,0xEC,0xE3,0x78,0x03,0x14,0x48 }; b.insert(b.end(), g, g + 16);
    put(b, le32(16 + stride * h)); put(b, le32(w)); put(b, le32(h)); put(b, le32(0)); put(b, le32(stride)); put(b, pattern((size_t)stride * h, 3)); return b;
}
static const char* kChunkXml = "<METADATA><AttachmentSchema><DataFormat>CHUNKCONTAINER</DataFormat></AttachmentSchema></METADATA>";
static const char* kXml = "<ImageDocument><Metadata><Information><Image><PixelType>Gray8</PixelType><SizeX>8</SizeX><SizeY>8</SizeY><SizeC>1</SizeC><SizeZ>2</SizeZ><Dimensions><Channels><Channel Id=\"Channel:0\"><PixelType>Gray8</PixelType></Channel></Channels></Dimensions></Image></Information><Scaling><Items><Distance Id=\"X\"><Value>1e-6</Value></Distance></Items></Scaling><DisplaySetting><Channels><Channel Id=\"Channel:0\"><Low>0.1</Low><High>0.5</High></Channel></Channels></DisplaySetting></Metadata></ImageDocument>";
static Doc subjectDoc(int which)
{
    Doc d; d.guid = guid(40 + which); auto A = [&](int g, size_t n) { Att a; a.guid = guid(g); a.type = "CZTXT"; a.name = mc::cat("n", g); a.data = pattern(n, g); d.atts.push_back(a); };
    auto S = [&](int m, int x, int y, int w, int h, PixelType pt, int comp) { Sb s = makeSb({ {D::C,0} }, m, x, y, w, h, pt, 3 + m); if (comp) { s.data = compressed(s, comp); s.comp = comp; } d.sbs.push_back(s); };
    if (which == 0) { S(0, 0, 0, 3, 2, PixelType::Gray8, 0); S(1, 2, 1, 2, 3, PixelType::Gray8, 0); Sb p = makeSb({ {D::C,0} }, -1, 0, 0, 2, 2, PixelType::Gray8, 8); p.lw = p.lh = 4; p.pyr = SubBlockPyramidType::SingleSubBlock; d.sbs.push_back(p); A(1, 20); A(2, 3); d.md.present = true; d.md.xml = Bytes(kXml, kXml + strlen(kXml)); d.md.att = pattern(5, 9); }
    if (which == 1) { S(0, 0, 0, 3, 2, PixelType::Bgr24, 0); S(1, 1, 1, 3, 2, PixelType::Bgr24, 5); d.sbs[1].meta = Bytes(kChunkXml, kChunkXml + strlen(kChunkXml)); d.sbs[1].att = maskChunk(3, 2, 2); put(d.sbs[1].att, pattern(16, 8)); put(d.sbs[1].att, le32(3)); put(d.sbs[1].att, { 1,2,3 }); }
    if (which == 2) { S(0, 0, 0, 3, 2, PixelType::Gray16, 6); S(1, 1, 1, 4, 3, PixelType::Gray16, 0); d.sbs[0].meta = Bytes(kChunkXml, kChunkXml + strlen(kChunkXml)); d.sbs[0].att = pattern(16, 8); put(d.sbs[0].att, le32(3)); put(d.sbs[0].att, { 1,2,3 }); put(d.sbs[0].att, maskChunk(3, 2, 1)); }
    if (which == 3) { S(0, 0, 0, 3, 2, PixelType::Gray8, 4); S(1, 1, 1, 3, 3, PixelType::Gray8, 0); }
    if (which == 4) { S(0, 0, 0, 2, 2, PixelType::Bgr48, 6); S(1, 1, 1, 2, 2, PixelType::Gray32Float, 0); }
    return d;
}
static const Bytes& subject(int which) { static std::map<int, Bytes> m; auto it = m.find(which); if (it == m.end()) it = m.emplace(which, writeDoc(subjectDoc(which))).first; return it->second; }

struct Field { uint64_t off; int size; std::string what; uint64_t twin = 0; int kind = 0; };   // kind: 0 plain, 1 pixel type, 2 compression, 3 dimension letter, 4 position, 5 count
static std::vector<Field> fieldsOf(const Bytes& b)
{
    std::vector<Field> v; auto F = [&](uint64_t o, int n, std::string w, int kind = 0, uint64_t twin = 0) { v.push_back({ o, n, w, twin, kind }); };
    F(32, 4, "major"); F(36, 4, "minor"); F(64, 4, "file part"); F(84, 8, "sub-block directory position", 4); F(92, 8, "metadata position", 4); F(100, 4, "update pending"); F(104, 8, "attachment directory position", 4);
    std::map<uint64_t, uint64_t> dvOfSb;    // sub-block position -> directory entry
    const uint64_t dir = rd<uint64_t>(b, 84), md = rd<uint64_t>(b, 92), ad = rd<uint64_t>(b, 104);
    auto H = [&](uint64_t p, const std::string& w) { F(p + 16, 8, w + " allocated size", 5); F(p + 24, 8, w + " used size", 5); };
    auto DV = [&](uint64_t o, const std::string& w, uint64_t twin) {
        auto t = [&](int k) { return twin ? twin + k : 0; };
        F(o, 1, w + " schema 1", 3, t(0)); F(o + 1, 1, w + " schema 2", 3, t(1)); F(o + 2, 4, w + " pixel type", 1, t(2)); F(o + 6, 8, w + " file position", 4, t(6)); F(o + 14, 4, w + " file part", 0); F(o + 18, 4, w + " compression", 2, t(18)); F(o + 22, 1, w + " pyramid type"); F(o + 28, 4, w + " dimension count", 5, t(28));
        const int n = rd<int32_t>(b, o + 28); for (int i = 0; i < n; ++i) { uint64_t e = o + 32 + 20 * i; std::string q = w + " dim " + std::string(1, (char)b[e]); F(e, 1, q + " letter", 3, t(32 + 20 * i)); F(e + 4, 4, q + " start", 0, t(36 + 20 * i)); F(e + 8, 4, q + " size", 0, t(40 + 20 * i)); F(e + 16, 4, q + " stored size", 0, t(48 + 20 * i)); }
        return 32 + 20ull * n; };
    H(0, "header"); H(dir, "sub-block directory"); F(dir + 32, 4, "sub-block count", 5); uint64_t o = dir + 160; const int n = rd<int32_t>(b, dir + 32); std::vector<uint64_t> ent, sbs;
    for (int i = 0; i < n; ++i) { const uint64_t sp = rd<uint64_t>(b, o + 6); sbs.push_back(sp); o += DV(o, mc::cat("entry ", i), sp + 48); }
    for (int i = 0; i < n; ++i) { const uint64_t p = sbs[i]; const std::string w = mc::cat("sub-block ", i); H(p, w); F(p + 32, 4, w + " metadata size", 5); F(p + 36, 4, w + " attachment size", 5); F(p + 40, 8, w + " data size", 5); DV(p + 48, w, 0); }
    if (ad) { H(ad, "attachment directory"); const int k = rd<int32_t>(b, ad + 32); F(ad + 32, 4, "attachment count", 5); for (int i = 0; i < k; ++i) { const uint64_t e = ad + 288 + 128 * i; F(e, 1, "attachment schema", 3); F(e + 12, 8, "attachment position", 4); const uint64_t p = rd<uint64_t>(b, e + 12); H(p, "attachment"); F(p + 32, 8, "attachment data size", 5); F(p + 48 + 12, 8, "attachment own position", 4); } }
    if (md) { H(md, "metadata"); F(md + 32, 4, "XML size", 5); F(md + 36, 4, "metadata attachment size", 5); }
    return v;
}
static std::vector<int64_t> valuesFor(const Bytes& b, const Field& f, bool few)
{
    int64_t orig = 0; memcpy(&orig, b.data() + f.off, f.size); if (f.size == 4) orig = (int32_t)orig;
    std::vector<int64_t> v;
    if (f.kind == 3) v = { 'X', 'Y', 'M', 'C', 'S', 'E', 'V', 0, 0xff, 'x' };
    else if (f.kind == 1) v = { 0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,255,-1,INT_MAX,INT_MIN };
    else if (f.kind == 2) v = { 0,1,2,3,4,5,6,7,100,999,1000,-1,INT_MAX,INT_MIN };
    else if (f.size == 1) v = { 0,1,2,3,0x7f,0x80,0xff };
    else if (f.size == 4) v = { 0,1,2,-1,orig + 1,orig - 1,orig * 2,INT_MIN,INT_MAX,INT_MAX - 1,-2,7,12,13,40,41,64,255,256,1000,65535,65536,100000,1 << 20,1 << 24,0x7fffff00,0x10000001,0x33333334,0x66666667,-1000,(int64_t)b.size() };
    else
    {
        v = { 0,1,-1,-2,orig + 1,orig - 1,orig + 32,orig - 32,orig * 2,INT_MIN,INT_MAX,1ll << 31,1ll << 32,(1ll << 32) + orig,1ll << 40,INT64_MIN,INT64_MAX,INT64_MAX - 31,-32,-1000,127,128,129,(int64_t)b.size(),(int64_t)b.size() - 1,(int64_t)b.size() - 32,(int64_t)b.size() + 1,300 << 20,100 << 20 };
        if (f.kind == 4) { v.push_back(rd<int64_t>(b, 84)); v.push_back(rd<int64_t>(b, 92)); v.push_back(rd<int64_t>(b, 104)); uint64_t p = 0; while (p + 32 <= b.size()) { v.push_back((int64_t)p); p += 32 + rd<int64_t>(b, p + 16); } }
    }
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); v.erase(std::remove(v.begin(), v.end(), orig), v.end());
    if (few) { std::vector<int64_t> q; static const std::set<int64_t> keep = { 0,-1,1,INT_MAX,INT_MIN,41,65536,1ll << 32,INT64_MAX,'X','C','M',9,4,5,6,3 }; for (auto x : v) if (keep.count(x) || x == orig + 1 || x == orig - 1) q.push_back(x); v = q; }
    return v;
}
static void set(Bytes& b, uint64_t off, int size, int64_t v) { memcpy(b.data() + off, &v, size); }

static void truncations(mc::Ctx& c)
{
    const int which = c.choose(c.thorough() ? 5 : 3, "document"); const Bytes& b = subject(which); const int consumer = c.choose(6, "consumer"); const int blk = c.choose((int)(b.size() + 255) / 256, "block"), in = c.choose(256, "byte"); const uint64_t n = blk * 256ull + in; if (n >= b.size()) throw mc::Prune();
    if (!c.thorough() && (consumer == 1 || consumer == 3) && n % 2) throw mc::Prune();
    Bytes f(b.begin(), b.begin() + n); c.state(mc::mix(which * 8 + consumer, n)); consume(c, f, consumer);
}
static void fields(mc::Ctx& c)
{
    static std::map<int, std::vector<Field>> all; const int which = c.choose(5, "document"); const Bytes& b = subject(which); auto& fs = all[which]; if (fs.empty()) fs = fieldsOf(b);
    const int i = c.choose((int)fs.size(), "field"); const Field& f = fs[i]; const auto v = valuesFor(b, f, false); if (v.empty()) throw mc::Prune(); const int64_t x = v[c.choose((int)v.size(), "value")]; const bool twin = f.twin && c.flip("also in the sub-block"); const int consumer = c.choose(6, "consumer");
    if (!c.thorough() && which && consumer == 1) throw mc::Prune();
    Bytes m = b; set(m, f.off, f.size, x); if (twin) set(m, f.twin, f.size, x); c.say([&](auto& o) { o << "document " << which << ": " << f.what << (twin ? " (also in the sub-block)" : "") << " at " << f.off << " := " << x << ", consumer " << consumer; });
    c.state(mc::hashBytes(m.data(), m.size(), consumer)); consume(c, m, consumer);
}
static void pairs(mc::Ctx& c)
{
    static std::map<int, std::vector<Field>> all; const int which = c.choose(c.thorough() ? 5 : 2, "document") * (c.thorough() ? 1 : 2); const Bytes& b = subject(which); auto& fs = all[which]; if (fs.empty()) { fs = fieldsOf(b); }
    const int i = c.choose((int)fs.size(), "field 1"); const int j = c.choose((int)fs.size(), "field 2"); if (j <= i) throw mc::Prune();
    const Field &f = fs[i], &g = fs[j]; const bool near = g.off - f.off < 140 || f.off - g.off < 140; if (!near && !(f.twin && f.twin == g.off) && !(c.thorough() && f.kind && g.kind)) throw mc::Prune();
    const auto v = valuesFor(b, f, true), w = valuesFor(b, g, true); if (v.empty() || w.empty()) throw mc::Prune(); const int64_t x = v[c.choose((int)v.size(), "value 1")], y = w[c.choose((int)w.size(), "value 2")];
    const bool twin = f.twin && g.twin && f.twin != g.off; const int consumer = c.thorough() ? c.choose(6, "consumer") : (i * 7 + j * 3) % 6;
    Bytes m = b; set(m, f.off, f.size, x); set(m, g.off, g.size, y); if (twin) { set(m, f.twin, f.size, x); set(m, g.twin, g.size, y); }
    c.say([&](auto& o) { o << "document " << which << ": " << f.what << " at " << f.off << " := " << x << ", " << g.what << " at " << g.off << " := " << y << (twin ? " (also in the sub-block)" : "") << ", consumer " << consumer; });
    c.state(mc::hashBytes(m.data(), m.size(), consumer)); consume(c, m, consumer);
}
static void bytes_(mc::Ctx& c)
{
    const int which = c.choose(5, "document"); const Bytes& b = subject(which); const int blk = c.choose((int)(b.size() + 255) / 256, "block"), in = c.choose(256, "byte"); const uint64_t n = blk * 256ull + in; if (n >= b.size()) throw mc::Prune();
    const int k = c.choose(c.thorough() ? 12 : 5, "value"); const uint8_t o = b[n]; uint8_t x = k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? 0x80 : k == 3 ? (uint8_t)(o ^ 1) : k == 4 ? 0x7f : (uint8_t)(o ^ (2 << (k - 5))); if (k == 11) x = (uint8_t)(o + 1); if (x == o) throw mc::Prune();
    Bytes m = b; m[n] = x; const int consumer = (int)((n + k) % 6); c.say([&](auto& s) { s << "document " << which << " byte " << n << " := " << (int)x << ", consumer " << consumer; }); c.state(mc::hashBytes(m.data(), m.size(), consumer)); consume(c, m, consumer);
}
// damaged payloads: sub-blocks whose stored data is a truncated / altered stream; described sizes differing from the stored ones
static void payloads(mc::Ctx& c)
{
    static const struct { PixelType pt; int comp; } K[] = { {PixelType::Gray8,0},{PixelType::Gray16,0},{PixelType::Bgr24,0},{PixelType::Gray8,5},{PixelType::Bgr24,5},{PixelType::Gray16,6},{PixelType::Bgr48,6},{PixelType::Gray8,6},{PixelType::Gray8,4},{PixelType::Bgr24,4},{PixelType::Gray16,4} };
    const int kind = c.choose(11, "kind"); static std::map<int, Sb> cache; auto it = cache.find(kind); if (it == cache.end()) { Sb s = makeSb({ {D::C,0} }, 0, 0, 0, 3, 2, K[kind].pt, 5); if (K[kind].comp) { s.data = compressed(s, K[kind].comp); s.comp = K[kind].comp; } it = cache.emplace(kind, s).first; }
    Sb s = it->second; const size_t n = s.data.size(); const int how = c.choose(4, "damage");
    if (how == 0) { const size_t k = c.choose((int)n + 3, "length"); if (k > n) s.data.resize(n + (k - n) * 7, 0x5a); else s.data.resize(k); }
    if (how == 1) { const size_t k = c.choose((int)n, "byte"); const int v = c.choose(c.thorough() ? 256 : 18, "value"); s.data[k] = c.thorough() ? (uint8_t)v : v < 8 ? (uint8_t)(s.data[k] ^ (1 << v)) : (uint8_t)((int[]) { 0, 0xff, 0x7f, 0x80, s.data[k] + 1, s.data[k] - 1, 2, 3, 4, 0x40 }[v - 8]); if (s.data == it->second.data) throw mc::Prune(); }
    if (how == 2) { static const int sz[] = { 0,1,2,3,4,5,7,8,64,1000,65536,0x7fffffff,0x10000,-1 }; s.pw = sz[c.choose(14, "width")]; s.ph = sz[c.choose(14, "height")]; s.lw = s.pw; s.lh = s.ph; }
    if (how == 3) { static const PixelType pts[] = { PixelType::Gray8, PixelType::Gray16, PixelType::Gray32Float, PixelType::Bgr24, PixelType::Bgr48, PixelType::Bgra32, PixelType::Gray32, PixelType::Gray64ComplexFloat, PixelType::Bgr192ComplexFloat, PixelType::Bgr96Float, PixelType::Gray64Float }; static const int cm[] = { 0,1,2,4,5,6,999 }; s.pt = pts[c.choose(11, "pixel type")]; s.comp = cm[c.choose(7, "compression")]; s.pw += c.choose(3, "dw"); s.ph += c.choose(3, "dh"); s.lw = s.pw; s.lh = s.ph; }
    Doc d; d.guid = guid(5); Sb ok = makeSb({ {D::C,0} }, 1, 0, 0, 2, 2, PixelType::Gray8, 5); d.sbs = { ok, ok }; d.sbs[1].m = 0; d.sbs[1].data = s.data; Bytes f;
    f = writeDoc(d);
    // describe it as wanted, in the directory and in the sub-block
    const uint64_t dir = rd<uint64_t>(f, 84); uint64_t o = dir + 160; o += 32 + 20 * (uint64_t)rd<int32_t>(f, o + 28); const uint64_t sp = rd<uint64_t>(f, o + 6) + 48;
    for (uint64_t p : { o, sp }) { set(f, p + 2, 4, (int)s.pt); set(f, p + 18, 4, s.comp); const int k = rd<int32_t>(f, p + 28); for (int i = 0; i < k; ++i) { const uint64_t e = p + 32 + 20 * i; if (f[e] == 'X') { set(f, e + 8, 4, s.lw); set(f, e + 16, 4, s.pw); } if (f[e] == 'Y') { set(f, e + 8, 4, s.lh); set(f, e + 16, 4, s.ph); } } }
    c.say([&](auto& q) { q << s.head() << " data " << s.data.size(); }); c.state(mc::hashBytes(f.data(), f.size())); consume(c, f, kind == 8 || kind == 9 ? 2 : c.choose(3, "consumer"));
}
// sub-block attachments: chunk containers and masks of every kind
static void chunkContainers(mc::Ctx& c)
{
    c.setDeviationBudget(c.thorough() ? 4 : 3); Bytes a; const int n = c.choose(c.thorough() ? 4 : 3, "chunks");
    static const uint32_t sizes[] = { 18,0,1,3,4,11,12,15,16,17,19,24,0xffffffffu,0xffffffecu,0x80000000u,0xfffffff0u,0xffffffd0u }, dimw[] = { 3,0,1,8,9,16,17,0xffffffffu,0x80000000u,0xfffffff9u }, dimh[] = { 2,0,1,3,9,0xffffffffu,0x80000000u,0xfffffff9u,0x10001u }, str[] = { 1,0,2,3,4,0xffffffffu,0x80000000u,0x1fffffffu };
    for (int i = 0; i < n; ++i)
    {
        const uint32_t sz = sizes[c.deviate(17, "size")];
        if (c.flip("mask")) { Bytes m = maskChunk(3, 2, 1); const uint32_t w = dimw[c.deviate(10, "w")], h = dimh[c.deviate(9, "h")], st = str[c.deviate(8, "stride")], rep = c.deviate(3, "representation"); memcpy(m.data() + 16, &sz, 4); memcpy(m.data() + 20, &w, 4); memcpy(m.data() + 24, &h, 4); memcpy(m.data() + 28, &rep, 4); memcpy(m.data() + 32, &st, 4); put(a, m); }
        else { put(a, pattern(16, i)); put(a, le32(sz)); static const int pl[] = { 18,0,1,2,3 }; put(a, pattern(pl[c.deviate(5, "payload")], 7)); }
    }
    if (const int k = c.deviate(25, "bytes cut")) { if (k > (int)a.size()) throw mc::Prune(); a.resize(a.size() - k); }
    Doc d; d.guid = guid(5); Sb s = makeSb({ {D::C,0} }, 1, 0, 0, 3, 2, PixelType::Gray8, 5); s.meta = Bytes(kChunkXml, kChunkXml + strlen(kChunkXml)); s.att = a; d.sbs = { s }; Bytes f = writeDoc(d);
    g_ok = g_err = 0; c.step(); c.state(mc::hashBytes(a.data(), a.size())); auto r = CreateCZIReader(); r->Open(std::make_shared<HostileStream>(f)); touchSb(r->ReadSubBlock(0)); compose(r, 0); c.outcome(g_ok * 1000 + g_err);
}
static struct Reg { Reg() {
    using namespace mc;
    add({ "C08", "fields", "5 documents x every header/directory/segment/size field x up to 40 edge values (alone and together with its twin in the sub-block) x 6 consumers (4 reader option sets, edit session reading, edit session editing)", fields });
    add({ "C08", "payloads", "11 (pixel type, compression) x every truncation, every byte x 18 (256) values, 196 described sizes, 11x7x9 re-descriptions", payloads });
    add({ "C08", "truncations", "3 (5) documents truncated at every length x 6 consumers", truncations });
    add({ "C08", "bytes", "5 documents, every byte x 5 (12) values", bytes_ });
    add({ "C08", "chunk_containers", "all chunk containers of <=2 (3) chunks (mask or other) with <=3 (4) deviations from well-formed over 17 sizes, 10x9 extents, 8 strides, 3 representations, 24 cuts", chunkContainers });
    add({ "C08", "field_pairs", "all pairs of neighbouring fields (thorough: of all structural fields) x edge values", pairs });
} } reg;
