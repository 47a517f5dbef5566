// C22: the C interface. Abstract model: one slot per object type (live / released); every history is generated from
// the model and then executed on the real C functions; results are compared with the C++ interface.
#include "httpd.h"
#include "czi.h"
#include "libCZIApi.h"
#include <cmath>
#include <limits>
#include <locale>
#include <rapidjson/document.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include <sys/stat.h>
#include <unistd.h>
using namespace cz;
using libCZI::Utils;
typedef ObjectHandle OH;

namespace
{
    enum Ty { IS, RD, SB, BM, MS, AT, DI, DS, CS, AC, OS, WR, NTY };
    const char* const kTy[] = { "input-stream", "reader", "sub-block", "bitmap", "metadata-segment", "attachment", "document-info", "display-settings", "channel-display-settings", "accessor", "output-stream", "writer" };

    // ------------------------------------------------------------------ the document
    const char* kXml = "<?xml version=\"1.0\" encoding=\"utf-8\"?><ImageDocument><Metadata><Information>"
        "<Document><Name>n\xC3\xA4me</Name><Title>T&lt;\"'</Title><UserName>u</UserName><Description>d\n2</Description><Comment>c</Comment><Keywords>k;l</Keywords><Rating>3</Rating><CreationDate>2020-01-02T03:04:05</CreationDate></Document>"
        "<Image><SizeX>8</SizeX><SizeY>4</SizeY><SizeC>2</SizeC><SizeZ>3</SizeZ><SizeT>2</SizeT>"
        "<Dimensions><Channels><Channel Id=\"Channel:0\" Name=\"A\"><PixelType>Gray8</PixelType><Color>#FF102030</Color><ExposureTime>1000</ExposureTime><CondenserContrast>CC</CondenserContrast><Reflector>RR</Reflector><ExcitationWavelength>488.5</ExcitationWavelength></Channel><Channel Id=\"Channel:1\" Name=\"B\"><PixelType>Gray16</PixelType></Channel></Channels>"
        "<Z><StartPosition>1.5</StartPosition><Positions><Interval><Start>2</Start><Increment>0.25</Increment></Interval></Positions></Z>"
        "<T><StartTime>2020-01-02T03:04:05Z</StartTime><Positions><List><Offsets>0 1.5 3</Offsets></List></Positions></T></Dimensions></Image></Information>"
        "<DisplaySetting><Channels><Channel Id=\"Channel:0\"><Low>0.1</Low><High>0.75</High><ColorMode>Color</ColorMode><Color>#FF0080FF</Color><Weight>0.5</Weight></Channel><Channel Id=\"Channel:1\"><Low>0</Low><High>0.5</High><Mode>Gamma</Mode><Gamma>0.45</Gamma></Channel></Channels></DisplaySetting>"
        "<Scaling><Items><Distance Id=\"X\"><Value>1e-06</Value></Distance><Distance Id=\"Y\"><Value>2e-06</Value></Distance></Items></Scaling>"
        "</Metadata></ImageDocument>";
    Bytes toBytes(const std::string& s) { return Bytes(s.begin(), s.end()); }
    Doc baseDoc()
    {
        using D = DimensionIndex; Doc d; d.guid = guid(7);
        d.sbs.push_back(makeSb({ {D::C,0},{D::S,0} }, 0, 0, 0, 4, 4, PixelType::Gray8, 1, 5, 3));
        d.sbs.push_back(makeSb({ {D::C,0},{D::S,1} }, 1, 4, 0, 4, 4, PixelType::Gray8, 2));
        d.sbs.push_back(makeSb({ {D::C,1},{D::S,0} }, 0, 0, 0, 4, 4, PixelType::Gray16, 3));
        Att a; a.guid = guid(3); a.type = "CZTIMS"; a.name = "TimeStamps"; a.data = pattern(21, 9); d.atts.push_back(a);
        a.guid = guid(4); a.type = "JPG"; a.name = "Thumbnail"; a.data = pattern(6, 10); d.atts.push_back(a);
        d.md.present = true; d.md.xml = toBytes(kXml); return d;
    }
    const Bytes& baseBytes() { static Bytes b = writeDoc(baseDoc()); return b; }

    // ------------------------------------------------------------------ external streams
    struct Ext
    {
        Bytes data; int closed = 0; int calls = 0, failAt = -1, failKind = 0; bool outstanding = false;
        bool used = false; std::string bad;
        void expect(bool ok, const char* msg) { if (!ok && bad.empty()) bad = msg; }
        ~Ext() noexcept(false) { if (!bad.empty() && !std::uncaught_exceptions()) mc::fail(bad); }
    };
    const uintptr_t kTag = 0x5A5A1234;
    int32_t fault(Ext* e, ExternalStreamErrorInfoInterop* err)
    {
        if (e->calls++ != e->failAt) return 0;
        if (err) { err->error_code = kStreamErrorCode_UnspecifiedError; if (e->failKind == 1) { void* p = nullptr; libCZI_AllocateMemory(4, &p); memcpy(p, "bad", 4); err->error_message = (OH)p; } else if (e->failKind == 2) { void* p = nullptr; libCZI_AllocateMemory(1, &p); *(char*)p = 0; err->error_message = (OH)p; } }
        return e->failKind == 3 ? -1 : 1;
    }
    int32_t extRead(uintptr_t h1, uintptr_t h2, uint64_t off, void* pv, uint64_t size, uint64_t* got, ExternalStreamErrorInfoInterop* err)
    {
        Ext* e = (Ext*)h1; e->expect(h2 == kTag, "the callback got another opaque handle"); e->expect(!e->closed, "the read function was called after the stream has been closed"); e->used = true;
        if (int r = fault(e, err)) return r;
        uint64_t n = off >= e->data.size() ? 0 : std::min<uint64_t>(size, e->data.size() - off); if (n) memcpy(pv, e->data.data() + off, n); if (got) *got = n; return 0;
    }
    int32_t extWrite(uintptr_t h1, uintptr_t h2, uint64_t off, const void* pv, uint64_t size, uint64_t* put, ExternalStreamErrorInfoInterop* err)
    {
        Ext* e = (Ext*)h1; e->expect(h2 == kTag, "the callback got another opaque handle"); e->expect(!e->closed, "the write function was called after the stream has been closed"); e->used = true;
        if (int r = fault(e, err)) return r;
        e->expect(off + size < (1u << 28), "write request far beyond the document"); if (!e->bad.empty()) return 1; if (off + size > e->data.size()) e->data.resize(off + size); memcpy(e->data.data() + off, pv, size); if (put) *put = size; return 0;
    }
    void extClose(uintptr_t h1, uintptr_t h2) { Ext* e = (Ext*)h1; ++e->closed; }
    int makeIn(Ext& e, OH* h) { ExternalInputStreamStructInterop s{}; s.opaque_handle1 = (uintptr_t)&e; s.opaque_handle2 = kTag; s.read_function = extRead; s.close_function = extClose; return libCZI_CreateInputStreamFromExternal(&s, h); }
    int makeOut(Ext& e, OH* h) { ExternalOutputStreamStructInterop s{}; s.opaque_handle1 = (uintptr_t)&e; s.opaque_handle2 = kTag; s.write_function = extWrite; s.close_function = extClose; return libCZI_CreateOutputStreamFromExternal(&s, h); }

    int release(int ty, OH h)
    {
        switch (ty)
        {
        case IS: return libCZI_ReleaseInputStream(h); case RD: return libCZI_ReleaseReader(h); case SB: return libCZI_ReleaseSubBlock(h); case BM: return libCZI_ReleaseBitmap(h);
        case MS: return libCZI_ReleaseMetadataSegment(h); case AT: return libCZI_ReleaseAttachment(h); case DI: return libCZI_ReleaseCziDocumentInfo(h); case DS: return libCZI_ReleaseDisplaySettings(h);
        case CS: return libCZI_ReleaseChannelDisplaySettings(h); case AC: return libCZI_ReleaseCreateSingleChannelTileAccessor(h); case OS: return libCZI_ReleaseOutputStream(h); default: return libCZI_ReleaseWriter(h);
        }
    }

    // ------------------------------------------------------------------ comparison with the C++ interface
    std::string coordStr(const CoordinateInterop& c)
    {
        std::ostringstream s; int k = 0; for (int i = 0; i < kMaxDimensionCount; ++i) if (c.dimensions_valid & (1u << i)) s << Utils::DimensionToChar((DimensionIndex)(i + 1)) << c.value[k++];
        if (c.dimensions_valid >> kMaxDimensionCount) s << " (undefined bits)"; return s.str();
    }
    std::string infoStr(const SubBlockInfoInterop& i)
    {
        std::ostringstream s; s << coordStr(i.coordinate); if (i.m_index != std::numeric_limits<int32_t>::min()) s << "M" << i.m_index;
        s << " rect(" << i.logical_rect.x << "," << i.logical_rect.y << "," << i.logical_rect.w << "," << i.logical_rect.h << ") size(" << i.physical_size.w << "," << i.physical_size.h << ") pt" << i.pixel_type << " comp" << i.compression_mode_raw; return s.str();
    }
    std::string infoStr(const libCZI::SubBlockInfo& i)
    {
        Sb b = fromInfo(i); std::ostringstream s; for (auto& d : b.dims) s << Utils::DimensionToChar(d.first) << d.second; if (b.mValid) s << "M" << b.m;
        s << " rect(" << b.x << "," << b.y << "," << b.lw << "," << b.lh << ") size(" << b.pw << "," << b.ph << ") pt" << (int)b.pt << " comp" << b.comp; return s.str();
    }
    std::string rectStr(const IntRectInterop& r) { if (r.w < 0 || r.h < 0) return "invalid"; return mc::cat(r.x, ",", r.y, ",", r.w, ",", r.h); }
    std::string rectStr(const libCZI::IntRect& r) { if (r.w < 0 || r.h < 0) return "invalid"; return mc::cat(r.x, ",", r.y, ",", r.w, ",", r.h); }
    std::string boundsStr(const DimBoundsInterop& c)
    {
        std::ostringstream s; int k = 0; for (int i = 0; i < kMaxDimensionCount; ++i) if (c.dimensions_valid & (1u << i)) { s << Utils::DimensionToChar((DimensionIndex)(i + 1)) << c.start[k] << ":" << c.size[k]; ++k; }
        return s.str();
    }
    std::string boundsStr(const libCZI::IDimBounds* b) { std::ostringstream s; for (int i = (int)DimensionIndex::MinDim; i <= (int)DimensionIndex::MaxDim; ++i) { int st, n; if (b->TryGetInterval((DimensionIndex)i, &st, &n)) s << Utils::DimensionToChar((DimensionIndex)i) << st << ":" << n; } return s.str(); }

    struct BmpData { int pt, w, h; Bytes px; bool operator==(const BmpData& o) const { return pt == o.pt && w == o.w && h == o.h && px == o.px; } std::string str() const { return mc::cat("pt", pt, " ", w, "x", h, " #", mc::hashBytes(px.data(), px.size())); } };
    BmpData bmpOf(const std::shared_ptr<libCZI::IBitmapData>& b)
    {
        BmpData d{ (int)b->GetPixelType(), (int)b->GetWidth(), (int)b->GetHeight(), {} }; size_t line = (size_t)d.w * Utils::GetBytesPerPixel(b->GetPixelType()); libCZI::ScopedBitmapLockerSP l{ b };
        for (int y = 0; y < d.h; ++y) { const uint8_t* p = (const uint8_t*)l.ptrDataRoi + (size_t)y * l.stride; d.px.insert(d.px.end(), p, p + line); } return d;
    }
    // reads a bitmap in both ways the C interface offers
    BmpData bmpOf(OH h)
    {
        BitmapInfoInterop bi{}; MC_CHECK(libCZI_BitmapGetInfo(h, &bi) == 0, "BitmapGetInfo fails"); BmpData d{ bi.pixelType, (int)bi.width, (int)bi.height, {} }; size_t line = (size_t)d.w * Utils::GetBytesPerPixel((PixelType)d.pt);
        BitmapLockInfoInterop li{}; MC_CHECK(libCZI_BitmapLock(h, &li) == 0, "BitmapLock fails");
        for (int y = 0; y < d.h; ++y) { const uint8_t* p = (const uint8_t*)li.ptrDataRoi + (size_t)y * li.stride; d.px.insert(d.px.end(), p, p + line); }
        MC_CHECK(libCZI_BitmapUnlock(h) == 0, "BitmapUnlock fails for a locked bitmap");
        for (unsigned extra : { 0u, 3u })
        {
            uint32_t stride = (uint32_t)line + extra; Bytes buf(d.h ? (size_t)stride * (d.h - 1) + line : 0, 0xEE); uint8_t dummy; int rc = libCZI_BitmapCopyTo(h, bi.width, bi.height, bi.pixelType, stride, buf.empty() ? &dummy : buf.data()); MC_CHECK(rc == 0, "BitmapCopyTo gives ", rc);
            for (int y = 0; y < d.h; ++y) { MC_CHECK(!memcmp(&buf[(size_t)y * stride], &d.px[y * line], line), "BitmapCopyTo differs from the locked data in line ", y); for (unsigned k = 0; k < extra && y + 1 < d.h; ++k) MC_CHECK(buf[(size_t)y * stride + line + k] == 0xEE, "BitmapCopyTo writes into the padding"); }
        }
        return d;
    }
    const int kBad = -12345;
    struct Free { void* p; ~Free() { libCZI_Free(p); } };

    // the C++ side of the document
    struct Ref
    {
        std::shared_ptr<libCZI::ICZIReader> r; std::shared_ptr<libCZI::IMetadataSegment> ms; std::shared_ptr<libCZI::ICziMetadata> md; std::shared_ptr<libCZI::ICziMultiDimensionDocumentInfo> di;
        explicit Ref(const Bytes& b, bool meta = true) { r = libCZI::CreateCZIReader(); r->Open(std::make_shared<MemStream>(b)); if (meta) { ms = r->ReadMetadataSegment(); md = ms->CreateMetaFromMetadataSegment(); di = md->GetDocumentInfo(); } }
    };
    const Ref& baseRef() { static Ref* r = new Ref(baseBytes()); return *r; }

    void cmpStats(OH rd, const Ref& ref)
    {
        auto want = ref.r->GetStatistics(); SubBlockStatisticsInterop s; memset(&s, 0xCC, sizeof(s)); int rc = libCZI_ReaderGetStatisticsSimple(rd, &s); MC_CHECK(rc == 0, "GetStatisticsSimple gives ", rc);
        MC_CHECK(s.sub_block_count == want.subBlockCount && s.min_m_index == want.minMindex && s.max_m_index == want.maxMindex && rectStr(s.bounding_box) == rectStr(want.boundingBox) && rectStr(s.bounding_box_layer0) == rectStr(want.boundingBoxLayer0Only) && boundsStr(s.dim_bounds) == boundsStr(&want.dimBounds), "the simple statistics differ from those of the C++ interface: ", s.sub_block_count, " M", s.min_m_index, "..", s.max_m_index, " ", rectStr(s.bounding_box), " ", boundsStr(s.dim_bounds));
        int n = (int)want.sceneBoundingBoxes.size();
        for (int room = 0; room <= n + 1; ++room)
        {
            size_t sz = sizeof(SubBlockStatisticsInteropEx) + room * sizeof(BoundingBoxesInterop); std::unique_ptr<uint8_t[]> mem(new uint8_t[sz]); auto* e = (SubBlockStatisticsInteropEx*)mem.get(); int32_t cnt = room;
            rc = libCZI_ReaderGetStatisticsEx(rd, e, &cnt); MC_CHECK(rc == 0 && cnt == n, "GetStatisticsEx gives ", rc, " and reports ", cnt, " scenes instead of ", n);
            MC_CHECK(e->sub_block_count == want.subBlockCount && e->min_m_index == want.minMindex && e->max_m_index == want.maxMindex && rectStr(e->bounding_box) == rectStr(want.boundingBox) && rectStr(e->bounding_box_layer0) == rectStr(want.boundingBoxLayer0Only) && boundsStr(e->dim_bounds) == boundsStr(&want.dimBounds), "the extended statistics differ from those of the C++ interface");
            MC_CHECK(e->number_of_per_scenes_bounding_boxes == std::min(room, n), "GetStatisticsEx filled ", e->number_of_per_scenes_bounding_boxes, " scene boxes with room for ", room, " and ", n, " scenes");
            int k = 0; for (auto& p : want.sceneBoundingBoxes) { if (k >= e->number_of_per_scenes_bounding_boxes) break; auto& b = e->per_scenes_bounding_boxes[k++]; MC_CHECK(b.sceneIndex == p.first && rectStr(b.bounding_box) == rectStr(p.second.boundingBox) && rectStr(b.bounding_box_layer0_only) == rectStr(p.second.boundingBoxLayer0), "the bounding boxes of scene ", p.first, " differ"); }
        }
        SubBlockStatisticsInteropEx e; rc = libCZI_ReaderGetStatisticsEx(rd, &e, nullptr); MC_CHECK(rc == 0 && e.sub_block_count == want.subBlockCount && e.number_of_per_scenes_bounding_boxes == 0, "GetStatisticsEx without scenes gives ", rc);
    }
    void cmpPyramid(OH rd, const Ref& ref)
    {
        char* js = nullptr; int rc = libCZI_ReaderGetPyramidStatistics(rd, &js); Free f{ js }; MC_CHECK(rc == 0 && js, "GetPyramidStatistics gives ", rc);
        rapidjson::Document d; d.Parse(js); MC_CHECK(!d.HasParseError() && d.IsObject() && d.HasMember("scenePyramidStatistics"), "the pyramid statistics are no valid JSON: ", js);
        auto want = ref.r->GetPyramidStatistics(); auto& o = d["scenePyramidStatistics"]; MC_CHECK(o.IsObject() && o.MemberCount() == want.scenePyramidStatistics.size(), "pyramid statistics: another number of scenes: ", js);
        for (auto& s : want.scenePyramidStatistics)
        {
            std::string k = std::to_string(s.first); MC_CHECK(o.HasMember(k.c_str()), "pyramid statistics: scene ", k, " is missing in ", js); auto& a = o[k.c_str()]; MC_CHECK(a.IsArray() && a.Size() == s.second.size(), "pyramid statistics of scene ", k, ": ", js);
            for (size_t i = 0; i < s.second.size(); ++i) MC_CHECK(a[i]["count"].GetInt() == s.second[i].count && a[i]["layerInfo"]["minificationFactor"].GetInt() == s.second[i].layerInfo.minificationFactor && a[i]["layerInfo"]["pyramidLayerNo"].GetInt() == s.second[i].layerInfo.pyramidLayerNo, "pyramid statistics of scene ", k, " differ: ", js);
        }
    }
    void cmpHeader(OH rd, const Ref& ref)
    {
        FileHeaderInfoInterop h; memset(&h, 0xCC, sizeof(h)); int rc = libCZI_ReaderGetFileHeaderInfo(rd, &h); MC_CHECK(rc == 0, "GetFileHeaderInfo gives ", rc); auto w = ref.r->GetFileHeaderInfo();
        MC_CHECK(!memcmp(h.guid, &w.fileGuid, 16) && h.majorVersion == w.majorVersion && h.minorVersion == w.minorVersion, "the file header info differs");
    }
    void cmpAttInfo(const AttachmentInfoInterop& i, const libCZI::AttachmentInfo& w)
    {
        MC_CHECK(!memcmp(i.guid, &w.contentGuid, 16), "the attachment's GUID differs"); MC_CHECK(!strncmp((const char*)i.content_file_type, w.contentFileType, 9), "the attachment's content type differs");
        if (w.name.size() < sizeof(i.name)) MC_CHECK(!i.name_overflow && i.name_in_case_of_overflow == nullptr && w.name == i.name, "the attachment's name is '", i.name, "' instead of '", w.name, "'");
        else { MC_CHECK(i.name_overflow && i.name_in_case_of_overflow && w.name == (const char*)i.name_in_case_of_overflow, "long attachment name not given"); MC_CHECK(memchr(i.name, 0, sizeof(i.name)), "the name is not terminated"); libCZI_Free(i.name_in_case_of_overflow); }
    }
    template <typename F> void cmpRaw(F get, const Bytes& want, const char* what)
    {
        for (int k = 0; k < 6; ++k)
        {
            uint64_t room = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? (want.size() ? want.size() - 1 : 0) : k == 3 ? want.size() : k == 4 ? want.size() + 7 : 5;
            Bytes buf(room); memset(buf.data(), 0xEE, room); uint8_t dummy = 0xEE; uint64_t sz = room; void* p = k == 5 ? nullptr : room ? (void*)buf.data() : (void*)&dummy; int rc = get(&sz, p);
            MC_CHECK(rc == 0 && sz == want.size(), what, ": result ", rc, ", size ", sz, " instead of ", want.size()); MC_CHECK(dummy == 0xEE, what, ": data written although there is no room");
            if (p && room) for (size_t i = 0; i < room; ++i) { if (i < want.size()) MC_CHECK(buf[i] == want[i], what, ": byte ", i, " differs (room ", room, ")"); else MC_CHECK(buf[i] == 0xEE, what, ": bytes beyond the data were written"); }
        }
    }
    void cmpSb(OH sb, libCZI::ISubBlock* w)
    {
        SubBlockInfoInterop i; memset(&i, 0xCC, sizeof(i)); int rc = libCZI_SubBlockGetInfo(sb, &i); MC_CHECK(rc == 0, "SubBlockGetInfo gives ", rc); MC_CHECK(infoStr(i) == infoStr(w->GetSubBlockInfo()), "SubBlockGetInfo: ", infoStr(i), " instead of ", infoStr(w->GetSubBlockInfo()));
        size_t n = 0; auto p = w->GetRawData(libCZI::ISubBlock::Data, &n); cmpRaw([&](uint64_t* s, void* d) { return libCZI_SubBlockGetRawData(sb, 0, s, d); }, raw(p, n), "raw data of the sub-block");
        p = w->GetRawData(libCZI::ISubBlock::Metadata, &n); cmpRaw([&](uint64_t* s, void* d) { return libCZI_SubBlockGetRawData(sb, 1, s, d); }, raw(p, n), "metadata of the sub-block");
        for (int t : { -1, 2, 77 }) { uint64_t z = 0; MC_CHECK(libCZI_SubBlockGetRawData(sb, t, &z, nullptr) != 0, "SubBlockGetRawData accepts the type ", t); }
        OH b = kBad; rc = libCZI_SubBlockCreateBitmap(sb, &b); std::shared_ptr<libCZI::IBitmapData> wb; try { wb = w->CreateBitmap(); } catch (std::exception&) {}
        MC_CHECK((rc == 0) == !!wb, "SubBlockCreateBitmap gives ", rc, " but the C++ interface ", wb ? "delivers a bitmap" : "fails"); if (rc) { MC_CHECK(b == 0 || b == kBad, "a failing call gives a handle"); return; }
        auto got = bmpOf(b); MC_CHECK(got == bmpOf(wb), "the sub-block's bitmap differs from the one of the C++ interface"); MC_CHECK(libCZI_ReleaseBitmap(b) == 0, "ReleaseBitmap fails");
    }
    void cmpXml(OH ms, const Bytes& want)
    {
        MetadataAsXmlInterop x; memset(&x, 0, sizeof(x)); int rc = libCZI_MetadataSegmentGetMetadataAsXml(ms, &x); Free f{ x.data }; if (want.empty() && rc) return; MC_CHECK(rc == 0 && x.size == want.size(), "MetadataSegmentGetMetadataAsXml gives ", rc, ", ", x.size, " bytes instead of ", want.size());
        MC_CHECK(want.empty() || (x.data && !memcmp(x.data, want.data(), want.size())), "the XML differs");
    }

    // JSON against the C++ getters ("" = member absent)
    // numbers which JSON cannot represent: whatever is given (or nothing), but the text has to be proper JSON
    bool nonFinite(const std::string& w) { return w.find("!nonfinite") != std::string::npos; }
    std::string num(double d) { if (!std::isfinite(d)) return "!nonfinite"; char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
    std::string jv(const rapidjson::Value& v) { if (v.IsString()) return mc::cat("s:", std::string(v.GetString(), v.GetStringLength())); if (v.IsNumber()) return "n:" + num(v.GetDouble()); if (v.IsArray()) { std::string s = "["; for (auto& e : v.GetArray()) s += jv(e) + ","; return s + "]"; } if (v.IsObject()) { std::string s = "{"; for (auto& m : v.GetObject()) s += std::string(m.name.GetString()) + "=" + jv(m.value) + ","; return s + "}"; } return "?"; }
    void cmpJson(const char* text, std::map<std::string, std::string> want, const char* what)
    {
        rapidjson::Document d; d.Parse<rapidjson::kParseFullPrecisionFlag>(text ? text : ""); MC_CHECK(!d.HasParseError() && d.IsObject(), what, ": no valid JSON: ", text ? text : "(null)");
        std::map<std::string, std::string> got; for (auto& m : d.GetObject()) { MC_CHECK(!got.count(m.name.GetString()), what, ": the member ", m.name.GetString(), " occurs twice"); got[m.name.GetString()] = jv(m.value); }
        for (auto& w : want) MC_CHECK(nonFinite(w.second) || got.count(w.first) && got[w.first] == w.second, what, ": ", w.first, " is ", got.count(w.first) ? got[w.first] : "missing", ", the C++ interface gives ", w.second);
        for (auto& g : got) MC_CHECK(want.count(g.first), what, ": ", g.first, " is ", g.second, " but the C++ interface gives nothing");
    }
    std::string u8(const std::wstring& w) { return Utils::ConvertToUtf8(w); }
    std::string specStr(const libCZI::SpectrumCharacteristics& c)
    {
        if (c.type == libCZI::SpectrumCharacteristics::InformationType::SinglePeak) return "{type=s:SinglePeak,single_peak=n:" + num(c.singlePeak) + ",}";
        if (c.type == libCZI::SpectrumCharacteristics::InformationType::Ranges) { std::ostringstream s; bool first = true; for (auto& r : c.ranges) { if (!first) s << ","; first = false; s << r.startOrSingleValue; if (!r.singleValue) s << "-" << r.end; } return "{type=s:Ranges,ranges=s:" + s.str() + ",}"; }
        return "{}";
    }
    const char* kPixNames[] = { "Gray8", "Gray16", "Gray32Float", "Bgr24", "Bgr48", "Bgr96Float", "Bgra32", "Gray64ComplexFloat", "Bgr192ComplexFloat", "Gray32", "Gray64Float" };
    // names of the enumerators in the order of their declaration
    template <typename E> struct Names { std::vector<std::pair<E, const char*>> v; std::string operator()(E e) const { for (auto& p : v) if (p.first == e) return std::string("s:") + p.second; return "unnamed"; } };
    std::map<std::string, std::string> chanJson(libCZI::IDimensionChannelInfo* c)
    {
        using namespace libCZI; std::map<std::string, std::string> w; std::wstring t; double d; int i;
        static const Names<DimensionChannelChannelType> nct{ { { DimensionChannelChannelType::Heightmap, "Heightmap" }, { DimensionChannelChannelType::PalHR, "PalHR" }, { DimensionChannelChannelType::PalWidefield, "PalWidefield" }, { DimensionChannelChannelType::SimHR, "SimHR" }, { DimensionChannelChannelType::SimWidefield, "SimWidefield" }, { DimensionChannelChannelType::SimDWF, "SimDWF" }, { DimensionChannelChannelType::AiryScanSum, "AiryScanSum" }, { DimensionChannelChannelType::AiryScanRawSr, "AiryScanRawSr" }, { DimensionChannelChannelType::AiryScanRaw, "AiryScanRaw" }, { DimensionChannelChannelType::AiryScanSr, "AiryScanSr" }, { DimensionChannelChannelType::AiryScanVp, "AiryScanVp" }, { DimensionChannelChannelType::AiryScanMb, "AiryScanMb" }, { DimensionChannelChannelType::AiryScanRingSheppardSum, "AiryScanRingSheppardSum" }, { DimensionChannelChannelType::OnlineUnmixing, "OnlineUnmixing" }, { DimensionChannelChannelType::Unspecified, "Unspecified" } } };
        using AM = DimensionChannelAcquisitionMode;
        static const Names<AM> nam{ { { AM::WideField, "WideField" }, { AM::LaserScanningConfocalMicroscopy, "LaserScanningConfocalMicroscopy" }, { AM::SpinningDiskConfocal, "SpinningDiskConfocal" }, { AM::SlitScanConfocal, "SlitScanConfocal" }, { AM::MultiPhotonMicroscopy, "MultiPhotonMicroscopy" }, { AM::StructuredIllumination, "StructuredIllumination" }, { AM::SingleMoleculeImaging, "SingleMoleculeImaging" }, { AM::TotalInternalReflection, "TotalInternalReflection" }, { AM::FluorescenceLifetime, "FluorescenceLifetime" }, { AM::SpectralImaging, "SpectralImaging" }, { AM::FluorescenceCorrelationSpectroscopy, "FluorescenceCorrelationSpectroscopy" }, { AM::NearFieldScanningOpticalMicroscopy, "NearFieldScanningOpticalMicroscopy" }, { AM::SecondHarmonicGenerationImaging, "SecondHarmonicGenerationImaging" }, { AM::PALM, "PALM" }, { AM::STORM, "STORM" }, { AM::STED, "STED" }, { AM::TIRF, "TIRF" }, { AM::FSM, "FSM" }, { AM::LCM, "LCM" }, { AM::SPIM, "SPIM" }, { AM::SEM, "SEM" }, { AM::FIB, "FIB" }, { AM::FIB_SEM, "FIB_SEM" }, { AM::ApertureCorrelation, "ApertureCorrelation" }, { AM::Other, "Other" } } };
        using IT = DimensionChannelIlluminationType; static const Names<IT> nit{ { { IT::Transmitted, "Transmitted" }, { IT::Epifluorescence, "Epifluorescence" }, { IT::Oblique, "Oblique" }, { IT::NonLinear, "NonLinear" }, { IT::Other, "Other" } } };
        using CM = DimensionChannelContrastMethod; static const Names<CM> ncm{ { { CM::Brightfield, "Brightfield" }, { CM::Phase, "Phase" }, { CM::DIC, "DIC" }, { CM::HoffmanModulation, "HoffmanModulation" }, { CM::ObliqueIllumination, "ObliqueIllumination" }, { CM::PolarizedLight, "PolarizedLight" }, { CM::Darkfield, "Darkfield" }, { CM::Fluorescence, "Fluorescence" }, { CM::MultiPhotonFluorescence, "MultiPhotonFluorescence" }, { CM::Other, "Other" } } };
        using PG = DimensionChannelPinholeGeometry; static const Names<PG> npg{ { { PG::Circular, "Circular" }, { PG::Rectangular, "Rectangular" }, { PG::Other, "Other" } } };
        if (c->TryGetAttributeId(&t)) w["attribute_id"] = "s:" + u8(t); if (c->TryGetAttributeName(&t)) w["attribute_name"] = "s:" + u8(t);
        DimensionChannelChannelType ct; if (c->TryGetChannelType(&ct)) w["channel_type"] = nct(ct); if (c->TryGetChannelUnit(&t)) w["channel_unit"] = "s:" + u8(t);
        PixelType pt; if (c->TryGetPixelType(&pt)) { static const PixelType all[] = { PixelType::Gray8, PixelType::Gray16, PixelType::Gray32Float, PixelType::Bgr24, PixelType::Bgr48, PixelType::Bgr96Float, PixelType::Bgra32, PixelType::Gray64ComplexFloat, PixelType::Bgr192ComplexFloat, PixelType::Gray32, PixelType::Gray64Float }; for (int k = 0; k < 11; ++k) if (all[k] == pt) w["pixel_type"] = std::string("s:") + kPixNames[k]; }
        if (c->TryGetComponentBitCount(&i)) w["component_bit_count"] = "n:" + num(i);
        AM am; if (c->TryGetAcquisitionMode(&am)) w["acquisition_mode"] = nam(am); IT it; if (c->TryGetIlluminationType(&it)) w["illumination_type"] = nit(it); CM cm; if (c->TryGetContrastMethod(&cm)) w["contrast_method"] = ncm(cm);
        SpectrumCharacteristics sc; if (c->TryGetIlluminationWavelength(&sc)) w["illumination_wavelength"] = specStr(sc); SpectrumCharacteristics sc2; if (c->TryGetDetectionWavelength(&sc2)) w["detection_wavelength"] = specStr(sc2);
        if (c->TryGetExcitationWavelength(&d)) w["excitation_wavelength"] = "n:" + num(d); if (c->TryGetEmissionWavelength(&d)) w["emission_wavelength"] = "n:" + num(d); if (c->TryGetEffectiveNA(&d)) w["effective_na"] = "n:" + num(d);
        if (c->TryGetDyeId(&t)) w["dye_id"] = "s:" + u8(t); if (c->TryGetDyeDatabaseId(&t)) w["dye_database_id"] = "s:" + u8(t);
        if (c->TryGetPinholeSize(&d)) w["pinhole_size"] = "n:" + num(d); if (c->TryGetPinholeSizeAiry(&d)) w["pinhole_size_airy"] = "n:" + num(d); PG pg; if (c->TryGetPinholeGeometry(&pg)) w["pinhole_geometry"] = npg(pg);
        if (c->TryGetFluor(&t)) w["fluor"] = "s:" + u8(t); if (c->TryGetNDFilter(&d)) w["nd_filter"] = "n:" + num(d); if (c->TryGetPocketCellSetting(&i)) w["pocket_cell_setting"] = "n:" + num(i);
        Rgb8Color col; if (c->TryGetColor(&col)) { char b[16]; snprintf(b, sizeof b, "#%02x%02x%02x", col.r, col.g, col.b); w["color"] = std::string("s:") + b; }
        RangeOrSingleValue<uint64_t> ex; if (c->TryGetExposureTime(&ex)) w["exposure_time"] = ex.singleValue ? mc::cat("s:", std::to_string(ex.startOrSingleValue)) : mc::cat("s:", std::to_string(ex.startOrSingleValue), "-", std::to_string(ex.end));
        if (c->TryGetDepthOfFocus(&d)) w["depth_of_focus"] = "n:" + num(d); if (c->TryGetSectionThickness(&d)) w["section_thickness"] = "n:" + num(d);
        if (c->TryGetReflector(&t)) w["reflector"] = "s:" + u8(t); if (c->TryGetCondenserContrast(&t)) w["condensor_contrast"] = "s:" + u8(t); if (c->TryGetNACondenser(&d)) w["na_condensor"] = "n:" + num(d);
        return w;
    }
    void cmpScaling(OH di, libCZI::ICziMultiDimensionDocumentInfo* w)
    {
        ScalingInfoInterop s; memset(&s, 0xCC, sizeof s); int rc = libCZI_CziDocumentInfoGetScalingInfo(di, &s); MC_CHECK(rc == 0, "GetScalingInfo gives ", rc); auto x = w->GetScalingInfo();
        auto eq = [](double a, bool v, double b) { return v ? a == b : std::isnan(a); }; MC_CHECK(eq(s.scale_x, x.IsScaleXValid(), x.scaleX) && eq(s.scale_y, x.IsScaleYValid(), x.scaleY) && eq(s.scale_z, x.IsScaleZValid(), x.scaleZ), "the scaling differs: ", s.scale_x, " ", s.scale_y, " ", s.scale_z);
    }
    void cmpGeneral(OH di, libCZI::ICziMultiDimensionDocumentInfo* w)
    {
        void* js = nullptr; int rc = libCZI_CziDocumentInfoGetGeneralDocumentInfo(di, &js); Free f{ js }; MC_CHECK(rc == 0, "GetGeneralDocumentInfo gives ", rc); auto g = w->GetGeneralDocumentInfo(); std::map<std::string, std::string> e;
        if (g.name_valid) e["name"] = "s:" + u8(g.name); if (g.title_valid) e["title"] = "s:" + u8(g.title); if (g.userName_valid) e["user_name"] = "s:" + u8(g.userName); if (g.description_valid) e["description"] = "s:" + u8(g.description); if (g.comment_valid) e["comment"] = "s:" + u8(g.comment); if (g.keywords_valid) e["keywords"] = "s:" + u8(g.keywords); if (g.creationDateTime_valid) e["creation_date_time"] = "s:" + u8(g.creationDateTime); if (g.rating_valid) e["rating"] = "n:" + num(g.rating);
        cmpJson((const char*)js, e, "general document info");
    }
    void cmpDims(OH di, libCZI::ICziMultiDimensionDocumentInfo* w)
    {
        auto dims = w->GetDimensions();
        for (uint32_t room = 0; room <= dims.size() + 2; ++room)
        {
            std::vector<uint32_t> buf(room + 1, 0xEEEEEEEE); int rc = libCZI_CziDocumentInfoGetAvailableDimension(di, room, buf.data()); MC_CHECK(buf[room] == 0xEEEEEEEE, "GetAvailableDimension writes beyond the given room");
            MC_CHECK((rc == 0) == (room > dims.size()), "GetAvailableDimension gives ", rc, " with room for ", room, " and ", dims.size(), " dimensions"); if (rc) continue;
            for (size_t i = 0; i < dims.size(); ++i) MC_CHECK(buf[i] == (uint32_t)dims[i], "available dimension ", i, " is ", buf[i]); MC_CHECK(buf[dims.size()] == kDimensionInvalid, "the list of dimensions is not terminated");
        }
        for (uint32_t d : { kDimensionZ, kDimensionT, kDimensionC, kDimensionR, kDimensionS, kDimensionI, kDimensionH, kDimensionV, kDimensionB, 0u, 10u, 0xFFFFFFFFu })
        {
            void* js = nullptr; int rc = libCZI_CziDocumentInfoGetDimensionInfo(di, d, &js); Free f{ js };
            if (d == kDimensionZ)
            {
                auto z = w->GetDimensionZInfo(); MC_CHECK((rc == 0) == !!z, "GetDimensionInfo(Z) gives ", rc); if (!z) continue; std::map<std::string, std::string> e; double a, b; std::vector<double> l;
                if (z->TryGetReferencePosition(&a)) e["reference_position"] = "n:" + num(a); if (z->TryGetIntervalDefinition(&a, &b)) e["interval_definition"] = "[n:" + num(a) + ",n:" + num(b) + ",]"; else if (z->TryGetPositionList(&l)) { std::string s = "["; for (double v : l) s += "n:" + num(v) + ","; e["position_list"] = s + "]"; }
                libCZI::IDimensionZInfo::XyzHandedness xh; if (z->TryGetXyzHandedness(&xh)) e["xyz_handedness"] = xh == libCZI::IDimensionZInfo::XyzHandedness::LeftHanded ? "s:left_handed" : xh == libCZI::IDimensionZInfo::XyzHandedness::RightHanded ? "s:right_handed" : "s:undefined";
                libCZI::IDimensionZInfo::ZaxisDirection zd; if (z->TryGetZAxisDirection(&zd)) e["z_axis_direction"] = zd == libCZI::IDimensionZInfo::ZaxisDirection::FromObjectiveToSpecimen ? "s:from_objective_to_specimen" : zd == libCZI::IDimensionZInfo::ZaxisDirection::FromSpecimenToObjective ? "s:from_specimen_to_objective" : "s:undefined";
                libCZI::IDimensionZInfo::ZDriveMode zm; if (z->TryGetZDriveMode(&zm)) e["z_drive_mode"] = zm == libCZI::IDimensionZInfo::ZDriveMode::Continuous ? "s:continuous" : "s:step"; if (z->TryZDriveSpeed(&a)) e["z_drive_speed"] = "n:" + num(a);
                cmpJson((const char*)js, e, "dimension Z");
            }
            else if (d == kDimensionT)
            {
                auto t = w->GetDimensionTInfo(); MC_CHECK((rc == 0) == !!t, "GetDimensionInfo(T) gives ", rc); if (!t) continue; std::map<std::string, std::string> e; double a, b; std::vector<double> l; libCZI::XmlDateTime dt;
                if (t->TryGetStartTime(&dt)) e["start_time"] = "s:" + dt.ToXmlString(); if (t->TryGetIntervalDefinition(&a, &b)) e["interval_definition"] = "[n:" + num(a) + ",n:" + num(b) + ",]"; else if (t->TryGetOffsetsList(&l)) { std::string s = "["; for (double v : l) s += "n:" + num(v) + ","; e["offset_list"] = s + "]"; }
                cmpJson((const char*)js, e, "dimension T");
            }
            else if (d == kDimensionC)
            {
                auto ch = w->GetDimensionChannelsInfo(); MC_CHECK((rc == 0) == !!ch, "GetDimensionInfo(C) gives ", rc); if (!ch) continue;
                rapidjson::Document doc; doc.Parse<rapidjson::kParseFullPrecisionFlag>(js ? (const char*)js : ""); MC_CHECK(!doc.HasParseError() && doc.IsObject() && (int)doc.MemberCount() == ch->GetChannelCount(), "dimension C: ", js ? (const char*)js : "(null)");
                for (int i = 0; i < ch->GetChannelCount(); ++i) { std::string k = std::to_string(i); MC_CHECK(doc.HasMember(k.c_str()), "dimension C: channel ", k, " is missing"); auto want = chanJson(ch->GetChannel(i).get()); std::map<std::string, std::string> got; for (auto& m : doc[k.c_str()].GetObject()) { MC_CHECK(!got.count(m.name.GetString()), "dimension C: the member ", m.name.GetString(), " occurs twice"); got[m.name.GetString()] = jv(m.value); } for (auto& p : want) MC_CHECK(nonFinite(p.second) || got.count(p.first) && got[p.first] == p.second, "channel ", k, ": ", p.first, " is ", got.count(p.first) ? got[p.first] : "missing", ", the C++ interface gives ", p.second); for (auto& p : got) MC_CHECK(want.count(p.first), "channel ", k, ": ", p.first, " is ", p.second, " but the C++ interface gives nothing"); }
            }
            else MC_CHECK(rc != 0 || js != nullptr, "GetDimensionInfo(", d, ") claims success but gives nothing");
        }
    }
    void cmpFillOut(OH ds, libCZI::IDisplaySettings* w, int maxCh)
    {
        for (int ch = -1; ch <= maxCh; ++ch) for (int big = 0; big < 2; ++big)
        {
            CompositionChannelInfoInterop ci; memset(&ci, 0, sizeof ci); int rc = libCZI_CompositorFillOutCompositionChannelInfoInterop(ds, ch, big != 0, &ci); auto cs = w->GetChannelDisplaySettings(ch);
            MC_CHECK((rc == 0) == !!cs, "FillOutCompositionChannelInfo for channel ", ch, " gives ", rc, " but the display settings ", cs ? "have" : "do not have", " this channel"); if (rc) continue; Free f{ (void*)ci.ptr_look_up_table };
            // the documented way of the C++ interface: CDisplaySettingsHelper
            if (!cs->GetIsEnabled()) { MC_CHECK(ci.weight == 0, "a disabled channel has the weight ", ci.weight); continue; }
            float bp, wp; cs->GetBlackWhitePoint(&bp, &wp); MC_CHECK(ci.weight == cs->GetWeight() && ci.black_point == bp && ci.white_point == wp, "weight/black/white of channel ", ch, " differ");
            libCZI::Rgb8Color col; bool tint = cs->TryGetTintingColorRgb8(&col); MC_CHECK((ci.enable_tinting != 0) == tint && (!tint || (ci.tinting_color_r == col.r && ci.tinting_color_g == col.g && ci.tinting_color_b == col.b)), "the tinting of channel ", ch, " differs");
            std::vector<uint8_t> lut; int n = big ? 65536 : 256; float g = 1; std::vector<libCZI::IDisplaySettings::SplineData> sp;
            auto mode = cs->GetGradationCurveMode(); if (mode == libCZI::IDisplaySettings::GradationCurveMode::Gamma && cs->TryGetGamma(&g)) lut = Utils::Create8BitLookUpTableFromGamma(n, bp, wp, g); else if (mode == libCZI::IDisplaySettings::GradationCurveMode::Spline && cs->TryGetSplineData(&sp)) lut = Utils::Create8BitLookUpTableFromSplines(n, bp, wp, sp);
            MC_CHECK(ci.look_up_table_element_count == (int)lut.size(), "the look-up table of channel ", ch, " has ", ci.look_up_table_element_count, " elements instead of ", lut.size()); if (!lut.empty()) MC_CHECK(ci.ptr_look_up_table && !memcmp(ci.ptr_look_up_table, lut.data(), lut.size()), "the look-up table of channel ", ch, " differs");
        }
    }

    // ------------------------------------------------------------------ the world of one execution
    struct World
    {
        Ext in, out; OH h[NTY], dead[NTY]; int inMade = 0, outMade = 0; bool opened = false, created = false, closedW = false; int added = 0;
        World() { in.data = baseBytes(); for (int i = 0; i < NTY; ++i) h[i] = dead[i] = 0; }
        const Ref& ref() { return baseRef(); }
        // a writer keeps its stream (and a reader, sub-block, accessor ... may keep theirs) until released
        ~World() {}
        OH& at(int t) { return h[t]; }
        void create(int t)
        {
            OH n = kBad; int rc = 0;
            switch (t)
            {
            case IS: MC_CHECK(inMade == 0 || in.closed, "(harness) stream still open"); in.closed = 0; ++inMade; rc = makeIn(in, &n); break;
            case RD: rc = libCZI_CreateReader(&n); opened = false; break;
            case SB: rc = libCZI_ReaderReadSubBlock(h[RD], 0, &n); break;
            case BM: rc = libCZI_SubBlockCreateBitmap(h[SB], &n); break;
            case MS: rc = libCZI_ReaderGetMetadataSegment(h[RD], &n); break;
            case AT: rc = libCZI_ReaderReadAttachment(h[RD], 0, &n); break;
            case DI: rc = libCZI_MetadataSegmentGetCziDocumentInfo(h[MS], &n); break;
            case DS: rc = libCZI_CziDocumentInfoGetDisplaySettings(h[DI], &n); break;
            case CS: rc = libCZI_DisplaySettingsGetChannelDisplaySettings(h[DS], 0, &n); break;
            case AC: rc = libCZI_CreateSingleChannelTileAccessor(h[RD], &n); break;
            case OS: out.closed = 0; ++outMade; rc = makeOut(out, &n); break;
            case WR: rc = libCZI_CreateWriter(&n, nullptr); created = closedW = false; added = 0; break;
            }
            MC_CHECK(rc == 0 && n != 0 && n != kBad, "creating a ", kTy[t], " gives ", rc); h[t] = n;
        }
        void open() { ReaderOpenInfoInterop oi{ h[IS] }; int rc = libCZI_ReaderOpen(h[RD], &oi); MC_CHECK(rc == 0, "ReaderOpen gives ", rc); opened = true; }
        void wcreate() { out.data.clear(); int rc = libCZI_WriterCreate(h[WR], h[OS], "{\"file_guid\":\"{01020304-0506-0708-090a-0b0c0d0e0f10}\"}"); MC_CHECK(rc == 0, "WriterCreate gives ", rc); created = true; }
        void all() { create(IS); create(RD); open(); for (int t = SB; t <= AC; ++t) create(t); create(OS); create(WR); wcreate(); }
        void rel(int t) { int rc = release(t, h[t]); MC_CHECK(rc == 0, "releasing a live ", kTy[t], " gives ", rc); dead[t] = h[t]; h[t] = 0; if (t == RD) opened = false; if (t == WR) created = false; }
        void use(int t)
        {
            const Ref& r = ref();
            switch (t)
            {
            case RD: if (!opened) { SubBlockStatisticsInterop s; MC_CHECK(libCZI_ReaderGetStatisticsSimple(h[RD], &s) != 0, "statistics of a reader which was not opened"); OH x = kBad; MC_CHECK(libCZI_ReaderReadSubBlock(h[RD], 0, &x) != 0 && (x == 0 || x == kBad), "sub-block of a reader which was not opened"); x = kBad; MC_CHECK(libCZI_ReaderGetMetadataSegment(h[RD], &x) != 0, "metadata of a reader which was not opened"); x = kBad; MC_CHECK(libCZI_ReaderReadAttachment(h[RD], 0, &x) != 0, "attachment of a reader which was not opened"); break; }
                   cmpStats(h[RD], r); cmpPyramid(h[RD], r); cmpHeader(h[RD], r); { int32_t n = -1; MC_CHECK(libCZI_ReaderGetAttachmentCount(h[RD], &n) == 0 && n == r.r->GetAttachmentCount(), "attachment count ", n); } break;
            case SB: cmpSb(h[SB], r.r->ReadSubBlock(0).get()); break;
            case BM: { static BmpData want = bmpOf(baseRef().r->ReadSubBlock(0)->CreateBitmap()); auto g = bmpOf(h[BM]); MC_CHECK(g == want, "the bitmap's content changed: ", g.str()); break; }
            case MS: cmpXml(h[MS], toBytes(kXml)); break;
            case AT: { AttachmentInfoInterop i; memset(&i, 0xCC, sizeof i); MC_CHECK(libCZI_AttachmentGetInfo(h[AT], &i) == 0, "AttachmentGetInfo fails"); auto a = r.r->ReadAttachment(0); cmpAttInfo(i, a->GetAttachmentInfo()); size_t n = 0; auto p = a->GetRawData(&n); cmpRaw([&](uint64_t* s, void* d) { return libCZI_AttachmentGetRawData(h[AT], s, d); }, raw(p, n), "attachment data"); break; }
            case DI: cmpScaling(h[DI], r.di.get()); cmpGeneral(h[DI], r.di.get()); cmpDims(h[DI], r.di.get()); break;
            case DS: cmpFillOut(h[DS], r.di->GetDisplaySettings().get(), 3); break;
            case AC: { IntRectInterop roi{ 0, 0, 8, 4 }; IntSizeInterop sz{}; MC_CHECK(libCZI_SingleChannelTileAccessorCalcSize(h[AC], &roi, 0.5f, &sz) == 0 && sz.w == 4 && sz.h == 2, "CalcSize gives ", sz.w, "x", sz.h);
                CoordinateInterop co{}; co.dimensions_valid = 2; co.value[0] = 0; OH b = kBad; int rc = libCZI_SingleChannelTileAccessorGet(h[AC], &co, &roi, 1, nullptr, &b); MC_CHECK(rc == 0, "accessor Get gives ", rc); libCZI::CDimCoordinate cc{ { DimensionIndex::C, 0 } };
                static BmpData want = [&] { libCZI::ISingleChannelScalingTileAccessor::Options o; o.Clear(); return bmpOf(baseRef().r->CreateSingleChannelScalingTileAccessor()->Get(libCZI::IntRect{ 0, 0, 8, 4 }, &cc, 1, &o)); }();
                auto g = bmpOf(b); MC_CHECK(g == want, "the accessor's bitmap differs"); MC_CHECK(libCZI_ReleaseBitmap(b) == 0, "ReleaseBitmap fails"); break; }
            case WR: { AddSubBlockInfoInterop a; memset(&a, 0, sizeof a); uint8_t px[4] = { 1,2,3,4 }; a.coordinate.dimensions_valid = 2; a.coordinate.value[0] = added; a.x = 0; a.y = 0; a.logical_width = a.physical_width = 2; a.logical_height = a.physical_height = 2; a.pixel_type = 0; a.size_data = 4; a.data = px; a.stride = 2;
                int rc = libCZI_WriterAddSubBlock(h[WR], &a); MC_CHECK((rc == 0) == (created && !closedW), "WriterAddSubBlock gives ", rc, created ? " (created)" : " (not created)", closedW ? " (closed)" : ""); if (!rc) ++added; break; }
            default: break; // input stream, output stream, channel display settings: nothing but release
            }
        }
        void wclose() { int rc = libCZI_WriterClose(h[WR]); MC_CHECK((rc == 0) == (created && !closedW), "WriterClose gives ", rc); if (!rc) { closedW = true; Doc d = readAll(out.data, false); MC_CHECK((int)d.sbs.size() == added, "the closed document holds ", d.sbs.size(), " sub-blocks instead of ", added); } }
        // everything released: the streams must be closed exactly once
        void finish()
        {
            for (int t = NTY - 1; t >= 0; --t) if (h[t]) rel(t);
            if (inMade) MC_CHECK(in.closed == 1, "after everything was released the input stream was closed ", in.closed, " times"); if (outMade) MC_CHECK(out.closed == 1, "after everything was released the output stream was closed ", out.closed, " times");
        }
    };
    const int parent[NTY] = { -1, -1, RD, SB, RD, RD, MS, DI, DS, RD, -1, -1 };

    // executes 'body' repeatedly: memory in use must not grow
    template <typename F> void leakChecked(mc::Ctx& c, F body)
    {
        static bool warm = false; if (!warm) { World w; w.all(); for (int t = 0; t < NTY; ++t) w.use(t); w.wclose(); w.finish(); warm = true; }
        body(true);
        size_t b0 = __sanitizer_get_current_allocated_bytes(); body(false); size_t b1 = __sanitizer_get_current_allocated_bytes();
        if (b1 > b0) { body(false); size_t b2 = __sanitizer_get_current_allocated_bytes(); body(false); size_t b3 = __sanitizer_get_current_allocated_bytes(); MC_CHECK(!(b2 > b1 && b3 > b2), "memory leak: ", b3 - b2, " bytes per execution"); }
    }

    // ================================================================= suites
    // histories of create / open / use / release / use-after-release over all object types
    struct Op { int kind, ty; };  // 0 create 1 use 2 release 3 release-dead 4 use-dead 5 open 6 writer-create 7 writer-close 8 open the reader again
    struct Model { bool live[NTY] = {}, dead[NTY] = {}; bool opened = false, created = false, closedW = false, inEver = false, outEver = false; };
    std::vector<Op> enabled(const Model& m)
    {
        std::vector<Op> v;
        for (int t = 0; t < NTY; ++t)
        {
            bool can = !m.live[t] && (parent[t] < 0 || (m.live[parent[t]] && (parent[t] != RD || m.opened))); if (t == IS) can = can && !m.inEver; if (t == OS) can = can && !m.outEver;
            if (can) v.push_back({ 0, t }); if (m.live[t]) { if (t != IS && t != OS && t != CS) v.push_back({ 1, t }); v.push_back({ 2, t }); } if (m.dead[t]) { v.push_back({ 3, t }); if (t != IS && t != OS && t != CS) v.push_back({ 4, t }); }
        }
        if (m.live[RD] && m.live[IS]) v.push_back({ m.opened ? 8 : 5, RD }); if (m.live[WR] && m.live[OS] && !m.created) v.push_back({ 6, WR }); if (m.live[WR] && m.created && !m.closedW) v.push_back({ 7, WR });
        return v;
    }
    void apply(Model& m, Op o)
    {
        switch (o.kind) { case 0: m.live[o.ty] = true; if (o.ty == IS) m.inEver = true; if (o.ty == OS) m.outEver = true; if (o.ty == RD) m.opened = false; if (o.ty == WR) m.created = m.closedW = false; break; case 2: m.live[o.ty] = false; m.dead[o.ty] = true; if (o.ty == RD) m.opened = false; if (o.ty == WR) m.created = m.closedW = false; break; case 5: m.opened = true; break; case 6: m.created = true; break; case 7: m.closedW = true; break; }
    }
    int useDead(World& w, int t)
    {
        OH x = w.dead[t], o = kBad; uint64_t z = 0; int rc = 1;
        switch (t)
        {
        case RD: { SubBlockStatisticsInterop s; rc = libCZI_ReaderGetStatisticsSimple(x, &s); int r2 = libCZI_ReaderReadSubBlock(x, 0, &o); MC_CHECK(r2 != 0 && (o == 0 || o == kBad), "a released reader delivers a sub-block"); break; }
        case SB: rc = libCZI_SubBlockGetRawData(x, 0, &z, nullptr); { int r2 = libCZI_SubBlockCreateBitmap(x, &o); MC_CHECK(r2 != 0, "a released sub-block delivers a bitmap"); } break;
        case BM: { BitmapInfoInterop i; rc = libCZI_BitmapGetInfo(x, &i); BitmapLockInfoInterop l; MC_CHECK(libCZI_BitmapLock(x, &l) != 0, "a released bitmap can be locked"); break; }
        case MS: { MetadataAsXmlInterop i; rc = libCZI_MetadataSegmentGetMetadataAsXml(x, &i); break; }
        case AT: rc = libCZI_AttachmentGetRawData(x, &z, nullptr); break;
        case DI: { ScalingInfoInterop i; rc = libCZI_CziDocumentInfoGetScalingInfo(x, &i); break; }
        case DS: { CompositionChannelInfoInterop i; rc = libCZI_CompositorFillOutCompositionChannelInfoInterop(x, 0, false, &i); break; }
        case AC: { IntRectInterop r{ 0,0,1,1 }; IntSizeInterop s; rc = libCZI_SingleChannelTileAccessorCalcSize(x, &r, 1, &s); break; }
        case WR: rc = libCZI_WriterClose(x); break;
        }
        return rc;
    }
    void exec(World& w, Op o)
    {
        switch (o.kind)
        {
        case 0: w.create(o.ty); break; case 1: w.use(o.ty); break; case 2: w.rel(o.ty); break;
        case 3: { int rc = release(o.ty, w.dead[o.ty]); MC_CHECK(rc != 0, "a ", kTy[o.ty], " can be released twice"); break; }
        case 4: { int rc = useDead(w, o.ty); MC_CHECK(rc != 0, "a released ", kTy[o.ty], " can still be used"); break; }
        case 5: w.open(); break; case 6: w.wcreate(); break; case 7: w.wclose(); break;
        case 8: { ReaderOpenInfoInterop oi{ w.h[IS] }; libCZI_ReaderOpen(w.h[RD], &oi); break; }  // refused or not: nothing may break
        }
    }
    const char* const kKind[] = { "create", "use", "release", "release once more", "use the released", "open", "create document with", "close", "open once more" };
    void histories(mc::Ctx& c)
    {
        bool full = c.choose(2, "start") == 1; Model m; if (full) { for (auto& l : m.live) l = true; m.opened = m.created = m.inEver = m.outEver = true; }
        int depth = full ? (c.thorough() ? 4 : 3) : (c.thorough() ? 8 : 6); std::vector<Op> ops;
        for (int i = 0; i < depth; ++i)
        {
            auto e = enabled(m); if (!full) { // from nothing: only one object chain at a time grows; histories are cut by never using the same object twice in a row
                std::vector<Op> f; for (auto& o : e) { if (!ops.empty() && o.kind == 1 && ops.back().kind == 1) continue; if ((o.kind == 3 || o.kind == 4) && i + 1 < depth) continue; if (o.ty >= OS && i >= 3 && !m.live[o.ty]) continue; f.push_back(o); } e = f; }
            if (e.empty()) break; Op o = e[c.choose((int)e.size(), "op")]; apply(m, o); ops.push_back(o);
        }
        c.say([&](std::ostream& s) { s << (full ? "all objects exist; " : "start with nothing; "); for (auto& o : ops) s << kKind[o.kind] << " " << kTy[o.ty] << "; "; });
        leakChecked(c, [&](bool first)
        {
            World w; if (full) w.all();
            for (auto& o : ops) { exec(w, o); if (first) c.step(); }
            if (first) for (int t = 0; t < NTY; ++t) if (w.h[t]) w.use(t);
            w.finish();
        });
        uint64_t h = 3; for (int t = 0; t < NTY; ++t) h = mc::mix(h, m.live[t] * 2 + m.dead[t]); c.state(mc::mix(h, m.opened * 4 + m.created * 2 + m.closedW)); c.outcome(h);
    }
    // every set of released objects (in both orders): what remains stays usable with the same content
    void outlive(mc::Ctx& c)
    {
        bool back = c.flip("order"); unsigned set = 0; for (int t = 0; t < NTY; ++t) if (c.flip("release")) set |= 1u << t;
        c.say([&](std::ostream& s) { s << "release"; for (int k = 0; k < NTY; ++k) { int t = back ? NTY - 1 - k : k; if (set & (1u << t)) s << " " << kTy[t]; } s << ", then use the others"; });
        leakChecked(c, [&](bool first)
        {
            World w; w.all(); for (int k = 0; k < NTY; ++k) { int t = back ? NTY - 1 - k : k; if (set & (1u << t)) { w.rel(t); if (first) c.step(); } }
            if (first) { for (int t = 0; t < NTY; ++t) if (w.h[t]) { w.use(t); c.step(); } for (int t = 0; t < NTY; ++t) if (!w.h[t]) MC_CHECK(release(t, w.dead[t]) != 0, "a ", kTy[t], " can be released twice"); if (w.h[WR]) w.wclose(); }
            if (!(set & (1u << IS)) || !(set & (1u << RD))) MC_CHECK(w.in.closed == 0, "the input stream was closed although stream or reader still exist");
            if (!(set & (1u << OS)) || !(set & (1u << WR))) MC_CHECK(w.out.closed == 0 || w.closedW, "the output stream was closed although stream or writer still exist");
            if (back) { for (int t = 0; t < NTY; ++t) if (w.h[t]) w.rel(t); } w.finish();
        });
        c.state(mc::mix(set, back)); c.outcome(set);
    }
    // lock/unlock/release
    void locks(mc::Ctx& c)
    {
        int n = c.thorough() ? 9 : 7; std::vector<int> ops; int lock = 0; bool rel = false; int from = c.choose(2, "source");
        for (int i = 0; i < n && !rel; ++i) { int o = c.choose(5, "op"); ops.push_back(o); if (o == 0) ++lock; else if (o == 1) lock = std::max(0, lock - 1); else if (o == 2 && lock == 0) rel = true; if (o == 4) break; }
        leakChecked(c, [&](bool first)
        {
            World w; w.create(IS); w.create(RD); w.open(); w.create(SB); OH b = kBad; CoordinateInterop co{}; co.dimensions_valid = 2; IntRectInterop roi{ 0,0,4,4 };
            if (from == 0) MC_CHECK(libCZI_SubBlockCreateBitmap(w.h[SB], &b) == 0, "SubBlockCreateBitmap"); else { w.create(AC); MC_CHECK(libCZI_SingleChannelTileAccessorGet(w.h[AC], &co, &roi, 1, nullptr, &b) == 0, "Get"); }
            int l = 0; bool gone = false;
            for (int o : ops)
            {
                if (first) c.step();
                if (o == 0) { BitmapLockInfoInterop li{}; int rc = libCZI_BitmapLock(b, &li); MC_CHECK(rc == 0 && li.ptrDataRoi && li.stride >= 4, "BitmapLock gives ", rc, " with lock count ", l); ++l; }
                else if (o == 1) { int rc = libCZI_BitmapUnlock(b); MC_CHECK((rc == 0) == (l > 0), "BitmapUnlock gives ", rc, " with lock count ", l); if (l) --l; else MC_CHECK(rc == LibCZIApi_ErrorCode_LockUnlockSemanticViolated, "BitmapUnlock of an unlocked bitmap gives ", rc); }
                else if (o == 2) { int rc = libCZI_ReleaseBitmap(b); MC_CHECK((rc == 0) == (l == 0), "ReleaseBitmap gives ", rc, " with lock count ", l); if (l) MC_CHECK(rc == LibCZIApi_ErrorCode_LockUnlockSemanticViolated, "ReleaseBitmap of a locked bitmap gives ", rc); else { gone = true; break; } }
                else if (o == 3) bmpOf(b);
                else { if (w.h[SB]) w.rel(SB); if (w.h[AC]) w.rel(AC); if (w.h[RD]) w.rel(RD); bmpOf(b); }
            }
            while (l > 0) { MC_CHECK(libCZI_BitmapUnlock(b) == 0, "BitmapUnlock"); --l; } if (!gone) MC_CHECK(libCZI_ReleaseBitmap(b) == 0, "an unlocked bitmap cannot be released"); else MC_CHECK(libCZI_ReleaseBitmap(b) != 0 && libCZI_BitmapUnlock(b) != 0, "a released bitmap still works");
            w.finish();
        });
        uint64_t h = 1; for (int o : ops) h = mc::mix(h, o); c.state(h); c.outcome(mc::mix(lock, rel));
    }

    // every function with every class of every argument
    // handle classes: 0 right, 1 null, 2 released, 3.. another type, last: bogus address of readable memory
    struct Fn { const char* name; std::vector<int> hs; int ptrs; unsigned optional; std::function<int(World&, const OH*, unsigned, std::vector<std::pair<int, OH>>&)> call; };
    std::vector<Fn> functions()
    {
        std::vector<Fn> v; typedef std::vector<std::pair<int, OH>> Outs;
#define P(i, x) ((nul & (1u << (i))) ? nullptr : (x))
auto hs = [](std::initializer_list<int> l) { return std::vector<int>(l); };
#define HS(...) hs({ __VA_ARGS__ })
#define FN(name, handles, ptrs, opt, ...) v.push_back({ name, handles, ptrs, opt, [](World& w, const OH* h, unsigned nul, Outs& outs) -> int { (void)w; (void)h; (void)nul; (void)outs; __VA_ARGS__ } })
        FN("CreateReader", HS(), 1, 0, { OH o = kBad; int rc = libCZI_CreateReader(P(0, &o)); outs.push_back({ RD, o }); return rc; });
        FN("ReaderOpen", HS(RD, IS), 1, 0, { ReaderOpenInfoInterop oi{ h[1] }; OH nr = 0; if (h[0] == w.h[RD]) libCZI_CreateReader(&nr); int rc = libCZI_ReaderOpen(nr ? nr : h[0], P(0, &oi)); if (nr) MC_CHECK(libCZI_ReleaseReader(nr) == 0, "ReleaseReader"); return rc; });
        FN("ReaderGetFileHeaderInfo", HS(RD), 1, 0, { FileHeaderInfoInterop i; return libCZI_ReaderGetFileHeaderInfo(h[0], P(0, &i)); });
        FN("ReaderGetStatisticsSimple", HS(RD), 1, 0, { SubBlockStatisticsInterop i; return libCZI_ReaderGetStatisticsSimple(h[0], P(0, &i)); });
        FN("ReaderGetStatisticsEx", HS(RD), 2, 2, { SubBlockStatisticsInteropEx i; int32_t n = 0; return libCZI_ReaderGetStatisticsEx(h[0], P(0, &i), P(1, &n)); });
        FN("ReaderGetPyramidStatistics", HS(RD), 1, 0, { char* p = nullptr; int rc = libCZI_ReaderGetPyramidStatistics(h[0], P(0, &p)); libCZI_Free(p); return rc; });
        FN("ReaderReadSubBlock", HS(RD), 1, 0, { OH o = kBad; int rc = libCZI_ReaderReadSubBlock(h[0], 1, P(0, &o)); outs.push_back({ SB, o }); return rc; });
        FN("ReaderGetMetadataSegment", HS(RD), 1, 0, { OH o = kBad; int rc = libCZI_ReaderGetMetadataSegment(h[0], P(0, &o)); outs.push_back({ MS, o }); return rc; });
        FN("ReaderGetAttachmentCount", HS(RD), 1, 0, { int32_t n; return libCZI_ReaderGetAttachmentCount(h[0], P(0, &n)); });
        FN("ReaderGetAttachmentInfoFromDirectory", HS(RD), 1, 0, { AttachmentInfoInterop i; return libCZI_ReaderGetAttachmentInfoFromDirectory(h[0], 1, P(0, &i)); });
        FN("ReaderReadAttachment", HS(RD), 1, 0, { OH o = kBad; int rc = libCZI_ReaderReadAttachment(h[0], 1, P(0, &o)); outs.push_back({ AT, o }); return rc; });
        FN("TryGetSubBlockInfoForIndex", HS(RD), 1, 0, { SubBlockInfoInterop i; return libCZI_TryGetSubBlockInfoForIndex(h[0], 2, P(0, &i)); });
        FN("SubBlockCreateBitmap", HS(SB), 1, 0, { OH o = kBad; int rc = libCZI_SubBlockCreateBitmap(h[0], P(0, &o)); outs.push_back({ BM, o }); return rc; });
        FN("SubBlockGetInfo", HS(SB), 1, 0, { SubBlockInfoInterop i; return libCZI_SubBlockGetInfo(h[0], P(0, &i)); });
        FN("SubBlockGetRawData", HS(SB), 2, 2, { uint64_t z = 4; uint8_t b[4]; return libCZI_SubBlockGetRawData(h[0], 0, P(0, &z), P(1, b)); });
        FN("AttachmentGetInfo", HS(AT), 1, 0, { AttachmentInfoInterop i; return libCZI_AttachmentGetInfo(h[0], P(0, &i)); });
        FN("AttachmentGetRawData", HS(AT), 2, 2, { uint64_t z = 4; uint8_t b[4]; return libCZI_AttachmentGetRawData(h[0], P(0, &z), P(1, b)); });
        FN("BitmapGetInfo", HS(BM), 1, 0, { BitmapInfoInterop i; return libCZI_BitmapGetInfo(h[0], P(0, &i)); });
        FN("BitmapLock", HS(BM), 1, 0, { BitmapLockInfoInterop i; int rc = libCZI_BitmapLock(h[0], P(0, &i)); if (!rc) MC_CHECK(libCZI_BitmapUnlock(h[0]) == 0, "unlock"); return rc; });
        FN("BitmapUnlock", HS(BM), 0, 0, { BitmapLockInfoInterop i; libCZI_BitmapLock(w.h[BM], &i); int rc = libCZI_BitmapUnlock(h[0]); if (rc) MC_CHECK(libCZI_BitmapUnlock(w.h[BM]) == 0, "unlock"); return rc; });
        FN("BitmapCopyTo", HS(BM), 1, 0, { uint8_t b[16]; return libCZI_BitmapCopyTo(h[0], 4, 4, 0, 4, P(0, b)); });
        FN("MetadataSegmentGetMetadataAsXml", HS(MS), 1, 0, { MetadataAsXmlInterop i; i.data = nullptr; int rc = libCZI_MetadataSegmentGetMetadataAsXml(h[0], P(0, &i)); libCZI_Free(i.data); return rc; });
        FN("MetadataSegmentGetCziDocumentInfo", HS(MS), 1, 0, { OH o = kBad; int rc = libCZI_MetadataSegmentGetCziDocumentInfo(h[0], P(0, &o)); outs.push_back({ DI, o }); return rc; });
        FN("CziDocumentInfoGetScalingInfo", HS(DI), 1, 0, { ScalingInfoInterop i; return libCZI_CziDocumentInfoGetScalingInfo(h[0], P(0, &i)); });
        FN("CziDocumentInfoGetGeneralDocumentInfo", HS(DI), 1, 0, { void* p = nullptr; int rc = libCZI_CziDocumentInfoGetGeneralDocumentInfo(h[0], P(0, &p)); libCZI_Free(p); return rc; });
        FN("CziDocumentInfoGetAvailableDimension", HS(DI), 1, 0, { uint32_t d[16]; return libCZI_CziDocumentInfoGetAvailableDimension(h[0], 16, P(0, d)); });
        FN("CziDocumentInfoGetDisplaySettings", HS(DI), 1, 0, { OH o = kBad; int rc = libCZI_CziDocumentInfoGetDisplaySettings(h[0], P(0, &o)); outs.push_back({ DS, o }); return rc; });
        for (uint32_t dim : { kDimensionZ, kDimensionT, kDimensionC }) v.push_back({ "CziDocumentInfoGetDimensionInfo", { DI }, 1, 0, [dim](World&, const OH* h, unsigned nul, Outs&) { void* p = nullptr; int rc = libCZI_CziDocumentInfoGetDimensionInfo(h[0], dim, P(0, &p)); libCZI_Free(p); return rc; } });
        FN("CompositorFillOutCompositionChannelInfoInterop", HS(DS), 1, 0, { CompositionChannelInfoInterop i; i.ptr_look_up_table = nullptr; int rc = libCZI_CompositorFillOutCompositionChannelInfoInterop(h[0], 1, false, P(0, &i)); if (!rc) libCZI_Free((void*)i.ptr_look_up_table); return rc; });
        FN("DisplaySettingsGetChannelDisplaySettings", HS(DS), 1, 0, { OH o = kBad; int rc = libCZI_DisplaySettingsGetChannelDisplaySettings(h[0], 1, P(0, &o)); outs.push_back({ CS, o }); return rc; });
        FN("CreateSingleChannelTileAccessor", HS(RD), 1, 0, { OH o = kBad; int rc = libCZI_CreateSingleChannelTileAccessor(h[0], P(0, &o)); outs.push_back({ AC, o }); return rc; });
        FN("SingleChannelTileAccessorCalcSize", HS(AC), 2, 0, { IntRectInterop r{ 0,0,2,2 }; IntSizeInterop s; return libCZI_SingleChannelTileAccessorCalcSize(h[0], P(0, &r), 1, P(1, &s)); });
        FN("SingleChannelTileAccessorGet", HS(AC), 4, 4, { CoordinateInterop co{}; co.dimensions_valid = 2; IntRectInterop r{ 0,0,2,2 }; AccessorOptionsInterop ao; memset(&ao, 0, sizeof ao); OH o = kBad; int rc = libCZI_SingleChannelTileAccessorGet(h[0], P(0, &co), P(1, &r), 1, P(2, &ao), P(3, &o)); outs.push_back({ BM, o }); return rc; });
        FN("CompositorDoMultiChannelComposition", HS(BM, BM), 3, 0, { OH a[2] = { h[0], h[1] }; CompositionChannelInfoInterop ci[2]; memset(ci, 0, sizeof ci); ci[0].weight = ci[1].weight = 1; ci[0].white_point = ci[1].white_point = 1; OH o = kBad; int rc = libCZI_CompositorDoMultiChannelComposition(2, P(0, a), P(1, ci), P(2, &o)); outs.push_back({ BM, o }); return rc; });
        FN("WriterCreate", HS(WR, OS), 1, 1, { OH nw = 0; if (h[0] == w.h[WR]) libCZI_CreateWriter(&nw, nullptr); int rc = libCZI_WriterCreate(nw ? nw : h[0], h[1], P(0, "{}")); if (nw) MC_CHECK(libCZI_ReleaseWriter(nw) == 0, "ReleaseWriter"); return rc; });
        FN("WriterAddSubBlock", HS(WR), 1, 0, { AddSubBlockInfoInterop a; memset(&a, 0, sizeof a); uint8_t px[4] = { 1,2,3,4 }; a.coordinate.dimensions_valid = 2; a.coordinate.value[0] = 77; a.logical_width = a.physical_width = 2; a.logical_height = a.physical_height = 2; a.size_data = 4; a.data = px; a.stride = 2; return libCZI_WriterAddSubBlock(h[0], P(0, &a)); });
        FN("WriterAddSubBlock(data)", HS(WR), 1, 0, { AddSubBlockInfoInterop a; memset(&a, 0, sizeof a); uint8_t px[4] = { 1,2,3,4 }; a.coordinate.dimensions_valid = 2; a.coordinate.value[0] = 78; a.logical_width = a.physical_width = 2; a.logical_height = a.physical_height = 2; a.size_data = 4; a.data = P(0, px); a.stride = 2; return libCZI_WriterAddSubBlock(h[0], &a); });
        FN("WriterAddSubBlock(compressed data)", HS(WR), 1, 0, { AddSubBlockInfoInterop a; memset(&a, 0, sizeof a); uint8_t px[4] = { 1,2,3,4 }; a.coordinate.dimensions_valid = 2; a.coordinate.value[0] = 79; a.logical_width = a.physical_width = 2; a.logical_height = a.physical_height = 2; a.compression_mode_raw = 5; a.size_data = 4; a.data = P(0, px); return libCZI_WriterAddSubBlock(h[0], &a); });
        FN("WriterAddAttachment", HS(WR), 2, 0, { AddAttachmentInfoInterop a; memset(&a, 0, sizeof a); a.guid[3] = 9; uint8_t d[3] = { 1,2,3 }; a.size_attachment_data = 3; a.attachment_data = P(1, d); return libCZI_WriterAddAttachment(h[0], P(0, &a)); });
        FN("WriterWriteMetadata", HS(WR), 2, 0, { WriteMetadataInfoInterop a; a.size_metadata = 4; a.metadata = P(1, "<a/>"); return libCZI_WriterWriteMetadata(h[0], P(0, &a)); });
        FN("WriterClose", HS(WR), 0, 0, { return libCZI_WriterClose(h[0]); });
        FN("CreateWriter", HS(), 2, 2, { OH o = kBad; int rc = libCZI_CreateWriter(P(0, &o), P(1, "{}")); outs.push_back({ WR, o }); return rc; });
        FN("CreateInputStreamFromExternal", HS(), 4, 0, { Ext e; ExternalInputStreamStructInterop s{}; s.opaque_handle1 = (uintptr_t)&e; s.opaque_handle2 = kTag; s.read_function = P(2, extRead); s.close_function = P(3, extClose); OH o = kBad; int rc = libCZI_CreateInputStreamFromExternal(P(0, &s), P(1, &o)); if (!rc) { MC_CHECK(libCZI_ReleaseInputStream(o) == 0, "release"); MC_CHECK(e.closed == 1, "the stream was closed ", e.closed, " times"); } return rc; });
        FN("CreateOutputStreamFromExternal", HS(), 4, 0, { Ext e; ExternalOutputStreamStructInterop s{}; s.opaque_handle1 = (uintptr_t)&e; s.opaque_handle2 = kTag; s.write_function = P(2, extWrite); s.close_function = P(3, extClose); OH o = kBad; int rc = libCZI_CreateOutputStreamFromExternal(P(0, &s), P(1, &o)); if (!rc) { MC_CHECK(libCZI_ReleaseOutputStream(o) == 0, "release"); MC_CHECK(e.closed == 1, "the stream was closed ", e.closed, " times"); } return rc; });
        FN("CreateInputStream(missing file)", HS(), 0, 0, { OH o = 0; int rc = libCZI_CreateInputStream("standard", nullptr, "/nonexistent/x.czi", &o); MC_CHECK(rc != 0 && o == 0, "a stream for a file which does not exist"); return 0; });
        FN("AllocateMemory", HS(), 1, 0, { void* p = nullptr; int rc = libCZI_AllocateMemory(5, P(0, &p)); libCZI_Free(p); return rc; });
        FN("GetLibCZIVersionInfo", HS(), 1, 0, { LibCZIVersionInfoInterop i; return libCZI_GetLibCZIVersionInfo(P(0, &i)); });
        FN("GetLibCZIBuildInformation", HS(), 1, 0, { LibCZIBuildInformationInterop i; memset(&i, 0, sizeof i); int rc = libCZI_GetLibCZIBuildInformation(P(0, &i)); libCZI_Free(i.compilerIdentification); libCZI_Free(i.repositoryUrl); libCZI_Free(i.repositoryBranch); libCZI_Free(i.repositoryTag); return rc; });
        FN("GetStreamClassesCount", HS(), 1, 0, { int32_t n; return libCZI_GetStreamClassesCount(P(0, &n)); });
        FN("GetStreamClassInfo", HS(), 1, 0, { InputStreamClassInfoInterop i; memset(&i, 0, sizeof i); int rc = libCZI_GetStreamClassInfo(0, P(0, &i)); libCZI_Free(i.name); libCZI_Free(i.description); return rc; });
        for (int t = 0; t < NTY; ++t) v.push_back({ "Release", { t }, 0, 0, [t](World& w, const OH* h, unsigned, Outs&) { int rc = release(t, h[0]); if (h[0] == w.h[t] && !rc) { w.dead[t] = w.h[t]; w.h[t] = 0; } return rc; } });
        return v;
    }
    void arguments(mc::Ctx& c)
    {
        static const std::vector<Fn> fns = functions(); int f = c.choose((int)fns.size(), "function"); auto& fn = fns[f]; const int nCls = 3 + NTY;
        std::vector<int> cls; for (size_t i = 0; i < fn.hs.size(); ++i) cls.push_back(c.choose(nCls, "handle")); unsigned nul = fn.ptrs ? (unsigned)c.choose(1 << fn.ptrs, "null") : 0;
        bool ok = (nul & ~fn.optional) == 0; for (size_t i = 0; i < cls.size(); ++i) { if (cls[i] == 3 + fn.hs[i]) throw mc::Prune(); if (cls[i]) ok = false; }
        c.say([&](std::ostream& s) { s << "libCZI_" << fn.name << "("; for (size_t i = 0; i < cls.size(); ++i) s << (cls[i] == 0 ? "live " : cls[i] == 1 ? "null " : cls[i] == 2 ? "released " : "live but of type ") << (cls[i] < 3 ? kTy[fn.hs[i]] : kTy[cls[i] - 3]) << ", "; s << "null pointers " << nul << ")"; });
        leakChecked(c, [&](bool first)
        {
            World w; w.all();
            // a second, released object of every type
            World w2; w2.all(); OH dead[NTY]; for (int t = 0; t < NTY; ++t) dead[t] = w2.h[t]; w2.finish();
            OH h[3]; for (size_t i = 0; i < cls.size(); ++i) h[i] = cls[i] == 0 ? w.h[fn.hs[i]] : cls[i] == 1 ? 0 : cls[i] == 2 ? dead[fn.hs[i]] : w.h[cls[i] - 3];
            std::vector<std::pair<int, OH>> outs; int rc = fn.call(w, h, nul, outs); if (first) c.step();
            MC_CHECK((rc == 0) == ok, fn.name, " gives ", rc, ok ? " for proper arguments" : " although an argument is unusable");
            for (auto& o : outs) { if (rc == 0 && o.second != kBad && o.second != 0) MC_CHECK(release(o.first, o.second) == 0, "the delivered object cannot be released"); else if (rc == 0) mc::fail(mc::cat(fn.name, " claims success but gives no object")); else MC_CHECK(o.second == kBad || o.second == 0, fn.name, " fails but gives an object"); }
            if (first) for (int t = 0; t < NTY; ++t) if (w.h[t] && t != WR && !(t == RD && !w.opened)) w.use(t);
            w.finish();
        });
        c.state(mc::mix(mc::mix(f, nul), cls.empty() ? 0 : cls[0] * 100 + (cls.size() > 1 ? cls[1] : 0))); c.outcome(mc::mix(f, ok));
    }

    // documents of all shapes read through the C interface
    void reading(mc::Ctx& c)
    {
        c.setDeviationBudget(2); Doc d = baseDoc(); bool meta = true; using D = DimensionIndex; static const PixelType pts[] = { PixelType::Gray8, PixelType::Gray16, PixelType::Gray32Float, PixelType::Bgr24, PixelType::Bgr48, PixelType::Bgra32, PixelType::Bgr96Float };
        int n = c.choose(4, "sub-blocks"); d.sbs.clear();
        static const std::vector<std::vector<std::pair<D, int>>> dims = { { {D::C,0} }, {}, { {D::S,2} }, { {D::Z,-3},{D::C,1},{D::T,2},{D::R,3},{D::S,4},{D::I,5},{D::H,6},{D::V,7},{D::B,8} }, { {D::B,1} }, { {D::T,0x7fffffff} } };
        for (int i = 0; i < n; ++i)
        {
            int k = c.deviate((int)dims.size(), "dims"); int m = c.deviate(4, "m"); static const int ms[] = { 0, -1, 5, 0x7ffffffe }; PixelType pt = pts[c.deviate(7, "pixel type")]; int geo = c.deviate(4, "geometry"); auto dm = dims[k]; if (k == 0) dm[0].second = i;
            Sb s = makeSb(dm, ms[m] < 0 ? -1 : ms[m] == 0 ? i : ms[m], geo == 1 ? -100000 : 3 * i, geo == 1 ? 7 : -i, 4 + i, 3, pt, 20 + i, i == 1 ? 9 : 0, i == 2 ? 11 : 0);
            if (geo == 2) { s.lw *= 2; s.lh *= 2; s.pyr = SubBlockPyramidType::SingleSubBlock; } if (geo == 3) { s.x = 0x7fffff00; s.y = (int)0x80000000; } int comp = c.deviate(5, "compression");
            if (comp) { static const int cm[] = { 0, 1, 5, 999, 1000 }; s.comp = cm[comp]; s.data = pattern(13, 5); }   // raw data only; the bitmap is a matter of C15
            d.sbs.push_back(s);
        }
        int na = c.deviate(4, "attachments"); d.atts.resize(na == 0 ? 2 : na == 1 ? 0 : 1); if (na == 2) { d.atts[0].name = std::string(79, 'x'); d.atts[0].type = "12345678"; d.atts[0].data.clear(); } if (na == 3) { d.atts[0].name = std::string(76, 'y') + "\xE2\x82\xAC"; d.atts[0].data = pattern(1, 1); }
        int mk = c.deviate(6, "metadata"); if (mk == 1) { d.md.present = false; d.md.xml.clear(); } else if (mk == 2) d.md.xml = toBytes("<ImageDocument/>"); else if (mk == 3) d.md.xml = toBytes("<no xml"); else if (mk == 4) d.md.xml = toBytes(std::string("<ImageDocument/>") + '\0'); else if (mk == 5) d.md.xml.clear();
        meta = mk == 0; bool file = c.deviate(3, "stream") != 0 ? true : false;
        c.say([&](std::ostream& s) { s << n << " sub-blocks:"; for (auto& b : d.sbs) s << " {" << b.head() << "}"; s << ", " << d.atts.size() << " attachments, metadata variant " << mk << (file ? ", from a file" : ", external stream"); });
        Bytes bytes = writeDoc(d); Ref ref(bytes, false); std::string path = mc::cat("/tmp/vcapi_", getpid(), ".czi");
        if (file) { FILE* f = fopen(path.c_str(), "wb"); if (!f) throw mc::Prune(); fwrite(bytes.data(), 1, bytes.size(), f); fclose(f); }
        leakChecked(c, [&](bool first)
        {
            Ext e; e.data = bytes; OH is = kBad, rd = kBad; if (file) MC_CHECK(libCZI_CreateInputStreamFromFileUTF8(path.c_str(), &is) == 0, "CreateInputStreamFromFileUTF8 fails"); else MC_CHECK(makeIn(e, &is) == 0, "external stream");
            MC_CHECK(libCZI_CreateReader(&rd) == 0, "CreateReader"); ReaderOpenInfoInterop oi{ is }; MC_CHECK(libCZI_ReaderOpen(rd, &oi) == 0, "ReaderOpen fails"); MC_CHECK(libCZI_ReleaseInputStream(is) == 0, "ReleaseInputStream"); c.step(3);
            cmpHeader(rd, ref); cmpStats(rd, ref); cmpPyramid(rd, ref);
            for (int i = -2; i <= n + 1; ++i)
            {
                SubBlockInfoInterop si; memset(&si, 0xCC, sizeof si); int rc = libCZI_TryGetSubBlockInfoForIndex(rd, i, &si); libCZI::SubBlockInfo wi; bool w = ref.r->TryGetSubBlockInfo(i, &wi); MC_CHECK((rc == 0) == w, "TryGetSubBlockInfoForIndex(", i, ") gives ", rc); if (w) MC_CHECK(infoStr(si) == infoStr(wi), "TryGetSubBlockInfoForIndex: ", infoStr(si), " instead of ", infoStr(wi));
                OH sb = kBad; rc = libCZI_ReaderReadSubBlock(rd, i, &sb); std::shared_ptr<libCZI::ISubBlock> ws; try { ws = ref.r->ReadSubBlock(i); } catch (std::exception&) {} MC_CHECK((rc == 0 && sb != 0 && sb != kBad) == !!ws, "ReaderReadSubBlock(", i, ") gives ", rc); if (!ws) continue; c.step(); cmpSb(sb, ws.get()); MC_CHECK(libCZI_ReleaseSubBlock(sb) == 0, "ReleaseSubBlock");
            }
            int32_t cnt = -1; MC_CHECK(libCZI_ReaderGetAttachmentCount(rd, &cnt) == 0 && cnt == (int)d.atts.size(), "attachment count ", cnt);
            for (int i = -1; i <= cnt; ++i)
            {
                AttachmentInfoInterop ai; memset(&ai, 0xCC, sizeof ai); int rc = libCZI_ReaderGetAttachmentInfoFromDirectory(rd, i, &ai); libCZI::AttachmentInfo wi; bool w = ref.r->TryGetAttachmentInfo(i, &wi); MC_CHECK((rc == 0) == w, "GetAttachmentInfoFromDirectory(", i, ") gives ", rc); if (w) cmpAttInfo(ai, wi);
                OH at = kBad; rc = libCZI_ReaderReadAttachment(rd, i, &at); MC_CHECK((rc == 0 && at != 0 && at != kBad) == w, "ReadAttachment(", i, ") gives ", rc); if (!w) continue; auto wa = ref.r->ReadAttachment(i); memset(&ai, 0xCC, sizeof ai); MC_CHECK(libCZI_AttachmentGetInfo(at, &ai) == 0, "AttachmentGetInfo"); cmpAttInfo(ai, wa->GetAttachmentInfo()); size_t z = 0; auto p = wa->GetRawData(&z); cmpRaw([&](uint64_t* s, void* q) { return libCZI_AttachmentGetRawData(at, s, q); }, raw(p, z), "attachment data"); MC_CHECK(libCZI_ReleaseAttachment(at) == 0, "ReleaseAttachment");
            }
            OH ms = kBad; int rc = libCZI_ReaderGetMetadataSegment(rd, &ms); std::shared_ptr<libCZI::IMetadataSegment> wm; try { wm = ref.r->ReadMetadataSegment(); } catch (std::exception&) {} MC_CHECK((rc == 0) == !!wm, "GetMetadataSegment gives ", rc);
            if (wm)
            {
                cmpXml(ms, d.md.xml); OH di = kBad; rc = libCZI_MetadataSegmentGetCziDocumentInfo(ms, &di); std::shared_ptr<libCZI::ICziMultiDimensionDocumentInfo> wd; try { wd = wm->CreateMetaFromMetadataSegment()->GetDocumentInfo(); } catch (std::exception&) {}
                MC_CHECK((rc == 0) == !!wd, "GetCziDocumentInfo gives ", rc, ", the C++ interface ", wd ? "succeeds" : "fails");
                if (wd)
                {
                    cmpScaling(di, wd.get()); cmpGeneral(di, wd.get()); cmpDims(di, wd.get()); OH ds = kBad; rc = libCZI_CziDocumentInfoGetDisplaySettings(di, &ds); auto wds = wd->GetDisplaySettings();
                    if (!wds) MC_CHECK(rc != 0 || ds == 0, "display settings are delivered although the document has none"); else { MC_CHECK(rc == 0, "GetDisplaySettings gives ", rc); cmpFillOut(ds, wds.get(), 3); for (int k = -1; k < 4; ++k) { OH cs = kBad; rc = libCZI_DisplaySettingsGetChannelDisplaySettings(ds, k, &cs); MC_CHECK((rc == 0) == !!wds->GetChannelDisplaySettings(k), "GetChannelDisplaySettings(", k, ") gives ", rc); if (!rc) MC_CHECK(libCZI_ReleaseChannelDisplaySettings(cs) == 0, "release"); } MC_CHECK(libCZI_ReleaseDisplaySettings(ds) == 0, "release"); }
                    MC_CHECK(libCZI_ReleaseCziDocumentInfo(di) == 0, "release");
                }
                MC_CHECK(libCZI_ReleaseMetadataSegment(ms) == 0, "release");
            }
            if (!file) MC_CHECK(e.closed == 0, "the stream was closed while the reader needs it"); MC_CHECK(libCZI_ReleaseReader(rd) == 0, "ReleaseReader"); if (!file) MC_CHECK(e.closed == 1, "the stream was closed ", e.closed, " times");
        });
        if (file) unlink(path.c_str()); c.state(d.hash()); c.outcome(mc::mix(n, mk));
    }

    // documents written through the C interface contain what was given
    void writing(mc::Ctx& c)
    {
        c.setDeviationBudget(2); int n = 1 + c.choose(2, "sub-blocks"); Doc want; std::vector<AddSubBlockInfoInterop> add; std::vector<Bytes> keep; keep.reserve(16); bool allOk = true; std::vector<bool> okv;
        int opt = c.deviate(5, "options"); const char* opts[] = { nullptr, "{\"allow_duplicate_subblocks\":true}", "{\"allow_duplicate_subblocks\":false}", "garbage", "{\"allow_duplicate_subblocks\":1}" };
        int par = c.deviate(6, "parameters"); const char* pars[] = { "{\"file_guid\":\"{01020304-0506-0708-090a-0b0c0d0e0f10}\"}", "{\"file_guid\":\"ffffffff-0000-1111-aaAA-0123456789ab\",\"reserved_size_metadata_segment\":1000,\"reserved_size_subblock_directory\":2,\"reserved_size_attachments_directory\":3}", "{\"minimum_m_index\":0,\"maximum_m_index\":5,\"file_guid\":\"  01020304-0506-0708-090a-0b0c0d0e0f10 \"}", nullptr, "{", "{\"file_guid\":\"01020304-0506-0708-090a-0b0c0d0e0f1\"}" };
        int dupk = n == 2 ? c.deviate(3, "same coordinate") : 0; bool dup = dupk != 0;
        for (int i = 0; i < n; ++i)
        {
            Sb s = makeSb({ {DimensionIndex::C, dup ? 0 : i} }, -1, dupk == 1 ? 0 : 5 * i, dupk == 1 ? 0 : -i, 3, 2, PixelType::Gray8, 40 + i); AddSubBlockInfoInterop a; memset(&a, 0xCC, sizeof a); bool ok = true;
            int k = c.deviate(12, "description");
            if (k == 1) s.pt = PixelType::Bgr24; if (k == 2) s.pt = PixelType::Gray16; if (k == 3) { s.mValid = true; s.m = 2 + i; } if (k == 4) s.dims = { {DimensionIndex::Z,-3},{DimensionIndex::C,1 + i},{DimensionIndex::T,2},{DimensionIndex::R,3},{DimensionIndex::S,4},{DimensionIndex::I,5},{DimensionIndex::H,6},{DimensionIndex::V,7},{DimensionIndex::B,8} }; if (k == 5) { s.lw = 6; s.lh = 4; } if (k == 6) s.x = -0x7fffffff; if (k == 7) s.meta = pattern(300, 8); if (k == 8) s.att = pattern(17, 8); if (k == 9) { s.meta = pattern(1, 8); s.att = pattern(1, 9); } if (k == 10) s.pw = s.lw = 1; if (k == 11) s.dims = {};
            if (k == 4 && dup) s.dims[1].second = 1;
            size_t bpp = Utils::GetBytesPerPixel(s.pt); size_t line = bpp * s.pw; s.data = pattern(line * s.ph, 60 + i);
            int comp = c.deviate(6, "compression"); static const int cm[] = { 0, 5, 6, 4, 999, 1000 }; s.comp = cm[comp]; if (comp) s.data = pattern(comp == 2 ? 0 : 11, 70 + i); if (comp == 2) s.data = pattern(1, 3);
            int sv = comp == 0 ? c.deviate(6, "stride") : 0;   // 1: stride with padding, last line short  2: with padding  3: stride too small  4: size_data too small by one  5: stride 0
            Bytes buf = s.data; uint32_t stride = (uint32_t)line;
            if (sv == 1 || sv == 2) { stride = (uint32_t)line + 5; buf.assign(stride * (s.ph - 1) + (sv == 2 ? stride : line), 0xAB); for (int y = 0; y < s.ph; ++y) memcpy(&buf[y * stride], &s.data[y * line], line); }
            if (sv == 3) { stride = (uint32_t)line - 1; ok = false; } if (sv == 4) { buf.resize(buf.size() - 1); buf.shrink_to_fit(); ok = false; } if (sv == 5) { stride = 0; ok = false; }
            keep.push_back(Bytes(buf)); a.data = keep.back().data(); a.size_data = (uint32_t)keep.back().size(); a.stride = comp ? 0x12345 : stride; keep.push_back(s.meta); a.metadata = keep.back().empty() ? nullptr : keep.back().data(); a.size_metadata = (uint32_t)s.meta.size(); keep.push_back(s.att); a.attachment = keep.back().empty() ? nullptr : keep.back().data(); a.size_attachment = (uint32_t)s.att.size();
            a.coordinate.dimensions_valid = 0; int q = 0; for (auto& dm : s.dims) { a.coordinate.dimensions_valid |= 1u << ((int)dm.first - 1); a.coordinate.value[q++] = dm.second; }
            a.m_index_valid = s.mValid ? 7 : 0; a.m_index = s.mValid ? s.m : 0x55555; a.x = s.x; a.y = s.y; a.logical_width = s.lw; a.logical_height = s.lh; a.physical_width = s.pw; a.physical_height = s.ph; a.pixel_type = (int)s.pt; a.compression_mode_raw = s.comp;
            add.push_back(a); okv.push_back(ok); want.sbs.push_back(s);
        }
        bool same = n == 2 && want.sbs[0].dims == want.sbs[1].dims && want.sbs[0].mValid == want.sbs[1].mValid && (want.sbs[0].mValid ? want.sbs[0].m == want.sbs[1].m : want.sbs[0].x == want.sbs[1].x && want.sbs[0].y == want.sbs[1].y) && want.sbs[0].pw * want.sbs[1].lw == want.sbs[1].pw * want.sbs[0].lw;
        int na = c.deviate(3, "attachments"); int mk = c.deviate(3, "metadata"); int fault = c.deviate(2, "fault"); int failAt = -1, failKind = 0; if (fault) { failAt = c.choose(10, "failing write"); failKind = c.choose(4, "error kind"); }
        AddAttachmentInfoInterop aa; memset(&aa, 0, sizeof aa); Bytes ad = pattern(na == 2 ? 0 : 9, 3); if (na == 2) ad = pattern(1, 4); for (int i = 0; i < 16; ++i) aa.guid[i] = i; memcpy(aa.contentFileType, na == 2 ? "ABCDEFGH" : "XYZ\0\0\0\0\0", 8); if (na == 2) memset(aa.name, 'n', 80); else strcpy((char*)aa.name, "nam\xC3\xA9"); aa.size_attachment_data = (uint32_t)ad.size(); aa.attachment_data = ad.data();
        Bytes md = toBytes(mk == 2 ? "" : "<a>\xC3\xA9</a>");
        c.say([&](std::ostream& s) { s << "write:"; for (size_t i = 0; i < want.sbs.size(); ++i) s << " {" << want.sbs[i].head() << " stride " << add[i].stride << " size_data " << add[i].size_data << "}"; s << " options " << (opts[opt] ? opts[opt] : "null") << " parameters " << (pars[par] ? pars[par] : "null") << " attachment " << na << " metadata " << mk; if (fault) s << " write " << failAt << " fails"; });
        leakChecked(c, [&](bool first)
        {
            Ext e; e.failAt = failAt; e.failKind = failKind; OH os = kBad, wr = kBad; MC_CHECK(makeOut(e, &os) == 0, "external stream"); MC_CHECK(libCZI_CreateWriter(&wr, opts[opt]) == 0, "CreateWriter fails"); Doc got = want; got.sbs.clear(); bool failed = false;
            auto hit = [&](int before) { return failAt >= 0 && before <= failAt && e.calls > failAt; };
            int b = e.calls; int rc = libCZI_WriterCreate(wr, os, pars[par]); if (hit(b)) { MC_CHECK(rc != 0, "WriterCreate claims success although a write failed"); failed = true; } else MC_CHECK(rc == 0, "WriterCreate gives ", rc); MC_CHECK(libCZI_ReleaseOutputStream(os) == 0, "ReleaseOutputStream");
            for (int i = 0; i < n && !failed; ++i)
            {
                b = e.calls; rc = libCZI_WriterAddSubBlock(wr, &add[i]); c.step(); bool ok = okv[i]; if (i == 1 && same && okv[0] && opt != 1) ok = false;
                if (par == 2 && want.sbs[i].mValid && (want.sbs[i].m < 0 || want.sbs[i].m > 5)) ok = false; if (par == 2 && !want.sbs[i].mValid) { if (rc == 0) got.sbs.push_back(want.sbs[i]); continue; }
                if (hit(b)) { MC_CHECK(rc != 0, "WriterAddSubBlock claims success although a write failed"); failed = true; } else { MC_CHECK((rc == 0) == ok, "WriterAddSubBlock gives ", rc, " for sub-block ", i, ok ? "" : " which must be refused"); if (ok) got.sbs.push_back(want.sbs[i]); }
            }
            if (na && !failed) { b = e.calls; rc = libCZI_WriterAddAttachment(wr, &aa); if (hit(b)) { MC_CHECK(rc != 0, "WriterAddAttachment claims success although a write failed"); failed = true; } else { MC_CHECK(rc == 0, "WriterAddAttachment gives ", rc); Att x; memcpy(&x.guid, aa.guid, 16); x.type = std::string((const char*)aa.contentFileType, strnlen((const char*)aa.contentFileType, 8)); x.name = std::string((const char*)aa.name, strnlen((const char*)aa.name, 80)); x.data = ad; got.atts.push_back(x); } }
            if (mk && !failed) { WriteMetadataInfoInterop wm; wm.size_metadata = (uint32_t)md.size(); wm.metadata = md.data(); b = e.calls; rc = libCZI_WriterWriteMetadata(wr, &wm); if (hit(b)) { MC_CHECK(rc != 0, "WriterWriteMetadata claims success although a write failed"); failed = true; } else { MC_CHECK(rc == 0, "WriterWriteMetadata gives ", rc); got.md.present = true; got.md.xml = md; } }
            if (!failed) { b = e.calls; rc = libCZI_WriterClose(wr); if (hit(b)) { MC_CHECK(rc != 0, "WriterClose claims success although a write failed"); failed = true; } else MC_CHECK(rc == 0, "WriterClose gives ", rc); }
            if (!failed)
            {
                MC_CHECK(libCZI_WriterClose(wr) != 0, "WriterClose succeeds twice"); Doc back = readAll(e.data, got.md.present); bool g = par == 0 || par == 1 || par == 2;
                if (par == 0 || par == 2) got.guid = libCZI::GUID{ 0x01020304, 0x0506, 0x0708, { 9, 10, 11, 12, 13, 14, 15, 16 } }; if (par == 1) got.guid = libCZI::GUID{ 0xffffffff, 0, 0x1111, { 0xaa, 0xaa, 1, 0x23, 0x45, 0x67, 0x89, 0xab } };
                std::string df = diffDoc(got, back, g); MC_CHECK(df.empty(), "the written document differs from what was given: ", df); if (g) checkStructure(e.data, StructOpt{});
            }
            MC_CHECK(libCZI_ReleaseWriter(wr) == 0, "ReleaseWriter"); MC_CHECK(e.closed == 1, "the output stream was closed ", e.closed, " times");
        });
        c.state(want.hash()); c.outcome(mc::mix(opt * 10 + par, okv[0]));
    }

    // failing read callbacks
    void readFaults(mc::Ctx& c)
    {
        int at = c.choose(c.thorough() ? 60 : 40, "failing read"), kind = c.choose(4, "error kind"); c.say([&](std::ostream& s) { s << "read callback " << at << " reports an error (kind " << kind << ")"; });
        leakChecked(c, [&](bool first)
        {
            Ext e; e.data = baseBytes(); e.failAt = at; e.failKind = kind; OH is = kBad, rd = kBad; MC_CHECK(makeIn(e, &is) == 0 && libCZI_CreateReader(&rd) == 0, "create"); ReaderOpenInfoInterop oi{ is }; const Ref& ref = baseRef();
            int b; auto hit = [&] { return b <= at && e.calls > at; };
            b = e.calls; int rc = libCZI_ReaderOpen(rd, &oi); c.step(); bool failed = hit(); MC_CHECK(failed == (rc != 0), "ReaderOpen gives ", rc, failed ? " although a read failed" : "");
            if (!failed)
            {
                for (int i = 0; i < 3; ++i) { OH sb = kBad; b = e.calls; rc = libCZI_ReaderReadSubBlock(rd, i, &sb); c.step(); MC_CHECK(hit() == (rc != 0), "ReadSubBlock gives ", rc, hit() ? " although a read failed" : ""); if (!rc) { cmpSb(sb, ref.r->ReadSubBlock(i).get()); MC_CHECK(libCZI_ReleaseSubBlock(sb) == 0, "release"); } else MC_CHECK(sb == 0 || sb == kBad, "a failing call gives a handle"); }
                for (int i = 0; i < 2; ++i) { OH a = kBad; b = e.calls; rc = libCZI_ReaderReadAttachment(rd, i, &a); MC_CHECK(hit() == (rc != 0), "ReadAttachment gives ", rc); if (!rc) MC_CHECK(libCZI_ReleaseAttachment(a) == 0, "release"); }
                OH ms = kBad; b = e.calls; rc = libCZI_ReaderGetMetadataSegment(rd, &ms); MC_CHECK(hit() == (rc != 0), "GetMetadataSegment gives ", rc); if (!rc) { cmpXml(ms, toBytes(kXml)); MC_CHECK(libCZI_ReleaseMetadataSegment(ms) == 0, "release"); }
                OH ac = kBad; MC_CHECK(libCZI_CreateSingleChannelTileAccessor(rd, &ac) == 0, "accessor"); CoordinateInterop co{}; co.dimensions_valid = 2; IntRectInterop roi{ 0,0,8,4 }; OH bm = kBad; b = e.calls; rc = libCZI_SingleChannelTileAccessorGet(ac, &co, &roi, 1, nullptr, &bm); MC_CHECK(hit() == (rc != 0), "accessor Get gives ", rc); if (!rc) { bmpOf(bm); MC_CHECK(libCZI_ReleaseBitmap(bm) == 0, "release"); } MC_CHECK(libCZI_ReleaseCreateSingleChannelTileAccessor(ac) == 0, "release");
                cmpStats(rd, ref);
            }
            MC_CHECK(libCZI_ReleaseReader(rd) == 0 && libCZI_ReleaseInputStream(is) == 0, "release"); MC_CHECK(e.closed == 1, "the stream was closed ", e.closed, " times");
        });
        c.state(mc::mix(at, kind)); c.outcome(at);
    }

    // accessor and composition against the C++ interface
    void imaging(mc::Ctx& c)
    {
        int ch = c.choose(4, "channel"); int rk = c.choose(6, "roi"); int zk = c.choose(4, "zoom"); int bk = c.choose(4, "background"); int fl = c.choose(4, "flags"); int ap = c.choose(5, "additional"); static const char* aps[] = { nullptr, "", "{\"mask_aware\":true}", "{\"mask_aware\":1}", "[nonsense" };
        static const IntRectInterop rois[] = { { 0,0,8,4 }, { -3,-2,9,7 }, { 100,100,4,4 }, { 3,1,2,2 }, { 0,0,0,4 }, { 0,0,-1,3 } }; static const float zooms[] = { 1, 0.5f, 2, 0.3f }; static const float bgs[4][3] = { { 0,0,0 }, { 1,1,1 }, { 0.25f,0.5f,0.75f }, { NAN,0,0 } };
        if (bk == 3 && rk != 0) throw mc::Prune();  // without background the uncovered pixels are undefined
        static const Bytes doc = [] { Doc d = baseDoc(); d.sbs[1].m = 0; d.sbs[0].m = 1; d.sbs[1].x = 2; d.sbs.push_back(makeSb({ {DimensionIndex::C,2} }, 0, 0, 0, 4, 4, PixelType::Bgr24, 3)); return writeDoc(d); }(); static const Ref ref(doc, false);
        bool noopt = c.flip("no options");
        if (noopt && (bk || fl || ap)) throw mc::Prune(); if (noopt && rk) throw mc::Prune();
        c.say([&](std::ostream& s) { s << "channel " << ch << " roi " << rectStr(rois[rk]) << " zoom " << zooms[zk] << " background " << bk << " flags " << fl << " additional " << (aps[ap] ? aps[ap] : "null"); });
        leakChecked(c, [&](bool first)
        {
            Ext e; e.data = doc; OH is, rd, ac, b = kBad; MC_CHECK(makeIn(e, &is) == 0 && libCZI_CreateReader(&rd) == 0, "create"); ReaderOpenInfoInterop oi{ is }; MC_CHECK(libCZI_ReaderOpen(rd, &oi) == 0 && libCZI_CreateSingleChannelTileAccessor(rd, &ac) == 0, "open"); MC_CHECK(libCZI_ReleaseReader(rd) == 0 && libCZI_ReleaseInputStream(is) == 0, "release");
            CoordinateInterop co{}; libCZI::CDimCoordinate cc; if (ch < 3) { co.dimensions_valid = 2; co.value[0] = ch; cc.Set(DimensionIndex::C, ch); } else { co.dimensions_valid = 2 | 16; co.value[0] = 0; co.value[1] = 0; cc.Set(DimensionIndex::C, 0); cc.Set(DimensionIndex::S, 0); }
            libCZI::ISingleChannelScalingTileAccessor::Options o; o.Clear(); AccessorOptionsInterop ao; memset(&ao, 0, sizeof ao); ao.back_ground_color_r = bgs[bk][0]; ao.back_ground_color_g = bgs[bk][1]; ao.back_ground_color_b = bgs[bk][2]; ao.sort_by_m = fl & 1; ao.use_visibility_check_optimization = (fl & 2) != 0; ao.additional_parameters = aps[ap];
            if (!noopt) { o.backGroundColor = libCZI::RgbFloatColor{ bgs[bk][0], bgs[bk][1], bgs[bk][2] }; o.sortByM = fl & 1; o.useVisibilityCheckOptimization = (fl & 2) != 0; o.maskAware = ap == 2; }
            auto wa = ref.r->CreateSingleChannelScalingTileAccessor(); libCZI::IntRect r{ rois[rk].x, rois[rk].y, rois[rk].w, rois[rk].h };
            IntSizeInterop sz{ -5,-5 }; int rc = libCZI_SingleChannelTileAccessorCalcSize(ac, &rois[rk], zooms[zk], &sz); bool wok = true; libCZI::IntSize ws{}; try { ws = wa->CalcSize(r, zooms[zk]); } catch (std::exception&) { wok = false; } MC_CHECK((rc == 0) == wok && (!wok || ((uint32_t)sz.w == ws.w && (uint32_t)sz.h == ws.h)), "CalcSize gives ", rc, ": ", sz.w, "x", sz.h);
            std::shared_ptr<libCZI::IBitmapData> wb; try { wb = wa->Get(r, &cc, zooms[zk], &o); } catch (std::exception&) {}
            rc = libCZI_SingleChannelTileAccessorGet(ac, &co, &rois[rk], zooms[zk], noopt ? nullptr : &ao, &b); c.step(); MC_CHECK((rc == 0) == !!wb, "accessor Get gives ", rc, ", the C++ interface ", wb ? "succeeds" : "fails");
            if (wb) { auto w = bmpOf(wb), g = bmpOf(b); MC_CHECK(bk == 3 ? (w.w == g.w && w.h == g.h && w.pt == g.pt) : w == g, "the accessor's bitmap differs from the one of the C++ interface"); MC_CHECK(libCZI_ReleaseBitmap(b) == 0, "release"); }
            MC_CHECK(libCZI_ReleaseCreateSingleChannelTileAccessor(ac) == 0, "release"); MC_CHECK(e.closed == 1, "closed ", e.closed, " times");
        });
        c.state(mc::mix(mc::mix(ch, rk), mc::mix(zk * 10 + bk, fl * 10 + ap))); c.outcome(mc::mix(ch, rk));
    }
    void compose(mc::Ctx& c)
    {
        int n = c.choose(5, "channels"); CompositionChannelInfoInterop ci[3]; libCZI::Compositors::ChannelInfo wi[3]; memset(ci, 0, sizeof ci); static const Bytes lut = [] { Bytes b(256); for (int i = 0; i < 256; ++i) b[i] = (uint8_t)(i * 7 + 3); return b; }(); c.setDeviationBudget(c.thorough() ? 3 : 2); int src[3] = { 0, 1, 2 }; bool bad = false;
        for (int i = 0; i < std::min(n, 3); ++i)
        {
            src[i] = c.deviate(4, "source") == 0 ? 0 : c.choose(3, "other source"); int k = c.deviate(8, "info"); auto& a = ci[i]; a.weight = 1; a.white_point = 1; if (k == 1) { a.enable_tinting = 200; a.tinting_color_r = 255; a.tinting_color_g = 128; a.tinting_color_b = 3; } if (k == 2) a.weight = 0.25f; if (k == 3) { a.black_point = 0.3f; a.white_point = 0.6f; } if (k == 4) { a.look_up_table_element_count = 256; a.ptr_look_up_table = lut.data(); } if (k == 5) a.weight = 0; if (k == 6) { a.look_up_table_element_count = 256; a.ptr_look_up_table = nullptr; bad = true; } if (k == 7) { a.look_up_table_element_count = 255; a.ptr_look_up_table = lut.data(); }
            auto& w = wi[i]; w.Clear(); w.weight = a.weight; w.enableTinting = a.enable_tinting != 0; w.tinting.color = libCZI::Rgb8Color{ a.tinting_color_r, a.tinting_color_g, a.tinting_color_b }; w.blackPoint = a.black_point; w.whitePoint = a.white_point; w.lookUpTableElementCount = a.look_up_table_element_count; w.ptrLookUpTable = a.ptr_look_up_table;
        }
        int count = n < 4 ? n : -1; int nullAt = c.deviate(3, "null bitmap") - 1;
        c.say([&](std::ostream& s) { s << "composition of " << count << " channels"; for (int i = 0; i < std::min(n, 3); ++i) s << ", source " << src[i] << " weight " << ci[i].weight << " tint " << (int)ci[i].enable_tinting << " lut " << ci[i].look_up_table_element_count; if (nullAt >= 0) s << ", bitmap " << nullAt << " is null"; });
        leakChecked(c, [&](bool first)
        {
            static const Bytes doc = [] { Doc d = baseDoc(); d.sbs.push_back(makeSb({ {DimensionIndex::C,2} }, 0, 0, 0, 4, 4, PixelType::Bgr24, 3)); return writeDoc(d); }(); static const Ref ref(doc, false); static const int idx[] = { 0, 2, 3 };
            Ext e; e.data = doc; OH is, rd, sb, b[3]; MC_CHECK(makeIn(e, &is) == 0 && libCZI_CreateReader(&rd) == 0, "create"); ReaderOpenInfoInterop oi{ is }; MC_CHECK(libCZI_ReaderOpen(rd, &oi) == 0, "open"); std::shared_ptr<libCZI::IBitmapData> wb[3]; libCZI::IBitmapData* wp[3];
            for (int i = 0; i < 3; ++i) { MC_CHECK(libCZI_ReaderReadSubBlock(rd, idx[i], &sb) == 0 && libCZI_SubBlockCreateBitmap(sb, &b[i]) == 0 && libCZI_ReleaseSubBlock(sb) == 0, "bitmap"); wb[i] = ref.r->ReadSubBlock(idx[i])->CreateBitmap(); }
            MC_CHECK(libCZI_ReleaseReader(rd) == 0 && libCZI_ReleaseInputStream(is) == 0, "release"); OH s[3]; for (int i = 0; i < 3; ++i) { s[i] = b[src[i]]; wp[i] = wb[src[i]].get(); if (nullAt == i) s[i] = 0; }
            OH out = kBad; int rc = libCZI_CompositorDoMultiChannelComposition(count, s, ci, &out); c.step(); std::shared_ptr<libCZI::IBitmapData> want; bool nul = nullAt >= 0 && nullAt < count;
            if (count > 0 && !bad && !nul) try { want = libCZI::Compositors::ComposeMultiChannel_Bgr24(count, wp, wi); } catch (std::exception&) {}
            MC_CHECK((rc == 0) == !!want, "DoMultiChannelComposition gives ", rc, want ? " although the C++ interface succeeds" : " although this cannot be composed"); if (want) { MC_CHECK(bmpOf(out) == bmpOf(want), "the composition differs from the one of the C++ interface"); MC_CHECK(libCZI_ReleaseBitmap(out) == 0, "release"); } else MC_CHECK(out == kBad || out == 0, "a failing call gives a handle");
            for (auto x : b) MC_CHECK(libCZI_ReleaseBitmap(x) == 0, "release");
        });
        c.state(mc::mix(n, nullAt)); uint64_t h = n; for (auto& a : ci) h = mc::hashBytes(&a, sizeof(a) - sizeof(void*), h); c.state(h); c.outcome(mc::mix(n, bad));
    }
    // BitmapCopyTo refuses what does not fit
    void copyto(mc::Ctx& c)
    {
        int w = c.choose(4, "width"), h = c.choose(4, "height"), p = c.choose(4, "pixel type"), s = c.choose(6, "stride"); static const uint32_t ws[] = { 4, 3, 5, 0xffffffff }; static const int32_t ps[] = { 0, 1, 255, -1 }; static const uint32_t ss[] = { 4, 3, 0, 5, 64, 0x7fffffff };
        World wd; wd.create(IS); wd.create(RD); wd.open(); wd.create(SB); wd.create(BM); bool ok = w == 0 && h == 0 && p == 0 && ss[s] >= 4; if (s == 5 && ok) throw mc::Prune(); Bytes buf(ok ? ss[s] * 3 + 4 : 64, 0xEE);
        int rc = libCZI_BitmapCopyTo(wd.h[BM], ws[w], ws[h], ps[p], ss[s], buf.data()); c.step(); MC_CHECK((rc == 0) == ok, "BitmapCopyTo(", ws[w], ",", ws[h], ",", ps[p], ",", ss[s], ") gives ", rc); if (!ok) for (auto b : buf) MC_CHECK(b == 0xEE, "BitmapCopyTo refuses but writes");
        wd.finish(); c.state(mc::mix(w * 10 + h, p * 10 + s)); c.outcome(ok);
    }

    // channel information: every field with every kind of content
    struct Punct : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } };
    struct GlobalLocale { std::locale old; explicit GlobalLocale(bool on) : old(std::locale()) { if (on) { static const std::locale* l = new std::locale(std::locale::classic(), new Punct); std::locale::global(*l); } } ~GlobalLocale() { std::locale::global(old); } };
    void channelJson(mc::Ctx& c)
    {
        int loc = c.choose(2, "locale");
        struct F { const char* tag; std::vector<const char*> vals; };
        static const std::vector<F> fs = {
            { "ChannelType", { "Heightmap", "PalHR", "PalWidefield", "SimHR", "SimWidefield", "SimDWF", "AiryScanSum", "AiryScanRawSr", "AiryScanRaw", "AiryScanSr", "AiryScanVp", "AiryScanMb", "AiryScanRingSheppardSum", "OnlineUnmixing", "Unspecified", "nonsense", "" } }, { "ChannelUnit", { "\xC2\xB5m", "a\"b\\c", "&lt;&amp;", "", "\xF0\x9F\x98\x80" } },
            { "PixelType", { "Gray8", "Gray16", "Gray32Float", "Bgr24", "Bgr48", "Bgr96Float", "Bgra32", "Gray64ComplexFloat", "Bgr192ComplexFloat", "Gray32", "Gray64Float", "x" } }, { "ComponentBitCount", { "14", "0", "-1", "2147483647", "x" } },
            { "AcquisitionMode", { "WideField", "LaserScanningConfocalMicroscopy", "SpinningDiskConfocal", "SlitScanConfocal", "MultiPhotonMicroscopy", "StructuredIllumination", "SingleMoleculeImaging", "TotalInternalReflection", "FluorescenceLifetime", "SpectralImaging", "FluorescenceCorrelationSpectroscopy", "NearFieldScanningOpticalMicroscopy", "SecondHarmonicGenerationImaging", "PALM", "STORM", "STED", "TIRF", "FSM", "LCM", "SPIM", "SEM", "FIB", "FIB-SEM", "ApertureCorrelation", "Other" } },
            { "IlluminationType", { "Transmitted", "Epifluorescence", "Oblique", "NonLinear", "Other" } }, { "ContrastMethod", { "Brightfield", "Phase", "DIC", "HoffmanModulation", "ObliqueIllumination", "PolarizedLight", "Darkfield", "Fluorescence", "MultiPhotonFluorescence", "Other" } },
            { "IlluminationWavelength", { "<SinglePeak>450.5</SinglePeak>", "<Ranges>400-500,600</Ranges>", "<Ranges></Ranges>", "<Ranges>x</Ranges>", "" } }, { "DetectionWavelength", { "<SinglePeak>-1e300</SinglePeak>", "<Ranges>1-2</Ranges>" } },
            { "ExcitationWavelength", { "488.123456789012", "0", "nan", "inf", "1e400", "x" } }, { "EmissionWavelength", { "500" } }, { "EffectiveNA", { "1.4" } }, { "DyeId", { "id" } }, { "DyeDatabaseId", { "db" } }, { "PinholeSize", { "1.5" } }, { "PinholeSizeAiry", { "0.5" } }, { "PinholeGeometry", { "Circular", "Rectangular", "Other" } }, { "Fluor", { "F" } }, { "NDFilter", { "0.125" } }, { "PockelCellSetting", { "7" } },
            { "Color", { "#FF010203", "#A0B0C0", "#80000000", "x", "" } }, { "ExposureTime", { "1000", "1000000", "5-7", "18446744073709551615", "x" } }, { "DepthOfFocus", { "2" } }, { "SectionThickness", { "3" } }, { "Reflector", { "R" } }, { "CondenserContrast", { "CC" } }, { "NACondenser", { "0.9" } } };
        int f = c.choose((int)fs.size() + 1, "field"); std::string x; int nch = 1 + c.choose(2, "channels");
        if (f < (int)fs.size()) { int v = c.choose((int)fs[f].vals.size(), "value"); x = mc::cat("<", fs[f].tag, ">", fs[f].vals[v], "</", fs[f].tag, ">"); int g = c.choose((int)fs.size() + 1, "second field"); if (g < (int)fs.size() && g != f) x += mc::cat("<", fs[g].tag, ">", fs[g].vals[0], "</", fs[g].tag, ">"); }
        else { int set = c.choose(2, "all"); for (auto& k : fs) x += mc::cat("<", k.tag, ">", k.vals[0], "</", k.tag, ">"); (void)set; }
        std::string xml = "<ImageDocument><Metadata><Information><Image><SizeC>2</SizeC><Dimensions><Channels>"; for (int i = 0; i < nch; ++i) xml += mc::cat("<Channel Id=\"Channel:", i, "\"", i ? "" : " Name=\"n\"", ">", i == nch - 1 ? x : "", "</Channel>"); xml += "</Channels></Dimensions></Image></Information></Metadata></ImageDocument>";
        c.say([&](std::ostream& s) { s << (loc ? "with a global locale which groups digits: " : "") << xml; }); GlobalLocale gl(loc != 0);
        Doc d; d.guid = guid(1); d.md.present = true; d.md.xml = toBytes(xml); Bytes bytes = writeDoc(d); Ref ref(bytes);
        leakChecked(c, [&](bool first)
        {
            Ext e; e.data = bytes; OH is, rd, ms, di; MC_CHECK(makeIn(e, &is) == 0 && libCZI_CreateReader(&rd) == 0, "create"); ReaderOpenInfoInterop oi{ is }; MC_CHECK(libCZI_ReaderOpen(rd, &oi) == 0 && libCZI_ReaderGetMetadataSegment(rd, &ms) == 0 && libCZI_MetadataSegmentGetCziDocumentInfo(ms, &di) == 0, "open"); c.step();
            MC_CHECK(libCZI_ReleaseReader(rd) == 0 && libCZI_ReleaseInputStream(is) == 0 && libCZI_ReleaseMetadataSegment(ms) == 0, "release"); cmpDims(di, ref.di.get()); cmpGeneral(di, ref.di.get()); MC_CHECK(libCZI_ReleaseCziDocumentInfo(di) == 0, "release");
        });
        c.state(mc::mix(mc::hashStr(xml), loc)); c.outcome(f);
    }

        // ------------------------------------------------------------------ streams for files
    void files(mc::Ctx& c)
    {
        static const char* names[] = { "plain.czi", "with blank.czi", "\xC3\xA4\xE2\x82\xAC\xF0\x90\x8D\x88.czi", "missing/x.czi", "a.directory" }; static const wchar_t* wnames[] = { L"plain.czi", L"with blank.czi", L"\u00E4\u20AC\U00010348.czi", L"missing/x.czi", L"a.directory" };
        const int k = c.choose(5, "name"), state = k == 3 ? 0 : k == 4 ? 3 : c.choose(3, "target absent/a shorter/a longer file"); const bool wideOut = c.flip("wide name for writing"), over = c.flip("overwrite"), wideIn = c.flip("wide name for reading"), early = c.flip("stream handle released before writing");
        char tmpl[] = "/tmp/vcapi_dXXXXXX"; MC_CHECK(mkdtemp(tmpl), "harness: no scratch directory"); const std::string dir = tmpl, path = dir + "/" + names[k]; const std::wstring wpath = std::wstring(dir.begin(), dir.end()) + L"/" + wnames[k];
        struct Clean { std::string d, p; ~Clean() { unlink(p.c_str()); rmdir(p.c_str()); rmdir(d.c_str()); } } clean{ dir, path };
        Bytes old = pattern(state == 1 ? 10 : 50000, 3); if (state == 3) mkdir(path.c_str(), 0700); else if (state) { FILE* f = fopen(path.c_str(), "wb"); fwrite(old.data(), 1, old.size(), f); fclose(f); }
        auto content = [&](Bytes& b) { b.clear(); FILE* f = fopen(path.c_str(), "rb"); if (!f) return false; char buf[4096]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) b.insert(b.end(), buf, buf + n); fclose(f); return true; };
        c.say([&](std::ostream& o) { o << names[k] << (state == 0 ? " (absent)" : state == 3 ? " (a directory)" : " (exists)") << (over ? ", overwrite" : ", do not overwrite") << (wideOut ? ", wide" : ""); });
        const bool want = k < 3 && (state == 0 || over);
        leakChecked(c, [&](bool first)
        {
            if (!first && state != 3) { unlink(path.c_str()); if (state) { FILE* f = fopen(path.c_str(), "wb"); fwrite(old.data(), 1, old.size(), f); fclose(f); } }
            OH os = kBad; int rc = wideOut ? libCZI_CreateOutputStreamForFileWide(wpath.c_str(), over, &os) : libCZI_CreateOutputStreamForFileUTF8(path.c_str(), over, &os); c.step(); MC_CHECK((rc == 0) == want, "creating an output stream gives ", rc);
            if (rc) { Bytes now; const bool there = content(now); if (state == 0) MC_CHECK(!there, "a file was created although an error is reported"); if (state == 1 || state == 2) MC_CHECK(there && now == old, "the existing file was changed although an error is reported"); }
            else
            {
                OH w = kBad; MC_CHECK(libCZI_CreateWriter(&w, nullptr) == 0, "CreateWriter"); MC_CHECK(libCZI_WriterCreate(w, os, "{}") == 0, "WriterCreate"); if (early) MC_CHECK(libCZI_ReleaseOutputStream(os) == 0, "ReleaseOutputStream");
                Bytes px = pattern(12, 9); AddSubBlockInfoInterop a; memset(&a, 0, sizeof a); a.coordinate.dimensions_valid = 1u << ((int)libCZI::DimensionIndex::C - 1); a.coordinate.value[0] = 1; a.logical_width = a.physical_width = 4; a.logical_height = a.physical_height = 3; a.pixel_type = 0; a.data = px.data(); a.size_data = (uint32_t)px.size(); a.stride = 4;
                MC_CHECK(libCZI_WriterAddSubBlock(w, &a) == 0, "WriterAddSubBlock"); MC_CHECK(libCZI_WriterClose(w) == 0, "WriterClose"); MC_CHECK(libCZI_ReleaseWriter(w) == 0, "ReleaseWriter"); if (!early) MC_CHECK(libCZI_ReleaseOutputStream(os) == 0, "ReleaseOutputStream"); c.step(4);
                Bytes now; MC_CHECK(content(now), "the file is not there"); StructOpt so; Doc d = checkStructure(now, so); MC_CHECK(d.sbs.size() == 1 && d.sbs[0].data == px, "the file does not contain what was written");
            }
            OH is = kBad; rc = wideIn ? libCZI_CreateInputStreamFromFileWide(wpath.c_str(), &is) : libCZI_CreateInputStreamFromFileUTF8(path.c_str(), &is); c.step(); const bool there = want || state == 1 || state == 2; if (there || state == 0) MC_CHECK((rc == 0) == there, "creating an input stream gives ", rc);
            if (rc == 0)
            {
                OH r = kBad; MC_CHECK(libCZI_CreateReader(&r) == 0, "CreateReader"); ReaderOpenInfoInterop oi{ is }; rc = libCZI_ReaderOpen(r, &oi); MC_CHECK((rc == 0) == want, "ReaderOpen gives ", rc); MC_CHECK(libCZI_ReleaseInputStream(is) == 0, "ReleaseInputStream");
                if (rc == 0) { SubBlockStatisticsInterop st; MC_CHECK(libCZI_ReaderGetStatisticsSimple(r, &st) == 0 && st.sub_block_count == 1, "statistics"); } MC_CHECK(libCZI_ReleaseReader(r) == 0, "ReleaseReader");
            }
        });
        c.state(k * 64 + state * 16 + wideOut * 8 + over * 4 + wideIn * 2 + early); c.outcome(want);
    }
    // ------------------------------------------------------------------ streams with properties
    using std::string; string httpContent(uint64_t f, uint64_t n) { string s; for (uint64_t i = 0; i < n; ++i) s += (char)((f + i) * 7 + 1); return s; }
    void streamProperties(mc::Ctx& c)
    {
        libCZI::StreamsFactory::StreamClassInfo ci; bool have = false; for (int i = 0; i < libCZI::StreamsFactory::GetStreamClassesCount(); ++i) if (libCZI::StreamsFactory::GetStreamInfoForClass(i, ci) && ci.class_name == "curl_http_inputstream") have = true; if (!have) throw mc::Prune();
        int cnt = -1; int rc = libCZI_GetStreamClassesCount(&cnt); MC_CHECK(rc == 0 && cnt == libCZI::StreamsFactory::GetStreamClassesCount(), "number of stream classes: ", cnt);
        auto& sv = httpd::Server::get(httpContent); { std::lock_guard<std::mutex> g(sv.mx); sv.how = httpd::Server::Range; sv.body = 0; sv.len = 50; sv.seen.clear(); }
        struct T { const char* name; char t; }; static const T all[] = { { "CurlHttp_Proxy", 's' }, { "CurlHttp_UserAgent", 's' }, { "CurlHttp_Timeout", 'i' }, { "CurlHttp_ConnectTimeout", 'i' }, { "CurlHttp_Xoauth2Bearer", 's' }, { "CurlHttp_Cookie", 's' }, { "CurlHttp_SslVerifyPeer", 'b' }, { "CurlHttp_SslVerifyHost", 'b' }, { "CurlHttp_FollowLocation", 'b' }, { "CurlHttp_MaxRedirs", 'i' }, { "CurlHttp_CaInfo", 's' }, { "CurlHttp_CaInfoBlob", 's' }, { "NoSuchProperty", '-' }, { "", '-' }, { "curlhttp_cookie", '-' } };
        static const struct { const char* text; char t; } values[] = { { "\"\"", 's' }, { "\"a b\"", 's' }, { "\"\\u00e4\\\"q\"", 's' }, { "true", 'b' }, { "false", 'b' }, { "0", 'i' }, { "3", 'i' }, { "1000000", 'i' }, { "2147483648", '-' }, { "1.0", '-' }, { "1.5", '-' }, { "null", '-' }, { "[]", '-' }, { "{}", '-' } };
        string bag; bool good = true; string agent, cookie; int hops = 0; bool follow = false; int maxr = -1; const int form = c.choose(4, "form");
        if (form == 0) { const T& t = all[c.choose(15, "name")]; auto& v = values[c.choose(14, "value")]; bag = mc::cat("{\"", t.name, "\":", v.text, "}"); good = t.t == v.t && t.t != '-'; const string val = v.t == 's' ? (strlen(v.text) == 2 ? "" : v.text[1] == 'a' ? "a b" : "\xC3\xA4\"q") : ""; if (good && !strcmp(t.name, "CurlHttp_UserAgent")) agent = val; if (good && !strcmp(t.name, "CurlHttp_Cookie")) cookie = val; if (good && t.t == 's' && val.size() && strcmp(t.name, "CurlHttp_UserAgent") && strcmp(t.name, "CurlHttp_Cookie") && strcmp(t.name, "CurlHttp_Xoauth2Bearer")) { c.state(1); return; } }
        else if (form == 1) { const int a = c.choose(15, "first"), b = c.choose(15, "second"), w = c.choose(3, "which is wrong: none, first, second"); auto val = [&](const T& t, bool wrong) { return string(t.t == 's' ? (wrong ? "1" : "\"\"") : t.t == 'i' ? (wrong ? "\"1\"" : "5") : (wrong ? "0" : "true")); }; bag = mc::cat("{\"", all[a].name, "\":", val(all[a], w == 1), ", \"", all[b].name, "\" : ", val(all[b], w == 2), "}"); good = w == 0 && all[a].t != '-' && all[b].t != '-'; if (a == b && w == 2) { c.state(2); return; } }
        else if (form == 2) { hops = c.choose(3, "hops"); follow = c.flip("follow"); maxr = c.choose(4, "at most -1..2") - 1; bag = mc::cat("{\"CurlHttp_FollowLocation\":", follow ? "true" : "false", ",\"CurlHttp_MaxRedirs\":", maxr, ",\"CurlHttp_UserAgent\":\"agent 7\",\"CurlHttp_Cookie\":\"k=v\"}"); agent = "agent 7"; cookie = "k=v"; }
        else { static const char* raw[] = { "", " ", "{}", " { } ", "[]", "null", "{", "{}x", "{\"CurlHttp_Timeout\":5,}", "{\"CurlHttp_Timeout\" 5}", "5", "\"CurlHttp_Timeout\"", "{CurlHttp_Timeout:5}" }; const int k = c.choose(13, "text"); bag = raw[k]; good = k == 0 || k == 2 || k == 3; }
        c.say([&](std::ostream& o) { o << "libCZI_CreateInputStream(curl_http_inputstream, " << bag << ")"; });
        OH is = kBad; rc = libCZI_CreateInputStream("curl_http_inputstream", bag.c_str(), mc::cat("http://127.0.0.1:", sv.port, "/hop", hops).c_str(), &is); c.step(); MC_CHECK((rc == 0) == good, "creating the stream gives ", rc); if (good) MC_CHECK(is != kBad && is != 0, "handle"); else MC_CHECK(is == 0 || is == kBad, "a handle was returned");
        if (good)
        {
            OH rd = kBad; MC_CHECK(libCZI_CreateReader(&rd) == 0, "CreateReader"); ReaderOpenInfoInterop oi{ is }; rc = libCZI_ReaderOpen(rd, &oi); MC_CHECK(rc != 0, "something which is no document was opened"); // this makes a request
            std::vector<string> seen; { std::lock_guard<std::mutex> g(sv.mx); seen = sv.seen; } const size_t want = 1 + (!follow ? 0 : maxr < 0 ? hops : std::min(hops, maxr)); if (bag.find("CaInfo") == string::npos) MC_CHECK(seen.size() == want, "the server was asked ", seen.size(), " times, expected ", want);
            for (auto& q : seen) { MC_CHECK(agent.empty() ? q.find("User-Agent") == string::npos || q.find("User-Agent: \r\n") != string::npos : q.find("User-Agent: " + agent + "\r\n") != string::npos, "user agent in: ", q); MC_CHECK(cookie.empty() ? q.find("Cookie") == string::npos || q.find("Cookie: \r\n") != string::npos : q.find("Cookie: " + cookie + "\r\n") != string::npos, "cookie in: ", q); }
            MC_CHECK(libCZI_ReleaseReader(rd) == 0 && libCZI_ReleaseInputStream(is) == 0, "release");
        }
        c.state(mc::hashStr(bag)); c.outcome(good);
    }
    static struct Reg { Reg() { using namespace mc;
        add({ "C22", "capi_stream_properties", "property bags (JSON) of the http stream: every name x every kind of value, all pairs of names with one wrong value, redirection limits, malformed texts; what is requested from a server", streamProperties });
        add({ "C22", "capi_files", "5 kinds of names x target absent/shorter/longer/directory x overwrite or not x UTF-8/wide for writing and reading x order of release; handles and memory balanced", files });
        add({ "C22", "capi_arguments", "every C function x every class of every handle argument (live, null, released, each other type) x every set of null pointers", arguments });
        add({ "C22", "capi_histories", "all histories of create/open/use/release/use-after-release over 12 object types: depth 3 (thorough 4) with all objects, depth 6 (thorough 8) from nothing", histories });
        add({ "C22", "capi_outlive", "every subset of 12 objects released, forwards and backwards; the remaining objects are used", outlive });
        add({ "C22", "capi_locks", "all sequences of lock/unlock/release/read/release-parents, length 7 (thorough 9)", locks });
        add({ "C22", "capi_reading", "documents of 0..3 sub-blocks with up to 2 deviations in dimensions, M-index, pixel type, geometry, compression, attachments, metadata, stream; buffers of all sizes", reading });
        add({ "C22", "capi_writing", "1..2 sub-blocks with up to 2 deviations in description, compression, stride/size, options, parameters, attachment, metadata, failing write", writing });
        add({ "C22", "capi_read_faults", "each of the first 40 (thorough 60) read callbacks fails, in 4 ways", readFaults });
        add({ "C22", "capi_imaging", "accessor: channels x ROIs x zooms x backgrounds x flags x additional parameters", imaging });
        add({ "C22", "capi_compose", "composition of -1..3 channels, up to 2 (thorough 3) deviations", compose });
        add({ "C22", "capi_copyto", "BitmapCopyTo: widths x heights x pixel types x strides", copyto });
        add({ "C22", "capi_channel_json", "every channel field with every kind of content, pairs of fields", channelJson });
    } } reg;
}
