// Shared by the file-level harnesses: streams with an injectable environment, a reference description of a
// document, ways to write/read one through the public API, and an INDEPENDENT parser of the file format.
#pragma once
#include "mc.h"
#include "libCZI.h"
#include <algorithm>
#include <array>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace cz
{
    using Bytes = std::vector<uint8_t>;
    using libCZI::DimensionIndex; using libCZI::PixelType; using libCZI::SubBlockPyramidType;

    // ---------------------------------------------------------------- streams
    struct IoFault : std::runtime_error { IoFault() : std::runtime_error("injected I/O fault") {} };

    // a stream with a huge area which is not kept in memory: bytes [0,hole) and those from hole+gap on are stored, those in between read as zero
    class BigStream : public libCZI::IInputOutputStream
    {
    public:
        std::shared_ptr<Bytes> mem = std::make_shared<Bytes>(); uint64_t hole = UINT64_MAX, gap = 0; bool touched = false;
        std::function<bool(uint64_t off, const void* p, uint64_t size)> swallow;    // whether a write is taken as (the next part of) the huge area
        void Read(uint64_t off, void* pv, uint64_t size, uint64_t* got) override
        {
            uint64_t n = 0; uint8_t* p = (uint8_t*)pv;
            while (n < size)
            {
                const uint64_t o = off + n; uint64_t k;
                if (o >= hole && o < hole + gap) { k = std::min(size - n, hole + gap - o); memset(p + n, 0, k); }
                else { const uint64_t q = o < hole ? o : o - gap; if (q >= mem->size()) break; k = std::min<uint64_t>(size - n, mem->size() - q); if (o < hole) k = std::min<uint64_t>(k, hole - o); memcpy(p + n, mem->data() + q, k); }
                n += k;
            }
            if (got) *got = n;
        }
        void Write(uint64_t off, const void* pv, uint64_t size, uint64_t* put) override
        {
            if (put) *put = size;
            if (swallow && swallow(off, pv, size)) return;
            for (uint64_t n = 0; n < size;)
            {
                const uint64_t o = off + n; uint64_t k;
                if (o >= hole && o < hole + gap) { k = std::min(size - n, hole + gap - o); touched = true; }
                else { const uint64_t q = o < hole ? o : o - gap; k = size - n; if (o < hole) k = std::min<uint64_t>(k, hole - o); if (q + k > ((uint64_t)1 << 26)) throw IoFault(); if (mem->size() < q + k) mem->resize(q + k, 0); memcpy(mem->data() + q, (const uint8_t*)pv + n, k); }
                n += k;
            }
        }
    };
    class MemStream : public libCZI::IInputOutputStream
    {
    public:
        std::shared_ptr<Bytes> mem;
        // environment's answer: 0 ok, 1 throw (nothing done), 2 do half then throw, 3 short: all but one byte, 4 short: nothing, 5 short: half, 100+k short: k bytes
        std::function<int(bool write, uint64_t off, uint64_t size)> env;
        uint64_t reads = 0, writes = 0; bool overrunPossible = false; uint64_t maxSize = 1ull << 30;
        MemStream() : mem(std::make_shared<Bytes>()) {}
        explicit MemStream(const Bytes& b) : mem(std::make_shared<Bytes>(b)) {}
        void Read(uint64_t off, void* pv, uint64_t size, uint64_t* got) override
        {
            ++this->reads;
            uint64_t n = off >= mem->size() ? 0 : std::min<uint64_t>(size, mem->size() - off);
            int a = this->env ? this->env(false, off, size) : 0;
            if (a == 1) throw IoFault();
            // what a request that was not completed leaves in the rest of the buffer is undefined
            if (a >= 2 && size) memset(pv, 0xA5, size);
            if (a == 2) { if (n / 2) memcpy(pv, mem->data() + off, n / 2); throw IoFault(); }
            if (a == 3) n = n ? n - 1 : 0; else if (a == 4) n = 0; else if (a == 5) n /= 2; else if (a >= 100) n = std::min<uint64_t>(n, a - 100);
            if (n) memcpy(pv, mem->data() + off, n);
            if (got) *got = n;
        }
        void Write(uint64_t off, const void* pv, uint64_t size, uint64_t* put) override
        {
            ++this->writes;
            int a = this->env ? this->env(true, off, size) : 0;
            uint64_t n = size;
            if (a == 1) throw IoFault();
            if (a == 2 || a == 5) n = size / 2; else if (a == 3) n = size ? size - 1 : 0; else if (a == 4) n = 0;
            if (n)
            {
                if (off + n > this->maxSize) mc::fail(mc::cat("write request far beyond the document: offset ", off, " size ", n));
                if (off + n > mem->size()) mem->resize(off + n);
                memcpy(mem->data() + off, pv, n);
            }
            if (a == 2) throw IoFault();
            if (put) *put = n;
        }
    };

    // ---------------------------------------------------------------- reference description
    struct Sb
    {
        std::vector<std::pair<DimensionIndex, int>> dims;   // ascending
        bool mValid = false; int m = 0; int x = 0, y = 0, lw = 0, lh = 0, pw = 0, ph = 0;
        PixelType pt = PixelType::Gray8; SubBlockPyramidType pyr = SubBlockPyramidType::None; int comp = 0;
        Bytes data, meta, att;
        std::string head() const
        {
            std::ostringstream s;
            for (auto& d : dims) s << libCZI::Utils::DimensionToChar(d.first) << d.second;
            if (mValid) s << "M" << m;
            s << " rect(" << x << "," << y << "," << lw << "," << lh << ") size(" << pw << "," << ph << ") pt" << (int)pt << " pyr" << (int)pyr << " comp" << comp;
            return s.str();
        }
        std::string key() const
        {
            std::ostringstream s; s << head() << " |" << data.size() << ":" << mc::hashBytes(data.data(), data.size()) << "|" << meta.size() << ":" << mc::hashBytes(meta.data(), meta.size()) << "|" << att.size() << ":" << mc::hashBytes(att.data(), att.size());
            return s.str();
        }
        libCZI::CDimCoordinate coord() const { libCZI::CDimCoordinate c; for (auto& d : dims) c.Set(d.first, d.second); return c; }
        bool layer0() const { return lw == pw && lh == ph; }
        int dim(DimensionIndex i, int def) const { for (auto& d : dims) if (d.first == i) return d.second; return def; }
        bool hasDim(DimensionIndex i) const { for (auto& d : dims) if (d.first == i) return true; return false; }
    };
    struct Att
    {
        libCZI::GUID guid{}; std::string type, name; Bytes data;
        std::string id() const { std::ostringstream s; s << guid.Data1 << "-" << guid.Data2 << "-" << guid.Data3; for (auto c : guid.Data4) s << "." << (int)c; s << "/" << type << "/" << name; return s.str(); }
        std::string key() const { std::ostringstream s; s << id() << "|" << data.size() << ":" << mc::hashBytes(data.data(), data.size()); return s.str(); }
    };
    struct Md { bool present = false; Bytes xml, att; };
    struct Doc
    {
        std::vector<Sb> sbs; std::vector<Att> atts; Md md; libCZI::GUID guid{};
        uint64_t hash() const
        {
            std::vector<std::string> a, b; for (auto& s : sbs) a.push_back(s.key()); for (auto& s : atts) b.push_back(s.key());
            std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
            uint64_t h = 17; for (auto& s : a) h = mc::hashStr(s, h); h = mc::mix(h, 99); for (auto& s : b) h = mc::hashStr(s, h);
            h = mc::mix(h, md.present); h = mc::hashBytes(md.xml.data(), md.xml.size(), h); h = mc::hashBytes(md.att.data(), md.att.size(), h); return h;
        }
    };

    inline libCZI::GUID guid(uint32_t n) { return libCZI::GUID{ 0x11220000u + n, 0x3344, (uint16_t)(0x5566 + n), { 1,2,3,4,5,6,7,(uint8_t)(0x80 + n) } }; }

    inline Bytes pattern(size_t n, uint32_t seed)
    {
        Bytes b(n); uint32_t v = seed * 2654435761u + 12345; for (auto& x : b) { v = v * 1664525u + 1013904223u; x = (uint8_t)((v >> 24) | 1); } return b;
    }

    inline std::string diffLists(std::vector<std::string> want, std::vector<std::string> got, const char* what)
    {
        std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
        if (want == got) return "";
        std::string r = mc::cat(what, ": expected ", want.size(), " item(s), found ", got.size());
        std::vector<std::string> miss, extra;
        std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(miss));
        std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(extra));
        for (auto& m : miss) r += "\n  missing: " + m;
        for (auto& m : extra) r += "\n  unexpected: " + m;
        return r;
    }
    inline std::string diffDoc(const Doc& want, const Doc& got, bool withGuid = true)
    {
        std::vector<std::string> a, b; for (auto& s : want.sbs) a.push_back(s.key()); for (auto& s : got.sbs) b.push_back(s.key());
        std::string r = diffLists(a, b, "sub-blocks"); if (!r.empty()) return r;
        a.clear(); b.clear(); for (auto& s : want.atts) a.push_back(s.key()); for (auto& s : got.atts) b.push_back(s.key());
        r = diffLists(a, b, "attachments"); if (!r.empty()) return r;
        if (want.md.present != got.md.present) return mc::cat("document metadata: expected ", want.md.present ? "present" : "absent", ", found ", got.md.present ? "present" : "absent");
        if (want.md.xml != got.md.xml) return mc::cat("document metadata: XML differs (expected ", want.md.xml.size(), " bytes, found ", got.md.xml.size(), ")");
        if (want.md.att != got.md.att) return mc::cat("document metadata: attachment differs (expected ", want.md.att.size(), " bytes, found ", got.md.att.size(), ")");
        if (withGuid && memcmp(&want.guid, &got.guid, 16) != 0) return "file GUID differs";
        return "";
    }

    // ---------------------------------------------------------------- writing through the API
    enum How { HowMem, HowPull1, HowPullChunks, HowPullLong, HowStrided, HowLines, HowCount };
    inline void fillBase(libCZI::AddSubBlockInfoBase& i, const Sb& s)
    {
        i.coordinate = s.coord(); i.mIndexValid = s.mValid; i.mIndex = s.m; i.x = s.x; i.y = s.y; i.logicalWidth = s.lw; i.logicalHeight = s.lh;
        i.physicalWidth = s.pw; i.physicalHeight = s.ph; i.PixelType = s.pt; i.pyramid_type = s.pyr; i.compressionModeRaw = s.comp;
    }
    // F is called with one of the AddSubBlockInfo* structures
    template <typename F> void supply(const Sb& s, How how, F f, size_t chunk = 7)
    {
        auto pull = [chunk](const Bytes& b, How h) {
            return [&b, h, chunk](int call, size_t offset, const void*& p, size_t& n)->bool {
                if (h == HowPull1) { if (call > 0) return false; p = b.data(); n = b.size(); return true; }
                if (h == HowPullLong)
                {   // two pieces; hands out more than needed in the last one
                    if (call == 0 && b.size() > chunk) { p = b.data(); n = chunk; return true; }
                    static thread_local Bytes tmp; tmp.assign(b.begin() + std::min(offset, b.size()), b.end()); tmp.resize(tmp.size() + 33, 0xEE); p = tmp.data(); n = tmp.size(); return true;
                }
                if (offset >= b.size()) return false;
                p = b.data() + offset; n = std::min(chunk, b.size() - offset); return true;
            }; };
        switch (how)
        {
        case HowMem:
        {
            libCZI::AddSubBlockInfoMemPtr i; i.Clear(); fillBase(i, s);
            i.ptrData = s.data.data(); i.dataSize = (uint32_t)s.data.size(); i.ptrSbBlkMetadata = s.meta.data(); i.sbBlkMetadataSize = (uint32_t)s.meta.size();
            i.ptrSbBlkAttachment = s.att.data(); i.sbBlkAttachmentSize = (uint32_t)s.att.size(); f(i); break;
        }
        case HowStrided:
        {
            libCZI::AddSubBlockInfoStridedBitmap i; i.Clear(); fillBase(i, s);
            const size_t line = s.ph ? s.data.size() / s.ph : 0; const size_t stride = line + 5; Bytes b(stride * std::max(1, s.ph), 0xDD);
            for (int y = 0; y < s.ph; ++y) memcpy(b.data() + y * stride, s.data.data() + y * line, line);
            i.ptrBitmap = b.data(); i.strideBitmap = (uint32_t)stride; i.ptrSbBlkMetadata = s.meta.data(); i.sbBlkMetadataSize = (uint32_t)s.meta.size();
            i.ptrSbBlkAttachment = s.att.data(); i.sbBlkAttachmentSize = (uint32_t)s.att.size(); f(i); break;
        }
        case HowLines:
        {
            libCZI::AddSubBlockInfoLinewiseBitmap i; i.Clear(); fillBase(i, s);
            const size_t line = s.ph ? s.data.size() / s.ph : 0; Bytes one(line);
            i.getBitmapLine = [&](int y)->const void* { memcpy(one.data(), s.data.data() + y * line, line); return one.data(); };
            i.ptrSbBlkMetadata = s.meta.data(); i.sbBlkMetadataSize = (uint32_t)s.meta.size();
            i.ptrSbBlkAttachment = s.att.data(); i.sbBlkAttachmentSize = (uint32_t)s.att.size(); f(i); break;
        }
        default:
        {
            libCZI::AddSubBlockInfo i; i.Clear(); fillBase(i, s);
            i.sizeData = s.data.size(); i.getData = pull(s.data, how); i.sizeMetadata = s.meta.size(); i.getMetaData = pull(s.meta, how);
            i.sizeAttachment = s.att.size(); i.getAttachment = pull(s.att, how); f(i); break;
        }
        }
    }
    inline libCZI::AddAttachmentInfo attInfo(const Att& a)
    {
        libCZI::AddAttachmentInfo i; i.Clear(); i.contentGuid = a.guid; i.SetContentFileType(a.type.c_str()); i.SetName(a.name.c_str()); i.ptrData = a.data.data(); i.dataSize = (uint32_t)a.data.size(); return i;
    }
    inline libCZI::WriteMetadataInfo mdInfo(const Md& m)
    {
        libCZI::WriteMetadataInfo i; i.Clear(); i.szMetadata = (const char*)m.xml.data(); i.szMetadataSize = m.xml.size(); i.ptrAttachment = m.att.data(); i.attachmentSize = m.att.size(); return i;
    }
    // writes a document with default options
    inline Bytes writeDoc(const Doc& d)
    {
        auto st = std::make_shared<MemStream>(); auto w = libCZI::CreateCZIWriter();
        w->Create(st, std::make_shared<libCZI::CCziWriterInfo>(d.guid));
        for (auto& s : d.sbs) supply(s, HowMem, [&](const auto& i) { w->SyncAddSubBlock(i); });
        for (auto& a : d.atts) w->SyncAddAttachment(attInfo(a));
        if (d.md.present) w->SyncWriteMetadata(mdInfo(d.md));
        w->Close();
        return *st->mem;
    }

    // ---------------------------------------------------------------- reading through the API
    inline Bytes raw(const std::shared_ptr<const void>& p, size_t n) { if (!n) return {}; const uint8_t* b = (const uint8_t*)p.get(); return Bytes(b, b + n); }
    inline Sb fromInfo(const libCZI::SubBlockInfo& i)
    {
        Sb s; for (int d = (int)DimensionIndex::MinDim; d <= (int)DimensionIndex::MaxDim; ++d) { int v; if (i.coordinate.TryGetPosition((DimensionIndex)d, &v)) s.dims.emplace_back((DimensionIndex)d, v); }
        s.mValid = i.IsMindexValid(); s.m = s.mValid ? i.mIndex : 0; s.x = i.logicalRect.x; s.y = i.logicalRect.y; s.lw = i.logicalRect.w; s.lh = i.logicalRect.h; s.pw = (int)i.physicalSize.w; s.ph = (int)i.physicalSize.h;
        s.pt = i.pixelType; s.pyr = i.pyramidType; s.comp = i.compressionModeRaw; return s;
    }
    inline Sb readSb(libCZI::ISubBlock* b)
    {
        Sb s = fromInfo(b->GetSubBlockInfo()); size_t n = 0; std::shared_ptr<const void> p;
        const void* q; size_t n2;
        p = b->GetRawData(libCZI::ISubBlock::Data, &n); s.data = raw(p, n); b->DangerousGetRawData(libCZI::ISubBlock::Data, q, n2); MC_CHECK(n == n2 && (n == 0 || !memcmp(q, s.data.data(), n)), "the two raw-data accessors disagree");
        p = b->GetRawData(libCZI::ISubBlock::Metadata, &n); s.meta = raw(p, n);
        p = b->GetRawData(libCZI::ISubBlock::Attachment, &n); s.att = raw(p, n);
        return s;
    }
    inline Att fromAttInfo(const libCZI::AttachmentInfo& i) { Att a; a.guid = i.contentGuid; a.type = std::string(i.contentFileType, strnlen(i.contentFileType, 9)); a.name = i.name; return a; }

    // T: ICZIReader or ICziReaderWriter. Fills keys with the keys/indices in enumeration order.
    template <typename T> Doc readDoc(T* r, std::vector<int>* sbKeys = nullptr, std::vector<int>* attKeys = nullptr, const std::function<bool(const Sb*, const Att*)>& skip = nullptr)
    {
        Doc d; std::vector<std::pair<int, Sb>> infos; std::vector<std::pair<int, Att>> ainfos;
        r->EnumerateSubBlocks([&](int i, const libCZI::SubBlockInfo& inf) { infos.emplace_back(i, fromInfo(inf)); return true; });
        for (auto& p : infos)
        {
            libCZI::SubBlockInfo si; MC_CHECK(r->TryGetSubBlockInfo(p.first, &si), "TryGetSubBlockInfo fails for enumerated index ", p.first);
            MC_CHECK(fromInfo(si).head() == p.second.head(), "TryGetSubBlockInfo(", p.first, ") gives ", fromInfo(si).head(), " but enumeration gave ", p.second.head());
            if (skip && skip(&p.second, nullptr)) { d.sbs.push_back(p.second); if (sbKeys) sbKeys->push_back(p.first); continue; }
            auto b = r->ReadSubBlock(p.first); MC_CHECK(b, "ReadSubBlock gives nothing for enumerated index ", p.first);
            Sb s = readSb(b.get()); MC_CHECK(s.head() == p.second.head(), "sub-block ", p.first, " read as ", s.head(), " but the directory says ", p.second.head());
            d.sbs.push_back(s); if (sbKeys) sbKeys->push_back(p.first);
        }
        r->EnumerateAttachments([&](int i, const libCZI::AttachmentInfo& inf) { ainfos.emplace_back(i, fromAttInfo(inf)); return true; });
        MC_CHECK(r->GetAttachmentCount() == (int)ainfos.size(), "GetAttachmentCount() is ", r->GetAttachmentCount(), " but enumeration gives ", ainfos.size());
        for (auto& p : ainfos)
        {
            libCZI::AttachmentInfo ai; MC_CHECK(r->TryGetAttachmentInfo(p.first, &ai), "TryGetAttachmentInfo fails for enumerated index ", p.first);
            MC_CHECK(fromAttInfo(ai).id() == p.second.id(), "TryGetAttachmentInfo(", p.first, ") gives ", fromAttInfo(ai).id(), " but enumeration gave ", p.second.id());
            if (skip && skip(nullptr, &p.second)) { d.atts.push_back(p.second); if (attKeys) attKeys->push_back(p.first); continue; }
            auto b = r->ReadAttachment(p.first); MC_CHECK(b, "ReadAttachment gives nothing for enumerated index ", p.first);
            Att a = fromAttInfo(b->GetAttachmentInfo()); MC_CHECK(a.id() == p.second.id(), "attachment ", p.first, " read as ", a.id(), " but the directory says ", p.second.id());
            size_t n = 0; auto raw1 = b->GetRawData(&n); a.data = raw(raw1, n); d.atts.push_back(a); if (attKeys) attKeys->push_back(p.first);
        }
        d.guid = r->GetFileHeaderInfo().fileGuid;
        return d;
    }
    template <typename T> void readMd(T* r, Doc& d)
    {
        auto m = r->ReadMetadataSegment(); d.md.present = !!m;
        if (m) { size_t n = 0; auto p = m->GetRawData(libCZI::IMetadataSegment::XmlMetadata, &n); d.md.xml = raw(p, n); p = m->GetRawData(libCZI::IMetadataSegment::Attachment, &n); d.md.att = raw(p, n); }
    }
    // reads a whole document; a reader throws on missing metadata: 'mdExpected' tells whether to ask for it
    inline Doc readAll(const Bytes& b, bool mdExpected)
    {
        auto r = libCZI::CreateCZIReader(); r->Open(std::make_shared<MemStream>(b)); Doc d = readDoc(r.get());
        bool thrown = false;
        if (mdExpected) readMd(r.get(), d);
        else { try { readMd(r.get(), d); } catch (mc::Violation&) { throw; } catch (std::exception&) { thrown = true; } if (thrown) d.md.present = false; }
        r->Close(); return d;
    }
    // reads through an edit session that changes nothing
    inline Doc readViaRw(const Bytes& b)
    {
        auto r = libCZI::CreateCZIReaderWriter(); r->Create(std::make_shared<MemStream>(b)); Doc d = readDoc(r.get()); readMd(r.get(), d); return d;
    }

    // ---------------------------------------------------------------- independent structural parser
    template <typename T> T rd(const Bytes& b, uint64_t off) { if (off + sizeof(T) > b.size()) mc::fail(mc::cat("structure: field at offset ", off, " lies outside the file of ", b.size(), " bytes")); T v; memcpy(&v, b.data() + off, sizeof(T)); return v; }
    struct Seg { uint64_t pos; std::string id; int64_t alloc, used; uint64_t end() const { return pos + 32 + alloc; } };
    inline Seg segAt(const Bytes& b, uint64_t pos)
    {
        if (pos + 32 > b.size()) mc::fail(mc::cat("structure: segment header at ", pos, " lies outside the file of ", b.size(), " bytes"));
        Seg s; s.pos = pos; s.id = std::string((const char*)b.data() + pos, strnlen((const char*)b.data() + pos, 16)); s.alloc = rd<int64_t>(b, pos + 16); s.used = rd<int64_t>(b, pos + 24); return s;
    }
    // parses a DV entry; returns its size
    inline size_t parseDv(const Bytes& b, uint64_t o, Sb& s, uint64_t& filePos)
    {
        MC_CHECK(rd<char>(b, o) == 'D' && rd<char>(b, o + 1) == 'V', "structure: directory entry at ", o, " is not of schema DV");
        s.pt = (PixelType)rd<int32_t>(b, o + 2); filePos = rd<uint64_t>(b, o + 6); s.comp = rd<int32_t>(b, o + 18); s.pyr = (SubBlockPyramidType)rd<uint8_t>(b, o + 22);
        const int n = rd<int32_t>(b, o + 28); MC_CHECK(n >= 2 && n <= 40, "structure: directory entry at ", o, " has ", n, " dimensions");
        std::set<char> seen;
        for (int i = 0; i < n; ++i)
        {
            const uint64_t e = o + 32 + i * 20; const char c = rd<char>(b, e); const int start = rd<int32_t>(b, e + 4), size = rd<int32_t>(b, e + 8), stored = rd<int32_t>(b, e + 16);
            MC_CHECK(seen.insert(c).second, "structure: dimension ", c, " occurs twice in entry at ", o);
            if (c == 'X') { s.x = start; s.lw = size; s.pw = stored; } else if (c == 'Y') { s.y = start; s.lh = size; s.ph = stored; }
            else if (c == 'M') { s.mValid = true; s.m = start; }
            else { auto di = libCZI::Utils::CharToDimension(c); MC_CHECK(di != DimensionIndex::invalid, "structure: unknown dimension '", c, "'"); s.dims.emplace_back(di, start); MC_CHECK(size == 1, "structure: dimension ", c, " of size ", size); }
        }
        MC_CHECK(seen.count('X') && seen.count('Y'), "structure: entry at ", o, " lacks X or Y");
        std::sort(s.dims.begin(), s.dims.end());
        return 32 + 20 * (size_t)n;
    }
    struct StructOpt { bool fresh = true; bool strictOrphans = true; };
    // checks well-formedness and returns the document as found by this parser
    inline Doc checkStructure(const Bytes& b, const StructOpt& opt)
    {
        Doc d; std::map<uint64_t, std::string> live;   // position -> required id
        auto add = [&](uint64_t pos, const char* id, const char* what) { auto r = live.emplace(pos, id); MC_CHECK(r.second, "structure: ", what, " at ", pos, " shares its position with another live segment"); };
        Seg h = segAt(b, 0); MC_CHECK(h.id == "ZISRAWFILE", "structure: file does not start with a file header");
        MC_CHECK(h.alloc == 512 && h.used == 512, "structure: file header sizes ", h.alloc, "/", h.used);
        add(0, "ZISRAWFILE", "file header");
        MC_CHECK(rd<int32_t>(b, 32) == 1 && rd<int32_t>(b, 36) == 0, "structure: version ", rd<int32_t>(b, 32), ".", rd<int32_t>(b, 36));
        libCZI::GUID g1, g2; memcpy(&g1, b.data() + 32 + 16, 16); memcpy(&g2, b.data() + 32 + 32, 16); MC_CHECK(!memcmp(&g1, &g2, 16), "structure: primary file GUID and file GUID differ"); d.guid = g2;
        const uint64_t dirPos = rd<uint64_t>(b, 32 + 52), mdPos = rd<uint64_t>(b, 32 + 60), adPos = rd<uint64_t>(b, 32 + 72);
        MC_CHECK(rd<int32_t>(b, 32 + 68) == 0, "structure: update-pending flag is set");
        MC_CHECK(dirPos != 0, "structure: no sub-block directory");
        if (dirPos)
        {
            add(dirPos, "ZISRAWDIRECTORY", "sub-block directory"); Seg s = segAt(b, dirPos); MC_CHECK(s.id == "ZISRAWDIRECTORY", "structure: header points at '", s.id, "' for the sub-block directory (", dirPos, ")");
            const int n = rd<int32_t>(b, dirPos + 32); MC_CHECK(n >= 0, "structure: sub-block count ", n); uint64_t o = dirPos + 32 + 128;
            for (int i = 0; i < n; ++i)
            {
                Sb e; uint64_t fp = 0; o += parseDv(b, o, e, fp);
                add(fp, "ZISRAWSUBBLOCK", "sub-block"); Seg q = segAt(b, fp); MC_CHECK(q.id == "ZISRAWSUBBLOCK", "structure: sub-block directory entry ", i, " points at '", q.id, "' (", fp, ")");
                Sb in; uint64_t fp2 = 0; const size_t dv = parseDv(b, fp + 32 + 16, in, fp2);
                MC_CHECK(in.head() == e.head(), "structure: sub-block at ", fp, " describes itself as ", in.head(), " but the directory says ", e.head());
                MC_CHECK(fp2 == fp, "structure: sub-block at ", fp, " claims to be at ", fp2);
                const int64_t ms = rd<int32_t>(b, fp + 32), as = rd<int32_t>(b, fp + 36), ds = rd<int64_t>(b, fp + 40); const uint64_t fixed = std::max<uint64_t>(256, 16 + dv);
                MC_CHECK(ms >= 0 && as >= 0 && ds >= 0, "structure: negative size in sub-block at ", fp);
                MC_CHECK(q.used == (int64_t)fixed + ms + as + ds, "structure: sub-block at ", fp, " used size ", q.used, " but its parts need ", fixed + ms + as + ds);
                uint64_t p = fp + 32 + fixed; MC_CHECK(p + ms + as + ds <= b.size(), "structure: payload of sub-block at ", fp, " lies outside of the file");
                in.meta.assign(b.begin() + p, b.begin() + p + ms); p += ms; in.data.assign(b.begin() + p, b.begin() + p + ds); p += ds; in.att.assign(b.begin() + p, b.begin() + p + as);
                d.sbs.push_back(in);
            }
            MC_CHECK(s.used == (int64_t)(o - dirPos - 32), "structure: sub-block directory used size ", s.used, " but entries need ", o - dirPos - 32);
        }
        if (adPos)
        {
            add(adPos, "ZISRAWATTDIR", "attachment directory"); Seg s = segAt(b, adPos); MC_CHECK(s.id == "ZISRAWATTDIR", "structure: header points at '", s.id, "' for the attachment directory (", adPos, ")");
            const int n = rd<int32_t>(b, adPos + 32); MC_CHECK(n >= 0, "structure: attachment count ", n); MC_CHECK(s.used == 256 + 128 * (int64_t)n, "structure: attachment directory used size ", s.used, " for ", n, " entries");
            for (int i = 0; i < n; ++i)
            {
                auto parse = [&](uint64_t o, Att& a, uint64_t& fp) { MC_CHECK(rd<char>(b, o) == 'A' && rd<char>(b, o + 1) == '1', "structure: attachment entry at ", o, " is not of schema A1"); fp = rd<uint64_t>(b, o + 12); rd<uint8_t>(b, o + 127);
                    memcpy(&a.guid, b.data() + o + 24, 16); a.type = std::string((const char*)b.data() + o + 40, strnlen((const char*)b.data() + o + 40, 8)); a.name = std::string((const char*)b.data() + o + 48, strnlen((const char*)b.data() + o + 48, 80)); };
                Att e, in; uint64_t fp = 0, fp2 = 0; parse(adPos + 32 + 256 + 128 * (uint64_t)i, e, fp);
                add(fp, "ZISRAWATTACH", "attachment"); Seg q = segAt(b, fp); MC_CHECK(q.id == "ZISRAWATTACH", "structure: attachment directory entry ", i, " points at '", q.id, "' (", fp, ")");
                parse(fp + 32 + 16, in, fp2); MC_CHECK(in.id() == e.id(), "structure: attachment at ", fp, " describes itself as ", in.id(), " but the directory says ", e.id()); MC_CHECK(fp2 == fp, "structure: attachment at ", fp, " claims to be at ", fp2);
                const int64_t ds = rd<int64_t>(b, fp + 32); MC_CHECK(ds >= 0 && q.used == 256 + ds, "structure: attachment at ", fp, " used size ", q.used, " for ", ds, " bytes");
                const uint64_t p = fp + 32 + 256; MC_CHECK(p + ds <= b.size(), "structure: payload of attachment at ", fp, " lies outside of the file"); in.data.assign(b.begin() + p, b.begin() + p + ds); d.atts.push_back(in);
            }
        }
        if (mdPos)
        {
            add(mdPos, "ZISRAWMETADATA", "metadata"); Seg s = segAt(b, mdPos); MC_CHECK(s.id == "ZISRAWMETADATA", "structure: header points at '", s.id, "' for the metadata (", mdPos, ")");
            const int64_t xs = rd<int32_t>(b, mdPos + 32), as = rd<int32_t>(b, mdPos + 36); MC_CHECK(xs >= 0 && as >= 0 && s.used == 256 + xs + as, "structure: metadata used size ", s.used, " for ", xs, "+", as);
            const uint64_t p = mdPos + 32 + 256; MC_CHECK(p + xs + as <= b.size(), "structure: metadata payload lies outside of the file"); d.md.present = true; d.md.xml.assign(b.begin() + p, b.begin() + p + xs); d.md.att.assign(b.begin() + p + xs, b.begin() + p + xs + as);
        }
        // the chain
        static const std::set<std::string> known = { "ZISRAWFILE","ZISRAWDIRECTORY","ZISRAWSUBBLOCK","ZISRAWMETADATA","ZISRAWATTACH","ZISRAWATTDIR","DELETED" };
        const uint64_t lastLive = live.rbegin()->first; uint64_t pos = 0; size_t visited = 0;
        for (;;)
        {
            Seg s = segAt(b, pos);
            MC_CHECK(known.count(s.id), "structure: unknown segment '", s.id.substr(0, 16), "' in the chain at ", pos);
            MC_CHECK(pos % 32 == 0 && s.alloc >= 0 && s.alloc % 32 == 0, "structure: segment '", s.id, "' at ", pos, " with allocated size ", s.alloc, " is not aligned");
            MC_CHECK(s.used >= 0 && s.used <= s.alloc, "structure: segment '", s.id, "' at ", pos, " used size ", s.used, " exceeds allocated size ", s.alloc);
            auto it = live.find(pos);
            if (it != live.end())
            {
                ++visited; MC_CHECK(s.id == it->second, "structure: segment at ", pos, " is '", s.id, "', expected ", it->second);
                MC_CHECK(s.end() <= b.size(), "structure: segment '", s.id, "' at ", pos, " (end ", s.end(), ") is cut off by the end of the file (", b.size(), ")");
            }
            else if (opt.strictOrphans) MC_CHECK(s.id == "DELETED", "structure: segment '", s.id, "' at ", pos, " is not referenced by any directory and not marked deleted");
            if (pos == lastLive && !opt.fresh) break;
            pos = s.end();
            if (opt.fresh && pos == b.size()) break;
            if (opt.fresh && pos > b.size()) { MC_CHECK(s.id == "DELETED" && it == live.end(), "structure: chain runs past the end of the file at ", s.pos); break; }
            MC_CHECK(opt.fresh || pos <= lastLive, "structure: the chain skips the live segment at ", lastLive);
        }
        MC_CHECK(visited == live.size(), "structure: only ", visited, " of ", live.size(), " live segments are part of the chain (overlap or gap)");
        return d;
    }

    // the writer sorts its directory; this puts the entries into the order in which the sub-blocks were added
    inline Bytes inOrderOfAddition(Bytes b)
    {
        const uint64_t dir = rd<uint64_t>(b, 32 + 52); if (!dir) return b; const int n = rd<int32_t>(b, dir + 32); uint64_t o = dir + 160; std::vector<std::pair<uint64_t, Bytes>> v;
        for (int i = 0; i < n; ++i) { const size_t len = 32 + 20 * (size_t)rd<int32_t>(b, o + 28); v.emplace_back(rd<uint64_t>(b, o + 6), Bytes(b.begin() + o, b.begin() + o + len)); o += len; }
        std::sort(v.begin(), v.end(), [](const auto& p, const auto& q) { return p.first < q.first; }); o = dir + 160; for (auto& e : v) { std::copy(e.second.begin(), e.second.end(), b.begin() + o); o += e.second.size(); }
        return b;
    }

    inline Sb makeSb(std::vector<std::pair<DimensionIndex, int>> dims, int m, int x, int y, int w, int h, PixelType pt, uint32_t seed, size_t metaSize = 0, size_t attSize = 0)
    {
        Sb s; s.dims = dims; std::sort(s.dims.begin(), s.dims.end()); s.mValid = m >= 0; s.m = s.mValid ? m : 0; s.x = x; s.y = y; s.lw = s.pw = w; s.lh = s.ph = h; s.pt = pt;
        s.data = pattern((size_t)w * h * libCZI::Utils::GetBytesPerPixel(pt), seed); s.meta = pattern(metaSize, seed + 1); s.att = pattern(attSize, seed + 2); return s;
    }

    // every field of a sub-block description varied over edge values (chosen by deviation from a plain one)
    inline Sb chooseDescription(mc::Ctx& c, uint32_t seed, bool keepIdentity = false)
    {
        using D = DimensionIndex; Sb s;
        static const int pos[] = { 0, 1, -1, -1000000, 0x7ffffff0, (int)0x80000010 };
        static const int siz[] = { 4, 1, 2, 5, 6, 8, 65536 };
        static const PixelType pts[] = { PixelType::Gray8, PixelType::Gray16, PixelType::Gray32Float, PixelType::Bgr24, PixelType::Bgr48, PixelType::Bgr96Float, PixelType::Bgra32, PixelType::Gray64ComplexFloat, PixelType::Bgr192ComplexFloat, PixelType::Gray32, PixelType::Gray64Float };
        static const int comps[] = { 0, 1, 2, 4, 5, 6, 100, 999, 1000, 0x7fffffff };
        static const int ms[] = { 3, 0, 1, 1000000, 0x7ffffffe, -1 };
        s.x = pos[c.deviate(6, "x")]; s.y = pos[c.deviate(6, "y")];
        s.lw = siz[c.deviate(7, "logical width")]; s.lh = siz[c.deviate(7, "logical height")];
        s.pw = siz[c.deviate(7, "physical width")]; s.ph = siz[c.deviate(7, "physical height")];
        s.pt = pts[c.deviate(11, "pixel type")]; s.comp = comps[c.deviate(10, "compression")];
        s.pyr = (SubBlockPyramidType)c.deviate(3, "pyramid type");
        static const std::vector<std::vector<std::pair<D, int>>> dims = { { {D::C,1} }, {}, { {D::C,-1} }, { {D::T,0x7fffffff} }, { {D::S,3} }, { {D::Z,1},{D::T,2} }, { {D::B,4} }, { {D::Z,-5},{D::C,1},{D::T,2},{D::R,3},{D::S,4},{D::I,5},{D::H,6},{D::V,7},{D::B,8} }, { {D::V,1} }, { {D::H,1} }, { {D::I,1} }, { {D::R,1} } };
        const int dv = c.deviate(keepIdentity ? 1 : (int)dims.size(), "dimensions"); s.dims = dims[dv]; std::sort(s.dims.begin(), s.dims.end());
        const int mv = ms[c.deviate(keepIdentity ? 1 : 6, "M-index")]; s.mValid = mv >= 0; s.m = s.mValid ? mv : 0;
        s.data = pattern(24, seed); s.meta = pattern(c.deviate(2, "metadata") * 9, seed + 1); s.att = pattern(c.deviate(2, "attachment") * 17, seed + 2);
        return s;
    }
}
