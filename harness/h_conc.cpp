// C13: sub-block cache; C14: one reader used by several threads; C24: locks of a bitmap from several threads.
#include <climits>
#include <dirent.h>
#include <unistd.h>
#include "conc.h"
#include "compose.h"
#include <atomic>
#include <unistd.h>

namespace
{
    using namespace cz; using namespace bm; using libCZI::ISubBlockCacheStatistics; using libCZI::ISubBlockCacheOperation;
    // a call with its interval of logical time and its result
    struct Call { int op; uint64_t from, to; std::string res; };
    // is there an order of the calls, compatible with their intervals, in which the model gives all results? (then also the calls 'after')
    template <typename M> bool linearize(const M& m, std::vector<const Call*>& left, const std::vector<Call>& after, uint64_t& tried)
    {
        ++tried;
        if (left.empty()) { M n = m; for (auto& a : after) if (n.apply(a.op) != a.res) return false; return true; }
        for (size_t i = 0; i < left.size(); ++i)
        {
            bool first = true; for (auto o : left) if (o != left[i] && o->to < left[i]->from) first = false; if (!first) continue;
            M n = m; if (n.apply(left[i]->op) != left[i]->res) continue;
            const Call* c = left[i]; left.erase(left.begin() + i); const bool ok = linearize(n, left, after, tried); left.insert(left.begin() + i, c); if (ok) return true;
        }
        return false;
    }
    template <typename M> void checkLinearizable(const M& m, const std::vector<std::vector<Call>>& calls, const std::vector<Call>& after, const std::function<std::string(int)>& name)
    {
        std::vector<const Call*> l; for (auto& t : calls) for (auto& c : t) l.push_back(&c); uint64_t tried = 0;
        if (linearize(m, l, after, tried)) return;
        std::ostringstream s; s << "no order of the calls explains the results:"; for (size_t t = 0; t < calls.size(); ++t) { s << "\n  thread " << t << ":"; for (auto& c : calls[t]) s << " " << name(c.op) << "=" << c.res << " [" << c.from << "," << c.to << "]"; } s << "\n  afterwards:"; for (auto& c : after) s << " " << name(c.op) << "=" << c.res; mc::fail(s.str());
    }

    // ------------------------------------------------------------------ C13
    struct Item { std::shared_ptr<libCZI::IBitmapData> b; std::shared_ptr<libCZI::IBitonalBitmapData> m; uint64_t size; };
    std::vector<Item> makeItems()
    {
        std::vector<Item> v; auto mk = [&](PixelType p, int w, int h, int mw, int mh) { Item i; i.b = std::make_shared<GuardBitmap>(p, w, h); i.size = (uint64_t)w * h * bpp(p); if (mw) { Mask m; m.w = mw; m.h = mh; m.bit.assign(mw * mh, 1); i.m = std::make_shared<BitBitmap>(m, 5); i.size += (mw + 7) / 8 * mh; } v.push_back(i); };
        mk(PixelType::Gray8, 3, 1, 0, 0); mk(PixelType::Bgr24, 2, 2, 9, 2); mk(PixelType::Gray16, 1, 2, 1, 1); return v;   // 3, 16, 5 bytes
    }
    const std::vector<Item>& items() { static const std::vector<Item> i = makeItems(); return i; }
    enum { Add0 = 0, Get0 = 20, Stat0 = 30, Prune0 = 40 };   // Add0 + 4*index + item, Get0 + index, Stat0 + mask, Prune0 + k
    struct Lim { uint64_t mem; uint32_t cnt; }; const uint64_t M64 = UINT64_MAX; const uint32_t M32 = UINT32_MAX;
    const Lim lims[] = { {M64, 0}, {M64, 1}, {M64, 2}, {0, M32}, {5, M32}, {8, M32}, {19, M32}, {16, 1}, {5, 2}, {M64, M32}, {2, 3}, {21, 2} };
    std::string opName(int o)
    {
        if (o >= Prune0) return mc::cat("Prune(", lims[o - Prune0].mem == M64 ? std::string("-") : std::to_string(lims[o - Prune0].mem), ",", lims[o - Prune0].cnt == M32 ? std::string("-") : std::to_string(lims[o - Prune0].cnt), ")");
        if (o >= Stat0) return mc::cat("Statistics(", o - Stat0, ")"); if (o >= Get0) return mc::cat("Get(", o - Get0, ")"); return mc::cat("Add(", o / 4, ",item ", o % 4, ")");
    }
    struct CacheModel
    {
        struct E { int idx, item; }; std::vector<E> e;    // least recently used first
        uint64_t mem() const { uint64_t m = 0; for (auto& x : e) m += items()[x.item].size; return m; }
        std::string apply(int o)
        {
            if (o >= Prune0) { const Lim& l = lims[o - Prune0]; while (!e.empty() && (mem() > l.mem || e.size() > l.cnt)) e.erase(e.begin()); return ""; }
            if (o >= Stat0) { std::string s; if ((o - Stat0) & 1) s += mc::cat("m", mem()); if ((o - Stat0) & 2) s += mc::cat("n", e.size()); return s; }
            if (o >= Get0) { for (size_t i = 0; i < e.size(); ++i) if (e[i].idx == o - Get0) { E x = e[i]; e.erase(e.begin() + i); e.push_back(x); return mc::cat("item ", x.item); } return "none"; }
            for (size_t i = 0; i < e.size(); ++i) if (e[i].idx == o / 4) { e.erase(e.begin() + i); break; } e.push_back({ o / 4, o % 4 }); return "";
        }
        uint64_t hash() const { uint64_t h = 5; for (auto& x : e) h = mc::mix(h, x.idx * 4 + x.item); return h; }
    };
    std::string doCache(libCZI::ISubBlockCache& c, int o)
    {
        if (o >= Prune0) { libCZI::ISubBlockCacheControl::PruneOptions p; p.maxMemoryUsage = lims[o - Prune0].mem; p.maxSubBlockCount = lims[o - Prune0].cnt; c.Prune(p); return ""; }
        if (o >= Stat0)
        {
            const uint8_t mask = ((o - Stat0) & 1 ? ISubBlockCacheStatistics::kMemoryUsage : 0) | ((o - Stat0) & 2 ? ISubBlockCacheStatistics::kElementsCount : 0); auto s = c.GetStatistics(mask);
            if (s.validityMask != mask) return "validity mask wrong"; std::string t; if ((o - Stat0) & 1) t += mc::cat("m", s.memoryUsage); if ((o - Stat0) & 2) t += mc::cat("n", s.elementsCount); return t;
        }
        if (o >= Get0) { auto g = c.Get(o - Get0); if (!g.IsValid()) return "none"; for (size_t i = 0; i < items().size(); ++i) if (items()[i].b == g.bitmap) return g.mask == items()[i].m ? mc::cat("item ", i) : mc::cat("item ", i, " with another mask"); return "unknown bitmap"; }
        ISubBlockCacheOperation::CacheItem i; i.bitmap = items()[o % 4].b; i.mask = items()[o % 4].m; c.Add(o / 4, i); return "";
    }
    // sizes beyond 32 bits (bitmaps which have a size, but are never locked), and indices from the whole range
    struct SizedBitmap : libCZI::IBitmapData { PixelType p; libCZI::IntSize s; SizedBitmap(PixelType p, uint32_t w, uint32_t h) : p(p), s{ w, h } {} PixelType GetPixelType() const override { return p; } libCZI::IntSize GetSize() const override { return s; } libCZI::BitmapLockInfo Lock() override { throw std::logic_error("the cache locks a bitmap"); } void Unlock() override {} int GetLockCount() const override { return 0; } };
    struct SizedMask : libCZI::IBitonalBitmapData { libCZI::IntSize s; SizedMask(uint32_t w, uint32_t h) : s{ w, h } {} libCZI::IntSize GetSize() const override { return s; } libCZI::BitonalBitmapLockInfo Lock() override { throw std::logic_error("the cache locks a bitmap"); } void Unlock() override {} int GetLockCount() const override { return 0; } };
    void cacheSizes(mc::Ctx& c)
    {
        static const uint32_t sz[][2] = { { 0, 5 }, { 1, 1 }, { 46341, 46341 }, { 65536, 65536 }, { 65537, 65535 }, { 1u << 31, 3 }, { 3, 1u << 31 }, { 4000000000u, 40000 } }; static const PixelType pts[] = { PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48, PixelType::Bgra32, PixelType::Gray32Float }; static const int idx[] = { 0, -1, INT_MAX, INT_MIN, 65536 };
        struct E { int i; std::shared_ptr<SizedBitmap> b; std::shared_ptr<SizedMask> m; uint64_t n; }; std::vector<E> model; auto cache = libCZI::CreateSubBlockCache(); std::string hist;
        auto mem = [&] { uint64_t s = 0; for (auto& e : model) s += e.n; return s; }; auto stat = [&] { auto s = cache->GetStatistics(ISubBlockCacheStatistics::kMemoryUsage | ISubBlockCacheStatistics::kElementsCount); MC_CHECK(s.memoryUsage == mem() && s.elementsCount == model.size(), hist, ": memory usage ", s.memoryUsage, ", ", s.elementsCount, " elements; expected ", mem(), ", ", model.size()); };
        for (int k = 0; k < 3; ++k)
        {
            const int q = k == 0 ? c.choose(8, "size") : c.choose(3, "size") * 3, t = k == 0 ? c.choose(6, "pixel type") : 2, mk = k == 0 ? c.choose(4, "mask") : k - 1, ix = k == 0 ? c.choose(5, "index") : c.choose(3, "index"); E e; e.i = idx[ix]; e.b = std::make_shared<SizedBitmap>(pts[t], sz[q][0], sz[q][1]); e.n = (uint64_t)sz[q][0] * sz[q][1] * bpp(pts[t]); static const uint32_t ms[][2] = { { 0, 0 }, { 9, 3 }, { 1u << 20, 1u << 20 }, { 7, 1u << 31 } }; if (mk) { e.m = std::make_shared<SizedMask>(ms[mk][0], ms[mk][1]); e.n += (uint64_t)((ms[mk][0] + 7) / 8) * ms[mk][1]; }
            hist += mc::cat("Add(", e.i, ", ", sz[q][0], "x", sz[q][1], ") "); for (size_t j = 0; j < model.size(); ++j) if (model[j].i == e.i) { model.erase(model.begin() + j); break; } model.push_back(e); cache->Add(e.i, { e.b, e.m }); c.step(); stat();
        }
        const int lim = c.choose(4, "limit: exactly what is held, one byte less, without the oldest, the youngest alone"); libCZI::ISubBlockCacheControl::PruneOptions p; p.maxSubBlockCount = M32; p.maxMemoryUsage = lim == 0 ? mem() : lim == 1 ? mem() - (mem() ? 1 : 0) : lim == 2 ? mem() - model.front().n : model.back().n; hist += mc::cat("Prune(", p.maxMemoryUsage, ")");
        cache->Prune(p); while (!model.empty() && mem() > p.maxMemoryUsage) model.erase(model.begin()); c.step(); stat(); for (int i : idx) { auto g = cache->Get(i); const E* e = nullptr; for (auto& x : model) if (x.i == i) e = &x; MC_CHECK(g.IsValid() == (e != nullptr) && (!e || (g.bitmap == e->b && g.mask == e->m)), hist, ": element ", i, " is wrong"); }
        c.state(mc::hashStr(hist)); c.outcome(mem());
    }
    void cacheHistories(mc::Ctx& c)
    {
        std::vector<int> ops; for (int i = 0; i < 3; ++i) for (int k = 0; k < (i ? 2 : 3); ++k) ops.push_back(Add0 + 4 * i + k); for (int i = 0; i < 3; ++i) ops.push_back(Get0 + i); for (int k = 0; k < 12; ++k) ops.push_back(Prune0 + k);
        auto cache = libCZI::CreateSubBlockCache(); CacheModel m; const int depth = c.thorough() ? 6 : 5; std::string hist; bool lastMutating = false;
        for (int i = 0; i < depth; ++i)
        {
            const int o = ops[i == 0 ? c.choose(7, "first (an Add)") : c.choose((int)ops.size(), "operation")]; hist += opName(o) + " "; const std::string r = doCache(*cache, o), w = m.apply(o); c.step();
            MC_CHECK(r == w, hist, ": gives '", r, "', expected '", w, "'"); lastMutating = o < Get0;
            for (int s = 1; s <= 3; ++s) { const std::string a = doCache(*cache, Stat0 + s), b = m.apply(Stat0 + s); MC_CHECK(a == b, hist, ": statistics are ", a, ", expected ", b); }
            c.state(m.hash());
        }
        (void)lastMutating;
        // which elements are left, in the order of use: evict one after the other
        while (!m.e.empty())
        {
            const size_t n = m.e.size() - 1; libCZI::ISubBlockCacheControl::PruneOptions p; p.maxMemoryUsage = M64; p.maxSubBlockCount = (uint32_t)n; const int evicted = m.e.front().idx; cache->Prune(p); m.e.erase(m.e.begin());
            const std::string a = doCache(*cache, Get0 + evicted); MC_CHECK(a == "none", hist, "then pruning to ", n, " elements: element ", evicted, " is the least recently used one, but still present");   // (a miss does not change the order)
            const std::string s = doCache(*cache, Stat0 + 3), t = m.apply(Stat0 + 3); MC_CHECK(s == t, hist, "then pruning to ", n, " elements: statistics are ", s, ", expected ", t);
        }
        c.outcome(m.hash());
    }
    // 'opsOf': operations of the threads; all schedules within the preemption bound
    void cacheConcurrent(mc::Ctx& c, const std::vector<std::vector<int>>& opsOf, const std::vector<int>& before, int preemptions)
    {
        auto cache = libCZI::CreateSubBlockCache(); CacheModel m; for (int o : before) { doCache(*cache, o); m.apply(o); }
        std::vector<std::vector<Call>> calls(opsOf.size()); std::vector<std::function<void()>> bodies;
        for (size_t t = 0; t < opsOf.size(); ++t) { calls[t].resize(opsOf[t].size()); bodies.push_back([&, t] { for (size_t k = 0; k < opsOf[t].size(); ++k) { Call& r = calls[t][k]; r.op = opsOf[t][k]; r.from = sched::now(); r.res = doCache(*cache, r.op); r.to = sched::now(); } }); }
        c.say([&](std::ostream& s) { for (int o : before) s << opName(o) << " "; for (auto& t : opsOf) { s << "| "; for (int o : t) s << opName(o) << " "; } });
        sched::run(c, bodies, preemptions);
        std::vector<Call> after; auto probe = [&](int o) { after.push_back({ o, 0, 0, doCache(*cache, o) }); };
        probe(Stat0 + 3); probe(Prune0 + 1); probe(Stat0 + 3); for (int i = 0; i < 3; ++i) probe(Get0 + i);
        checkLinearizable(m, calls, after, opName); uint64_t h = 3; for (auto& t : calls) for (auto& k : t) h = mc::mix(h, mc::hashStr(k.res)); for (auto& k : after) h = mc::mix(h, mc::hashStr(k.res)); c.outcome(h);
    }
    const std::vector<int>& befores(int k) { static const std::vector<std::vector<int>> b = { {}, { Add0 + 0 }, { Add0 + 1, Add0 + 4 }, { Add0 + 0, Add0 + 4 + 1, Add0 + 8 + 2 } }; return b[k]; }
    void cache2(mc::Ctx& c)
    {
        static const int ops[] = { Add0 + 0, Add0 + 1, Add0 + 4, Add0 + 8 + 2, Get0 + 0, Get0 + 1, Stat0 + 1, Stat0 + 2, Stat0 + 3, Prune0 + 0, Prune0 + 1, Prune0 + 5 }; const int n = 12;
        const auto& b = befores(c.choose(4, "before")); const int x1 = c.choose(n, "thread 0"), x2 = c.choose(n, "thread 0, second"), y1 = c.choose(n, "thread 1"); cacheConcurrent(c, { { ops[x1], ops[x2] }, { ops[y1] } }, b, 3);
    }
    void cache2x2(mc::Ctx& c)
    {
        static const int ops[] = { Add0 + 0, Add0 + 4 + 1, Get0 + 0, Get0 + 1, Stat0 + 3, Prune0 + 1, Add0 + 1, Stat0 + 1 }; const int n = c.thorough() ? 8 : 6;
        const auto& b = befores(c.choose(3, "before")); const int x1 = c.choose(n, "thread 0"), x2 = c.choose(n, "thread 0, second"), y1 = c.choose(n, "thread 1"), y2 = c.choose(n, "thread 1, second"); if (x1 * n + x2 > y1 * n + y2) throw mc::Prune(); cacheConcurrent(c, { { ops[x1], ops[x2] }, { ops[y1], ops[y2] } }, b, c.thorough() ? 3 : 2);
    }
    void cache3(mc::Ctx& c)
    {
        static const int ops[] = { Add0 + 0, Add0 + 1, Add0 + 4, Get0 + 0, Stat0 + 3, Prune0 + 1, Stat0 + 1, Get0 + 1 }; const int n = c.thorough() ? 8 : 6;
        const auto& b = befores(c.choose(3, "before")); const int x = c.choose(n, "thread 0"), y = c.choose(n, "thread 1"), z = c.choose(n, "thread 2"); if (x > y || y > z) throw mc::Prune(); cacheConcurrent(c, { { ops[x] }, { ops[y] }, { ops[z] } }, b, c.thorough() ? 3 : 2);
    }

    // ------------------------------------------------------------------ C24
    struct CountModel { int n = 0; std::string apply(int o) { if (o == 0) { ++n; return "ok"; } if (o == 1) { if (!n) return "error"; --n; return "ok"; } return std::to_string(n); } };
    std::string lockOp(int o) { return o == 0 ? "Lock" : o == 1 ? "Unlock" : "GetLockCount"; }
    void lockConcurrent(mc::Ctx& c)
    {
        const int which = c.choose(2, "bitmap"); const int threads = 2 + c.choose(2, "threads"); const int len = threads == 2 ? (c.thorough() ? 4 : 3) : c.thorough() ? 3 : 2; const int before = c.choose(2, "locked before");
        std::vector<std::vector<Call>> calls(threads); for (auto& t : calls) { t.resize(1 + c.choose(len, "number of calls")); for (auto& k : t) k.op = c.choose(3, "Lock/Unlock/GetLockCount"); }
        std::shared_ptr<libCZI::IBitmapData> b; std::shared_ptr<libCZI::IBitonalBitmapData> m;
        if (which == 0) { GuardBitmap g(testPic(PixelType::Gray8, 3, 2, 1)); b = libCZI::Utils::NearestNeighborResize(&g, 4, 2); } else { Mask k; k.w = 9; k.h = 4; k.bit.assign(36, 1); BitBitmap g(k); m = libCZI::BitonalBitmapOperations::Decimate(1, &g); }
        auto lock = [&] { return b ? b->Lock().ptrDataRoi : m->Lock().ptrData; }; auto unlock = [&] { b ? b->Unlock() : m->Unlock(); }; auto count = [&] { return b ? b->GetLockCount() : m->GetLockCount(); };
        void* mem = lock(); unlock(); CountModel model; for (int i = 0; i < before; ++i) { lock(); model.apply(0); }
        std::vector<std::function<void()>> bodies;
        for (int t = 0; t < threads; ++t) bodies.push_back([&, t] { for (auto& k : calls[t]) { k.from = sched::now(); if (k.op == 0) k.res = lock() == mem ? "ok" : "other memory"; else if (k.op == 1) { try { unlock(); k.res = "ok"; } catch (const std::logic_error&) { k.res = "error"; } } else k.res = std::to_string(count()); k.to = sched::now(); } });
        std::string err; std::exception_ptr other; try { sched::run(c, bodies, c.thorough() ? 3 : 2); } catch (const mc::Violation& e) { err = e.what(); } catch (...) { other = std::current_exception(); }
        std::vector<Call> after; after.push_back({ 2, 0, 0, std::to_string(count()) }); for (int i = count(); i > 0; --i) unlock(); for (int i = count(); i < 0; ++i) lock();   // (a bitmap destroyed while locked terminates the process)
        if (other) std::rethrow_exception(other); if (!err.empty()) mc::fail(err);
        checkLinearizable(model, calls, after, lockOp); uint64_t h = before; for (auto& t : calls) for (auto& k : t) h = mc::mix(h, mc::hashStr(k.res)); c.outcome(mc::mix(h, mc::hashStr(after[0].res)));
    }

    // ------------------------------------------------------------------ C14
    class PointStream : public libCZI::IStream
    {
    public:
        std::shared_ptr<const Bytes> mem; explicit PointStream(std::shared_ptr<const Bytes> b) : mem(std::move(b)) {}
        void Read(std::uint64_t offset, void* pv, std::uint64_t size, std::uint64_t* got) override
        {
            sched::point(6); uint64_t n = offset >= mem->size() ? 0 : std::min<uint64_t>(size, mem->size() - offset); if (n) memcpy(pv, mem->data() + offset, n); if (got) *got = n; sched::point(6);
        }
    };
    std::shared_ptr<const Bytes> document()
    {
        static std::shared_ptr<const Bytes> d; if (d) return d;
        auto st = std::make_shared<MemStream>(); auto w = libCZI::CreateCZIWriter(); libCZI::CDimBounds bounds; bounds.Set(DimensionIndex::C, 0, 2); bounds.Set(DimensionIndex::Z, 0, 1); w->Create(st, std::make_shared<libCZI::CCziWriterInfo>(guid(1), bounds));
        auto tile = [&](int ch, int x, int y, int lw, int pw, int m, int seed, int comp, bool mask)
        {
            Sb s; s.dims = { {DimensionIndex::C, ch}, {DimensionIndex::Z, 0} }; s.x = x; s.y = y; s.lw = s.lh = lw; setPic(s, testPic(PixelType::Gray8, pw, pw, seed)); s.mValid = true; s.m = m; if (mask) { Mask k; k.w = pw; k.h = pw; k.bit.resize(pw * pw); for (int i = 0; i < pw * pw; ++i) k.bit[i] = i % 3 != 0; setMask(s, k); }
            if (comp) { auto z = libCZI::ZstdCompress::CompressZStd0Alloc(pw, pw, pw, PixelType::Gray8, s.data.data(), nullptr); s.data.assign((const uint8_t*)z->GetPtr(), (const uint8_t*)z->GetPtr() + z->GetSizeOfData()); s.comp = 5; }
            supply(s, HowMem, [&](const auto& i) { w->SyncAddSubBlock(i); });
        };
        tile(0, 0, 0, 4, 4, 0, 1, 0, false); tile(0, 2, 2, 4, 4, 1, 2, 1, true); tile(1, 0, 0, 4, 4, 0, 3, 1, false); tile(0, 0, 0, 8, 4, 2, 4, 0, false);
        Att a; a.guid = guid(7); a.type = "DAT"; a.name = "Label"; a.data = Bytes(40, 7); w->SyncAddAttachment(attInfo(a));
        auto mb = w->GetPreparedMetadata(libCZI::PrepareMetadataInfo()); std::string xml = mb->GetXml(false); libCZI::WriteMetadataInfo mi; mi.Clear(); mi.szMetadata = xml.c_str(); mi.szMetadataSize = xml.size(); w->SyncWriteMetadata(mi); w->Close();
        d = std::make_shared<const Bytes>(*st->mem); return d;
    }
    struct Shared { std::shared_ptr<libCZI::ICZIReader> r; std::shared_ptr<libCZI::ISubBlockCache> cache; std::shared_ptr<libCZI::ISingleChannelTileAccessor> tile; std::shared_ptr<libCZI::ISingleChannelPyramidLayerTileAccessor> pyr; std::shared_ptr<libCZI::ISingleChannelScalingTileAccessor> scale; };
    const int NOPS = 18; const int opClose = NOPS;
    const char* const opNames[NOPS + 1] = { "ReadSubBlock(0)+bitmap", "ReadSubBlock(1)+bitmap", "ReadSubBlock(2) raw", "ReadAttachment", "ReadMetadata", "GetStatistics", "GetPyramidStatistics", "EnumerateSubBlocks", "EnumSubset", "TryGetSubBlockInfo", "EnumerateAttachments", "TileAccessor(cache)", "ScalingAccessor(cache)", "ScalingAccessor(mask, cache)", "PyramidAccessor", "ScalingAccessor(0.5)", "GetFileHeaderInfo+ArbitrarySubBlock", "own accessor", "Close" };
    std::string picText(libCZI::IBitmapData* b) { Pic p(b->GetPixelType(), b->GetWidth(), b->GetHeight()); libCZI::ScopedBitmapLockerP l{ b }; for (int y = 0; y < p.h; ++y) memcpy(p.at(0, y), (const uint8_t*)l.ptrDataRoi + (size_t)y * l.stride, (size_t)p.w * bpp(p.pt)); return p.text(); }
    std::string doRead(Shared& s, int o)
    {
        libCZI::CDimCoordinate plane; plane.Set(DimensionIndex::C, 0); plane.Set(DimensionIndex::Z, 0); std::ostringstream t;
        switch (o)
        {
        case 0: case 1: { auto b = s.r->ReadSubBlock(o); t << b->GetSubBlockInfo().mIndex << picText(b->CreateBitmap().get()); break; }
        case 2: { auto b = s.r->ReadSubBlock(2); size_t n; auto p = b->GetRawData(libCZI::ISubBlock::Data, &n); t << n << ":" << mc::hashBytes(p.get(), n); break; }
        case 3: { auto a = s.r->ReadAttachment(0); size_t n; auto p = a->GetRawData(&n); t << a->GetAttachmentInfo().name << n << ":" << mc::hashBytes(p.get(), n); break; }
        case 4: { auto m = s.r->ReadMetadataSegment(); auto md = m->CreateMetaFromMetadataSegment(); t << md->GetXml(); auto di = md->GetDocumentInfo(); t << (di->GetDimensionChannelsInfo() ? di->GetDimensionChannelsInfo()->GetChannelCount() : -1); break; }
        case 5: { auto x = s.r->GetStatistics(); t << x.subBlockCount << " " << x.boundingBox.x << " " << x.boundingBox.w << " " << x.boundingBoxLayer0Only.w << " " << x.minMindex << " " << x.maxMindex; break; }
        case 6: { auto x = s.r->GetPyramidStatistics(); for (auto& k : x.scenePyramidStatistics) { t << k.first << ":"; for (auto& l : k.second) t << (int)l.layerInfo.minificationFactor << "/" << (int)l.layerInfo.pyramidLayerNo << "/" << l.count << " "; } break; }
        case 7: s.r->EnumerateSubBlocks([&](int i, const libCZI::SubBlockInfo& x) { t << i << ":" << x.logicalRect.x << "," << x.physicalSize.w << "," << x.mIndex << " "; return true; }); break;
        case 8: { libCZI::IntRect roi{ 3, 3, 2, 2 }; s.r->EnumSubset(&plane, &roi, true, [&](int i, const libCZI::SubBlockInfo& x) { t << i << ":" << x.mIndex << " "; return true; }); break; }
        case 9: { libCZI::SubBlockInfo x; for (int i = 0; i < 5; ++i) t << s.r->TryGetSubBlockInfo(i, &x) << x.mIndex << " "; break; }
        case 10: { s.r->EnumerateAttachments([&](int i, const libCZI::AttachmentInfo& x) { t << i << x.name << " "; return true; }); t << s.r->GetAttachmentCount(); break; }
        case 11: { libCZI::ISingleChannelTileAccessor::Options p; p.Clear(); p.subBlockCache = s.cache; p.backGroundColor = { 0, 0, 0 }; t << picText(s.tile->Get(PixelType::Gray8, { 0, 0, 7, 7 }, &plane, &p).get()); break; }
        case 12: case 13: case 15: { libCZI::ISingleChannelScalingTileAccessor::Options p; p.Clear(); if (o != 15) p.subBlockCache = s.cache; p.onlyUseSubBlockCacheForCompressedData = false; p.maskAware = o == 13; p.backGroundColor = { 0, 0, 0 }; t << picText(s.scale->Get(PixelType::Gray8, { 0, 0, 8, 8 }, &plane, o == 15 ? 0.5f : 1.f, &p).get()); break; }
        case 14: { libCZI::ISingleChannelPyramidLayerTileAccessor::Options p; p.Clear(); p.backGroundColor = { 0, 0, 0 }; libCZI::ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo l; l.minificationFactor = 2; l.pyramidLayerNo = 1; t << picText(s.pyr->Get(PixelType::Gray8, { 0, 0, 8, 8 }, &plane, l, &p).get()); break; }
        case 16: { auto h = s.r->GetFileHeaderInfo(); const int a = h.majorVersion, b = h.minorVersion; libCZI::SubBlockInfo x; const bool ok = s.r->TryGetSubBlockInfoOfArbitrarySubBlockInChannel(1, x); t << a << b << ok << x.mIndex; break; }
        case 17: { auto a = s.r->CreateSingleChannelTileAccessor(); libCZI::ISingleChannelTileAccessor::Options p; p.Clear(); p.sortByM = true; p.backGroundColor = { 0, 0, 0 }; t << picText(a->Get(PixelType::Gray16, { 1, 1, 4, 4 }, &plane, &p).get()); break; }
        case opClose: s.r->Close(); t << "closed"; break;
        }
        return t.str();
    }
    Shared openShared(const std::shared_ptr<libCZI::IStream>& st)
    {
        Shared s; s.r = libCZI::CreateCZIReader(); s.r->Open(st); s.cache = libCZI::CreateSubBlockCache(); s.tile = s.r->CreateSingleChannelTileAccessor(); s.pyr = s.r->CreateSingleChannelPyramidLayerTileAccessor(); s.scale = s.r->CreateSingleChannelScalingTileAccessor(); return s;
    }
    std::vector<std::string>& alone()
    {
        static std::vector<std::string> v; if (!v.empty()) return v;
        for (int k = 0; k < 2; ++k) { v.clear(); for (int o = 0; o < NOPS; ++o) { Shared s = openShared(std::make_shared<PointStream>(document())); v.push_back(doRead(s, o)); } }
        return v;
    }
    void readConcurrent(mc::Ctx& c, const std::vector<std::vector<int>>& ops, int preemptions, const std::function<std::shared_ptr<libCZI::IStream>()>& stream)
    {
        auto& ref = alone(); Shared s = openShared(stream()); std::vector<std::vector<std::string>> res(ops.size()); std::vector<std::function<void()>> bodies; bool closes = false; for (auto& t : ops) for (int o : t) closes |= o == opClose;
        c.say([&](std::ostream& o) { for (auto& t : ops) { o << "| "; for (int k : t) o << opNames[k] << "; "; } });
        for (size_t t = 0; t < ops.size(); ++t) { res[t].resize(ops[t].size()); bodies.push_back([&, t] { for (size_t k = 0; k < ops[t].size(); ++k) { if (!closes) { res[t][k] = doRead(s, ops[t][k]); continue; } try { res[t][k] = doRead(s, ops[t][k]); } catch (const std::exception&) { res[t][k] = "error"; } } }); }
        sched::run(c, bodies, preemptions); uint64_t h = 1;
        for (size_t t = 0; t < ops.size(); ++t) for (size_t k = 0; k < ops[t].size(); ++k)
        {
            const int o = ops[t][k]; const std::string& r = res[t][k]; h = mc::mix(h, mc::hashStr(r));
            if (o == opClose) { MC_CHECK(r == "closed" || r == "error", "Close: ", r); continue; } if (closes && r == "error") continue;
            MC_CHECK(r == ref[o], opNames[o], " in thread ", t, " gives\n  ", r, "\ninstead of\n  ", ref[o]);
        }
        if (closes) { bool err = false; try { doRead(s, 0); } catch (const std::exception&) { err = true; } MC_CHECK(err, "reading after Close succeeds"); }
        else for (auto& t : ops) for (int o : t) MC_CHECK(doRead(s, o) == ref[o], opNames[o], " gives another result afterwards");
        c.outcome(h);
    }
    std::shared_ptr<libCZI::IStream> memStream() { return std::make_shared<PointStream>(document()); }
    void readPairs(mc::Ctx& c) { alone(); const int a = c.choose(NOPS, "thread 0"), b = c.choose(NOPS, "thread 1"); if (a > b) throw mc::Prune(); readConcurrent(c, { { a }, { b } }, c.thorough() ? 3 : 2, memStream); }
    void readTriples(mc::Ctx& c)
    {
        alone(); static const int o[] = { 1, 3, 4, 7, 11, 13, 0, 2, 6, 12 }; const int n = c.thorough() ? 10 : 6; const int x = c.choose(n, "thread 0"), y = c.choose(n, "thread 1"), z = c.choose(n, "thread 2"); if (x > y || y > z) throw mc::Prune(); readConcurrent(c, { { o[x] }, { o[y] }, { o[z] } }, c.thorough() ? 2 : 1, memStream);
    }
    void readTwoEach(mc::Ctx& c)
    {
        alone(); static const int o[] = { 1, 4, 11, 13, 12, 6, 3 }; const int n = c.thorough() ? 7 : 4; const int x = c.choose(n, "thread 0"), x2 = c.choose(n, "thread 0, second"), y = c.choose(n, "thread 1"), y2 = c.choose(n, "thread 1, second"); if (x * n + x2 > y * n + y2) throw mc::Prune(); readConcurrent(c, { { o[x], o[x2] }, { o[y], o[y2] } }, c.thorough() ? 2 : 1, memStream);
    }
    void readClose(mc::Ctx& c) { alone(); const int a = c.choose(NOPS, "thread 0"), k = c.choose(2, "also a third thread"); std::vector<std::vector<int>> o{ { a }, { opClose } }; if (k) o.push_back({ c.choose(2, "third") ? opClose : 1 }); readConcurrent(c, o, k && !c.thorough() ? 1 : c.thorough() ? 3 : 2, memStream); }
    struct Scratch { pid_t root = getpid(); std::string prefix = mc::cat("vconc", root, "_"); ~Scratch() { if (getpid() != root) return; std::vector<std::string> v; if (DIR* dd = opendir("/tmp")) { while (auto e = readdir(dd)) if (!strncmp(e->d_name, prefix.c_str(), prefix.size())) v.push_back(std::string("/tmp/") + e->d_name); closedir(dd); } for (auto& x : v) unlink(x.c_str()); } } scratch;
    void readFile(mc::Ctx& c)
    {
        alone(); static const char* const cls[] = { "standard", "c_runtime_file_inputstream", "pread_file_inputstream" }; const int k = c.choose(3, "stream class"), a = c.choose(5, "thread 0"), b = c.choose(5, "thread 1"); static const int o[] = { 0, 1, 3, 4, 13 }; if (a > b) throw mc::Prune();
        // (the files of all worker processes are removed when the main process ends)
        static std::wstring path; if (path.empty()) { std::string n = "/tmp/" + scratch.prefix + "XXXXXX"; const int f = mkstemp(&n[0]); auto d = document(); if (f < 0 || write(f, d->data(), d->size()) != (ssize_t)d->size()) mc::fail("harness: cannot write the scratch file"); close(f); path.assign(n.begin(), n.end()); }
        (void)cls;
        readConcurrent(c, { { o[a] }, { o[b] } }, c.thorough() ? 3 : 2, [&]() -> std::shared_ptr<libCZI::IStream> { if (k == 0) return libCZI::CreateStreamFromFile(path.c_str()); libCZI::StreamsFactory::CreateStreamInfo i; i.class_name = cls[k]; auto s = libCZI::StreamsFactory::CreateStream(i, path); if (!s) throw mc::Prune(); return s; });
    }

    static struct Reg { Reg() { using namespace mc;
        add({ "C13", "cache_sizes", "3 additions of bitmaps with 8 sizes up to 1.6e14 pixels x 6 pixel types x 4 masks x 5 indices from the whole range (then 3 x 3 each), then pruning to 4 limits; statistics and contents", cacheSizes });
        add({ "C13", "cache_histories", "all sequences of 5 (thorough 6) operations: 7 Add, 3 Get, 12 Prune (by count, memory, both, none); after each one all statistics, at the end the order of eviction", cacheHistories });
        add({ "C13", "cache_2_threads", "4 initial contents x 12 x 12 operations in one thread, 12 in the other; all schedules with at most 3 preemptions (locks and atomics)", cache2 });
        add({ "C13", "cache_2x2", "3 initial contents x 2 threads with 2 of 6 (thorough 8) operations each; at most 2 (3) preemptions", cache2x2 });
        add({ "C13", "cache_3_threads", "3 initial contents x 3 threads with one of 6 (8) operations each; at most 2 (3) preemptions", cache3 });
        add({ "C14", "read_pairs", "every pair of 18 operations on one reader; all schedules with at most 2 (thorough 3) preemptions (stream accesses, locks, atomics); races", readPairs });
        add({ "C14", "read_triples", "every combination of 6 (10) operations in 3 threads; at most 1 (2) preemptions", readTriples });
        add({ "C14", "read_two_each", "2 threads with 2 of 4 (7) operations each; at most 1 (2) preemptions", readTwoEach });
        add({ "C14", "read_close", "each operation against Close; result as without it or a reported error; at most 2 (3) preemptions", readClose });
        add({ "C14", "read_file", "pairs of 5 operations through each stream class for files; at most 2 (3) preemptions", readFile });
        add({ "C24", "lock_concurrent", "2 threads with up to 3 (4), or 3 threads with up to 2 (3) calls of Lock/Unlock/GetLockCount; at most 2 (3) preemptions", lockConcurrent });
    } } reg;
}
