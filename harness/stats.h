// Reference computation of document statistics from a set of sub-blocks.
#pragma once
#include "czi.h"
#include <climits>
#include <cmath>
namespace cz
{
    struct Box { bool valid = false; int64_t x0 = 0, y0 = 0, x1 = 0, y1 = 0;
        void add(const Sb& s) { int64_t a = s.x, b = s.y, c = a + s.lw, d = b + s.lh; if (!valid) { x0 = a; y0 = b; x1 = c; y1 = d; valid = true; } else { x0 = std::min(x0, a); y0 = std::min(y0, b); x1 = std::max(x1, c); y1 = std::max(y1, d); } }
        bool same(const libCZI::IntRect& r) const { if (!valid) return !r.IsValid(); return r.IsValid() && r.x == x0 && r.y == y0 && r.w == x1 - x0 && r.h == y1 - y0; }
        std::string str() const { return valid ? mc::cat("(", x0, ",", y0, ",", x1 - x0, ",", y1 - y0, ")") : std::string("invalid"); } };
    inline std::string rectStr(const libCZI::IntRect& r) { return mc::cat("(", r.x, ",", r.y, ",", r.w, ",", r.h, ")"); }
    struct RefStats { int count = 0; Box all, l0; std::map<int, std::pair<int, int>> dims; bool m = false; int mMin = 0, mMax = 0; std::map<int, std::pair<Box, Box>> scenes; };
    inline RefStats refStats(const std::vector<Sb>& v)
    {
        RefStats r; r.count = (int)v.size();
        for (auto& s : v)
        {
            r.all.add(s); if (s.layer0()) r.l0.add(s);
            for (auto& d : s.dims) { auto it = r.dims.find((int)d.first); if (it == r.dims.end()) r.dims[(int)d.first] = { d.second, d.second }; else { it->second.first = std::min(it->second.first, d.second); it->second.second = std::max(it->second.second, d.second); } }
            if (s.mValid) { if (!r.m) { r.m = true; r.mMin = r.mMax = s.m; } else { r.mMin = std::min(r.mMin, s.m); r.mMax = std::max(r.mMax, s.m); } }
            if (s.hasDim(DimensionIndex::S)) { auto& e = r.scenes[s.dim(DimensionIndex::S, 0)]; e.first.add(s); if (s.layer0()) e.second.add(s); }
        }
        return r;
    }
    inline std::string diffStats(const RefStats& e, const libCZI::SubBlockStatistics& s)
    {
        if (s.subBlockCount != e.count) return mc::cat("sub-block count ", s.subBlockCount, " instead of ", e.count);
        if (!e.all.same(s.boundingBox)) return mc::cat("bounding box ", rectStr(s.boundingBox), " instead of ", e.all.str());
        if (!e.l0.same(s.boundingBoxLayer0Only)) return mc::cat("layer-0 bounding box ", rectStr(s.boundingBoxLayer0Only), " instead of ", e.l0.str());
        for (int d = (int)DimensionIndex::MinDim; d <= (int)DimensionIndex::MaxDim; ++d)
        {
            int st = 0, sz = 0; const bool has = s.dimBounds.TryGetInterval((DimensionIndex)d, &st, &sz); auto it = e.dims.find(d);
            if (has != (it != e.dims.end())) return mc::cat("bounds of dimension ", libCZI::Utils::DimensionToChar((DimensionIndex)d), has ? " are present" : " are missing");
            if (has && (st != it->second.first || sz != it->second.second - it->second.first + 1)) return mc::cat("bounds of dimension ", libCZI::Utils::DimensionToChar((DimensionIndex)d), " start ", st, " size ", sz, " instead of ", it->second.first, "..", it->second.second);
        }
        if (s.IsMIndexValid() != e.m || (e.m && (s.minMindex != e.mMin || s.maxMindex != e.mMax))) return mc::cat("M-index range ", s.minMindex, "..", s.maxMindex, e.m ? mc::cat(" instead of ", e.mMin, "..", e.mMax) : " instead of none");
        if (s.sceneBoundingBoxes.size() != e.scenes.size()) return mc::cat(s.sceneBoundingBoxes.size(), " scenes instead of ", e.scenes.size());
        for (auto& p : e.scenes)
        {
            auto it = s.sceneBoundingBoxes.find(p.first); if (it == s.sceneBoundingBoxes.end()) return mc::cat("scene ", p.first, " is missing");
            if (!p.second.first.same(it->second.boundingBox)) return mc::cat("bounding box of scene ", p.first, " is ", rectStr(it->second.boundingBox), " instead of ", p.second.first.str());
            if (!p.second.second.same(it->second.boundingBoxLayer0)) return mc::cat("layer-0 bounding box of scene ", p.first, " is ", rectStr(it->second.boundingBoxLayer0), " instead of ", p.second.second.str());
        }
        return "";
    }
    // scene -> (factor, layer) -> count
    using RefPyr = std::map<int, std::map<std::pair<int, int>, int>>;
    inline std::pair<int, int> layerOf(const Sb& s)
    {
        if (s.layer0()) return { 0, 0 };
        const double f = s.pw > s.ph ? double(s.lw) / s.pw : double(s.lh) / s.ph;
        static const double t2[][2] = { {2,.1},{4,.2},{8,.4},{16,.8},{32,1},{64,1},{128,1},{256,2},{512,4},{1024,10} }, t3[][2] = { {3,.1},{9,.2},{27,.8},{81,1.5},{243,2},{729,5},{2187,15} };
        for (int i = 0; i < 10; ++i) if (f >= t2[i][0] - t2[i][1] && f <= t2[i][0] + t2[i][1]) return { 2, i + 1 };
        for (int i = 0; i < 7; ++i) if (f >= t3[i][0] - t3[i][1] && f <= t3[i][0] + t3[i][1]) return { 3, i + 1 };
        return { 255, 255 };
    }
    inline RefPyr refPyramid(const std::vector<Sb>& v) { RefPyr r; for (auto& s : v) ++r[s.dim(DimensionIndex::S, INT_MAX)][layerOf(s)]; return r; }
    inline std::string diffPyramid(const RefPyr& e, const libCZI::PyramidStatistics& s)
    {
        if (s.scenePyramidStatistics.size() != e.size()) return mc::cat(s.scenePyramidStatistics.size(), " scenes instead of ", e.size());
        for (auto& p : e)
        {
            auto it = s.scenePyramidStatistics.find(p.first); if (it == s.scenePyramidStatistics.end()) return mc::cat("scene ", p.first, " is missing");
            std::map<std::pair<int, int>, int> got; double last = -1;
            for (auto& l : it->second)
            {
                if (!got.emplace(std::make_pair((int)l.layerInfo.minificationFactor, (int)l.layerInfo.pyramidLayerNo), l.count).second) return mc::cat("scene ", p.first, " lists a layer twice");
                double o = l.layerInfo.IsLayer0() ? 0 : l.layerInfo.IsNotIdentifiedAsPyramidLayer() ? 1e18 : std::pow((double)l.layerInfo.minificationFactor, (double)l.layerInfo.pyramidLayerNo);
                if (o < last) return mc::cat("layers of scene ", p.first, " are not in ascending order"); last = o;
            }
            if (got != p.second) { std::string r = mc::cat("scene ", p.first, " layers"); for (auto& g : got) r += mc::cat(" ", g.first.first, "^", g.first.second, ":", g.second); r += " instead of"; for (auto& g : p.second) r += mc::cat(" ", g.first.first, "^", g.first.second, ":", g.second); return r; }
        }
        return "";
    }
}
