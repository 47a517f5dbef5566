// Shared by the composition harnesses: documents made of tiles, accessors, and the reference picture.
#pragma once
#include "bmp.h"

namespace cp
{
    using namespace cz; using namespace bm; using D = DimensionIndex;
    struct Tile { Sb sb; bool hasMask = false; Mask mask; };
    struct Scene { std::vector<Tile> tiles; };

    inline std::shared_ptr<libCZI::ICZIReader> open(const std::vector<Tile>& tiles)
    {
        Doc d; d.guid = guid(1); for (auto& t : tiles) d.sbs.push_back(t.sb);
        auto st = std::make_shared<MemStream>(); auto w = libCZI::CreateCZIWriter(); w->Create(st, std::make_shared<libCZI::CCziWriterInfo>(d.guid));
        for (auto& s : d.sbs) supply(s, HowMem, [&](const auto& i) { w->SyncAddSubBlock(i); }); w->Close();
        auto r = libCZI::CreateCZIReader(); r->Open(std::make_shared<MemStream>(inOrderOfAddition(*st->mem))); return r;
    }
    // stores the pixels of a (so far uncompressed) tile zstd0-compressed; the reference keeps the plain pixels in 'plain'
    struct Rect { int x, y, w, h; };
    inline bool isect(const Rect& r, const Sb& s) { return (int64_t)r.x < (int64_t)s.x + s.lw && (int64_t)s.x < (int64_t)r.x + r.w && (int64_t)r.y < (int64_t)s.y + s.lh && (int64_t)s.y < (int64_t)r.y + r.h; }

    struct Layer { const Pic* pic; int x, y; const Mask* mask; bool mValid; int m; };
    // all orders compatible with ascending M (tiles without M and equal M may be anywhere), or all orders if !sorted
    inline void orders(const std::vector<Layer>& l, bool sorted, const std::function<bool(const std::vector<int>&)>& f)
    {
        std::vector<int> p(l.size()); for (size_t i = 0; i < p.size(); ++i) p[i] = (int)i;
        do
        {
            bool ok = true;
            if (sorted) for (size_t i = 0; i < p.size() && ok; ++i) for (size_t j = i + 1; j < p.size(); ++j) if (l[p[i]].mValid && l[p[j]].mValid && l[p[i]].m > l[p[j]].m) { ok = false; break; }
            if (ok && f(p)) return;
        } while (std::next_permutation(p.begin(), p.end()));
    }
    // checks 'got' against painting the layers over 'base'; with 'border', pixels on the edge of the visible part of the topmost tile may be black or the tile's
    inline void checkPicture(const Pic& base, const std::vector<Layer>& l, bool sorted, const Pic& got, bool border, const std::function<std::string()>& what)
    {
        bool found = false; std::string first;
        orders(l, sorted, [&](const std::vector<int>& p)
        {
            Pic want = base; std::vector<uint8_t> edge((size_t)base.w * base.h, 0);
            for (int i : p)
            {
                paint(want, *l[i].pic, l[i].x, l[i].y, l[i].mask);
                if (border)
                {
                    const int64_t x0 = std::max(0, l[i].x), y0 = std::max(0, l[i].y), x1 = std::min<int64_t>(base.w, (int64_t)l[i].x + l[i].pic->w) - 1, y1 = std::min<int64_t>(base.h, (int64_t)l[i].y + l[i].pic->h) - 1;
                    for (int64_t y = y0; y <= y1; ++y) for (int64_t x = x0; x <= x1; ++x) edge[y * base.w + x] = x == x0 || y == y0 || x == x1 || y == y1;
                }
            }
            bool same = want.pt == got.pt && want.w == got.w && want.h == got.h;
            if (same && border) for (int y = 0; y < want.h; ++y) for (int x = 0; x < want.w; ++x) if (edge[(size_t)y * base.w + x]) { bool black = true; for (int k = 0; k < bpp(got.pt); ++k) black &= got.at(x, y)[k] == 0; if (black) memset(want.at(x, y), 0, bpp(want.pt)); }
            if (same && want == got) { found = true; return true; }
            if (first.empty()) first = diff(want, got);
            return false;
        });
        if (!found) mc::fail(what() + ": " + first);
    }
    inline bool isBlackBorderPossible(PixelType, PixelType) { return true; }
}
