// C23: stream implementations. All bounded sequences of reads and writes on every stream implementation which the public interface creates are
// compared with a model of the file; the system calls underneath are intercepted (link-time wrapping; C-runtime files through a cookie which
// behaves like the C library's own) so that every position of a partial, interrupted or failing call is enumerated. The http stream runs
// against a server in this process, whose way of answering is enumerated.
#include "czi.h"
#include "httpd.h"
#include <arpa/inet.h>
#include <atomic>
#include <cerrno>
#include <condition_variable>
#include <cstdarg>
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <mutex>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>

// ---------------------------------------------------------------------------------------------------------------- system calls
#define SAYP(c, x) (c).say([&](std::ostream& os_) { os_ << (x); })
namespace sys
{
    enum Fault { Full, One, AllButOne, Intr, Eio, Enospc };
    mc::Ctx* ctx = nullptr;           // set: calls may deviate
    bool cookies = false;             // fopen yields cookie streams
    bool failed = false;              // an error other than an interruption was delivered
    bool anyFault = false;
    bool openFaults = false;
    Fault pick(size_t n, bool write)
    {
        if (!ctx || !n) return Full; std::vector<Fault> alt; if (n > 1) alt.push_back(One); if (n > 2) alt.push_back(AllButOne); alt.push_back(Intr); alt.push_back(Eio); if (write) alt.push_back(Enospc);
        const int k = ctx->deviate((int)alt.size() + 1); if (k == 0) return Full; anyFault = true; const Fault f = alt[k - 1]; SAYP(*ctx, mc::cat("   system call (", write ? "write " : "read ", n, " bytes): ", f == One ? "completes with one byte" : f == AllButOne ? "completes without the last byte" : f == Intr ? "interrupted" : f == Eio ? "I/O error" : "no space"));
        if (f == Eio || f == Enospc) failed = true; return f;
    }
}
extern "C"
{
    ssize_t __real_pread64(int, void*, size_t, off64_t); ssize_t __real_pwrite64(int, const void*, size_t, off64_t); ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t);
    FILE* __real_fopen64(const char*, const char*); int __real_open64(const char*, int, ...);
    static ssize_t rd(size_t n, const std::function<ssize_t(size_t)>& f) { switch (sys::pick(n, false)) { case sys::Intr: errno = EINTR; return -1; case sys::Eio: errno = EIO; return -1; case sys::One: return f(1); case sys::AllButOne: return f(n - 1); default: return f(n); } }
    static ssize_t wr(size_t n, const std::function<ssize_t(size_t)>& f) { switch (sys::pick(n, true)) { case sys::Intr: errno = EINTR; return -1; case sys::Eio: errno = EIO; return -1; case sys::Enospc: errno = ENOSPC; return -1; case sys::One: return f(1); case sys::AllButOne: return f(n - 1); default: return f(n); } }
    ssize_t __wrap_pread64(int fd, void* p, size_t n, off64_t o) { return rd(n, [&](size_t k) { return __real_pread64(fd, p, k, o); }); }
    ssize_t __wrap_pread(int fd, void* p, size_t n, off_t o) { return rd(n, [&](size_t k) { return __real_pread64(fd, p, k, o); }); }
    ssize_t __wrap_pwrite64(int fd, const void* p, size_t n, off64_t o) { return wr(n, [&](size_t k) { return __real_pwrite64(fd, p, k, o); }); }
    ssize_t __wrap_pwrite(int fd, const void* p, size_t n, off_t o) { return wr(n, [&](size_t k) { return __real_pwrite64(fd, p, k, o); }); }
    ssize_t __wrap_read(int fd, void* p, size_t n) { return rd(n, [&](size_t k) { return __real_read(fd, p, k); }); }
    ssize_t __wrap_write(int fd, const void* p, size_t n) { return wr(n, [&](size_t k) { return __real_write(fd, p, k); }); }
    static bool openFault() { if (!sys::ctx || !sys::openFaults) return false; const int k = sys::ctx->deviate(3); if (!k) return false; sys::anyFault = true; SAYP(*sys::ctx, k == 1 ? "   opening: too many open files" : "   opening: permission denied"); errno = k == 1 ? EMFILE : EACCES; return true; }
    int __wrap_open64(const char* n, int fl, ...) { va_list a; va_start(a, fl); const mode_t m = (mode_t)va_arg(a, int); va_end(a); if (openFault()) return -1; return __real_open64(n, fl, m); }
    int __wrap_open(const char* n, int fl, ...) { va_list a; va_start(a, fl); const mode_t m = (mode_t)va_arg(a, int); va_end(a); if (openFault()) return -1; return __real_open64(n, fl, m); }
    static ssize_t ckRead(void* c, char* p, size_t n) { const int fd = (int)(intptr_t)c; return rd(n, [&](size_t k) { return __real_read(fd, p, k); }); }
    static ssize_t ckWrite(void* c, const char* p, size_t n) { const int fd = (int)(intptr_t)c; size_t d = 0; while (d < n) { const ssize_t r = wr(n - d, [&](size_t k) { return __real_write(fd, p + d, k); }); if (r < 0) break; d += r; } return d; }   // as the C library does
    static int ckSeek(void* c, off64_t* o, int w) { const off64_t r = lseek64((int)(intptr_t)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
    static int ckClose(void* c) { return close((int)(intptr_t)c); }
    FILE* __wrap_fopen64(const char* n, const char* m)
    {
        if (openFault()) return nullptr; if (!sys::cookies) return __real_fopen64(n, m);
        FILE* f = __real_fopen64(n, m); if (!f) return nullptr; const int fd = dup(fileno(f)); fclose(f);      // the C library interprets the mode
        cookie_io_functions_t io = { ckRead, ckWrite, ckSeek, ckClose }; std::string mm; for (const char* q = m; *q; ++q) if (strchr("rwa+b", *q)) mm += *q; return fopencookie((void*)(intptr_t)fd, mm.c_str(), io);
    }
    FILE* __wrap_fopen(const char* n, const char* m) { return __wrap_fopen64(n, m); }
}

namespace
{
    using namespace libCZI; using std::string; using std::vector; using std::shared_ptr;

    // ------------------------------------------------------------------ scratch directory (one per process)
    void removeDir(const string& d) { if (DIR* dd = opendir(d.c_str())) { while (auto e = readdir(dd)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) { const string p = d + "/" + e->d_name; if (unlink(p.c_str())) rmdir(p.c_str()); } closedir(dd); } rmdir(d.c_str()); }
    // directories of all worker processes are removed when the main process ends
    struct Scratch { pid_t root = getpid(); string prefix = mc::cat("vstream", root, "_"); ~Scratch() { if (getpid() != root) return; vector<string> v; if (DIR* dd = opendir("/tmp")) { while (auto e = readdir(dd)) if (!strncmp(e->d_name, prefix.c_str(), prefix.size())) v.push_back(string("/tmp/") + e->d_name); closedir(dd); } for (auto& x : v) removeDir(x); } } scratch;
    const string& dir()
    {
        static string d; static pid_t owner = 0;
        if (owner != getpid()) { string n = "/tmp/" + scratch.prefix + "XXXXXX"; if (!mkdtemp(&n[0])) mc::fail("harness: no scratch directory"); d = n; owner = getpid(); }
        return d;
    }
    std::wstring wide(const string& s) { std::wstring w; size_t i = 0; while (i < s.size()) { unsigned char c = s[i]; unsigned v; int k; if (c < 0x80) { v = c; k = 0; } else if (c < 0xE0) { v = c & 31; k = 1; } else if (c < 0xF0) { v = c & 15; k = 2; } else { v = c & 7; k = 3; } ++i; while (k--) v = v << 6 | (s[i++] & 63); w += (wchar_t)v; } return w; }
    uint8_t fileByte(uint64_t i) { return (uint8_t)(i * 31 + i / 251 + 17); }
    void put(const string& p, uint64_t n) { FILE* f = __real_fopen64(p.c_str(), "wb"); if (!f) mc::fail("harness: cannot write the scratch file"); for (uint64_t i = 0; i < n; ++i) fputc(fileByte(i), f); fclose(f); }

    // ------------------------------------------------------------------ the model of a file
    struct Model
    {
        uint64_t size = 0, maxSize = 0; vector<int> low; std::map<uint64_t, int> high;      // -1: any value; maxSize > size after a failed write
        static const uint64_t L = 1 << 16;
        void init(uint64_t n) { size = maxSize = n; low.assign(L, -1); for (uint64_t i = 0; i < n; ++i) low[i] = fileByte(i); }
        int get(uint64_t i) const { if (i < L) return low[i]; auto e = high.find(i); return e == high.end() ? -1 : e->second; }
        void set(uint64_t i, int v) { if (i < L) low[i] = v; else high[i] = v; }
        void write(uint64_t o, const vector<uint8_t>& d) { if (d.empty()) return; for (size_t i = 0; i < d.size(); ++i) set(o + i, d[i]); size = std::max(size, o + d.size()); maxSize = std::max(maxSize, size); }
        void torn(uint64_t o, const vector<uint8_t>& d) { for (size_t i = 0; i < d.size(); ++i) if (get(o + i) != d[i]) set(o + i, -1); if (!d.empty()) maxSize = std::max(maxSize, o + d.size()); }
        uint64_t h() const { uint64_t x = mc::mix(size, maxSize); for (uint64_t i = 0; i < std::min(maxSize, L); ++i) x = x * 1099511628211ull + (uint64_t)(low[i] + 1); for (auto& e : high) x = mc::mix(mc::mix(x, e.first), e.second); return x; }
    };
    void compareFile(const string& p, Model& m, const char* when)
    {
        struct stat64 st; MC_CHECK(stat64(p.c_str(), &st) == 0, when, ": the file is gone"); MC_CHECK((uint64_t)st.st_size >= m.size && (uint64_t)st.st_size <= m.maxSize, when, ": the file has ", st.st_size, " bytes, ", m.size, m.maxSize != m.size ? mc::cat(" to ", m.maxSize) : string(), " were expected");
        const int fd = __real_open64(p.c_str(), O_RDONLY); vector<uint8_t> b(std::min<uint64_t>(st.st_size, Model::L)); if (__real_pread64(fd, b.data(), b.size(), 0) != (ssize_t)b.size()) { close(fd); mc::fail("harness: cannot read back"); }
        string err; for (uint64_t i = 0; i < b.size() && err.empty(); ++i) if (m.low[i] >= 0 && m.low[i] != b[i]) err = mc::cat(when, ": the file has ", (int)b[i], " at ", i, ", it should be ", m.low[i]);
        for (auto& e : m.high) { uint8_t x = 0; if (!err.empty()) break; if (e.second >= 0 && e.first < (uint64_t)st.st_size && (__real_pread64(fd, &x, 1, e.first) != 1 || x != e.second)) err = mc::cat(when, ": the file has ", (int)x, " at ", e.first, ", it should be ", e.second); }
        close(fd); if (!err.empty()) mc::fail(err);
    }

    // ------------------------------------------------------------------ implementations
    struct Open { shared_ptr<IStream> in; shared_ptr<IOutputStream> out; };
    enum Kind { DefaultWide, DefaultUtf8, FactoryPreadUtf8, FactoryPreadWide, FactoryCrtUtf8, FactoryCrtWide, FactoryDefaultUtf8, Memory, MemoryAttachment, InOut, OutNew, OutOver, OutUtf8, KINDS };
    const char* kindName[] = { "CreateStreamFromFile", "CreateDefaultStreamForFile(char)", "pread stream", "pread stream (wide)", "C-runtime stream", "C-runtime stream (wide)", "CreateDefaultStreamForFile(wchar_t)", "memory stream", "stream of an attachment", "input-output stream", "output stream", "output stream (overwrite)", "output stream (UTF8)" };
#if defined(STREAM_CRT_ONLY)
    const bool crtOnly = true;
#else
    const bool crtOnly = false;
#endif
    bool canRead(int k) { return k <= InOut; } bool canWrite(int k) { return k >= InOut; }
    bool available(int k) { if (k != FactoryPreadUtf8 && k != FactoryPreadWide) return true; for (int i = 0; i < StreamsFactory::GetStreamClassesCount(); ++i) { StreamsFactory::StreamClassInfo s; if (StreamsFactory::GetStreamInfoForClass(i, s) && s.class_name == "pread_file_inputstream") return true; } return false; }
    Open openStream(int k, const string& p)
    {
        Open o; StreamsFactory::CreateStreamInfo si; const auto w = wide(p);
        switch (k)
        {
        case DefaultWide: o.in = CreateStreamFromFile(w.c_str()); break; case DefaultUtf8: o.in = StreamsFactory::CreateDefaultStreamForFile(p.c_str()); break; case FactoryDefaultUtf8: o.in = StreamsFactory::CreateDefaultStreamForFile(w.c_str()); break;
        case FactoryPreadUtf8: si.class_name = "pread_file_inputstream"; o.in = StreamsFactory::CreateStream(si, p); break; case FactoryPreadWide: si.class_name = "pread_file_inputstream"; o.in = StreamsFactory::CreateStream(si, w); break;
        case FactoryCrtUtf8: si.class_name = "c_runtime_file_inputstream"; o.in = StreamsFactory::CreateStream(si, p); break; case FactoryCrtWide: si.class_name = "c_runtime_file_inputstream"; o.in = StreamsFactory::CreateStream(si, w); break;
        case InOut: { auto s = CreateInputOutputStreamForFile(w.c_str()); o.in = s; o.out = s; break; }
        case OutNew: o.out = CreateOutputStreamForFile(w.c_str(), false); break; case OutOver: o.out = CreateOutputStreamForFile(w.c_str(), true); break; case OutUtf8: o.out = CreateOutputStreamForFileUtf8(p.c_str(), true); break;
        case MemoryAttachment:
        {   // the stream keeps the data alive, not the attachment object
            struct Att : IAttachment { AttachmentInfo i; shared_ptr<const void> d; size_t n; const AttachmentInfo& GetAttachmentInfo() const override { return i; } void DangerousGetRawData(const void*& p, size_t& s) const override { p = d.get(); s = n; } shared_ptr<const void> GetRawData(size_t* s) override { if (s) *s = n; return d; } };
            struct stat st; stat(p.c_str(), &st); shared_ptr<uint8_t> b((uint8_t*)malloc(st.st_size ? st.st_size : 1), free); for (off_t i = 0; i < st.st_size; ++i) b.get()[i] = fileByte(i); auto a = std::make_unique<Att>(); a->d = b; a->n = st.st_size; b.reset(); o.in = CreateStreamFromMemory(a.get()); break;
        }
        case Memory: { struct stat st; stat(p.c_str(), &st); shared_ptr<uint8_t> b((uint8_t*)malloc(st.st_size ? st.st_size : 1), free); for (off_t i = 0; i < st.st_size; ++i) b.get()[i] = fileByte(i); o.in = CreateStreamFromMemory(b, st.st_size); break; }
        }
        MC_CHECK(o.in || o.out, kindName[k], ": no stream was created"); return o;
    }

    void doRead(mc::Ctx& c, const Open& s, Model& m, uint64_t off, uint64_t n, bool wantCount)
    {
        SAYP(c, mc::cat("read ", n, " bytes at ", off)); shared_ptr<uint8_t> buf((uint8_t*)malloc(n ? n : 1), free); memset(buf.get(), 0xA5, n); uint64_t got = 0xDEADBEEFDEADull; sys::failed = false; string ex;
        try { s.in->Read(off, buf.get(), n, wantCount ? &got : nullptr); } catch (const mc::Violation&) { throw; } catch (const std::exception& e) { ex = e.what(); if (ex.empty()) ex = "?"; }
        if (!ex.empty()) { MC_CHECK(sys::failed || off > 1ull << 43 /* beyond what a file system can hold */, "reading ", n, " bytes at ", off, " of a file with ", m.size, " bytes failed: ", ex); c.outcome(mc::hashStr("read-error")); return; }
        const char* note = sys::failed ? " (the operating system had reported an error)" : "";   // succeeding all the same is fine if the data is right
        if (m.size == m.maxSize) { const uint64_t expect = off >= m.size ? 0 : std::min(n, m.size - off); MC_CHECK(!wantCount || got == expect, "reading ", n, " bytes at ", off, " of a file with ", m.size, " bytes reports ", got, " bytes, expected ", expect, note); got = expect; }
        else { MC_CHECK(!wantCount || got <= n, "more bytes reported than requested"); if (!wantCount) got = 0; }
        for (uint64_t i = 0; i < got; ++i) { const int v = m.get(off + i); MC_CHECK(v < 0 || v == buf.get()[i], "reading ", n, " bytes at ", off, ": byte ", i, " is ", (int)buf.get()[i], ", the file has ", v, note); }
        c.outcome(mc::hashBytes(buf.get(), std::min(got, n)));
    }
    void doWrite(mc::Ctx& c, const Open& s, Model& m, uint64_t off, uint64_t n, bool wantCount, int salt)
    {
        SAYP(c, mc::cat("write ", n, " bytes at ", off)); vector<uint8_t> d(n); for (uint64_t i = 0; i < n; ++i) d[i] = (uint8_t)(i * 7 + 101 * (salt + 1) + i / 200); shared_ptr<uint8_t> buf((uint8_t*)malloc(n ? n : 1), free); memcpy(buf.get(), d.data(), n); uint64_t done = 0xDEADBEEFDEADull; sys::failed = false; string ex;
        try { s.out->Write(off, buf.get(), n, wantCount ? &done : nullptr); } catch (const mc::Violation&) { throw; } catch (const std::exception& e) { ex = e.what(); if (ex.empty()) ex = "?"; }
        MC_CHECK(memcmp(buf.get(), d.data(), n) == 0, "the caller's data was modified");
        if (!ex.empty()) { MC_CHECK(sys::failed || off > 1ull << 43 /* beyond what a file system can hold */, "writing ", n, " bytes at ", off, " failed: ", ex); m.torn(off, d); c.outcome(mc::hashStr("write-error")); return; }
        if (sys::failed && wantCount && done < n) { m.torn(off, d); return; }
        MC_CHECK(!wantCount || done == n, "writing ", n, " bytes at ", off, " reports ", done, " bytes"); m.write(off, d); c.outcome(mc::mix(off, n));
    }
    struct Guard { Guard(mc::Ctx& c, bool cookies, bool openF = false) { sys::ctx = &c; sys::cookies = cookies; sys::openFaults = openF; sys::failed = sys::anyFault = false; } ~Guard() { sys::ctx = nullptr; sys::cookies = false; sys::openFaults = false; } };
    int fds() { int n = 0; if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); } return n; }

    void history(mc::Ctx& c, bool faults)
    {
        vector<int> kinds; for (int k = 0; k < KINDS; ++k) if (available(k) && !(faults && (k == Memory || k == MemoryAttachment || k == FactoryPreadWide || k == FactoryCrtWide || k == FactoryDefaultUtf8))) kinds.push_back(k);
        const int kind = kinds[c.choose((int)kinds.size())]; static const uint64_t lens[] = { 7, 5000, 0, 1 }; const uint64_t len = lens[c.choose(faults ? 2 : 4)]; const int nops = faults ? (c.thorough() ? 3 : 2) : (c.thorough() ? 4 : 3);
        if (faults) c.setDeviationBudget(c.thorough() ? 3 : 2);
        struct Op { bool write; uint64_t off, n; bool count; }; vector<Op> ops; uint64_t cur = kind >= OutNew ? 0 : len;
        for (int i = 0; i < nops; ++i)
        {
            Op o; o.write = canWrite(kind) && (!canRead(kind) || c.flip()); const bool rich = i == 0 && !faults;
            vector<uint64_t> offs = { 0, 1, cur, cur > 2 ? cur - 2 : 2 }; if (i > 1) offs = { 0, cur > 2 ? cur - 2 : 2 }; if (rich) { offs.push_back(cur + 1); offs.push_back(cur + 5000); offs.push_back((1ull << 32) + 3); if (!o.write) { offs.push_back(1ull << 31); offs.push_back((uint64_t)INT64_MAX - 5000); offs.push_back(1ull << 63); offs.push_back(UINT64_MAX); } }
            vector<uint64_t> ns = { 3, 4500, 0, 1 }; if (faults || i) ns = { 3, 4500 }; if (faults && crtOnly && kind == InOut) ns = { 3, 8 };   /* the cookie reads an unbuffered file byte by byte */ if (rich) { ns.push_back(4096); ns.push_back(4097); ns.push_back(9000); }
            o.off = offs[c.choose((int)offs.size())]; o.n = ns[c.choose((int)ns.size())]; o.count = i == 0 ? c.flip() == 0 : true; if (o.write) cur = std::max(cur, std::min<uint64_t>(o.off + o.n, 20000)); ops.push_back(o);
        }
        // an item of information only: the same sequence without faults is decided by the other suite
        const string p = dir() + "/f"; unlink(p.c_str()); put(p, len); if (kind == OutNew) unlink(p.c_str()); Model m; m.init(kind >= OutNew ? 0 : len); const int fd0 = fds();
        SAYP(c, mc::cat(kindName[kind], ", a file of ", len, " bytes"));
        {
            Open s; Guard g(c, faults); auto x = sys::ctx; sys::ctx = nullptr; s = openStream(kind, p); if (faults) sys::ctx = x;
            int i = 0; for (auto& o : ops) { if (o.write) doWrite(c, s, m, o.off, o.n, o.count, i); else doRead(c, s, m, o.off, o.n, o.count); ++i; c.state(mc::mix(m.h(), kind)); c.step(); }
            sys::failed = false; sys::ctx = faults ? x : nullptr;
            s = Open();
        }
        MC_CHECK(fds() == fd0, "a file is left open"); compareFile(p, m, "after the stream was closed"); unlink(p.c_str());
    }

    // ------------------------------------------------------------------ opening
    void opening(mc::Ctx& c)
    {
        const int kind = c.choose(KINDS); if (!available(kind) || kind == Memory || kind == MemoryAttachment) throw mc::Prune(); const int what = c.choose(4); static const char* names[] = { "f", "with blank.czi", "\xC3\xA4\xC3\x9F", "\xE6\x97\xA5\xE6\x9C\xAC", "\xF0\x9F\x98\x80", "a'\"$&" }; const string p = dir() + "/" + names[c.choose(6)]; const bool faults = c.flip(); const bool cookies = c.flip(); c.setDeviationBudget(2);
        unlink(p.c_str()); rmdir(p.c_str()); const string target = dir() + "/target"; unlink(target.c_str());
        if (what == 1) put(p, 100); if (what == 2) mkdir(p.c_str(), 0700); if (what == 3) { put(target, 100); if (symlink(target.c_str(), p.c_str())) mc::fail("harness: symlink"); }
        static const char* w[] = { "nothing exists", "a file exists", "a directory exists", "a link to a file exists" }; SAYP(c, mc::cat(kindName[kind], " for a path where ", w[what], ": ", p)); const int fd0 = fds(); bool ok = false; string ex; const bool exists = what == 1 || what == 3;
        {
            Guard g(c, cookies, faults); if (!faults) sys::ctx = nullptr; Open s; try { s = openStream(kind, p); ok = true; } catch (const mc::Violation&) { throw; } catch (const std::exception& e) { ex = e.what(); }
            sys::ctx = nullptr;
            if (ok)
            {
                MC_CHECK(what != 2 || !canWrite(kind), "a directory was opened for writing"); MC_CHECK(what != 0 || kind >= InOut, "a file which does not exist was opened for reading"); MC_CHECK(!(exists && kind == OutNew), "an existing file was opened for writing although overwriting was not requested");
                if (what == 2) { char b; uint64_t n; bool t = false; try { s.in->Read(0, &b, 1, &n); } catch (std::exception&) { t = true; } MC_CHECK(t, "a directory was read"); }
                else { Model m; m.init(exists && kind < OutNew ? 100 : 0); if (canRead(kind)) doRead(c, s, m, 0, 200, true); if (canWrite(kind)) doWrite(c, s, m, 3, 5, true, 1); s = Open(); compareFile(p, m, "after opening and closing"); if (what == 3) compareFile(target, m, "after opening and closing"); }
            }
            else MC_CHECK(sys::anyFault || what == 2 || (what == 0 && kind <= InOut) || (exists && kind == OutNew), "opening failed: ", ex);
        }
        MC_CHECK(fds() == fd0, "a file is left open"); struct stat st;
        if (!ok) { const bool now = stat(p.c_str(), &st) == 0; if (what == 0) MC_CHECK(!now, "opening failed, but a file was created"); if (exists) { MC_CHECK(now, "opening failed, and the existing file is gone"); if (kind == OutNew || kind < OutNew || sys::anyFault) { Model m; m.init(100); compareFile(p, m, "after opening failed"); } } }
        c.outcome(mc::mix(ok, kind)); c.state(mc::mix(mc::mix(what, kind), ok)); unlink(p.c_str()); rmdir(p.c_str()); unlink(target.c_str());
    }

    // ------------------------------------------------------------------ http
    using httpd::Server; string contentBytes(uint64_t f, uint64_t n) { string s; for (uint64_t i = 0; i < n; ++i) s += (char)fileByte(f + i); return s; }
    void http(mc::Ctx& c)
    {
        static const char* hn[] = { "honours ranges", "honours ranges (chunked)", "ignores ranges", "ignores ranges (chunked)", "404", "500", "closes the connection early", "302" };
        static const uint64_t lens[] = { 100, 23, 9000, 1, 0 }; const uint64_t len = lens[c.choose(5)]; const int nops = c.thorough() ? 3 : 2; struct Op { int how, body; uint64_t off, n; bool count; }; vector<Op> ops;
        for (int i = 0; i < nops; ++i)
        {
            Op o; o.how = c.choose(i ? 2 : Server::HOWS); if (i && o.how == 1) o.how = Server::Ignore; static const int bodies[] = { 0, 5, 23 }; const bool b = o.how >= Server::NotFound || o.how <= 1; o.body = b ? bodies[c.choose(i ? 2 : 3)] : 0;
            vector<uint64_t> offs = { 0, 1, len > 2 ? len - 2 : 2, len, len + 100 }; vector<uint64_t> ns = { 0, 1, 22, 23, len + 1, len, 4500 }; if (i) { offs = { 0, 3, len + 1 }; ns = { 5, len + 10 }; } else { offs.push_back((1ull << 32) + 7); offs.push_back(1ull << 63); }
            o.off = offs[c.choose((int)offs.size())]; o.n = ns[c.choose((int)ns.size())]; o.count = i ? true : c.flip() == 0; ops.push_back(o);
        }
        StreamsFactory::StreamClassInfo ci; bool have = false; for (int i = 0; i < StreamsFactory::GetStreamClassesCount(); ++i) if (StreamsFactory::GetStreamInfoForClass(i, ci) && ci.class_name == "curl_http_inputstream") have = true; if (!have) throw mc::Prune();
        auto& sv = Server::get(contentBytes); StreamsFactory::CreateStreamInfo si; si.class_name = "curl_http_inputstream"; auto s = StreamsFactory::CreateStream(si, mc::cat("http://127.0.0.1:", sv.port, "/x.czi")); MC_CHECK(s, "no http stream");
        for (auto& o : ops)
        {
            { std::lock_guard<std::mutex> g(sv.mx); sv.how = o.how; sv.body = o.body; sv.len = len; } SAYP(c, mc::cat("read ", o.n, " bytes at ", o.off, " of ", len, "; the server: ", hn[o.how], " (", o.body, ")")); shared_ptr<uint8_t> buf((uint8_t*)malloc(o.n ? o.n : 1), free); memset(buf.get(), 0xA5, o.n); uint64_t got = 0xDEADBEEFull; string ex;
            try { s->Read(o.off, buf.get(), o.n, o.count ? &got : nullptr); } catch (const std::exception& e) { ex = e.what(); if (ex.empty()) ex = "?"; }
            const uint64_t expect = o.off >= len ? 0 : std::min(o.n, len - o.off); c.step();
            if (!ex.empty()) { const bool mayFail = (o.how != Server::Range && o.how != Server::RangeChunked) || o.off + o.n < o.off; MC_CHECK(mayFail, "reading ", o.n, " bytes at ", o.off, " of ", len, " failed: ", ex); c.outcome(mc::hashStr("error")); continue; }
            if (o.n) { MC_CHECK(o.how != Server::NotFound && o.how != Server::ServerError && o.how != Server::Moved, "the server reported an error, but the read succeeded (", o.count ? mc::cat(got, " bytes)") : string(")")); MC_CHECK(o.how != Server::Cut || expect == 0, "the connection was lost, but the read succeeded"); }
            MC_CHECK(!o.count || got == expect, "reading ", o.n, " bytes at ", o.off, " of ", len, " bytes reports ", got, ", expected ", expect);
            for (uint64_t i = 0; i < expect; ++i) MC_CHECK(buf.get()[i] == fileByte(o.off + i), "reading ", o.n, " bytes at ", o.off, ": byte ", i, " is ", (int)buf.get()[i], ", the document has ", (int)fileByte(o.off + i)); c.outcome(mc::hashBytes(buf.get(), expect));
            c.state(mc::mix(mc::mix(o.how, o.off), o.n));
        }
    }

    // two threads with one stream: the second read begins at every stage of the first one
    void httpThreads(mc::Ctx& c)
    {
        StreamsFactory::StreamClassInfo ci; bool have = false; for (int i = 0; i < StreamsFactory::GetStreamClassesCount(); ++i) if (StreamsFactory::GetStreamInfoForClass(i, ci) && ci.class_name == "curl_http_inputstream") have = true; if (!have) throw mc::Prune();
        auto& sv = Server::get(contentBytes); StreamsFactory::CreateStreamInfo si; si.class_name = "curl_http_inputstream"; auto s = StreamsFactory::CreateStream(si, mc::cat("http://127.0.0.1:", sv.port, "/x.czi")); const int stage = c.choose(3, "stage"), warm = c.choose(2, "connection open before"); static const uint64_t rd[][2] = { { 10, 30 }, { 95, 20 }, { 0, 4000 }, { 20000, 5 }, { 8990, 100 } }; const int a = c.choose(5, "first"), b = c.choose(5, "second");
        struct R { vector<uint8_t> d; uint64_t n = 0; string ex; }; auto read = [&](const uint64_t* p) { R r; r.d.assign(p[1], 0xA5); try { s->Read(p[0], r.d.data(), p[1], &r.n); } catch (const std::exception& e) { r.ex = mc::cat("?", e.what()); } return r; };
        { std::lock_guard<std::mutex> g(sv.mx); sv.how = Server::Range; sv.body = 0; sv.len = 9000; sv.gate = nullptr; sv.seen.clear(); } if (warm) { static const uint64_t w[] = { 1, 2 }; read(w); }
        SAYP(c, mc::cat("read ", rd[a][1], " bytes at ", rd[a][0], "; meanwhile (stage ", stage, ") another thread reads ", rd[b][1], " bytes at ", rd[b][0]));
        struct Sync { std::mutex m; std::condition_variable cv; bool go = false, begun = false, fired = false; }; auto y = std::make_shared<Sync>(); R rb; std::thread tb([&, y] { { std::unique_lock<std::mutex> l(y->m); y->cv.wait(l, [&] { return y->go; }); y->begun = true; y->cv.notify_all(); } rb = read(rd[b]); });
        { std::lock_guard<std::mutex> g(sv.mx); sv.gate = [y, stage](int at) { if (at != stage) return; std::unique_lock<std::mutex> l(y->m); if (y->fired) return; y->fired = true; y->go = true; y->cv.notify_all(); y->cv.wait(l, [&] { return y->begun; }); l.unlock(); usleep(4000); }; }
        R ra = read(rd[a]); { std::unique_lock<std::mutex> l(y->m); y->go = true; y->cv.notify_all(); } tb.join(); { std::lock_guard<std::mutex> g(sv.mx); sv.gate = nullptr; } c.step(2);
        auto check = [&](const char* who, const R& r, const uint64_t* p) { const uint64_t want = p[0] >= 9000 ? 0 : std::min<uint64_t>(p[1], 9000 - p[0]); MC_CHECK(r.ex.empty(), who, " fails: ", r.ex); MC_CHECK(r.n == want, who, ": ", r.n, " bytes instead of ", want); for (uint64_t i = 0; i < want; ++i) MC_CHECK(r.d[i] == fileByte(p[0] + i), who, ": byte ", i, " is wrong"); }; check("the first read", ra, rd[a]); check("the second read", rb, rd[b]); c.state(((stage * 2 + warm) * 5 + a) * 5 + b); c.outcome(1);
    }
    // Options given on creation
    void httpOptions(mc::Ctx& c)
    {
        using P = StreamsFactory::Property; using SP = StreamsFactory::StreamProperties;
        StreamsFactory::StreamClassInfo ci; bool have = false; for (int i = 0; i < StreamsFactory::GetStreamClassesCount(); ++i) if (StreamsFactory::GetStreamInfoForClass(i, ci) && ci.class_name == "curl_http_inputstream") have = true; if (!have) throw mc::Prune();
        auto& sv = Server::get(contentBytes); StreamsFactory::CreateStreamInfo si; si.class_name = "curl_http_inputstream"; const string base = mc::cat("http://127.0.0.1:", sv.port);
        { std::lock_guard<std::mutex> g(sv.mx); sv.how = Server::Range; sv.body = 0; sv.len = 100; sv.seen.clear(); }
        if (c.flip("a property of the wrong type"))
        {
            struct T { int id; char t; }; static const T all[] = { { SP::kCurlHttp_Proxy, 's' }, { SP::kCurlHttp_UserAgent, 's' }, { SP::kCurlHttp_Timeout, 'i' }, { SP::kCurlHttp_ConnectTimeout, 'i' }, { SP::kCurlHttp_Xoauth2Bearer, 's' }, { SP::kCurlHttp_Cookie, 's' }, { SP::kCurlHttp_SslVerifyPeer, 'b' }, { SP::kCurlHttp_SslVerifyHost, 'b' }, { SP::kCurlHttp_FollowLocation, 'b' }, { SP::kCurlHttp_MaxRedirs, 'i' }, { SP::kCurlHttp_CaInfo, 's' }, { SP::kCurlHttp_CaInfoBlob, 's' } };
            const T& t = all[c.choose(12, "property")]; const char given = "sbi-"[c.choose(4, "type given")]; si.property_bag[t.id] = given == 's' ? P("") : given == 'b' ? P(true) : given == 'i' ? P(5) : P();
            SAYP(c, mc::cat("property ", t.id, " of type ", t.t, ", given is ", given)); string ex; shared_ptr<IStream> s; try { s = StreamsFactory::CreateStream(si, base + "/x.czi"); } catch (const std::exception& e) { ex = mc::cat("?", e.what()); } c.step();
            MC_CHECK(ex.empty() == (given == t.t), "creating the stream ", ex.empty() ? "succeeds" : ex); MC_CHECK(ex.empty() == (s != nullptr), "no stream"); if (s) { uint8_t b[10]; uint64_t n = 0; s->Read(5, b, 10, &n); MC_CHECK(n == 10 && b[0] == fileByte(5) && b[9] == fileByte(14), "wrong data"); } c.state(t.id * 5 + given); c.outcome(ex.empty()); return;
        }
        const int follow = c.choose(3, "follow: not given, no, yes"), mr = c.choose(6, "redirections: not given, -1, 0, 1, 2, 3"), hops = c.choose(4, "hops"), ua = c.choose(2), ck = c.choose(2), bt = c.choose(2), px = c.choose(2), to = c.choose(2); const int maxr = mr - 2;
        if (follow) si.property_bag[SP::kCurlHttp_FollowLocation] = P(follow == 2); if (mr) si.property_bag[SP::kCurlHttp_MaxRedirs] = P(maxr); if (ua) si.property_bag[SP::kCurlHttp_UserAgent] = P("a b/1.0 (c)"); if (ck) si.property_bag[SP::kCurlHttp_Cookie] = P("x=1; y=2 3"); if (bt) si.property_bag[SP::kCurlHttp_Xoauth2Bearer] = P("tok.en-1=="); if (px) si.property_bag[SP::kCurlHttp_Proxy] = P(base); if (to) { si.property_bag[SP::kCurlHttp_Timeout] = P(120); si.property_bag[SP::kCurlHttp_ConnectTimeout] = P(100); }
        const string uri = (px ? string("http://elsewhere.invalid:81") : base) + "/p/hop" + std::to_string(hops); SAYP(c, mc::cat(uri, ", follow ", follow, ", at most ", maxr, ua ? ", user agent" : "", ck ? ", cookie" : "", bt ? ", token" : "", px ? ", proxy" : "")); auto s = StreamsFactory::CreateStream(si, uri); MC_CHECK(s, "no http stream");
        for (int rd = 0; rd < 2; ++rd)
        {
            { std::lock_guard<std::mutex> g(sv.mx); sv.seen.clear(); } uint8_t b[20]; uint64_t n = 0; string ex; try { s->Read(7 + rd, b, 20, &n); } catch (const std::exception& e) { ex = mc::cat("?", e.what()); } c.step();
            const bool ok = hops == 0 || (follow == 2 && (mr == 0 || maxr == -1 || maxr >= hops)); MC_CHECK(ok ? ex.empty() : (!ex.empty() || (hops && follow == 0)), "reading ", ex.empty() ? "succeeds" : ex);
            if (ex.empty()) { MC_CHECK(n == 20, n, " bytes read"); for (int i = 0; i < 20; ++i) MC_CHECK(b[i] == fileByte(7 + rd + i), "wrong data"); }
            std::vector<string> seen; { std::lock_guard<std::mutex> g(sv.mx); seen = sv.seen; } MC_CHECK(!seen.empty(), "the server has not been asked"); const size_t want = 1 + (follow != 2 ? 0 : mr == 0 || maxr == -1 ? hops : std::min(hops, maxr)); MC_CHECK(seen.size() == want || (hops && follow == 0), "the server was asked ", seen.size(), " times, expected ", want);
            for (auto& q : seen) { MC_CHECK((q.find("User-Agent: a b/1.0 (c)\r\n") != string::npos) == !!ua, "user agent in: ", q); MC_CHECK((q.find("Cookie: x=1; y=2 3\r\n") != string::npos) == !!ck, "cookie in: ", q); MC_CHECK((q.find("Authorization: Bearer tok.en-1==\r\n") != string::npos) == !!bt, "token in: ", q); MC_CHECK((q.find("GET http://elsewhere.invalid:81/p/hop") == 0) == !!px, "target of: ", q); MC_CHECK(q.find(mc::cat("Range: bytes=", 7 + rd, "-", 26 + rd, "\r\n")) != string::npos, "range in: ", q); }
        }
        c.state(((((((follow * 6 + mr) * 4 + hops) * 2 + ua) * 2 + ck) * 2 + bt) * 2 + px) * 2 + to); c.outcome(follow * 6 + mr);
    }

    struct Reg { Reg() {
        using namespace mc;
        add({ "C23", "stream_histories", "every stream implementation of the public interface x file length {0,1,7,5000} x all sequences of 3 (thorough 4) reads/writes over edge offsets and sizes (first operation also beyond 4 GB, beyond the end and at the end of the offset range), against a model of the file", [](Ctx& c) { history(c, false); } });
        add({ "C23", "stream_faults", "every file stream x all sequences of 2 (thorough 3) reads/writes x every placement of up to 2 (thorough 3) partial, interrupted or failing system calls", [](Ctx& c) { history(c, true); } });
        add({ "C23", "stream_open", "every file stream x {nothing, file, directory, link} x file names (blanks, quotes, non-ASCII) x every placement of up to 2 failing opens", opening });
#if !defined(STREAM_CRT_ONLY)
        add({ "C23", "stream_http_threads", "two threads read through one http stream: the second read begins at each of 3 stages of the first one x all pairs of 5 reads x connection open or not", httpThreads });
        add({ "C23", "stream_http_options", "options of the http stream: every property with a value of every type; redirections followed or not x at most -1..3 x 0..3 hops x user agent x cookie x token x proxy x timeouts; what the server is asked and what is read", httpOptions });
        add({ "C23", "stream_http", "http stream against a loopback server: document lengths x ways of answering (ranges honoured / ignored, plain / chunked, 404, 500, 302, connection cut) x sequences of 2 (thorough 3) reads over edge offsets and sizes", http });
#endif
    } } reg;
}
