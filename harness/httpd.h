// A small http server on the loopback interface, in the process of the harness; the way it answers is set by the harness. A path
// ending in /hopN is answered by a redirection to /hop(N-1), as long as N is not 0.
#pragma once
#include "czi.h"
#include <arpa/inet.h>
#include <cerrno>
#include <mutex>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
namespace httpd
{
    using std::string; using libCZI::StreamsFactory;
    struct Server
    {
        enum How { Range, RangeChunked, Ignore, IgnoreChunked, NotFound, ServerError, Cut, Moved, HOWS };
        int lfd = -1, port = 0; std::mutex mx; int how = 0; int body = 0; uint64_t len = 0; std::vector<string> seen; std::string (*content)(uint64_t first, uint64_t count) = nullptr; std::function<void(int)> gate; std::thread t;
        static bool sendAll(int fd, const string& s) { size_t i = 0; while (i < s.size()) { const ssize_t r = send(fd, s.data() + i, s.size() - i, MSG_NOSIGNAL); if (r <= 0) return false; i += r; } return true; }
        bool serve(int fd)
        {
            string rq; while (rq.find("\r\n\r\n") == string::npos) { char b[2000]; const ssize_t r = recv(fd, b, sizeof(b), 0); if (r <= 0) return false; rq.append(b, r); }
            int h, bd; uint64_t L; std::function<void(int)> at; { std::lock_guard<std::mutex> g(mx); at = gate; h = how; bd = body; L = len; seen.push_back(rq); }
            bool hasRange = false; uint64_t a = 0, e = L ? L - 1 : 0; { size_t i = rq.find("Range: bytes="); if (i != string::npos) { string r = rq.substr(i + 13); r = r.substr(0, r.find("\r\n")); size_t pos = 0; const size_t dash = r.find('-'); bool good = dash != string::npos && dash > 0; for (size_t k = 0; k < r.size() && good; ++k) good = k == dash || isdigit((unsigned char)r[k]); if (good) { hasRange = true; a = strtoull(r.c_str(), nullptr, 10); e = dash + 1 < r.size() ? strtoull(r.c_str() + dash + 1, nullptr, 10) : UINT64_MAX; if (e < a) hasRange = false; } } }
            auto data = [&](uint64_t f, uint64_t n) { return content(f, n); }; string head, b;
            { const size_t i = rq.find("/hop"); const int n = i != string::npos && i < rq.find("\r\n") ? atoi(rq.c_str() + i + 4) : 0; if (n > 0) return sendAll(fd, mc::cat("HTTP/1.1 302 Found\r\nLocation: ", rq.substr(4, i - 4), "/hop", n - 1, "\r\nContent-Length: 3\r\n\r\nabc")); }
            const bool honour = h == Range || h == RangeChunked || h == Cut;
            if (h == NotFound || h == ServerError || h == Moved) { b = string(bd, 'x'); head = mc::cat("HTTP/1.1 ", h == NotFound ? "404 Not Found" : h == ServerError ? "500 Internal Server Error" : "302 Found\r\nLocation: http://127.0.0.1:1/other"); }
            else if (honour && hasRange && a >= L) { b = string(bd, 'x'); head = mc::cat("HTTP/1.1 416 Range Not Satisfiable\r\nContent-Range: bytes */", L); }
            else if (honour && hasRange) { e = std::min(e, L - 1); b = data(a, e - a + 1); head = mc::cat("HTTP/1.1 206 Partial Content\r\nContent-Range: bytes ", a, "-", e, "/", L); }
            else { b = data(0, L); head = "HTTP/1.1 200 OK"; }
            if (h == RangeChunked || h == IgnoreChunked) { string s = head + "\r\nTransfer-Encoding: chunked\r\n\r\n"; size_t i = 0; int k = 0; while (i < b.size()) { static const size_t cs[] = { 1, 23, 22, 23, 4000 }; const size_t n = std::min(b.size() - i, cs[k++ % 5]); char x[20]; snprintf(x, sizeof x, "%zx\r\n", n); s += x; s += b.substr(i, n); s += "\r\n"; i += n; } return sendAll(fd, s + "0\r\n\r\n"); }
            if (h == Cut && !b.empty()) { sendAll(fd, mc::cat(head, "\r\nContent-Length: ", b.size(), "\r\n\r\n") + b.substr(0, std::min<size_t>(bd, b.size() - 1))); return false; }
            if (at) { at(0); if (!sendAll(fd, mc::cat(head, "\r\nContent-Length: ", b.size(), "\r\n\r\n"))) return false; at(1); if (!sendAll(fd, b.substr(0, b.size() / 2))) return false; at(2); return sendAll(fd, b.substr(b.size() / 2)); }   // 'gate': called when the request has come in, after the header, and in the middle of the content
            return sendAll(fd, mc::cat(head, "\r\nContent-Length: ", b.size(), "\r\n\r\n") + b);
        }
        void start()
        {
            lfd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (bind(lfd, (sockaddr*)&a, sizeof a) || listen(lfd, 64)) mc::fail("harness: no loopback server"); socklen_t l = sizeof a; getsockname(lfd, (sockaddr*)&a, &l); port = ntohs(a.sin_port);
            t = std::thread([this] { for (;;) { const int fd = accept(lfd, nullptr, nullptr); if (fd < 0) { if (errno == EINTR) continue; return; } std::thread([this, fd] { int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); while (serve(fd)) {} close(fd); }).detach(); } }); t.detach();
        }
        static Server& get(std::string (*content)(uint64_t, uint64_t)) { static Server* s = nullptr; static pid_t owner = 0; if (owner != getpid()) { owner = getpid(); s = new Server; for (auto v : { "http_proxy", "HTTP_PROXY", "all_proxy", "ALL_PROXY" }) unsetenv(v); StreamsFactory::Initialize(); s->content = content; s->start(); } return *s; }
    };
}
