#include "mc.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <new>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#if !defined(MC_NO_NEW_OVERRIDE)
// ASan's operator new terminates the process if an allocation fails; the real one throws std::bad_alloc,
// and code under test is entitled to rely on that.
static void* mcAlloc(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return mcAlloc(n); }
void* operator new[](size_t n) { return mcAlloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
#endif

#if defined(__SANITIZE_ADDRESS__)
extern "C" const char* __asan_default_options() { return "allocator_may_return_null=1:detect_leaks=0:exitcode=99:max_allocation_size_mb=300:detect_stack_use_after_return=0:malloc_context_size=6:quarantine_size_mb=16:detect_odr_violation=0:handle_abort=1:print_summary=1"; }
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=1:exitcode=99"; }
#endif

namespace mc
{
    struct Slot
    {
        volatile uint64_t execStartMs;     // 0: idle
        volatile uint64_t executions, transitions, pruned, choicePoints;
        volatile int32_t curLen;
        volatile int32_t violated;         // 1: violation, message below
        volatile int32_t item;
        uint16_t cur[8192];
        volatile int32_t histLen;          // items this process worked on (in order), for replaying a violation that needs the preceding executions
        int32_t hist[65536];
        char msg[8192];
    };

    static uint64_t nowMs()
    {
        return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
    }

    int Ctx::choose(int n, const char* what)
    {
        if (n <= 0) { throw std::logic_error("choose(0)"); }
        int c;
        if (this->pos < this->choices.size())
        {
            c = this->choices[this->pos];
            if (c >= n) { throw std::logic_error(std::string("replay diverged (choice out of range) at ") + what); }
            if (this->pos < this->arity.size() && this->arity[this->pos] != 0 && this->arity[this->pos] != n)
            {
                throw std::logic_error(std::string("replay diverged (arity changed) at ") + what);
            }
            if (this->pos < this->arity.size()) this->arity[this->pos] = (uint16_t)n; else this->arity.push_back((uint16_t)n);
        }
        else
        {
            if (this->pos >= this->prefixLimit) { throw PrefixEnd(); }
            c = 0;
            this->choices.push_back(0);
            this->arity.push_back((uint16_t)n);
        }
        if (this->slot && this->pos < 8192) { this->slot->cur[this->pos] = (uint16_t)c; this->slot->curLen = (int32_t)this->pos + 1; }
        ++this->pos;
        if (this->recording && what[0] != 0) { this->sayText(std::string("    [") + what + "=" + std::to_string(c) + "/" + std::to_string(n) + "]"); }
        return c;
    }

    int Ctx::deviate(int n, const char* what)
    {
        if (this->devBudget <= 0 || n <= 1) return 0;
        const int c = this->choose(n, what);
        if (c != 0) --this->devBudget;
        return c;
    }

    void Ctx::state(uint64_t h) { if (this->states && this->states->size() < 20000000) this->states->insert(h); }
    void Ctx::outcome(uint64_t h) { if (this->outcomes && this->outcomes->size() < 20000000) this->outcomes->insert(h); }

    static std::vector<Suite>& suites() { static std::vector<Suite> s; return s; }
    void add(Suite s) { suites().push_back(std::move(s)); }

    enum class Res { Done, Pruned, Prefix, Violated };

    static Res runOnce(const Suite& su, Ctx& c, std::string* msg)
    {
        c.pos = 0; c.transitions = 0; c.devBudget = 0; c.log.clear();
        try { su.scenario(c); return Res::Done; }
        catch (PrefixEnd&) { return Res::Prefix; }
        catch (Prune&) { return Res::Pruned; }
        catch (Violation& v) { *msg = v.what(); return Res::Violated; }
        catch (std::exception& e) { *msg = std::string("harness: unexpected exception: ") + e.what(); return Res::Violated; }
    }

    // advance to the next decision sequence, keeping the first 'fixed' decisions; false if exhausted
    static bool advance(Ctx& c, size_t fixed)
    {
        c.choices.resize(c.pos); c.arity.resize(c.pos);
        while (c.choices.size() > fixed)
        {
            if (c.choices.back() + 1 < c.arity.back()) { ++c.choices.back(); return true; }
            c.choices.pop_back(); c.arity.pop_back();
        }
        return false;
    }

    struct Work { std::vector<uint16_t> prefix; };

    struct SuiteResult
    {
        std::string name, bound; uint64_t executions = 0, transitions = 0, pruned = 0, choicePoints = 0, states = 0, outcomes = 0; bool exhaustive = true;
        std::vector<std::string> samples; double seconds = 0; size_t items = 0;
        bool violated = false; std::string message; std::vector<uint16_t> choices; std::vector<std::vector<uint16_t>> history; bool harnessError = false; size_t maxDepth = 0;
    };

    static std::string outDir = ".";

    static std::string jsonEsc(const std::string& s)
    {
        std::string r; for (unsigned char ch : s)
        {
            if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; }
            else if (ch == '\n') r += "\\n";
            else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
            else r += (char)ch;
        }
        return r;
    }

    static Slot* newSlot()
    {
        void* p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
        return static_cast<Slot*>(p);
    }

    // replay one decision sequence in a child; returns 0 = no violation, 1 = violation/crash, 2 = hang, 3 = harness trouble
    static int replayChild(const Suite& su, const std::vector<uint16_t>& choices, bool thorough, int timeoutS, std::string* message, std::string* log, bool echo, const std::vector<std::vector<uint16_t>>* history = nullptr)
    {
        Slot* s = newSlot();
        const std::string logFile = outDir + "/replay_" + std::to_string(getpid()) + ".log";
        pid_t pid = fork();
        if (pid == 0)
        {
            if (FILE* f = freopen((logFile + ".err").c_str(), "w", stderr)) { (void)f; }
            std::string msg;
            if (history)
            {
                for (auto& prefix : *history)
                {
                    Ctx c; c.isThorough = thorough; c.slot = s; c.choices = prefix;
                    do
                    {
                        if (runOnce(su, c, &msg) == Res::Violated) { snprintf(s->msg, sizeof s->msg, "%s\n(needs the executions that preceded it in the same process)", msg.c_str()); s->violated = 1; _exit(77); }
                    } while (advance(c, prefix.size()));
                }
                _exit(0);
            }
            Ctx c; c.choices = choices; c.isThorough = thorough; c.recording = true; c.slot = s;
            c.arity.clear();
            c.live = fopen(logFile.c_str(), "w");
            Res r = runOnce(su, c, &msg);
            if (r == Res::Violated) { snprintf(s->msg, sizeof s->msg, "%s", msg.c_str()); s->violated = 1; _exit(77); }
            if (c.pos < choices.size()) { snprintf(s->msg, sizeof s->msg, "replay did not consume all decisions"); _exit(78); }
            _exit(0);
        }
        const uint64_t t0 = nowMs(); int st = 0; int result = 0; bool hang = false;
        for (;;)
        {
            pid_t w = waitpid(pid, &st, WNOHANG);
            if (w == pid) break;
            if (nowMs() - t0 > (uint64_t)timeoutS * 1000) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hang = true; break; }
            usleep(2000);
        }
        if (hang) { result = 2; *message = "no termination within " + std::to_string(timeoutS) + " s"; }
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { result = 0; }
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { result = 1; *message = s->msg; }
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 78) { result = 3; *message = s->msg; }
        else
        {
            result = 1;
            std::ifstream e(logFile + ".err"); std::string l, all; int n = 0;
            while (std::getline(e, l) && n < 40) { if (!l.empty()) { all += l + "\n"; ++n; } }
            *message = std::string("the code under test crashed (") + (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))) + "):\n" + all;
        }
        { std::ifstream f(logFile); std::stringstream ss; ss << f.rdbuf(); *log = ss.str(); }
        if (log->empty() && result != 0)
        {   // crashed: no log was written - describe by the decisions only
            std::string d = "decisions:"; for (auto x : choices) d += " " + std::to_string(x); *log = d + "\n";
        }
        unlink(logFile.c_str()); unlink((logFile + ".err").c_str());
        munmap(s, sizeof(Slot));
        (void)echo;
        return result;
    }

    static SuiteResult exploreSuite(const Suite& su, bool thorough, int jobs, double capSeconds)
    {
        SuiteResult R; R.name = su.name; R.bound = su.bound;
        const uint64_t t0 = nowMs();
        // 1) enumerate prefixes (breadth first by deepening) until there is enough work to share. Done in a
        //    child process as the code under test may crash there as well.
        std::deque<Work> items;
        const std::string pf = outDir + "/prefix_" + std::to_string(getpid());
        auto writeItems = [&](const std::vector<Work>& v, bool complete) {
            FILE* f = fopen(pf.c_str(), "wb"); int32_t n = (int32_t)v.size(); fwrite(&n, 4, 1, f); int32_t cmp = complete; fwrite(&cmp, 4, 1, f);
            for (auto& w : v) { int32_t l = (int32_t)w.prefix.size(); fwrite(&l, 4, 1, f); fwrite(w.prefix.data(), 2, l, f); }
            fclose(f);
        };
        pid_t pp = fork();
        if (pp == 0)
        {
            if (!freopen("/dev/null", "w", stderr)) {}
            const uint64_t s0 = nowMs();
            std::vector<Work> best; best.push_back({});
            for (size_t depth = 1; depth <= 64; ++depth)
            {
                std::vector<Work> v; bool anyCut = false;
                Ctx c; c.isThorough = thorough; c.prefixLimit = depth;
                bool tooSlow = false;
                for (;;)
                {
                    std::string m; Res r = runOnce(su, c, &m);
                    if (r == Res::Prefix) anyCut = true;
                    Work w; w.prefix.assign(c.choices.begin(), c.choices.begin() + c.pos); v.push_back(w);
                    if (nowMs() - s0 > 4000 || v.size() > 200000) { tooSlow = true; break; }
                    if (!advance(c, 0)) break;
                }
                if (tooSlow) break;
                best = v; writeItems(best, true);
                if (!anyCut || v.size() >= (size_t)jobs * 24) break;
            }
            _exit(0);
        }
        {
            int st = 0; bool dead = false; const uint64_t s0 = nowMs();
            while (waitpid(pp, &st, WNOHANG) == 0) { if (nowMs() - s0 > 15000) { kill(pp, SIGKILL); waitpid(pp, &st, 0); dead = true; break; } usleep(1000); }
            (void)dead;
        }
        if (FILE* f = fopen(pf.c_str(), "rb"))
        {
            int32_t n = 0, cmp = 0; if (fread(&n, 4, 1, f) == 1 && fread(&cmp, 4, 1, f) == 1)
            {
                for (int i = 0; i < n; ++i) { int32_t l; if (fread(&l, 4, 1, f) != 1) break; Work w; w.prefix.resize(l); if (l && fread(w.prefix.data(), 2, l, f) != (size_t)l) break; items.push_back(w); }
            }
            fclose(f); unlink(pf.c_str());
        }
        if (items.empty()) items.push_back({});
        R.items = items.size();
        std::vector<Work> list(items.begin(), items.end());
        // interleave: spread neighbouring items
        volatile uint32_t* next = (volatile uint32_t*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        *next = 0; volatile uint32_t* stop = next + 1; *stop = 0;
        if ((size_t)jobs > list.size()) jobs = (int)list.size();
        std::vector<Slot*> slots; std::vector<pid_t> pids; std::vector<bool> alive;
        auto spawn = [&](int w, int resumeItem) {
            pid_t pid = fork();
            if (pid == 0)
            {
                if (!freopen("/dev/null", "w", stderr)) {}
                std::unordered_set<uint64_t> st, oc; Slot* s = slots[w];
                int it = resumeItem;
                size_t maxDepth = 0;
                std::string firstSample, lastSample;
                for (;;)
                {
                    if (it < 0) { it = (int)__sync_fetch_and_add(next, 1); }
                    if (it >= (int)list.size() || *stop) break;
                    s->item = it;
                    if (s->histLen < 65536) { s->hist[s->histLen] = it; s->histLen = s->histLen + 1; }
                    Ctx c; c.isThorough = thorough; c.slot = s; c.states = &st; c.outcomes = &oc;
                    c.choices = list[it].prefix;
                    const size_t fixed = c.choices.size();
                    for (;;)
                    {
                        std::string m; s->curLen = 0; s->execStartMs = nowMs();
                        const bool sample = (w == 0 && (s->executions == 0 || s->executions == 257 || s->executions == 9001));
                        c.recording = sample;
                        Res r = runOnce(su, c, &m);
                        s->execStartMs = 0;
                        if (sample && r == Res::Done) { std::ofstream o(outDir + "/sample_" + std::to_string(w), std::ios::app); std::string l = c.log.substr(0, 1500); o << l << '\x01'; }
                        if (r == Res::Violated) { snprintf(s->msg, sizeof s->msg, "%s", m.c_str()); s->violated = 1; _exit(77); }
                        if (r == Res::Pruned) s->pruned = s->pruned + 1; else s->executions = s->executions + 1;
                        s->transitions = s->transitions + c.transitions; s->choicePoints = s->choicePoints + (c.pos - std::min(c.pos, fixed));
                        maxDepth = std::max(maxDepth, c.pos);
                        if (*stop) break;
                        if (!advance(c, fixed)) break;
                    }
                    it = -1;
                }
                FILE* f = fopen((outDir + "/states_" + std::to_string(w) + "_" + std::to_string(getpid())).c_str(), "wb");
                uint64_t n = st.size(), m = oc.size(), d = maxDepth; fwrite(&n, 8, 1, f); fwrite(&m, 8, 1, f); fwrite(&d, 8, 1, f);
                for (auto x : st) fwrite(&x, 8, 1, f);
                for (auto x : oc) fwrite(&x, 8, 1, f);
                fclose(f);
                _exit(0);
            }
            return pid;
        };
        std::vector<pid_t> finished;
        for (int w = 0; w < jobs; ++w) slots.push_back(newSlot());
        for (int w = 0; w < jobs; ++w) { pids.push_back(spawn(w, -1)); alive.push_back(true); }
        struct Suspect { std::vector<uint16_t> first; std::string second; std::vector<std::vector<uint16_t>> history; bool killed; };
        std::vector<Suspect> suspects;
        int live = jobs; bool capped = false;
        while (live > 0)
        {
            usleep(3000);
            for (int w = 0; w < jobs; ++w) if (alive[w])
            {
                int st = 0; pid_t r = waitpid(pids[w], &st, WNOHANG);
                Slot* s = slots[w];
                auto grab = [&](const char* why, bool killed) {
                    Suspect sp; sp.first.assign(s->cur, s->cur + std::max(0, std::min(8192, (int)s->curLen))); sp.second = why; sp.killed = killed;
                    if (s->histLen < 65536) for (int i = 0; i < s->histLen; ++i) sp.history.push_back(list[s->hist[i]].prefix);
                    suspects.push_back(sp); *stop = 1; };
                if (r == pids[w])
                {
                    alive[w] = false; --live; finished.push_back(pids[w]);
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
                    grab((WIFEXITED(st) && WEXITSTATUS(st) == 77) ? s->msg : "crash", WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL);
                }
                else
                {
                    const uint64_t es = s->execStartMs;
                    if (es != 0 && nowMs() - es > (uint64_t)su.hangSeconds * 1000)
                    {
                        kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); alive[w] = false; --live;
                        grab("hang", false);
                    }
                }
            }
            if (!capped && (nowMs() - t0) / 1000.0 > capSeconds) { capped = true; *stop = 1; R.exhaustive = false; }
        }
        for (auto* s : slots) { R.executions += s->executions; R.transitions += s->transitions; R.pruned += s->pruned; R.choicePoints += s->choicePoints; }
        // merge state sets
        {
            std::unordered_set<uint64_t> a, b;
            for (int w = 0; w < jobs; ++w)
            {
                const std::string fn = outDir + "/states_" + std::to_string(w) + "_" + std::to_string(pids[w]);
                if (FILE* f = fopen(fn.c_str(), "rb"))
                {
                    uint64_t n = 0, m = 0, d = 0, x;
                    if (fread(&n, 8, 1, f) == 1 && fread(&m, 8, 1, f) == 1 && fread(&d, 8, 1, f) == 1)
                    {
                        R.maxDepth = std::max<size_t>(R.maxDepth, d);
                        for (uint64_t i = 0; i < n; ++i) if (fread(&x, 8, 1, f) == 1) a.insert(x);
                        for (uint64_t i = 0; i < m; ++i) if (fread(&x, 8, 1, f) == 1) b.insert(x);
                    }
                    fclose(f); unlink(fn.c_str());
                }
            }
            R.states = a.size(); R.outcomes = b.size();
        }
        {
            const std::string fn = outDir + "/sample_0"; std::ifstream f(fn); std::string part;
            while (std::getline(f, part, '\x01')) if (!part.empty()) R.samples.push_back(part);
            unlink(fn.c_str());
        }
        for (auto* s : slots) munmap(s, sizeof(Slot));
        // confirm suspects by replay
        std::sort(suspects.begin(), suspects.end(), [](auto& x, auto& y) { return x.first.size() != y.first.size() ? x.first.size() < y.first.size() : x.first < y.first; });
        for (auto& sp : suspects)
        {
            std::string m, l; bool confirmed = true; int last = 0;
            std::vector<std::vector<uint16_t>> history;
            for (int k = 0; k < 2 && confirmed; ++k)
            {
                last = replayChild(su, sp.first, thorough, su.hangSeconds * 3, &m, &l, false);
                if (last == 0 || last == 3) confirmed = false;
            }
            if (!confirmed && last == 0 && !sp.history.empty() && sp.second != "hang" && !sp.killed)
            {   // needs what happened before in the same process: replay the whole history of that process
                confirmed = true; history = sp.history;
                for (int k = 0; k < 2 && confirmed; ++k)
                {
                    last = replayChild(su, sp.first, thorough, 600, &m, &l, false, &history);
                    if (last == 0 || last == 3) confirmed = false;
                }
                if (!confirmed && last == 0)
                {   // the harness is deterministic; an execution that fails only sometimes means nondeterminism of the code under test (e.g. uninitialized memory)
                    confirmed = true; m = sp.second + "\n(this execution fails only sometimes; it was not reproduced by a replay)"; l.clear();
                }
            }
            if (confirmed && m.rfind("harness:", 0) == 0 && m.find("replay diverged") != std::string::npos) confirmed = false;
            if (confirmed) { R.violated = true; R.message = m + (l.empty() ? "" : "\n--- execution ---\n" + l); R.choices = sp.first; R.history = history; break; }
            fprintf(stderr, "suite %s: suspect not confirmed by replay (%s; replay: %d %s)\n", su.name.c_str(), sp.second.substr(0, 2000).c_str(), last, m.c_str());
            if (sp.second != "hang") R.harnessError = true; else R.exhaustive = false;
        }
        R.seconds = (nowMs() - t0) / 1000.0;
        return R;
    }

    static std::string readAll(const std::string& fn) { std::ifstream f(fn); std::stringstream s; s << f.rdbuf(); return s.str(); }

    int main(int argc, char** argv)
    {
        std::string prop, tier = "quick", replay, only, exact; int jobs = 8; double cap = 1e9; bool listOnly = false;
        for (int i = 1; i < argc; ++i)
        {
            std::string a = argv[i]; auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--prop") prop = val(); else if (a == "--tier") tier = val(); else if (a == "--out") outDir = val();
            else if (a == "--jobs") jobs = atoi(val().c_str()); else if (a == "--replay") replay = val(); else if (a == "--suite") only = val(); else if (a == "--suite-exact") exact = val();
            else if (a == "--cap") cap = atof(val().c_str()); else if (a == "--list") listOnly = true;
        }
        const bool thorough = tier == "thorough";
        struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        mkdir(outDir.c_str(), 0777);
        if (listOnly) { for (auto& s : suites()) printf("%s %s\n", s.property.c_str(), s.name.c_str()); return 0; }
        if (!replay.empty())
        {   // file format: line 1 property, line 2 suite, line 3 tier, line 4 decisions
            std::ifstream f(replay); std::string l1, l2, l3, l4; std::getline(f, l1); std::getline(f, l2); std::getline(f, l3); std::getline(f, l4); std::string l5; std::getline(f, l5);
            std::vector<std::vector<uint16_t>> hist; if (l5.rfind("history", 0) == 0) { std::istringstream hs(l5.substr(7)); std::string tk; while (hs >> tk) { if (tk == ";") hist.emplace_back(); else hist.back().push_back((uint16_t)std::stoi(tk)); } }
            std::vector<uint16_t> ch; std::istringstream is(l4); int x; while (is >> x) ch.push_back((uint16_t)x);
            for (auto& s : suites()) if (s.property == l1 && s.name == l2)
            {
                std::string m, l; int r = replayChild(s, ch, l3 == "thorough", hist.empty() ? s.hangSeconds * 3 : 600, &m, &l, true, hist.empty() ? nullptr : &hist);
                printf("replay of %s/%s: %s\n%s\n%s\n", l1.c_str(), l2.c_str(), r == 0 ? "no violation" : (r == 3 ? "DIVERGED" : "VIOLATED"), m.c_str(), l.c_str());
                return r == 0 ? 0 : (r == 3 ? 2 : 1);
            }
            printf("no such suite\n"); return 2;
        }
        std::vector<SuiteResult> res; bool violated = false, herr = false; const uint64_t t0 = nowMs();
        std::vector<const Suite*> todo;
        for (auto& s : suites()) if ((prop.empty() || s.property == prop) && (s.tiers & (thorough ? 2 : 1)) && (only.empty() || s.name.find(only) != std::string::npos) && (exact.empty() || s.name == exact)) todo.push_back(&s);
        std::string vfile;
        for (size_t i = 0; i < todo.size(); ++i)
        {
            const double remaining = cap - (nowMs() - t0) / 1000.0;
            SuiteResult r = exploreSuite(*todo[i], thorough, jobs, std::max(1.0, remaining));
            printf("%s %-34s exec=%llu transitions=%llu states=%llu outcomes=%llu pruned=%llu depth=%zu items=%zu exhaustive=%d %.1fs%s\n", todo[i]->property.c_str(), r.name.c_str(), (unsigned long long)r.executions,
                (unsigned long long)r.transitions, (unsigned long long)r.states, (unsigned long long)r.outcomes, (unsigned long long)r.pruned, r.maxDepth, r.items, (int)r.exhaustive, r.seconds, r.violated ? "  VIOLATED" : "");
            fflush(stdout);
            if (r.violated)
            {
                violated = true; vfile = outDir + "/" + todo[i]->property + "_" + r.name + ".replay";
                std::ofstream f(vfile); f << todo[i]->property << "\n" << r.name << "\n" << tier << "\n";
                for (auto x : r.choices) f << x << " "; f << "\n";
                if (!r.history.empty()) { f << "history"; for (auto& h : r.history) { f << " ;"; for (auto x : h) f << " " << x; } }
                f << "\n" << r.message << "\n";
                printf("%s\n", r.message.substr(0, 6000).c_str());
            }
            herr = herr || (r.harnessError && !r.violated);
            res.push_back(r);
            if (violated) break;
        }
        // result for the driver
        std::ofstream o(outDir + "/result.json");
        o << "{\"violated\":" << (violated ? "true" : "false") << ",\"harness_error\":" << (herr ? "true" : "false") << ",\"replay\":\"" << jsonEsc(vfile) << "\",\"suites\":[";
        for (size_t i = 0; i < res.size(); ++i)
        {
            auto& r = res[i];
            o << (i ? "," : "") << "{\"name\":\"" << jsonEsc(r.name) << "\",\"bound\":\"" << jsonEsc(r.bound) << "\",\"executions\":" << r.executions << ",\"transitions\":" << r.transitions << ",\"states\":" << r.states
                << ",\"outcomes\":" << r.outcomes << ",\"pruned\":" << r.pruned << ",\"choice_points\":" << r.choicePoints << ",\"max_depth\":" << r.maxDepth << ",\"exhaustive\":" << (r.exhaustive ? "true" : "false") << ",\"seconds\":" << r.seconds << ",\"samples\":[";
            for (size_t k = 0; k < r.samples.size(); ++k) o << (k ? "," : "") << "\"" << jsonEsc(r.samples[k]) << "\"";
            o << "]}";
        }
        o << "]}\n";
        if (violated) return 1;
        return herr ? 2 : 0;
    }
}
