// A small deviation-/depth-bounded stateless model checker for deterministic scenarios.
//
// A scenario is a function that asks its environment for decisions with Ctx::choose(n). The engine
// executes it for EVERY sequence of decisions (depth-first), sharded over worker processes. A scenario
// signals a property violation by throwing mc::Violation; a crash (ASan, signal) or a hang of the code
// under test is a violation as well. Every violation is replayed from its decision sequence in fresh
// processes before it is reported.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <locale>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc
{
    struct Violation : std::runtime_error { using std::runtime_error::runtime_error; };
    struct PrefixEnd {};            // engine-internal: stop execution at this decision (prefix enumeration)
    struct Prune {};                // a scenario may abandon an execution (redundant / outside of the bound)

    inline uint64_t mix(uint64_t h, uint64_t v)
    {
        h = (h + 0x9e3779b97f4a7c15ull) * 0xc4ceb9fe1a85ec53ull; h ^= (h >> 29) ^ v;
        h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h;
    }
    inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
    {
        const uint8_t* b = static_cast<const uint8_t*>(p);
        while (n >= 8) { uint64_t v; memcpy(&v, b, 8); h = mix(h, v); b += 8; n -= 8; }
        uint64_t v = n; for (size_t i = 0; i < n; ++i) v = (v << 8) | b[i];
        return mix(h, v);
    }
    inline uint64_t hashStr(const std::string& s, uint64_t h = 7) { return hashBytes(s.data(), s.size(), h); }

    class Ctx
    {
    public:
        // decision of the environment: a number in [0,n)
        int choose(int n, const char* what = "");
        // decision counted against a deviation budget: 0 is the default answer, others cost 1
        int deviate(int n, const char* what = "");
        bool flip(const char* what = "") { return this->choose(2, what) == 1; }

        void state(uint64_t h);           // a reached state (canonical hash)
        void outcome(uint64_t h);         // an observed outcome
        void step(uint64_t n = 1) { this->transitions += n; }   // transitions (operations of the code under test)
        bool thorough() const { return this->isThorough; }
        int deviationsLeft() const { return this->devBudget; }
        void setDeviationBudget(int b) { this->devBudget = b; }

        // human readable description of the execution (kept only when recording)
        bool recording = false;
        std::string log;
        FILE* live = nullptr;             // replay: the log is also written here at once (survives a crash)
        template<typename F> void say(F f) { if (this->recording) { std::ostringstream s; f(s); this->sayText(s.str()); } }
        void sayText(const std::string& s) { if (this->recording) { this->log += s; this->log += "\n"; if (this->live) { fprintf(this->live, "%s\n", s.c_str()); fflush(this->live); } } }

        // engine
        std::vector<uint16_t> choices; std::vector<uint16_t> arity;
        size_t pos = 0; size_t prefixLimit = SIZE_MAX; bool isThorough = false; int devBudget = 0;
        uint64_t transitions = 0;
        struct Slot* slot = nullptr;
        std::unordered_set<uint64_t>* states = nullptr; std::unordered_set<uint64_t>* outcomes = nullptr;
    };

    [[noreturn]] inline void fail(const std::string& s) { throw Violation(s); }
    template<typename... A> std::string cat(const A&... a) { std::ostringstream s; s.imbue(std::locale::classic()); int d[] = { 0, ((s << a), 0)... }; (void)d; return s.str(); }
#define MC_CHECK(cond, ...) do { if (!(cond)) ::mc::fail(::mc::cat(__VA_ARGS__)); } while (0)

    struct Suite
    {
        std::string property;
        std::string name;
        std::string bound;                       // textual description of the enumerated space
        std::function<void(Ctx&)> scenario;
        int tiers = 3;                           // bit 0: quick, bit 1: thorough
        int hangSeconds = 20;                    // an execution running longer than this is suspected to hang
    };

    void add(Suite s);
    int main(int argc, char** argv);
}
