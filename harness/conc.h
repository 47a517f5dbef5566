// Controlled scheduler and race detector. The library is compiled with the compiler's thread-sanitizer instrumentation,
// but linked with the runtime in conc.cpp: exactly one thread runs at a time, every lock operation, atomic operation, one-time
// initialisation and stream access is a scheduling point at which mc::Ctx decides who continues, and plain memory accesses are
// checked with vector clocks for races on every explored schedule.
#pragma once
#include "mc.h"
#include <functional>
#include <vector>

namespace sched
{
    // runs the bodies as concurrent threads under the schedule chosen by 'c'; at most 'preemptions' preemptive switches.
    // A race, a deadlock, or an exception leaving a body is a violation.
    void run(mc::Ctx& c, const std::vector<std::function<void()>>& bodies, int preemptions);
    void point(int kind = 0);            // scheduling point (no effect outside of run)
    int self();                          // number of the calling thread within run, -1 outside
    uint64_t now();                      // logical time: advances at each call
}
