#include "conc.h"
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <exception>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <stdlib.h>
#include <string>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace
{
    constexpr int T = 4;                                   // threads at most
    enum St { Idle, Runnable, Blocked, Done };
    struct Th { pthread_t h; int go = 0; St st = Idle; const void* wait = nullptr; const std::function<void()>* fn = nullptr; };
    struct Pool { Th th[T]; int mainGo = 0; bool started = false; };
    Pool* pool = nullptr;
    mc::Ctx* ctx = nullptr; volatile bool active = false; int nThreads = 0; int current = -1; bool free_ = false;   // free_: decisions no longer asked for
    std::exception_ptr pending; char problem[4096]; uint64_t logical = 0; uint64_t progress[T];
    __thread int me = -1; __thread int inRt = 0;
    struct Rt { Rt() { ++inRt; } ~Rt() { --inRt; } };

    void futexWait(int* a) { while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(a, 0, __ATOMIC_RELEASE); }
    void futexPost(int* a) { __atomic_store_n(a, 1, __ATOMIC_RELEASE); syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

    // ---- vector clocks
    uint32_t vc[T][T];
    uint32_t gen = 1;
    struct Rec { uint32_t clk; uint32_t pc; uint8_t mask; };
    struct Cell { uintptr_t key; uint32_t gen; Rec r[T][2], w[T][2]; };
    constexpr size_t CELLS = 1u << 18; Cell* cells = nullptr; size_t cellsUsed = 0;
    struct Sync { uintptr_t key; uint32_t gen; uint32_t c[T]; };
    constexpr size_t SYNCS = 1u << 14; Sync* syncs = nullptr; size_t syncsUsed = 0;
    extern "C" char __executable_start;
    uint32_t rel(void* pc) { return (uint32_t)((uintptr_t)pc - (uintptr_t)&__executable_start); }
    std::string sym(uint32_t r)
    {
        Dl_info i; void* a = (void*)((uintptr_t)&__executable_start + r); char b[64]; snprintf(b, sizeof b, "+0x%x", r); if (!dladdr(a, &i) || !i.dli_sname) return b;
        int s = 0; char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &s); std::string t = d ? d : i.dli_sname; free(d); if (t.size() > 160) t.resize(160); return t + " (" + b + ")";
    }
    Cell* cell(uintptr_t key, bool create)
    {
        size_t h = (key * 0x9e3779b97f4a7c15ull) >> 46; h &= CELLS - 1;
        for (;; h = (h + 1) & (CELLS - 1))
        {
            Cell& c = cells[h];
            if (c.gen != gen) { if (!create || cellsUsed > CELLS / 2) return nullptr; ++cellsUsed; memset(&c, 0, sizeof c); c.key = key; c.gen = gen; return &c; }
            if (c.key == key) return &c;
        }
    }
    Sync* syncOf(const void* p)
    {
        const uintptr_t key = (uintptr_t)p; size_t h = ((key * 0x9e3779b97f4a7c15ull) >> 50) & (SYNCS - 1);
        for (;; h = (h + 1) & (SYNCS - 1))
        {
            Sync& s = syncs[h];
            if (s.gen != gen) { if (syncsUsed > SYNCS / 2) return nullptr; ++syncsUsed; memset(&s, 0, sizeof s); s.key = key; s.gen = gen; return &s; }
            if (s.key == key) return &s;
        }
    }
    void acquire(const void* p) { Sync* s = syncOf(p); if (s) for (int i = 0; i < T; ++i) if (s->c[i] > vc[me][i]) vc[me][i] = s->c[i]; }
    void release(const void* p) { Sync* s = syncOf(p); if (s) for (int i = 0; i < T; ++i) if (vc[me][i] > s->c[i]) s->c[i] = vc[me][i]; ++vc[me][me]; }
    void note(const std::string& t) { if (!problem[0]) { strncpy(problem, t.c_str(), sizeof problem - 1); } }

    void put(Rec* r, uint32_t clk, uint32_t pc, uint8_t mask)
    {
        for (int k = 0; k < 2; ++k) if ((r[k].mask & ~mask) == 0) { r[k] = { clk, pc, mask }; if (k == 0 && (r[1].mask & ~mask) == 0) r[1].mask = 0; return; }
        const int k = r[0].clk < r[1].clk ? 0 : 1; r[k] = { clk, pc, mask };
    }
    void race(uintptr_t a, bool w1, int t1, uint32_t pc1, bool w2, int t2, uint32_t pc2)
    {
        note(std::string("data race: thread ") + std::to_string(t1) + (w1 ? " writes" : " reads") + " in " + sym(pc1) + ", thread " + std::to_string(t2) + (w2 ? " writes" : " reads") + " the same memory in " + sym(pc2) + " without synchronisation"); (void)a;
    }
    void accessWord(uintptr_t key, uint8_t mask, bool write, uint32_t pc)
    {
        Cell* c = cell(key, true); if (!c) return;
        for (int t = 0; t < nThreads; ++t) if (t != me) for (int k = 0; k < 2; ++k)
        {
            const Rec& w = c->w[t][k]; if ((w.mask & mask) && w.clk > vc[me][t]) { race(key << 3, true, t, w.pc, write, me, pc); return; }
            if (write) { const Rec& r = c->r[t][k]; if ((r.mask & mask) && r.clk > vc[me][t]) { race(key << 3, false, t, r.pc, true, me, pc); return; } }
        }
        put(write ? c->w[me] : c->r[me], vc[me][me], pc, mask);
    }
    void access(const void* p, size_t n, bool write, void* pc)
    {
        if (!active || me < 0 || inRt || n == 0) return; Rt g; const uint32_t r = rel(pc);
        uintptr_t a = (uintptr_t)p, e = a + n;
        while (a < e) { const uintptr_t k = a >> 3; const unsigned o = a & 7, m = (unsigned)std::min<uintptr_t>(8 - o, e - a); accessWord(k, (uint8_t)(((1u << m) - 1) << o), write, r); a += m; }
    }
    void forget(const void* p, size_t n)
    {
        if (!active || me < 0) return; uintptr_t a = (uintptr_t)p >> 3, e = ((uintptr_t)p + n + 7) >> 3; if (e - a > CELLS) e = a + CELLS;
        for (; a < e; ++a) { Cell* c = cell(a, false); if (c) { memset(c->r, 0, sizeof c->r); memset(c->w, 0, sizeof c->w); } }
    }

    // ---- scheduling
    int ask(int n, bool preemptive)
    {
        if (free_ || n <= 1) return 0;
        try { return preemptive ? ctx->deviate(n, "") : ctx->choose(n, ""); } catch (...) { pending = std::current_exception(); free_ = true; return 0; }
    }
    void stateNow(int kind) { uint64_t h = kind; for (int i = 0; i < nThreads; ++i) h = mc::mix(h, progress[i] * 8 + pool->th[i].st); ctx->state(mc::mix(h, current)); ctx->step(); }
    void handTo(int t) { current = t; futexPost(&pool->th[t].go); }
    // picks a runnable thread; -1: none
    int pickOther()
    {
        int e[T], n = 0; for (int i = 0; i < nThreads; ++i) if (pool->th[i].st == Runnable) e[n++] = i; if (!n) return -1;
        return e[ask(n, false)];
    }
    void preempt(int kind)
    {
        ++progress[me]; stateNow(kind);
        int e[T], n = 0; e[n++] = me; for (int i = 0; i < nThreads; ++i) if (i != me && pool->th[i].st == Runnable) e[n++] = i; if (n < 2) return;
        const int c = ask(n, true); if (c == 0) return; const int m = me; handTo(e[c]); futexWait(&pool->th[m].go);
    }
    void block(const void* obj)
    {
        const int m = me; pool->th[m].st = Blocked; pool->th[m].wait = obj; const int t = pickOther();
        if (t < 0) { note("deadlock: no thread can continue"); futexPost(&pool->mainGo); for (;;) pause(); }
        handTo(t); futexWait(&pool->th[m].go);
    }
    void wake(const void* obj) { for (int i = 0; i < nThreads; ++i) if (pool->th[i].st == Blocked && pool->th[i].wait == obj) { pool->th[i].st = Runnable; pool->th[i].wait = nullptr; } }
    bool on() { return active && me >= 0 && !inRt; }

    void* threadMain(void* arg)
    {
        Pool* p = (Pool*)((void**)arg)[0]; const int id = (int)(intptr_t)((void**)arg)[1]; delete[] (void**)arg;
        for (;;)
        {
            futexWait(&p->th[id].go); me = id;
            try { (*p->th[id].fn)(); }
            catch (mc::Violation& v) { Rt g; note(v.what()); } catch (std::exception& e) { Rt g; note(std::string("an exception leaves the body of a thread: ") + e.what()); } catch (...) { Rt g; note("an unknown exception leaves the body of a thread"); }
            Rt g; p->th[id].st = Done; ++progress[id]; stateNow(9); const int t = pickOther(); me = -1;
            if (t >= 0) handTo(t);
            else { bool all = true; for (int i = 0; i < nThreads; ++i) all &= p->th[i].st == Done; if (!all) note("deadlock: a thread waits forever"); futexPost(&p->mainGo); }
        }
        return nullptr;
    }
}

namespace sched
{
    void point(int kind) { if (on()) { Rt g; preempt(kind); } }
    int self() { return active ? me : -1; }
    uint64_t now() { return ++logical; }
    void run(mc::Ctx& c, const std::vector<std::function<void()>>& bodies, int preemptions)
    {
        if (!cells) { cells = (Cell*)mmap(nullptr, sizeof(Cell) * CELLS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); syncs = (Sync*)mmap(nullptr, sizeof(Sync) * SYNCS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
        if (!pool)
        {
            pool = new Pool(); pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 1 << 20);
            for (int i = 0; i < T; ++i) { void** p = new void*[2]; p[0] = pool; p[1] = (void*)(intptr_t)i; pthread_create(&pool->th[i].h, &a, threadMain, p); }
        }
        ++gen; cellsUsed = syncsUsed = 0; memset(progress, 0, sizeof progress); memset(vc, 0, sizeof vc); nThreads = (int)bodies.size(); problem[0] = 0; pending = nullptr; free_ = false; ctx = &c; c.setDeviationBudget(preemptions);
        for (int i = 0; i < T; ++i) { pool->th[i].st = i < nThreads ? Runnable : Idle; pool->th[i].wait = nullptr; if (i < nThreads) { pool->th[i].fn = &bodies[i]; vc[i][i] = 1; } }
        active = true; Pool* p = pool; { Rt g; handTo(pickOther()); } futexWait(&p->mainGo); active = false;
        for (int i = 0; i < nThreads; ++i) if (p->th[i].st != Done) { pool = nullptr; break; }      // stuck threads are abandoned
        if (pending) std::rethrow_exception(pending);
        if (problem[0]) mc::fail(problem);
    }
}

// ---------------------------------------------------------------- instrumentation entry points
#define PC __builtin_return_address(0)
extern "C"
{
    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
#define ACC(n) void __tsan_read##n(void* p) { access(p, n, false, PC); } void __tsan_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); }
    ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
    void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
    void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
    void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
    void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, PC); }

    static bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
    static bool rls(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
    // a plain access concurrent with an atomic one is not looked for; reference counts of shared_ptr (acq_rel) are no scheduling points
    static bool pre(const volatile void* p, int mo, bool load, int size, bool rmw)
    {
        if (!on()) return false; Rt g; const bool refcount = (rmw && mo == __ATOMIC_ACQ_REL) || (load && size == 8 && mo == __ATOMIC_ACQUIRE); if (!refcount) preempt(1);
        return true;
    }
    static void post(const volatile void* p, int mo, bool ld, bool st) { Rt g; if (ld && acq(mo)) acquire((const void*)p); if (st && rls(mo)) release((const void*)p); }
#define RMW(N, TY, NAME, EXPR) TY __tsan_atomic##N##_##NAME(volatile TY* p, TY v, int mo) { const bool o = pre(p, mo, false, sizeof(TY), true); TY old = EXPR; if (o) post(p, mo, true, true); return old; }
#define ATOM(N, TY) \
    TY __tsan_atomic##N##_load(const volatile TY* p, int mo) { const bool o = pre(p, mo, true, sizeof(TY), false); TY v = __atomic_load_n(p, __ATOMIC_SEQ_CST); if (o) post(p, mo, true, false); return v; } \
    void __tsan_atomic##N##_store(volatile TY* p, TY v, int mo) { const bool o = pre(p, mo, false, sizeof(TY), false); if (o) post(p, mo, false, true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    RMW(N, TY, exchange, __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST)) RMW(N, TY, fetch_add, __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST)) RMW(N, TY, fetch_sub, __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST)) \
    RMW(N, TY, fetch_and, __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST)) RMW(N, TY, fetch_or, __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST)) RMW(N, TY, fetch_xor, __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST)) RMW(N, TY, fetch_nand, __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST)) \
    int __tsan_atomic##N##_compare_exchange_strong(volatile TY* p, TY* e, TY v, int mo, int fmo) { const bool o = pre(p, mo, false, sizeof(TY), true); const bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (o) post(p, ok ? mo : fmo, true, ok); return ok; } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile TY* p, TY* e, TY v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(p, e, v, mo, fmo); } \
    TY __tsan_atomic##N##_compare_exchange_val(volatile TY* p, TY e, TY v, int mo, int fmo) { __tsan_atomic##N##_compare_exchange_strong(p, &e, v, mo, fmo); return e; }
    ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
    static int fenceObject;
    void __tsan_atomic_thread_fence(int mo) { if (!on()) return; Rt g; preempt(1); acquire(&fenceObject); release(&fenceObject); }
    void __tsan_atomic_signal_fence(int) {}

    // ---- locks
    int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*);
    int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (!on()) return __real_pthread_mutex_trylock(m); Rt g; preempt(2); const int r = __real_pthread_mutex_trylock(m); if (!r) acquire(m); return r; }
    int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
    {
        if (!on()) return __real_pthread_mutex_lock(m); Rt g; preempt(2);
        while (__real_pthread_mutex_trylock(m) == EBUSY) block(m);
        acquire(m); return 0;
    }
    int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (!on()) return __real_pthread_mutex_unlock(m); Rt g; release(m); const int r = __real_pthread_mutex_unlock(m); wake(m); preempt(3); return r; }
    int __real_pthread_rwlock_rdlock(pthread_rwlock_t*); int __real_pthread_rwlock_wrlock(pthread_rwlock_t*); int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
    int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!on()) return __real_pthread_rwlock_rdlock(m); Rt g; preempt(2); while (pthread_rwlock_tryrdlock(m) == EBUSY) block(m); acquire(m); return 0; }
    int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!on()) return __real_pthread_rwlock_wrlock(m); Rt g; preempt(2); while (pthread_rwlock_trywrlock(m) == EBUSY) block(m); acquire(m); return 0; }
    int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!on()) return __real_pthread_rwlock_unlock(m); Rt g; release(m); const int r = __real_pthread_rwlock_unlock(m); wake(m); preempt(3); return r; }   // (readers are ordered as well: weaker detection, no false alarm)
    // ---- one-time initialisation
    struct Once { const void* p; bool running; }; static Once onces[64]; static int nOnces = 0;
    static Once* onceOf(const void* p) { for (int i = 0; i < nOnces; ++i) if (onces[i].p == p) return &onces[i]; if (nOnces == 64) abort(); onces[nOnces] = { p, false }; return &onces[nOnces++]; }
    int __real_pthread_once(pthread_once_t*, void (*)());
    int __wrap_pthread_once(pthread_once_t* o, void (*f)())
    {
        if (!on()) return __real_pthread_once(o, f);
        { Rt g; preempt(4); while (onceOf(o)->running) block(o); acquire(o); onceOf(o)->running = true; }
        struct End { pthread_once_t* o; ~End() { Rt g; onceOf(o)->running = false; release(o); wake(o); } } e{ o };
        return __real_pthread_once(o, f);
    }
    int __real___cxa_guard_acquire(void*); void __real___cxa_guard_release(void*); void __real___cxa_guard_abort(void*);
    int __wrap___cxa_guard_acquire(void* p) { if (!on()) return __real___cxa_guard_acquire(p); Rt g; while (onceOf(p)->running) block(p); acquire(p); const int r = __real___cxa_guard_acquire(p); if (r) onceOf(p)->running = true; return r; }
    static void guardEnd(void* p) { Rt g; onceOf(p)->running = false; release(p); wake(p); }
    void __wrap___cxa_guard_release(void* p) { __real___cxa_guard_release(p); if (on()) guardEnd(p); }
    void __wrap___cxa_guard_abort(void* p) { __real___cxa_guard_abort(p); if (on()) guardEnd(p); }

    // ---- memory
    void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); wchar_t* __real_wmemcpy(wchar_t*, const wchar_t*, size_t);
    void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return __real_memcpy(d, s, n); }
    void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return __real_memmove(d, s, n); }
    void* __wrap_memset(void* d, int v, size_t n) { access(d, n, true, PC); return __real_memset(d, v, n); }
    wchar_t* __wrap_wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { access(s, n * sizeof(wchar_t), false, PC); access(d, n * sizeof(wchar_t), true, PC); return __real_wmemcpy(d, s, n); }
    void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void* __real_aligned_alloc(size_t, size_t); int __real_posix_memalign(void**, size_t, size_t);
    static void* got(void* p) { if (p && on()) { Rt g; forget(p, malloc_usable_size(p)); } return p; }
    static void leaving(void* p, void* pc) { if (p && on()) { const size_t n = malloc_usable_size(p); access(p, n, true, pc); Rt g; forget(p, n); } }
    void* __wrap_malloc(size_t n) { return got(__real_malloc(n)); }
    void* __wrap_calloc(size_t a, size_t b) { return got(__real_calloc(a, b)); }
    void* __wrap_aligned_alloc(size_t a, size_t b) { return got(__real_aligned_alloc(a, b)); }
    int __wrap_posix_memalign(void** p, size_t a, size_t b) { const int r = __real_posix_memalign(p, a, b); if (!r) got(*p); return r; }
    void* __wrap_realloc(void* p, size_t n) { leaving(p, PC); return got(__real_realloc(p, n)); }
    void __wrap_free(void* p) { leaving(p, PC); __real_free(p); }
    void* __real___cxa_allocate_exception(size_t);
    void* __wrap___cxa_allocate_exception(size_t n) { void* p = __real___cxa_allocate_exception(n); if (on()) { Rt g; forget((char*)p - 128, n + 160); } return p; }
    // ---- trees of the standard library (modified inside of libstdc++)
    void __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool, void*, void*, void*);
    void __wrap__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, void* x, void* p, void* h) { access(h, 32, true, PC); access(x, 32, true, PC); access(p, 32, true, PC); __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(l, x, p, h); }
    void* __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void*, void*);
    void* __wrap__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void* z, void* h) { access(h, 32, true, PC); access(z, 32, true, PC); return __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(z, h); }
    // ---- files
    ssize_t __real_pread(int, void*, size_t, off_t); ssize_t __real_pread64(int, void*, size_t, off_t);
    ssize_t __wrap_pread(int f, void* b, size_t n, off_t o) { sched::point(5); const ssize_t r = __real_pread(f, b, n, o); if (r > 0) access(b, r, true, PC); sched::point(5); return r; }
    ssize_t __wrap_pread64(int f, void* b, size_t n, off_t o) { sched::point(5); const ssize_t r = __real_pread64(f, b, n, o); if (r > 0) access(b, r, true, PC); sched::point(5); return r; }
    off_t __real_lseek(int, off_t, int); off_t __real_lseek64(int, off_t, int); ssize_t __real_read(int, void*, size_t);
    off_t __wrap_lseek(int f, off_t o, int w) { sched::point(5); return __real_lseek(f, o, w); }
    off_t __wrap_lseek64(int f, off_t o, int w) { sched::point(5); return __real_lseek64(f, o, w); }
    int __real_fseeko(FILE*, off_t, int); int __real_fseeko64(FILE*, off_t, int); size_t __real_fread(void*, size_t, size_t, FILE*);
    int __wrap_fseeko(FILE* f, off_t o, int w) { sched::point(5); return __real_fseeko(f, o, w); }
    int __wrap_fseeko64(FILE* f, off_t o, int w) { sched::point(5); return __real_fseeko64(f, o, w); }
    size_t __wrap_fread(void* b, size_t s, size_t n, FILE* f) { sched::point(5); const size_t r = __real_fread(b, s, n, f); access(b, r * s, true, PC); return r; }
    ssize_t __wrap_read(int f, void* b, size_t n) { sched::point(5); return __real_read(f, b, n); }
}
// allocations of the C++ standard library itself go through these
static void* newMem(size_t n) { void* p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return newMem(n); }
void* operator new[](size_t n) { return newMem(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n ? n : 1); }
void operator delete(void* p) noexcept { leaving(p, PC); __real_free(p); }
void operator delete[](void* p) noexcept { leaving(p, PC); __real_free(p); }
void operator delete(void* p, size_t) noexcept { leaving(p, PC); __real_free(p); }
void operator delete[](void* p, size_t) noexcept { leaving(p, PC); __real_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { leaving(p, PC); __real_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { leaving(p, PC); __real_free(p); }
