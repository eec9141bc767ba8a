// Simulator runtime: scheduler, thread library, race / heap / stack checker, allocator, clock,
// entropy, task pool. Compiled WITHOUT instrumentation; the instrumented code calls in here.
#include "internal.hpp"
#include "rt.hpp"

#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <exception>
#include <linux/futex.h>
#include <pthread.h>
#include <random>
#include <semaphore.h>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <system_error>
#include <unistd.h>
#include <iostream>

extern "C" char __data_start, _end;

namespace simrt {

Result* R; Plan* P;
const char* g_property = "";
bool g_thorough = false;

// ------------------------------------------------------------------ small things
uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t x = a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2));
    x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33;
    return x;
}
void Rng::seed(uint64_t x) { s[0] = mix(x, 1); s[1] = mix(x, 2) | 1; for (int i = 0; i < 8; ++i) next(); }
uint64_t Rng::next() {
    uint64_t a = s[0], b = s[1], r = a + b;
    b ^= a; s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16); s[1] = (b << 37) | (b >> 27);
    return mix(r, 0);
}
static long rawsys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
    long ret;
    register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}

// ------------------------------------------------------------------ memory layout
constexpr uintptr_t ARENA = 0x100000000000ull; constexpr size_t ARENA_SZ = size_t(512) << 20;
constexpr uintptr_t STACKS = 0x110000000000ull; constexpr size_t STACK_SZ = size_t(2) << 20;
constexpr int MAXT = 64;
constexpr uintptr_t SHADOW = 0x120000000000ull;
constexpr uintptr_t SYNCIX = 0x150000000000ull;
constexpr uintptr_t ASTATE = 0x160000000000ull;
constexpr size_t GLOB_MAX = size_t(64) << 20;
constexpr size_t NCELL_A = ARENA_SZ / 8, NCELL_S = MAXT * STACK_SZ / 8, NCELL_G = GLOB_MAX / 8;
constexpr size_t NCELL = NCELL_A + NCELL_S + NCELL_G;

struct Slot { uint64_t a; uint64_t pc; };
struct Cell { Slot s[4]; };
static Cell* const shadow = reinterpret_cast<Cell*>(SHADOW);
static uint32_t* const syncix = reinterpret_cast<uint32_t*>(SYNCIX);
static uint8_t* const astate = reinterpret_cast<uint8_t*>(ASTATE);
static bool g_mapped = false;

static void map_at(uintptr_t at, size_t n) {
    void* p = mmap(reinterpret_cast<void*>(at), n, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != reinterpret_cast<void*>(at)) { fprintf(stderr, "sim: cannot map %zx\n", size_t(at)); _exit(99); }
}
static void init_maps() {
    if (g_mapped) return;
    g_mapped = true;
    map_at(ARENA, ARENA_SZ); map_at(STACKS, MAXT * STACK_SZ);
    map_at(SHADOW, NCELL * sizeof(Cell)); map_at(SYNCIX, NCELL * 4); map_at(ASTATE, ARENA_SZ / 8);
    madvise(reinterpret_cast<void*>(SHADOW), NCELL * sizeof(Cell), MADV_NOHUGEPAGE);
    madvise(reinterpret_cast<void*>(ARENA), ARENA_SZ, MADV_NOHUGEPAGE);
}
static uintptr_t glo_lo, glo_hi;
static inline bool in_arena(uintptr_t a) { return a - ARENA < ARENA_SZ; }
static inline bool in_stacks(uintptr_t a) { return a - STACKS < MAXT * STACK_SZ; }
static inline bool in_glob(uintptr_t a) { return a >= glo_lo && a < glo_hi; }
// -1: untracked
static inline int64_t cell_of(uintptr_t a) {
    if (in_arena(a)) return int64_t((a - ARENA) >> 3);
    if (in_stacks(a)) return int64_t(NCELL_A + ((a - STACKS) >> 3));
    if (in_glob(a)) return int64_t(NCELL_A + NCELL_S + ((a - glo_lo) >> 3));
    return -1;
}

// ------------------------------------------------------------------ threads
enum State : int { FREE = 0, RUNNABLE, BLOCKED, DONE, DEAD };
enum Why : int { W_NONE, W_MUTEX, W_COND, W_JOIN, W_FUTEX, W_POOL, W_ONCE, W_GUARD, W_RW, W_SEM, W_SLEEP, W_SIMJOIN, W_SETTLE };
static const char* why_name[] = {"-", "mutex", "condition", "join", "futex", "pool-idle", "call_once", "static-init", "rwlock", "semaphore", "sleep", "sim-join", "settle"};

struct VC {
    uint32_t c[MAXT];
    void join(const VC& o, int n) { for (int i = 0; i < n; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
    void clear() { memset(c, 0, sizeof c); }
};
struct Thr {
    int id; State st; Why why; uintptr_t wobj; bool timed; uint64_t deadline; bool timed_out; uint32_t wakeseq;
    std::atomic<int> go;
    VC vc, frel, facq;
    uintptr_t park_sp;
    void* (*fn)(void*); void* arg; void* ret;
    pthread_t pt; bool detached, joined, user;  // user: created through pthread_create
    uint32_t prio;
    uint64_t stall_from, stall_to;
    const char* name; char nbuf[24];
    std::function<void()>* body;
    bool quiet;
};
static Thr T[MAXT];
static int g_nthr = 0;
static thread_local Thr* cur = nullptr;     // only set for simulated threads
static thread_local int in_rt = 0;
static int g_running = -1;

RtScope::RtScope() { ++in_rt; }
RtScope::~RtScope() { --in_rt; }

static uint64_t g_step = 0, g_budget = ~0ull, g_time = 1700000000ull * 1000000000ull;
static int64_t g_wall = 0;        // wall clock minus monotonic clock
static uint64_t g_loghash, g_schedhash, g_switches, g_preempt;
static int g_calm = 0;
static uint64_t g_next = ~0ull;             // next step at which the scheduler looks
static Rng rs, rw, rf, re;                  // schedule, workload, faults, entropy
static int g_strategy; static uint64_t g_interval; static int g_syncpct;
static size_t iW, iS; static Map<uint64_t, uint64_t>* fmap; static uint64_t g_ford[8];
static uint64_t pct_points[16]; static int pct_n, pct_i;
static int64_t g_stalls_left;
static Vec<SRec>* Saux;

bool in_sim() { return cur && !in_rt; }
bool calm() { return g_calm > 0; }
void advance(uint64_t ns) { g_time += ns; }
uint64_t now_ns() { return g_time + g_step * 10; }

// ------------------------------------------------------------------ log
void loghash(uint64_t v) { g_loghash = mix(g_loghash, v); }
void logf(const char* fmt, ...) {
    char b[512]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n < 0) return;
    if (n > int(sizeof b) - 1) n = sizeof b - 1;
    for (int i = 0; i < n; ++i) g_loghash = (g_loghash ^ uint8_t(b[i])) * 0x100000001b3ull;
    if (P->keeplog) {
        int m = snprintf(nullptr, 0, "[%lu t%d] ", (unsigned long)g_step, g_running);
        if (R->logged + size_t(n) + size_t(m) + 2 < MAXLOG) {
            R->logged += size_t(sprintf(R->logtext + R->logged, "[%lu t%d] %s\n", (unsigned long)g_step, g_running, b));
        }
    }
}

static void backtrace_fp(uint64_t pc) {
    if (R->npc < MAXPC) R->pcs[R->npc++] = pc;
    if (!cur) return;
    uintptr_t lo = STACKS + size_t(cur->id) * STACK_SZ, hi = lo + STACK_SZ;
    uintptr_t fp = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
    for (int i = 0; i < 40 && R->npc < MAXPC; ++i) {
        if (fp < lo || fp + 16 > hi || (fp & 7)) break;
        uintptr_t ra = reinterpret_cast<uintptr_t*>(fp)[1], nfp = reinterpret_cast<uintptr_t*>(fp)[0];
        if (ra) R->pcs[R->npc++] = ra;
        if (nfp <= fp) break;
        fp = nfp;
    }
}
static void finish_counters() {
    R->loghash = g_loghash; R->schedhash = g_schedhash; R->steps = g_step; R->time_ns = now_ns() - 1700000000ull * 1000000000ull;
    R->switches = g_switches; R->preemptions = g_preempt;
}
[[noreturn]] static void end_run(int done) {
    finish_counters();
    R->done = done;
    rawsys(SYS_exit_group, 0);
    __builtin_unreachable();
}
static void vviolation(const char* cls, const char* key, const char* fmt, va_list ap) {
    ++in_rt;
    snprintf(R->cls, sizeof R->cls, "%s", cls);
    snprintf(R->key, sizeof R->key, "%s", key);
    vsnprintf(R->msg, sizeof R->msg, fmt, ap);
    loghash(mix(g_step, 77));
    for (const char* p = cls; *p; ++p) loghash(uint8_t(*p));
}
[[noreturn]] void violation(const char* cls, const char* key, const char* fmt, ...) {
    va_list ap; va_start(ap, fmt); vviolation(cls, key, fmt, ap); va_end(ap);
    backtrace_fp(0);
    end_run(2);
}
static const char* loc_name(uintptr_t a, char* b) {
    if (in_arena(a)) sprintf(b, "heap+0x%zx", size_t(a - ARENA));
    else if (in_stacks(a)) sprintf(b, "stack of thread %d", int((a - STACKS) / STACK_SZ));
    else sprintf(b, "global 0x%zx", size_t(a));
    return b;
}

// ------------------------------------------------------------------ scheduler
static bool stalled(const Thr& t) { return g_step >= t.stall_from && g_step < t.stall_to; }
static int runnables(int* out, bool include_self) {
    int n = 0;
    for (int i = 0; i < g_nthr; ++i)
        if (T[i].st == RUNNABLE && (include_self || i != g_running)) out[n++] = i;
    return n;
}
static void draw_next() {
    if (P->replay && !P->gen_sched) { g_next = iS < P->S.size() ? P->S[iS].step : ~0ull; return; }
    switch (g_strategy) {
    case 1: g_next = g_step + 1 + rs.below(2 * g_interval); break;
    case 2: g_next = pct_i < pct_n ? pct_points[pct_i] : ~0ull; break;
    default: g_next = ~0ull;
    }
    if (g_next <= g_step) g_next = g_step + 1;
}
// Past the capacity of the record every choice is the default one, so that the recorded run still replays.
static bool sfull() { return R->nS >= MAXS - 4; }
static void record(int tid, int kind) {
    if (R->nS < MAXS) R->S[R->nS++] = {g_step, tid, kind}; else R->overflow = 1;
}
static void hand_over(int nxt) {
    Thr* me = &T[g_running];
    g_schedhash = mix(g_schedhash, (uint64_t(g_running) << 8) | uint64_t(nxt));
    loghash(mix(g_step, uint64_t(nxt)));
    ++g_switches;
    char probe; me->park_sp = reinterpret_cast<uintptr_t>(&probe);
    g_running = nxt;
    Thr* t = &T[nxt];
    t->go.store(1, std::memory_order_release);
    rawsys(SYS_futex, long(&t->go), FUTEX_WAKE_PRIVATE, 1);
    if (me->st == DONE || me->st == DEAD) return;
    while (me->go.load(std::memory_order_acquire) == 0)
        rawsys(SYS_futex, long(&me->go), FUTEX_WAIT_PRIVATE, 0, 0);
    me->go.store(0, std::memory_order_relaxed);
    me->park_sp = 0;
}
static int choose_from(int* c, int n) {
    // drop stalled ones when possible
    int k = 0, d[MAXT];
    for (int i = 0; i < n; ++i) if (!stalled(T[c[i]])) d[k++] = c[i];
    if (k == 0) { k = n; memcpy(d, c, sizeof(int) * size_t(n)); }
    if (g_strategy == 2) { int b = d[0]; for (int i = 1; i < k; ++i) if (T[d[i]].prio > T[b].prio) b = d[i]; return b; }
    return d[rs.below(uint64_t(k))];
}
// A point where another thread may be scheduled although the caller could go on.
static void may_preempt(bool sync) {
    if (P->replay && !P->gen_sched) {
        int want = -1;
        while (iS < P->S.size() && P->S[iS].step <= g_step) { if (P->S[iS].step == g_step) want = P->S[iS].tid; ++iS; }
        g_next = iS < P->S.size() ? P->S[iS].step : ~0ull;
        if (want >= 0 && want < g_nthr && want != g_running && T[want].st == RUNNABLE && !g_calm) {
            record(want, 1); ++g_preempt; hand_over(want);
        }
        return;
    }
    if (!sync) {
        if (g_strategy == 2 && pct_i < pct_n) { ++pct_i; T[g_running].prio = uint32_t(pct_n - pct_i); }
        draw_next();
    }
    if (g_calm || P->quiet || sfull()) return;
    int c[MAXT];
    int n;
    if (sync) {
        if (g_strategy == 2) { n = runnables(c, true); }
        else { if (int(rs.below(100)) >= g_syncpct) return; n = runnables(c, false); }
    } else n = runnables(c, g_strategy == 2);
    if (!n) return;
    int k = choose_from(c, n);
    if (k == g_running || (stalled(T[k]) && !stalled(T[g_running]))) return;
    record(k, 1); ++g_preempt;
    hand_over(k);
}
static void check_budget() {
    if (g_step > g_budget) {
        char b[600]; size_t o = 0; b[0] = 0;
        for (int i = 0; i < g_nthr && o < 500; ++i)
            if (T[i].st == RUNNABLE || T[i].st == BLOCKED)
                o += size_t(snprintf(b + o, sizeof b - o, " t%d(%s)=%s", i, T[i].name, T[i].st == RUNNABLE ? "runnable" : why_name[T[i].why]));
        violation("no-progress", "steps", "still running after %lu steps;%s", (unsigned long)g_step, b);
    }
}
static inline void step() {
    ++g_step;
    if (__builtin_expect(g_step >= g_next, 0)) { ++in_rt; if (g_step > g_budget) check_budget(); may_preempt(false); --in_rt; }
    else if (__builtin_expect(g_step > g_budget, 0)) { ++in_rt; check_budget(); --in_rt; }
}
void sync_point() {
    if (!cur) return;
    ++in_rt; ++g_step; check_budget();
    if (P->replay && !P->gen_sched) { if (g_step >= g_next) may_preempt(true); }
    else may_preempt(true);
    --in_rt;
}
static void wake_timers_or_deadlock() {
    // nothing runnable: let simulated time pass to the next timer
    int best = -1;
    for (int i = 0; i < g_nthr; ++i)
        if (T[i].st == BLOCKED && T[i].timed && (best < 0 || T[i].deadline < T[best].deadline)) best = i;
    if (best >= 0) {
        if (T[best].deadline > now_ns()) g_time += T[best].deadline - now_ns();
        T[best].timed_out = true; T[best].st = RUNNABLE;
        return;
    }
    char b[900]; size_t o = 0; b[0] = 0;
    for (int i = 0; i < g_nthr && o < 800; ++i)
        if (T[i].st == BLOCKED) o += size_t(snprintf(b + o, sizeof b - o, " t%d(%s) waits for %s", i, T[i].name, why_name[T[i].why]));
    violation("deadlock", "blocked", "no thread can run:%s", b);
}
// The caller cannot go on (blocked, done): pick who runs.
static void must_switch() {
    ++g_step; check_budget();
    int c[MAXT]; int n;
    while ((n = runnables(c, true)) == 0) wake_timers_or_deadlock();
    int k = -1;
    if (P->replay && !P->gen_sched) {
        while (iS < P->S.size() && P->S[iS].step <= g_step) { if (P->S[iS].step == g_step) k = P->S[iS].tid; ++iS; }
        g_next = iS < P->S.size() ? P->S[iS].step : ~0ull;
        if (k < 0 || k >= g_nthr || T[k].st != RUNNABLE) { k = c[0]; }
        else record(k, 0);
    } else if (g_calm || P->quiet || sfull()) k = c[0];
    else {
        k = choose_from(c, n);
        if (k != c[0]) record(k, 0);
    }
    if (k == g_running) return;
    hand_over(k);
}
static void block(Why w, uintptr_t obj, bool timed = false, uint64_t deadline = 0) {
    Thr* me = &T[g_running];
    me->st = BLOCKED; me->why = w; me->wobj = obj; me->timed = timed; me->deadline = deadline; me->timed_out = false;
    must_switch();
    me->why = W_NONE; me->timed = false;
}
static int wake(Why w, uintptr_t obj, int n) {
    int woken = 0;
    while (woken < n) {
        int c[MAXT], k = 0;
        for (int i = 0; i < g_nthr; ++i) if (T[i].st == BLOCKED && T[i].why == w && T[i].wobj == obj) c[k++] = i;
        if (!k) break;
        int pick = c[0];
        if (k > 1 && n < k && !(P->replay && !P->gen_sched) && !g_calm && !P->quiet && !sfull()) {
            pick = c[rs.below(uint64_t(k))];
            if (pick != c[0]) { record(pick, 2); }
        } else if (k > 1 && n < k && P->replay && !P->gen_sched) {
            // recorded wake choices carry kind 2 at this step
            for (auto& a : *Saux)
                if (a.kind == 2 && a.step == g_step)
                    for (int q = 0; q < k; ++q) if (c[q] == a.tid) pick = c[q];
            if (pick != c[0]) record(pick, 2);
        }
        T[pick].st = RUNNABLE; ++woken;
    }
    return woken;
}

// ------------------------------------------------------------------ happens-before
struct Sync { VC vc; bool used; uint32_t next; };
static Vec<Sync>* syncs; static uint32_t sync_free = 0; static HMap<uintptr_t, uint32_t>* sync_far;
static Sync& sync_of(uintptr_t a) {
    int64_t c = cell_of(a);
    uint32_t* ix; 
    if (c >= 0) ix = &syncix[c];
    else ix = &(*sync_far)[a];
    if (*ix == 0) {
        if (sync_free) { *ix = sync_free; sync_free = (*syncs)[sync_free].next; }
        else { if (syncs->empty()) syncs->push_back(Sync{}); *ix = uint32_t(syncs->size()); syncs->push_back(Sync{}); }
        (*syncs)[*ix].vc.clear();
    }
    return (*syncs)[*ix];
}
static void sync_drop(int64_t cell) { if (syncix[cell]) { (*syncs)[syncix[cell]].next = sync_free; sync_free = syncix[cell]; syncix[cell] = 0; } }
static void acquire(uintptr_t a) { cur->vc.join(sync_of(a).vc, MAXT); }
static void release(uintptr_t a) { sync_of(a).vc.join(cur->vc, MAXT); ++cur->vc.c[cur->id]; }
static void release_store(uintptr_t a) { sync_of(a).vc = cur->vc; ++cur->vc.c[cur->id]; }

static inline uint64_t pack(uint32_t ep, int tid, unsigned mask, bool w, bool at) {
    return uint64_t(ep) | uint64_t(tid) << 32 | uint64_t(mask) << 40 | uint64_t(w) << 48 | uint64_t(at) << 49 | 1ull << 50;
}
struct Forbid { uintptr_t lo, hi; int owner; const char* what; };
static Forbid g_forbid[32]; static int g_nforbid;
static uintptr_t excl[12][2]; static int nexcl;
static uint32_t g_rr;

[[noreturn]] static void race(uintptr_t a, uint64_t old, uint64_t oldpc, bool w, bool at, uint64_t pc) {
    char b[64];
    bool ow = (old >> 48) & 1; int ot = int((old >> 32) & 0xff);
    R->npc = 0; R->pcs[R->npc++] = oldpc;
    va_list dummy; (void)dummy;
    char m[400];
    snprintf(m, sizeof m, "%s%s by thread %d (%s) and %s%s by thread %d (%s) on %s are not ordered by any synchronisation",
             at ? "atomic " : "", w ? "write" : "read", cur->id, cur->name, (old >> 49) & 1 ? "atomic " : "", ow ? "write" : "read", ot, T[ot].name, loc_name(a, b));
    backtrace_fp(pc);
    ++in_rt;
    snprintf(R->cls, sizeof R->cls, "data-race"); snprintf(R->key, sizeof R->key, "race");
    snprintf(R->msg, sizeof R->msg, "%s", m);
    loghash(mix(g_step, 78));
    end_run(2);
}
static inline void check_cell(int64_t ci, uintptr_t a, unsigned mask, bool w, bool at, uint64_t pc) {
    Cell& c = shadow[ci];
    int tid = cur->id;
    uint64_t me = pack(cur->vc.c[tid], tid, mask, w, at);
    int place = -1, empty = -1;
    for (int i = 0; i < 4; ++i) {
        uint64_t o = c.s[i].a;
        if (!o) { if (empty < 0) empty = i; continue; }
        unsigned om = (o >> 40) & 0xff;
        if (!(om & mask)) continue;
        int ot = int((o >> 32) & 0xff); bool ow = (o >> 48) & 1, oat = (o >> 49) & 1;
        if (ot == tid) {
            if (om == mask && (w || !ow) && (oat || !at || at == oat)) { if (place < 0) place = i; else c.s[i].a = 0; }
            else if (om == mask && ow && !w && place < 0 && uint32_t(o) == cur->vc.c[tid] && (!oat || at)) return; // own newer write covers this read
            continue;
        }
        if ((w || ow) && !(at && oat) && uint32_t(o) > cur->vc.c[ot]) race(a, o, c.s[i].pc, w, at, pc);
        if (om == mask && w && place < 0 && empty < 0 && uint32_t(o) <= cur->vc.c[ot]) place = i; // ordered before us: replace
    }
    if (place < 0) place = empty;
    if (place < 0) place = int(g_rr++ & 3);
    c.s[place].a = me; c.s[place].pc = pc;
}
[[noreturn]] static void bad_heap(uintptr_t a, size_t n, bool w, uint64_t pc, uint8_t st) {
    char b[64];
    R->npc = 0; backtrace_fp(pc);
    ++in_rt;
    snprintf(R->cls, sizeof R->cls, "%s", st == 0xFD ? "use-after-free" : "heap-out-of-bounds"); snprintf(R->key, sizeof R->key, "heap");
    snprintf(R->msg, sizeof R->msg, "%s of %zu bytes at %s by thread %d (%s)", w ? "write" : "read", n, loc_name(a, b), cur->id, cur->name);
    loghash(mix(g_step, 79));
    end_run(2);
}
static void on_access(uintptr_t a, size_t n, bool w, bool at, uint64_t pc) {
    if (!cur || in_rt) return;
    step();
    if (cur->quiet) return;
    if (in_arena(a)) {
        uintptr_t x = a, e = a + n;
        while (x < e) {
            uint8_t s = astate[(x - ARENA) >> 3];
            uintptr_t off = x & 7, m = 8 - off; if (m > e - x) m = e - x;
            if (s == 0xFD || off + m > s) bad_heap(a, n, w, pc, s);
            x += m;
        }
    } else if (in_stacks(a)) {
        int o = int((a - STACKS) / STACK_SZ);
        if (o != cur->id) {
            Thr& t = T[o];
            if (t.st == DONE || t.st == DEAD || t.st == FREE || (t.park_sp && a + n <= t.park_sp - 128)) {
                char b[64];
                R->npc = 0; backtrace_fp(pc); ++in_rt;
                snprintf(R->cls, sizeof R->cls, "dead-stack-access"); snprintf(R->key, sizeof R->key, "stack");
                snprintf(R->msg, sizeof R->msg, "%s of %zu bytes by thread %d (%s) in a dead frame on the %s", w ? "write" : "read", n, cur->id, cur->name, loc_name(a, b));
                loghash(mix(g_step, 80));
                end_run(2);
            }
        }
    } else if (in_glob(a)) {
        for (int i = 0; i < nexcl; ++i) if (a >= excl[i][0] && a < excl[i][1]) return;
    } else return;
    for (int i = 0; i < g_nforbid; ++i)
        if (a < g_forbid[i].hi && a + n > g_forbid[i].lo && cur->id != g_forbid[i].owner) {
            R->npc = 0; backtrace_fp(pc); ++in_rt;
            snprintf(R->cls, sizeof R->cls, "late-access"); snprintf(R->key, sizeof R->key, "%s", g_forbid[i].what);
            snprintf(R->msg, sizeof R->msg, "%s by thread %d (%s) of %s after the call had ended", w ? "write" : "read", cur->id, cur->name, g_forbid[i].what);
            loghash(mix(g_step, 81));
            end_run(2);
        }
    if (g_nthr == 1) return;        // what happens before the first thread starts cannot race
    uintptr_t x = a, e = a + n;
    while (x < e) {
        uintptr_t off = x & 7, m = 8 - off; if (m > e - x) m = e - x;
        int64_t ci = cell_of(x);
        if (ci >= 0) check_cell(ci, x, ((1u << m) - 1) << off, w, at, pc);
        x += m;
    }
}

// ------------------------------------------------------------------ allocator
struct Hdr { uint64_t size; uint64_t magic; };
constexpr uint64_t MAGIC = 0x51a110c5eedf00dull;
static uintptr_t g_brk = ARENA + 4096;
static void* g_freelist[64];
struct QEnt { void* p; uint32_t cls; };
static size_t q_keep = 1 << 16;     // freed blocks that are kept from reuse; 0: the next block of that size has the same address
static QEnt g_quar[1 << 16]; static size_t q_head, q_tail, q_bytes;
static int64_t g_live, g_liveblk, g_peak; static uint64_t g_allocs;
static uint64_t af_at, af_burst, af_fired;     // allocation fault plan
static int af_scope, af_tid; static bool pool_is_quiet();
static uint64_t live_budget = size_t(48) << 20;
static int cls_of(size_t n, size_t* sz) {
    n = (n + 15) & ~size_t(15); if (n < 16) n = 16;
    if (n <= 512) { *sz = n; return int(n / 16) - 1; }              // 0..31
    int k = 32; size_t s = 1024; while (s < n) { s <<= 1; ++k; }
    *sz = s; return k;
}
static void clear_shadow(uintptr_t u, size_t n) {
    size_t c0 = (u - ARENA) >> 3, c1 = (u + n - ARENA + 7) >> 3;
    memset(&shadow[c0], 0, (c1 - c0) * sizeof(Cell));
}
static void* arena_alloc(size_t n) {
    init_maps();
    size_t sz; int c = cls_of(n, &sz);
    uintptr_t u;
    if (c < 64 && g_freelist[c]) { void* p = g_freelist[c]; g_freelist[c] = *static_cast<void**>(p); u = reinterpret_cast<uintptr_t>(p); clear_shadow(u, sz); }
    else {
        size_t tot = 16 + sz + 16;
        if (n > ARENA_SZ || g_brk + tot > ARENA + ARENA_SZ) return nullptr;
        u = g_brk + 16; g_brk += tot;
    }
    Hdr* h = reinterpret_cast<Hdr*>(u - 16); h->size = n; h->magic = MAGIC;
    uint8_t* st = astate + ((u - ARENA) >> 3);
    size_t full = n / 8, cells = sz / 8;
    memset(st, 8, full); if (n & 7) st[full] = uint8_t(n & 7);
    size_t from = full + ((n & 7) ? 1 : 0); if (from < cells) memset(st + from, 0, cells - from);
    // contents of fresh memory are arbitrary but repeatable
    memset(reinterpret_cast<void*>(u), 0xA5, n < 65536 ? n : 65536);
    g_live += int64_t(n); ++g_liveblk; ++g_allocs; if (g_live > g_peak) g_peak = g_live;
    return reinterpret_cast<void*>(u);
}
static void arena_free(void* p) {
    if (!p) return;
    uintptr_t u = reinterpret_cast<uintptr_t>(p);
    Hdr* h = reinterpret_cast<Hdr*>(u - 16);
    if (!in_arena(u) || h->magic != MAGIC || astate[(u - ARENA) >> 3] == 0xFD) {
        if (cur) violation("bad-free", "heap", "invalid or double delete");
        return;
    }
    size_t sz; int c = cls_of(h->size, &sz);
    g_live -= int64_t(h->size); --g_liveblk;
    h->magic = 0;
    size_t c0 = (u - ARENA) >> 3, nc = (h->size + 7) / 8; if (!nc) nc = 1;
    memset(astate + c0, 0xFD, nc);
    if (syncs) for (size_t i = 0; i < nc; ++i) sync_drop(int64_t(c0 + i));
    size_t nt = (q_tail + 1) & 0xffff;
    g_quar[q_tail] = {p, uint32_t(c)}; q_tail = nt; q_bytes += sz;
    if (((nt + 1) & 0xffff) == q_head || q_bytes > (size_t(6) << 20) || ((q_tail - q_head) & 0xffff) > q_keep) {
        QEnt e = g_quar[q_head]; q_head = (q_head + 1) & 0xffff;
        size_t es; cls_of(reinterpret_cast<Hdr*>(reinterpret_cast<uintptr_t>(e.p) - 16)->size, &es); q_bytes -= es;
        if (e.cls < 64) { *static_cast<void**>(e.p) = g_freelist[e.cls]; g_freelist[e.cls] = e.p; }
    }
}
bool g_main_started = false;
static std::atomic_flag g_alock = ATOMIC_FLAG_INIT;
static void* sim_new(size_t n, bool nothrow) {
    if (cur && !in_rt) {
        // nothrow requests come with a fallback of their own: out of the fault plan
        if (af_at && !nothrow && (af_scope == 0 || (cur->id == af_tid && (af_scope == 1 || pool_is_quiet())))) {
            if (--af_at == 0) {
                ++af_fired; if (--af_burst) af_at = 1;
                ++in_rt; loghash(mix(g_step, 501)); sim::count("fault.alloc"); logf("allocation of %zu bytes fails", n); --in_rt;
                throw std::bad_alloc();
            }
        }
        if (n > (size_t(1) << 30)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
        if (uint64_t(g_live) + n > live_budget)
            violation("memory-runaway", "live", "more than %lu MB of live memory", (unsigned long)(live_budget >> 20));
    }
    if (!cur && g_main_started) { void* p = ::malloc(n ? n : 1); if (!p) ::abort(); return p; }   // the driver's own
    while (g_alock.test_and_set(std::memory_order_acquire)) {}
    void* p = arena_alloc(n);
    g_alock.clear(std::memory_order_release);
    if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    return p;
}
static void sim_delete(void* p) {
    if (p && !in_arena(reinterpret_cast<uintptr_t>(p))) {
        if (cur && !in_rt) violation("bad-free", "heap", "delete of an address that was never allocated");
        ::free(p); return;
    }
    while (g_alock.test_and_set(std::memory_order_acquire)) {}
    arena_free(p);
    g_alock.clear(std::memory_order_release);
}

// ------------------------------------------------------------------ thread start
struct TlsDtor { void (*f)(void*); void* o; };
static Vec<TlsDtor>* tls_dtors[MAXT];
static void thread_finish(Thr* me) {
    if (auto* v = tls_dtors[me->id]) while (!v->empty()) { TlsDtor d = v->back(); v->pop_back(); d.f(d.o); }
    ++in_rt;
    me->st = DONE; ++g_step;
    release(reinterpret_cast<uintptr_t>(me) /* untracked address: far table */);
    wake(W_JOIN, uintptr_t(me->id) + 1, MAXT);
    logf("thread %d ends", me->id);
    must_switch();
    cur = nullptr;      // TLS destructors run outside the simulation
}
static void* trampoline(void* p) {
    Thr* me = static_cast<Thr*>(p);
    while (me->go.load(std::memory_order_acquire) == 0)
        rawsys(SYS_futex, long(&me->go), FUTEX_WAIT_PRIVATE, 0, 0);
    me->go.store(0, std::memory_order_relaxed);
    cur = me; in_rt = 0; me->park_sp = 0;
    try {
        if (me->body) (*me->body)();
        else me->ret = me->fn(me->arg);
    } catch (...) {
        // an exception left the thread function: std::terminate in a real program
        std::terminate();
    }
    thread_finish(me);
    return me->ret;
}
using pc_t = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int create_thread(Thr** out, void* (*fn)(void*), void* arg, std::function<void()>* body, const char* name) {
    int id = -1;
    for (int i = 0; i < g_nthr; ++i) if (T[i].st == DONE && (T[i].joined || T[i].detached)) { id = i; break; }
    bool reuse = id >= 0;
    if (!reuse) { if (g_nthr >= MAXT) return EAGAIN; id = g_nthr++; }
    Thr* t = &T[id];
    if (reuse) {
        static pthread_t dummy; (void)dummy;
        using pj_t = int (*)(pthread_t, void**);
        static pj_t pj = reinterpret_cast<pj_t>(dlsym(RTLD_NEXT, "pthread_join"));
        pj(t->pt, nullptr);   // its OS thread is past its last simulated action
        // clear the shadow of its stack
        memset(&shadow[NCELL_A + size_t(id) * STACK_SZ / 8], 0, STACK_SZ / 8 * sizeof(Cell));
        uint32_t e = t->vc.c[id]; t->vc.clear(); t->vc.c[id] = e + 1;
    } else { t->vc.clear(); t->vc.c[id] = 1; }
    t->id = id; t->st = RUNNABLE; t->why = W_NONE; t->timed = false; t->go = 0; t->frel.clear(); t->facq.clear();
    t->park_sp = STACKS + size_t(id + 1) * STACK_SZ - 65536; t->fn = fn; t->arg = arg; t->ret = nullptr; t->body = body;
    t->detached = t->joined = false; t->user = fn != nullptr; t->quiet = false;
    snprintf(t->nbuf, sizeof t->nbuf, "%s", name); t->name = t->nbuf;
    t->prio = uint32_t(16 + rs.below(1000));
    t->stall_from = t->stall_to = 0;
    if (g_stalls_left > 0 && id > 0 && !(P->replay && !P->gen_sched) && rs.below(3) == 0) {
        --g_stalls_left;
        uint64_t len = 1ull << (6 + rs.below(13));
        t->stall_from = g_step + rs.below(1ull << (4 + rs.below(12))); t->stall_to = t->stall_from + len;
        sim::count("fault.stalled_worker");
    }
    if (cur) { t->vc.join(cur->vc, MAXT); ++cur->vc.c[cur->id]; }
    t->vc.c[id]++;
    pthread_attr_t at; pthread_attr_init(&at);
    pthread_attr_setstack(&at, reinterpret_cast<void*>(STACKS + size_t(id) * STACK_SZ), STACK_SZ);
    static pc_t real = reinterpret_cast<pc_t>(dlsym(RTLD_NEXT, "pthread_create"));
    int rc = real(&t->pt, &at, trampoline, t);
    if (rc) { t->st = FREE; return rc; }
    *out = t;
    logf("thread %d (%s) created", id, name);
    return 0;
}

// ------------------------------------------------------------------ pool
struct Task { void (*fn)(void*); void* arg; VC vc; };
static Deq<Task>* pool_q; static unsigned pool_max = 4, pool_conc = 0, pool_spawned = 0, pool_idle = 0;
static uint64_t pool_enq, pool_started, pool_finished; static bool pool_fifo = true;
static bool pool_is_quiet() { return pool_finished >= pool_enq; }
static uint64_t eq_at, eq_fired;
static void pool_worker() {
    while (true) {
        ++in_rt;
        while (pool_q->empty()) { ++pool_idle; wake(W_SETTLE, 1, MAXT); block(W_POOL, 1); --pool_idle; }
        size_t k = 0;
        if (!pool_fifo && pool_q->size() > 1 && pool_conc > 1) {
            size_t lim = pool_q->size() < pool_conc ? pool_q->size() : pool_conc;
            if (P->replay && !P->gen_sched) {
                for (auto& a : *Saux) if (a.kind == 3 && a.step == g_step + 1) k = size_t(a.tid) % lim;
            } else if (!g_calm && !P->quiet && !sfull()) k = rs.below(lim);
            if (k) { ++g_step; record(int(k), 3); --g_step; }
        }
        ++g_step;
        Task t = (*pool_q)[k]; pool_q->erase(pool_q->begin() + long(k));
        cur->vc.join(t.vc, MAXT);
        ++pool_started;
        loghash(mix(900, k));
        --in_rt;
        sync_point();
        t.fn(t.arg);
        sync_point();
    }
}

// ------------------------------------------------------------------ choices
static uint64_t wpick(uint64_t n) {
    if (n <= 1) { n = 1; }
    uint64_t v;
    if (P->replay) { v = iW < P->W.size() ? P->W[iW].v : 0; if (v >= n) v = n - 1; ++iW; }
    else v = R->nW < MAXW ? rw.below(n) : 0;
    if (R->nW < MAXW) R->W[R->nW++] = {v, n};
    loghash(mix(v, n));
    return v;
}
uint64_t fault(unsigned cls, uint64_t n, uint64_t den) {
    uint64_t key = (uint64_t(cls) << 56) | ++g_ford[cls];
    uint64_t v = 0;
    if (P->replay) { auto it = fmap->find(key); if (it != fmap->end()) v = it->second; if (v > n) v = n; if (!den) v = 0; }
    else if (den && !P->quiet && rf.below(den) == 0) v = 1 + rf.below(n);
    if (v && R->nF >= MAXF) v = 0;
    if (v) { if (R->nF < MAXF) R->F[R->nF++] = {key, v}; else R->overflow = 1; loghash(mix(key, v)); }
    return v;
}

// ------------------------------------------------------------------ crash of the simulated process
void crash_process() {
    Thr* me = cur;
    ++in_rt;
    logf("CRASH");
    sim::count("fault.crash");
    for (int i = 1; i < g_nthr; ++i) if (T[i].st == RUNNABLE || T[i].st == BLOCKED) { T[i].st = DEAD; T[i].park_sp = 0; }
    pool_q->clear(); pool_spawned = pool_idle = 0;
    af_at = 0; eq_at = 0;
    wake(W_JOIN, uintptr_t(me->id) + 1, MAXT);
    must_switch();
    while (true) rawsys(SYS_pause);
}

// ------------------------------------------------------------------ signals, terminate
static void on_signal(int s) {
    if (!R) _exit(98);
    ++in_rt;
    R->npc = 0;
    const char* n = s == SIGSEGV ? "SIGSEGV" : s == SIGFPE ? "SIGFPE" : s == SIGABRT ? "abort" : s == SIGXCPU ? "cpu-limit" : s == SIGBUS ? "SIGBUS" : "signal";
    if (s == SIGXCPU) violation("no-progress", "cpu", "no end after the processor time limit (step %lu)", (unsigned long)g_step);
    violation("crash", n, "the program died with %s", n);
}

static int inner_main();
void run_child(Result* r, Plan* p) {
    R = r; P = p;
    init_maps();
    glo_lo = reinterpret_cast<uintptr_t>(&__data_start) & ~uintptr_t(7); glo_hi = reinterpret_cast<uintptr_t>(&_end);
    if (glo_hi - glo_lo > GLOB_MAX) { fprintf(stderr, "sim: globals too large\n"); _exit(99); }
    auto ex = [](void* o, size_t n) { excl[nexcl][0] = reinterpret_cast<uintptr_t>(o); excl[nexcl][1] = excl[nexcl][0] + n; ++nexcl; };
    ex(&std::cout, sizeof std::cout); ex(&std::cerr, sizeof std::cerr); ex(&std::cin, sizeof std::cin); ex(&std::clog, sizeof std::clog);
    syncs = new (malloc(sizeof(Vec<Sync>))) Vec<Sync>; sync_far = new (malloc(sizeof(HMap<uintptr_t, uint32_t>))) HMap<uintptr_t, uint32_t>;
    pool_q = new (malloc(sizeof(Deq<Task>))) Deq<Task>;
    fmap = new (malloc(sizeof(Map<uint64_t, uint64_t>))) Map<uint64_t, uint64_t>;
    for (auto& f : p->F) (*fmap)[f.key] = f.val;
    Saux = new (malloc(sizeof(Vec<SRec>))) Vec<SRec>;
    {   // kinds 0 and 1 are switches; the others are choices made inside one step
        Vec<SRec> sw;
        for (auto& s : p->S) (s.kind >= 2 ? *Saux : sw).push_back(s);
        p->S.swap(sw);
    }
    rs.seed(mix(p->seed, 11)); rw.seed(mix(p->seed, 22)); rf.seed(mix(p->seed, 33)); re.seed(44);
    g_loghash = 1469598103934665603ull;
    // scheduling strategy of this run
    static const uint64_t iv[] = {4, 12, 40, 120, 400, 1500, 6000, 25000};
    g_strategy = int(rs.below(5)); if (g_strategy == 4) g_strategy = 1;
    g_interval = iv[rs.below(8)]; g_syncpct = g_strategy == 0 ? int(rs.below(60)) : int(rs.below(50));
    if (g_strategy == 3) g_syncpct = 50;
    pct_n = int(1 + rs.below(5));
    for (int i = 0; i < pct_n; ++i) pct_points[i] = 1 + rs.below(1ull << (5 + rs.below(14)));
    for (int i = 0; i < pct_n; ++i) for (int j = i + 1; j < pct_n; ++j) if (pct_points[j] < pct_points[i]) { uint64_t t = pct_points[i]; pct_points[i] = pct_points[j]; pct_points[j] = t; }
    pool_fifo = rs.below(2) == 0;
    if (p->replay && !p->gen_sched) pool_fifo = false;
    draw_next();
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGXCPU, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
    struct rlimit rl = {60, 70}; setrlimit(RLIMIT_CPU, &rl);
    struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
    g_budget = 200000000;
    inner_main();
    for (;;) rawsys(SYS_pause);
}
static int inner_main() {
    static std::function<void()> body = [] {
        // signal stack for stack overflows
        static char alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
        // addresses of freed memory come back late, or at once as in common allocators
        static const size_t keep[] = {1 << 16, 1 << 16, 1 << 16, 0, 2};
        { RtScope s; q_keep = keep[wpick(5)]; }
        try { sim_scenario(); }
        catch (const std::exception& e) { violation("oracle", "unexpected-exception", "exception left the scenario: %s", e.what()); }
        ++in_rt;
        end_run(1);
    };
    Thr* t = nullptr;
    if (create_thread(&t, nullptr, nullptr, &body, "main")) _exit(97);
    g_running = 0;
    t->go.store(1); rawsys(SYS_futex, long(&t->go), FUTEX_WAKE_PRIVATE, 1);
    return 0;
}

} // namespace simrt

using namespace simrt;

// ====================================================================== public API
namespace sim {
uint64_t pick(uint64_t n) { RtScope s; return wpick(n); }
double real(double lo, double hi) { RtScope s; uint64_t v = wpick(1025); // simplest: lo
    return lo + (hi - lo) * double(v) / 1024.0; }
[[noreturn]] void fail(const char* oracle, const char* fmt, ...) {
    va_list ap; va_start(ap, fmt); vviolation("oracle", oracle, fmt, ap); va_end(ap);
    R->npc = 0;
    end_run(2);
}
void count(const char* name, uint64_t n) {
    RtScope s;
    for (uint32_t i = 0; i < R->nC; ++i) if (!strcmp(R->counters[i].name, name)) { R->counters[i].n += n; return; }
    if (R->nC < MAXC) { snprintf(R->counters[R->nC].name, sizeof R->counters[0].name, "%s", name); R->counters[R->nC++].n = n; }
}
void log(const char* fmt, ...) { RtScope s; char b[480]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); simrt::logf("%s", b); }
void log_hash(uint64_t v) { simrt::loghash(v); }
void nontrivial() { R->nontrivial = 1; }
uint64_t steps() { return g_step; }
void step_budget(uint64_t n) { g_budget = g_step + n; }
int spawn(std::function<void()> f) {
    RtScope s;
    auto* b = new (malloc(sizeof f)) std::function<void()>(std::move(f));
    Thr* t = nullptr; char nm[24]; snprintf(nm, sizeof nm, "client%d", g_nthr);
    if (create_thread(&t, nullptr, nullptr, b, nm)) violation("harness", "threads", "too many threads");
    return t->id;
}
bool join(int tid) {
    RtScope s;
    Thr& t = T[tid];
    while (t.st == RUNNABLE || t.st == BLOCKED) block(W_JOIN, uintptr_t(tid) + 1);
    if (t.st == DONE) { acquire(reinterpret_cast<uintptr_t>(&t)); return true; }
    T[g_running].vc.join(t.vc, MAXT);     // died in a crash: everything it did lies before
    return false;
}
int self() { return cur ? cur->id : -1; }
void pool_config(unsigned n) { pool_max = n; }
uint64_t pool_tasks_started() { return pool_started; }
uint64_t pool_tasks_finished() { return pool_finished; }
uint64_t pool_tasks_enqueued() { return pool_enq; }
bool pool_quiet() { return pool_is_quiet(); }
void pool_settle() { RtScope s; while (!pool_q->empty() || pool_idle < pool_spawned) block(W_SETTLE, 1); }
void stall_some(unsigned n) { if (!(P->replay && !P->gen_sched)) g_stalls_left = n; }
Calm::Calm() { ++g_calm; }
Calm::~Calm() { --g_calm; }
void alloc_fail_at(uint64_t nth, uint64_t burst, AllocScope scope) { af_at = nth; af_burst = burst ? burst : 1; af_scope = scope; af_tid = cur->id; }
uint64_t alloc_fired() { return af_fired; }
uint64_t alloc_count() { return g_allocs; }
int64_t alloc_live_bytes() { return g_live; }
int64_t alloc_live_blocks() { return g_liveblk; }
int64_t alloc_peak_bytes() { return g_peak; }
void alloc_peak_reset() { g_peak = g_live; }
void enqueue_fail_at(uint64_t nth) { eq_at = nth; }
uint64_t enqueue_fired() { return eq_fired; }
static uint64_t g_entreads;
static bool g_entzero = false;
void entropy(uint64_t seed) { re.seed(mix(seed, 0xE)); g_entzero = false; }
void entropy_zero() { g_entzero = true; sim::count("fault.random_device_zero"); }
uint64_t entropy_reads() { return g_entreads; }
void clock_jump(int64_t ns) { g_wall += ns; count("fault.clock_jump"); logf("the wall clock jumps by %lld ns", (long long) ns); }
uint64_t now() { return now_ns(); }
void pass(uint64_t ns) { advance(ns); }
void forbid(const void* p, size_t n, const char* what) {
    if (g_nforbid < 32) { g_forbid[g_nforbid++] = {reinterpret_cast<uintptr_t>(p), reinterpret_cast<uintptr_t>(p) + n, cur->id, what}; }
}
void forbid_clear() { g_nforbid = 0; }
Quiet::Quiet() { ++in_rt; }
Quiet::~Quiet() { --in_rt; }
const char* property() { return g_property; }
bool thorough() { return g_thorough; }
}

// ====================================================================== instrumentation ABI
#define PC reinterpret_cast<uint64_t>(__builtin_return_address(0))
#define A(p) reinterpret_cast<uintptr_t>(p)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
void __tsan_read##n(void* p) { on_access(A(p), n, false, false, PC); } \
void __tsan_write##n(void* p) { on_access(A(p), n, true, false, PC); } \
void __tsan_unaligned_read##n(void* p) { on_access(A(p), n, false, false, PC); } \
void __tsan_unaligned_write##n(void* p) { on_access(A(p), n, true, false, PC); } \
void __tsan_volatile_read##n(void* p) { on_access(A(p), n, false, false, PC); } \
void __tsan_volatile_write##n(void* p) { on_access(A(p), n, true, false, PC); } \
void __tsan_unaligned_volatile_read##n(void* p) { on_access(A(p), n, false, false, PC); } \
void __tsan_unaligned_volatile_write##n(void* p) { on_access(A(p), n, true, false, PC); } \
void __tsan_read_write##n(void* p) { on_access(A(p), n, false, false, PC); on_access(A(p), n, true, false, PC); } \
void __tsan_unaligned_read_write##n(void* p) { on_access(A(p), n, false, false, PC); on_access(A(p), n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { if (n) on_access(A(p), n, false, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { if (n) on_access(A(p), n, true, false, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) on_access(A(p), 8, true, false, PC); }
void __tsan_vptr_read(void** p) { on_access(A(p), 8, false, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) {
    if (n) { on_access(A(s), n, false, false, PC); on_access(A(d), n, true, false, PC); }
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
    if (n) { on_access(A(s), n, false, false, PC); on_access(A(d), n, true, false, PC); }
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) { if (n) on_access(A(d), n, true, false, PC); return memset(d, c, n); }

// ---- atomics (sequentially consistent interleavings; ordering only affects happens-before)
static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void at_pre(uintptr_t a, size_t n, bool w, uint64_t pc) { if (cur && !in_rt) { sync_point(); on_access(a, n, w, true, pc); } }
static void at_load(uintptr_t a, int mo) { if (!cur || in_rt) return; RtScope s; if (is_acq(mo)) acquire(a); else cur->facq.join(sync_of(a).vc, MAXT); }
static void at_store(uintptr_t a, int mo) { if (!cur || in_rt) return; RtScope s; if (is_rel(mo)) release_store(a); else sync_of(a).vc = cur->frel; }
static void at_rmw(uintptr_t a, int mo) {
    if (!cur || in_rt) return; RtScope s;
    if (is_acq(mo)) acquire(a); else cur->facq.join(sync_of(a).vc, MAXT);
    if (is_rel(mo)) release(a); else sync_of(a).vc.join(cur->frel, MAXT);
}
#define AT(bits, T_) \
T_ __tsan_atomic##bits##_load(const volatile T_* p, int mo) { at_pre(A(p), bits / 8, false, PC); at_load(A(p), mo); return *p; } \
void __tsan_atomic##bits##_store(volatile T_* p, T_ v, int mo) { at_pre(A(p), bits / 8, true, PC); at_store(A(p), mo); *p = v; } \
T_ __tsan_atomic##bits##_exchange(volatile T_* p, T_ v, int mo) { at_pre(A(p), bits / 8, true, PC); at_rmw(A(p), mo); T_ o = *p; *p = v; return o; } \
T_ __tsan_atomic##bits##_fetch_add(volatile T_* p, T_ v, int mo) { at_pre(A(p), bits / 8, true, PC); at_rmw(A(p), mo); T_ o = *p; *p = T_(o + v); return o; } \
T_ __tsan_atomic##bits##_fetch_sub(volatile T_* p, T_ v, int mo) { at_pre(A(p), bits / 8, true, PC); at_rmw(A(p), mo); T_ o = *p; *p = T_(o - v); return o; } \
T_ __tsan_atomic##bits##_fetch_and(volatile T_* p, T_ v, int mo) { at_pre(A(p), bits / 8, true, PC); at_rmw(A(p), mo); T_ o = *p; *p = T_(o & v); return o; } \
T_ __tsan_atomic##bits##_fetch_or(volatile T_* p, T_ v, int mo) { at_pre(A(p), bits / 8, true, PC); at_rmw(A(p), mo); T_ o = *p; *p = T_(o | v); return o; } \
T_ __tsan_atomic##bits##_fetch_xor(volatile T_* p, T_ v, int mo) { at_pre(A(p), bits / 8, true, PC); at_rmw(A(p), mo); T_ o = *p; *p = T_(o ^ v); return o; } \
T_ __tsan_atomic##bits##_fetch_nand(volatile T_* p, T_ v, int mo) { at_pre(A(p), bits / 8, true, PC); at_rmw(A(p), mo); T_ o = *p; *p = T_(~(o & v)); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T_* p, T_* c, T_ v, int mo, int fmo) { \
    at_pre(A(p), bits / 8, true, PC); if (*p == *c) { at_rmw(A(p), mo); *p = v; return 1; } at_load(A(p), fmo); *c = *p; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T_* p, T_* c, T_ v, int mo, int fmo) { \
    at_pre(A(p), bits / 8, true, PC); if (*p == *c) { at_rmw(A(p), mo); *p = v; return 1; } at_load(A(p), fmo); *c = *p; return 0; } \
T_ __tsan_atomic##bits##_compare_exchange_val(volatile T_* p, T_ c, T_ v, int mo, int fmo) { \
    at_pre(A(p), bits / 8, true, PC); T_ o = *p; if (o == c) { at_rmw(A(p), mo); *p = v; } else at_load(A(p), fmo); return o; }
using u128_t = unsigned __int128;
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t) AT(128, u128_t)
void __tsan_atomic_thread_fence(int mo) {
    if (!cur || in_rt) return; RtScope s;
    if (is_acq(mo)) cur->vc.join(cur->facq, MAXT);
    if (is_rel(mo)) { cur->frel = cur->vc; ++cur->vc.c[cur->id]; }
}
void __tsan_atomic_signal_fence(int) {}

// ====================================================================== thread library
#define REAL(name) reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name))

struct MState { int owner = -1; int count = 0; int readers = 0; };
}
static HMap<uintptr_t, MState>* g_mx;
static MState& mx(const void* p) { if (!g_mx) g_mx = new (malloc(sizeof *g_mx)) HMap<uintptr_t, MState>; return (*g_mx)[A(p)]; }
static void m_lock(void* m, bool recursive) {
    sync_point();
    RtScope s;
    MState* st = &mx(m);
    if (recursive && st->owner == cur->id) { ++st->count; return; }
    while ((st = &mx(m))->owner >= 0 || st->readers > 0) block(W_MUTEX, A(m));
    st->owner = cur->id; st->count = 1;
    acquire(A(m));
    loghash(mix(301, uint64_t(cur->id)));
}
static int m_unlock(void* m) {
    { RtScope s; MState& st = mx(m); if (st.count > 1) { --st.count; return 0; }
      st.owner = -1; st.count = 0; release(A(m)); wake(W_MUTEX, A(m), MAXT); }
    sync_point();
    return 0;
}
static bool is_rec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static uint64_t abs_ns(const struct timespec* t) { return uint64_t(t->tv_sec) * 1000000000ull + uint64_t(t->tv_nsec); }

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (!in_sim()) return 0; m_lock(m, is_rec(m)); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
    if (!in_sim()) return 0;
    sync_point(); RtScope s; MState& st = mx(m);
    if (is_rec(m) && st.owner == cur->id) { ++st.count; return 0; }
    if (st.owner >= 0) return EBUSY;
    st.owner = cur->id; st.count = 1; acquire(A(m)); return 0;
}
static int timed_lock(void* m, bool rec, uint64_t dl) {
    sync_point(); RtScope s; MState* st = &mx(m);
    if (rec && st->owner == cur->id) { ++st->count; return 0; }
    while ((st = &mx(m))->owner >= 0) { block(W_MUTEX, A(m), true, dl); if (cur->timed_out) return ETIMEDOUT; }
    st->owner = cur->id; st->count = 1; acquire(A(m)); return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) noexcept { if (!in_sim()) return 0; return timed_lock(m, is_rec(m), abs_ns(t)); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* t) noexcept { if (!in_sim()) return 0; return timed_lock(m, is_rec(m), abs_ns(t)); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (!in_sim()) return 0; return m_unlock(m); }
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept { if (in_sim()) { RtScope s; if (g_mx) g_mx->erase(A(m)); } return 0; }

static int rw_rd(pthread_rwlock_t* l, bool tryonly) {
    sync_point(); RtScope s; MState* st;
    while ((st = &mx(l))->owner >= 0) { if (tryonly) return EBUSY; block(W_MUTEX, A(l)); }
    ++st->readers; acquire(A(l)); return 0;
}
static int rw_wr(pthread_rwlock_t* l, bool tryonly) {
    sync_point(); RtScope s; MState* st;
    while ((st = &mx(l))->owner >= 0 || st->readers) { if (tryonly) return EBUSY; block(W_MUTEX, A(l)); }
    st->owner = cur->id; acquire(A(l)); return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept { return in_sim() ? rw_rd(l, false) : 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept { return in_sim() ? rw_wr(l, false) : 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept { return in_sim() ? rw_rd(l, true) : 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept { return in_sim() ? rw_wr(l, true) : 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept {
    if (!in_sim()) return 0;
    { RtScope s; MState& st = mx(l); if (st.owner == cur->id) st.owner = -1; else if (st.readers) --st.readers;
      release(A(l)); wake(W_MUTEX, A(l), MAXT); }
    sync_point(); return 0;
}
int pthread_spin_lock(pthread_spinlock_t* l) noexcept { if (in_sim()) m_lock(const_cast<int*>(l), false); return 0; }
int pthread_spin_trylock(pthread_spinlock_t* l) noexcept {
    if (!in_sim()) return 0;
    sync_point(); RtScope s; MState& st = mx(const_cast<int*>(l)); if (st.owner >= 0) return EBUSY; st.owner = cur->id; st.count = 1; acquire(A(l)); return 0;
}
int pthread_spin_unlock(pthread_spinlock_t* l) noexcept { if (in_sim()) m_unlock(const_cast<int*>(l)); return 0; }

static int c_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t dl) {
    bool to;
    { RtScope s;
      MState& st = mx(m); st.owner = -1; st.count = 0; release(A(m)); wake(W_MUTEX, A(m), MAXT);
      block(W_COND, A(c), timed, dl);
      to = cur->timed_out; cur->timed_out = false;
      acquire(A(c));
      MState* q; while ((q = &mx(m))->owner >= 0) block(W_MUTEX, A(m));
      q->owner = cur->id; q->count = 1; acquire(A(m)); }
    return timed && to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return in_sim() ? c_wait(c, m, false, 0) : 0; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return in_sim() ? c_wait(c, m, true, abs_ns(t)) : 0; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) { return in_sim() ? c_wait(c, m, true, abs_ns(t)) : 0; }
int pthread_cond_signal(pthread_cond_t* c) noexcept { if (in_sim()) { { RtScope s; release(A(c)); wake(W_COND, A(c), 1); } sync_point(); } return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if (in_sim()) { { RtScope s; release(A(c)); wake(W_COND, A(c), MAXT); } sync_point(); } return 0; }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }

int pthread_once(pthread_once_t* o, void (*f)()) {
    if (!in_sim()) { if (*o != 2) { *o = 2; f(); } return 0; }
    sync_point();
    while (true) {
        int v = *o;
        if (v == 2) { RtScope s; acquire(A(o)); return 0; }
        if (v == 0) break;
        RtScope s; block(W_ONCE, A(o));
    }
    *o = 1;
    try { f(); } catch (...) { *o = 0; { RtScope s; wake(W_ONCE, A(o), MAXT); } throw; }
    *o = 2;
    { RtScope s; release(A(o)); wake(W_ONCE, A(o), MAXT); }
    return 0;
}
int __cxa_guard_acquire(uint64_t* g) {
    auto* b = reinterpret_cast<unsigned char*>(g);
    if (b[0]) { if (in_sim()) { RtScope s; acquire(A(g)); } return 0; }
    if (in_sim()) { while (b[1]) { RtScope s; block(W_GUARD, A(g)); } if (b[0]) { RtScope s; acquire(A(g)); return 0; } }
    b[1] = 1; return 1;
}
void __cxa_guard_release(uint64_t* g) {
    auto* b = reinterpret_cast<unsigned char*>(g); b[0] = 1; b[1] = 0;
    if (in_sim()) { RtScope s; release(A(g)); wake(W_GUARD, A(g), MAXT); }
}
void __cxa_guard_abort(uint64_t* g) {
    reinterpret_cast<unsigned char*>(g)[1] = 0;
    if (in_sim()) { RtScope s; wake(W_GUARD, A(g), MAXT); }
}

int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) noexcept {
    if (!in_sim()) { static auto real = reinterpret_cast<pc_t>(dlsym(RTLD_NEXT, "pthread_create")); return real(out, at, fn, arg); }
    int rc; { RtScope s; Thr* t = nullptr; char nm[24]; snprintf(nm, sizeof nm, "thread%d", g_nthr); rc = create_thread(&t, fn, arg, nullptr, nm); if (!rc) *out = t->pt; }
    sync_point();
    return rc;
}
static Thr* by_pt(pthread_t p) { for (int i = 0; i < g_nthr; ++i) if (T[i].st != FREE && T[i].pt == p && !T[i].joined) return &T[i]; return nullptr; }
int pthread_join(pthread_t p, void** ret) {
    if (!in_sim()) { static auto real = reinterpret_cast<int (*)(pthread_t, void**)>(dlsym(RTLD_NEXT, "pthread_join")); return real(p, ret); }
    sync_point(); RtScope s;
    Thr* t = by_pt(p); if (!t) return ESRCH;
    while (t->st == RUNNABLE || t->st == BLOCKED) block(W_JOIN, uintptr_t(t->id) + 1);
    acquire(A(t)); if (ret) *ret = t->ret; t->joined = true;
    return 0;
}
int pthread_detach(pthread_t p) noexcept { if (in_sim()) { RtScope s; Thr* t = by_pt(p); if (t) t->detached = true; } return 0; }
int sched_yield() noexcept { if (in_sim()) { g_time += 1000; sync_point(); } return 0; }

// ---- futex and other raw system calls made by libstdc++
long syscall(long n, ...) noexcept {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && in_sim()) {
        int op = int(b) & FUTEX_CMD_MASK;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            sync_point(); RtScope s;
            if (*reinterpret_cast<volatile int*>(a) != int(c)) { errno = EAGAIN; return -1; }
            bool timed = d != 0; uint64_t dl = 0;
            if (timed) { dl = abs_ns(reinterpret_cast<struct timespec*>(d)); if (op == FUTEX_WAIT) dl += now_ns(); }
            block(W_FUTEX, uintptr_t(a), timed, dl);
            if (cur->timed_out) { cur->timed_out = false; errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            int w; { RtScope s; w = wake(W_FUTEX, uintptr_t(a), c > MAXT ? MAXT : int(c)); }
            sync_point(); return w;
        }
    }
    long r = rawsys(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = int(-r); return -1; }
    return r;
}

// ---- clock
int clock_gettime(clockid_t id, struct timespec* t) noexcept {
    if (!in_sim()) { long r = rawsys(SYS_clock_gettime, id, A(t)); if (r < 0) { errno = int(-r); return -1; } return 0; }
    bool wall = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI;
    uint64_t n = now_ns(); if (wall) n = uint64_t(int64_t(n) + g_wall); t->tv_sec = time_t(n / 1000000000ull); t->tv_nsec = long(n % 1000000000ull); sim::count("probe.clock_read"); return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept {
    struct timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0;
}
time_t time(time_t* p) noexcept { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
static void sim_sleep(uint64_t ns) { sync_point(); RtScope s; block(W_SLEEP, 0, true, now_ns() + ns); cur->timed_out = false; }
int nanosleep(const struct timespec* t, struct timespec* rem) {
    if (!in_sim()) { long r = rawsys(SYS_nanosleep, A(t), A(rem)); if (r < 0) { errno = int(-r); return -1; } return 0; }
    sim_sleep(abs_ns(t)); return 0;
}
int clock_nanosleep(clockid_t id, int fl, const struct timespec* t, struct timespec* rem) {
    if (!in_sim()) return int(-rawsys(SYS_clock_nanosleep, id, fl, A(t), A(rem)));
    uint64_t n = abs_ns(t); if (fl & TIMER_ABSTIME) n = n > now_ns() ? n - now_ns() : 0; sim_sleep(n); return 0;
}
int usleep(useconds_t u) { if (in_sim()) sim_sleep(uint64_t(u) * 1000); return 0; }
int get_nprocs() noexcept { return in_sim() ? int(pool_max) : 4; }

// ---- thread_local destructors run inside the simulation
int __cxa_thread_atexit(void (*f)(void*), void* o, void*) noexcept {
    if (!cur) return 0;
    RtScope s; auto*& v = tls_dtors[cur->id];
    if (!v) v = new (malloc(sizeof *v)) Vec<TlsDtor>;
    v->push_back({f, o});
    return 0;
}
// ---- pool entry points
void simrt_pool_enqueue(void (*fn)(void*), void* arg) {
    {
        RtScope s;
        Task t; t.fn = fn; t.arg = arg; t.vc = cur->vc; ++cur->vc.c[cur->id];
        pool_q->push_back(t); ++pool_enq;
        while (pool_spawned < pool_conc) {
            auto* b = new (malloc(sizeof(std::function<void()>))) std::function<void()>(pool_worker);
            char nm[24]; snprintf(nm, sizeof nm, "worker%u", pool_spawned); Thr* w = nullptr;
            if (create_thread(&w, nullptr, nullptr, b, nm)) break;
            ++pool_spawned;
        }
        wake(W_POOL, 1, 1);
    }
    sync_point();
}
void simrt_pool_body_done() { ++pool_finished; }
size_t simrt_pool_max() { return pool_max; }
size_t simrt_pool_concurrency() { return pool_conc; }
void simrt_pool_set_concurrency(size_t n) { pool_conc = unsigned(n > pool_max ? pool_max : n); }
}
void simrt_pool_enqueue_check_impl() {
    if (eq_at && --eq_at == 0) {
        ++eq_fired; { RtScope s; sim::count("fault.enqueue"); logf("enqueue fails"); }
        throw std::system_error(EAGAIN, std::generic_category(), "simulated: no resources for another task");
    }
}
extern "C" void simrt_pool_enqueue_check() { simrt_pool_enqueue_check_impl(); }

// ====================================================================== allocator entry points
void* operator new(size_t n) { return sim_new(n, false); }
void* operator new[](size_t n) { return sim_new(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_new(n, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_new(n, true); }
void* operator new(size_t n, std::align_val_t al) { if (size_t(al) > 16) return sim_new(n + size_t(al), false); return sim_new(n, false); }
void* operator new[](size_t n, std::align_val_t al) { if (size_t(al) > 16) return sim_new(n + size_t(al), false); return sim_new(n, false); }
void operator delete(void* p) noexcept { sim_delete(p); }
void operator delete[](void* p) noexcept { sim_delete(p); }
void operator delete(void* p, size_t) noexcept { sim_delete(p); }
void operator delete[](void* p, size_t) noexcept { sim_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim_delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim_delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim_delete(p); }

// ====================================================================== entropy
extern "C" unsigned int sim_rd_getval(void*) __asm__("_ZNSt13random_device9_M_getvalEv");
extern "C" unsigned int sim_rd_getval(void*) {
    if (!cur) return 4;
    RtScope s; ++sim::g_entreads; sim::count("probe.entropy_read"); return sim::g_entzero ? 0 : unsigned(re.next());
}
extern "C" ssize_t getrandom(void* b, size_t n, unsigned) { auto* p = static_cast<unsigned char*>(b); for (size_t i = 0; i < n; ++i) p[i] = (unsigned char)(re.next()); return ssize_t(n); }
extern "C" unsigned int arc4random() noexcept { return sim::g_entzero ? 0 : unsigned(re.next()); }
extern "C" int getentropy(void* b, size_t n) { getrandom(b, n, 0); return 0; }
extern "C" int rand() noexcept { return int(re.next() & 0x7fffffff); }
