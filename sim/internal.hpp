// Shared between rt.cpp, disk.cpp and main.cpp (none of them instrumented).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdlib>
#include <new>
#include <vector>
#include <string>
#include <deque>
#include <map>
#include <unordered_map>

namespace simrt {

// Runtime-private containers must not use the simulated allocator.
template<class T> struct MA {
    using value_type = T;
    MA() = default; template<class U> MA(const MA<U>&) {}
    T* allocate(size_t n) { void* p = ::malloc(n * sizeof(T)); if (!p) ::abort(); return static_cast<T*>(p); }
    void deallocate(T* p, size_t) { ::free(p); }
    template<class U> bool operator==(const MA<U>&) const { return true; }
    template<class U> bool operator!=(const MA<U>&) const { return false; }
};
template<class T> using Vec = std::vector<T, MA<T>>;
template<class T> using Deq = std::deque<T, MA<T>>;
using Str = std::basic_string<char, std::char_traits<char>, MA<char>>;
template<class K, class V> using Map = std::map<K, V, std::less<K>, MA<std::pair<const K, V>>>;
template<class K, class V> using HMap = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, MA<std::pair<const K, V>>>;

struct Rng {
    uint64_t s[2];
    void seed(uint64_t x);
    uint64_t next();
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};
uint64_t mix(uint64_t a, uint64_t b);

enum FClass : unsigned { F_DISK = 1, F_POOL = 3, F_MISC = 4 };

struct WRec { uint64_t v, n; };
struct SRec { uint64_t step; int32_t tid; int32_t kind; };
struct FRec { uint64_t key; uint64_t val; };

constexpr size_t MAXW = 8192, MAXS = 1 << 18, MAXF = 16384, MAXC = 96, MAXLOG = 1 << 18, MAXPC = 24;

struct Counter { char name[40]; uint64_t n; };

// Result of one execution, in memory shared with the parent.
struct Result {
    int done;                 // 1 = scenario finished, 2 = violation
    char cls[64];             // violation class
    char key[160];            // what distinguishes it (oracle)
    char msg[4096];
    uint32_t npc; uint64_t pcs[MAXPC];     // code locations of interest
    uint64_t loghash, schedhash, steps, time_ns;
    uint64_t switches, preemptions;
    int nontrivial;
    int overflow;
    uint32_t nW, nS, nF, nC;
    uint64_t logged;          // bytes of log text
    Counter counters[MAXC];
    WRec W[MAXW];
    SRec S[MAXS];
    FRec F[MAXF];
    char logtext[MAXLOG];
};

// What the child executes.
struct Plan {
    bool replay = false;      // true: use W/S/F below, defaults elsewhere; false: draw from seed
    bool gen_sched = false;   // replay W/F but draw the schedule from seed
    uint64_t seed = 0;
    bool keeplog = false;
    bool quiet = false;       // no faults, no preemption
    Vec<WRec> W; Vec<SRec> S; Vec<FRec> F;
};

extern Result* R;
extern Plan* P;
extern const char* g_property;
extern bool g_thorough;

void run_child(Result* r, Plan* p);     // never returns

// internals offered to disk.cpp
struct Thr;
bool in_sim();                          // called from a scheduled simulated thread
uint64_t fault(unsigned cls, uint64_t n, uint64_t den);   // sparse choice: 0 mostly, else [1, n]
[[noreturn]] void violation(const char* cls, const char* key, const char* fmt, ...);
void sync_point();
void logf(const char* fmt, ...);
void loghash(uint64_t v);
uint64_t now_ns();
void advance(uint64_t ns);
extern bool g_main_started;
void crash_process();                   // simulated crash: every other thread and the caller die
bool calm();
struct RtScope { RtScope(); ~RtScope(); };   // accesses inside are the runtime's own
void disk_reset();

} // namespace simrt
