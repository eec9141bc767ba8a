// Public interface of the simulator runtime (used by the harnesses).
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---- choices of the workload (recorded, replayed, minimised) -------------------------------
// 0 is always the simplest choice.
uint64_t pick(uint64_t n);                          // [0, n)
inline bool one_in(uint64_t n) { return n && pick(n) == n - 1; }
inline uint64_t range(uint64_t lo, uint64_t hi) { return lo + pick(hi - lo + 1); }
double real(double lo, double hi);                  // on a grid of 1/1024, never tiny

// ---- verdicts ---------------------------------------------------------------------------
[[noreturn]] void fail(const char* oracle, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void count(const char* name, uint64_t n = 1);       // fault kinds, probes
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // into the event log and its hash
void log_hash(uint64_t v);
void nontrivial();                                  // mark this run as non-trivial
uint64_t steps();
void step_budget(uint64_t steps);                   // from now on, else "no-progress"

// ---- threads ------------------------------------------------------------------------------
int spawn(std::function<void()> f);
bool join(int tid);                                 // false: the thread died in a simulated crash
int  self();

// ---- task pool -----------------------------------------------------------------------------
void pool_config(unsigned max_workers);
uint64_t pool_tasks_started();
uint64_t pool_tasks_finished();
uint64_t pool_tasks_enqueued();
bool pool_quiet();                                  // nothing queued or running
void pool_settle();                                 // waits until no worker holds a task any more
bool pool_running_other_than_self();

// ---- scheduler -----------------------------------------------------------------------------
void stall_some(unsigned max_threads);              // let the scheduler stall workers for intervals
// Schedule left to defaults (run to block, lowest id next) while in scope.
struct Calm { Calm(); ~Calm(); };

// ---- allocator faults ------------------------------------------------------------------------
// nth>0: fail the nth allocation from now (and `burst` in all); 0: off.
enum AllocScope { ANY_THREAD, THIS_THREAD, THIS_THREAD_ALONE };  // ..ALONE: while no pool task is queued or running
void alloc_fail_at(uint64_t nth, uint64_t burst = 1, AllocScope scope = ANY_THREAD);
uint64_t alloc_fired();
uint64_t alloc_count();                             // allocations so far
int64_t  alloc_live_bytes();
int64_t  alloc_live_blocks();
int64_t  alloc_peak_bytes();                        // most bytes in use since alloc_peak_reset()
void     alloc_peak_reset();

// ---- enqueue faults --------------------------------------------------------------------------
void enqueue_fail_at(uint64_t nth);
uint64_t enqueue_fired();

// ---- entropy, clock ----------------------------------------------------------------------------
void entropy(uint64_t seed);                        // what the random device returns from now on
void entropy_zero();                                // it returns zeros until the next entropy()
uint64_t entropy_reads();
void clock_jump(int64_t ns);                        // of the wall clock; the monotonic clock goes on
uint64_t now();                                     // monotonic, ns
void pass(uint64_t ns);                             // time goes by

// ---- guarded memory ------------------------------------------------------------------------------
// After `forbid`, any access to [p, p+n) by a thread other than the caller is a violation.
void forbid(const void* p, size_t n, const char* what);
void forbid_clear();
// Exclude from race checks (harness bookkeeping shared on purpose).
struct Quiet { Quiet(); ~Quiet(); };

// ---- disk --------------------------------------------------------------------------------------
namespace disk {
enum Kind : unsigned { SHORT = 1, EINTR_ = 2, EIO_ = 4, OPEN = 8, SEEK = 16, ENOSPC_ = 32, CLOSE = 64, FSTAT = 128 };
void put(const std::string& path, const std::string& bytes);
// A file of `size` bytes: `head`, then large_byte(seed, position).
void put_large(const std::string& path, const std::string& head, uint64_t size, uint64_t seed);
uint8_t large_byte(uint64_t seed, uint64_t at);
std::string get(const std::string& path);
bool exists(const std::string& path);
void remove(const std::string& path);
void truncate(const std::string& path, size_t n);
// Benign kinds (SHORT, EINTR_) and failing kinds are drawn at every operation with 1/den.
void faults(unsigned kinds, unsigned den);
void fail_op(uint64_t nth, unsigned kind, bool sticky); // the nth disk operation from now fails
void heal();                                        // no more failing faults; sticky ones end
uint64_t failing_fired();                           // failing faults that fired since reset_fired()
void reset_fired();
uint64_t ops();
unsigned open_files();
void mkdir(const std::string& path);
bool is_dir(const std::string& path);
void crash_after_bytes(int64_t bytes);              // the process dies after that many written bytes
void space(int64_t bytes);                          // free space (-1: unlimited)
}

const char* property();                             // property under check
bool thorough();
}

// every harness defines this; it runs as simulated thread 0
void sim_scenario();
