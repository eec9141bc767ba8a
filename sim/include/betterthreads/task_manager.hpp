// Simulated BetterThreads task pool: same interface as the library's submodule, the workers are
// simulated threads and every queueing and scheduling decision is the simulator's.
#ifndef BETTERTHREADS_TASK_MANAGER_HPP
#define BETTERTHREADS_TASK_MANAGER_HPP

#include <cstddef>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <atomic>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

extern "C" {
void   simrt_pool_enqueue(void (*fn)(void*), void* arg);
void   simrt_pool_body_done();          // a task's function has returned or thrown
void   simrt_pool_enqueue_check();      // throws when an enqueue failure is injected
std::size_t simrt_pool_max();
std::size_t simrt_pool_concurrency();
void   simrt_pool_set_concurrency(std::size_t);
}

namespace BetterThreads {

using std::size_t;
template<class T> using Future = std::future<T>;
template<class T> using Promise = std::promise<T>;
template<class T> using PackagedTask = std::packaged_task<T>;
using Mutex = std::mutex;
template<class T> using LockGuard = std::lock_guard<T>;
template<class T> using UniqueLock = std::unique_lock<T>;
using ConditionVariable = std::condition_variable;
template<class F, class... AS> using ResultOf = std::invoke_result_t<std::decay_t<F>, std::decay_t<AS>...>;

class TaskManager
{
public:
    static TaskManager& instance() { static TaskManager tm; return tm; }
    TaskManager(TaskManager const&) = delete;
    void operator=(TaskManager const&) = delete;

    size_t maximum_concurrency() const { return simrt_pool_max(); }
    size_t concurrency() const { return simrt_pool_concurrency(); }
    void set_concurrency(size_t n) { simrt_pool_set_concurrency(n); }
    void set_maximum_concurrency() { simrt_pool_set_concurrency(simrt_pool_max()); }

    template<class F, class... AS>
    auto enqueue(F&& f, AS&&... args) -> Future<ResultOf<F, AS...>>
    {
        using R = ResultOf<F, AS...>;
        struct Job {
            std::packaged_task<R()> task;
            static void run(void* p) { std::unique_ptr<Job> j(static_cast<Job*>(p)); j->task(); }
        };
        simrt_pool_enqueue_check();
        auto bound = [fn = std::decay_t<F>(std::forward<F>(f)),
                      tup = std::make_tuple(std::decay_t<AS>(std::forward<AS>(args))...)]() mutable -> R
        {
            struct Done { ~Done() { simrt_pool_body_done(); } } done;
            return std::apply(std::move(fn), std::move(tup));
        };
        std::unique_ptr<Job> job(new Job{std::packaged_task<R()>(std::move(bound))});
        auto fut = job->task.get_future();
        if (simrt_pool_concurrency() == 0) { Job::run(job.release()); return fut; }
        simrt_pool_enqueue(&Job::run, job.get());
        job.release();
        return fut;
    }
private:
    TaskManager() = default;
};

} // namespace BetterThreads
#endif
