// Minimal stand-in for the BetterThreads submodule with real threads (used to build the library
// outside the simulator: its own tests, demonstrations).
#pragma once
#include <condition_variable>
#include <deque>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <thread>
#include <tuple>
#include <type_traits>
#include <vector>
#include <cstdlib>

namespace BetterThreads {
using std::size_t;
template<class T> using Future = std::future<T>;
class TaskManager
{
public:
    static TaskManager& instance() { static TaskManager tm; return tm; }
    size_t maximum_concurrency() const { const char* e = std::getenv("STUB_WORKERS"); return e ? size_t(std::atoi(e)) : 4; }
    size_t concurrency() const { return _n; }
    void set_concurrency(size_t n) { std::lock_guard<std::mutex> l(_m); _n = n; while (_ts.size() < n) _ts.emplace_back([this] { loop(); }); }
    void set_maximum_concurrency() { set_concurrency(maximum_concurrency()); }
    template<class F, class... AS> auto enqueue(F&& f, AS&&... as) -> Future<std::invoke_result_t<std::decay_t<F>, std::decay_t<AS>...>>
    {
        using R = std::invoke_result_t<std::decay_t<F>, std::decay_t<AS>...>;
        auto t = std::make_shared<std::packaged_task<R()>>(
            [fn = std::decay_t<F>(std::forward<F>(f)), tup = std::make_tuple(std::decay_t<AS>(std::forward<AS>(as))...)]() mutable -> R { return std::apply(std::move(fn), std::move(tup)); });
        auto fut = t->get_future();
        if (_n == 0) { (*t)(); return fut; }
        { std::lock_guard<std::mutex> l(_m); _q.push_back([t] { (*t)(); }); }
        _c.notify_one();
        return fut;
    }
    ~TaskManager() { { std::lock_guard<std::mutex> l(_m); _stop = true; } _c.notify_all(); for (auto& t : _ts) t.join(); }
private:
    void loop()
    {
        while (true)
        {
            std::function<void()> f;
            { std::unique_lock<std::mutex> l(_m); _c.wait(l, [this] { return _stop || !_q.empty(); }); if (_q.empty()) return; f = std::move(_q.front()); _q.pop_front(); }
            f();
        }
    }
    size_t _n = 0; bool _stop = false; std::mutex _m; std::condition_variable _c; std::deque<std::function<void()>> _q; std::vector<std::thread> _ts;
};
}
