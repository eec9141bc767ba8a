// Threaded dense kernels: C03, and their share of C04 and C16.
#include "common.hpp"
#include "dnn/dlmath.hpp"

using namespace EdgeLearning;

namespace {
struct K {
    SizeType in, out; bool fwd;
    std::vector<double> dst, src, w, b, ig, wg, bg, g;
};
K gen()
{
    K k;
    k.fwd = sim::pick(2) == 0;
    auto size = [] { uint64_t z = sim::pick(10); return z == 9 ? SizeType(0) : z == 8 ? sim::range(10, 24) : sim::range(1, 6); };
    k.in = size(); k.out = size();
    if (uint64_t z = sim::pick(60); z >= 58) { (z == 58 ? k.in : k.out) = sim::range(60, 400); (z == 58 ? k.out : k.in) = sim::range(1, 5); }
    auto vec = [](SizeType n) { std::vector<double> v(n); for (auto& x : v) x = sim::real(-1, 1) + 0.0003; return v; };
    auto junk = [](SizeType n) { std::vector<double> v(n); for (SizeType i = 0; i < n; ++i) v[i] = 777.25 + double(i); return v; };
    k.src = vec(k.in); k.w = vec(k.in * k.out > 30 ? 30 : k.in * k.out);
    while (k.w.size() < k.in * k.out) k.w.push_back(k.w[k.w.size() - 29] * 0.7 - 0.11);
    if (k.fwd) { k.b = vec(k.out); k.dst = junk(k.out); }
    else { k.g = vec(k.out); k.ig = junk(k.in); k.wg = vec(0); k.wg.resize(k.in * k.out, 0.25); k.bg = vec(k.out); }
    return k;
}
void run(K& k, bool thr)
{
    if (k.fwd)
    {
        double* r = thr ? DLMath::dense_thread_opt(k.dst.data(), k.src.data(), k.w.data(), k.b.data(), k.in, k.out)
                        : DLMath::dense(k.dst.data(), k.src.data(), k.w.data(), k.b.data(), k.in, k.out);
        if (r != k.dst.data()) sim::fail("wrong-return", "kernel returned another array");
    }
    else
    {
        double* r = thr ? DLMath::dense_1_thread_opt(k.ig.data(), k.wg.data(), k.bg.data(), k.g.data(), k.src.data(), k.w.data(), k.in, k.out)
                        : DLMath::dense_1(k.ig.data(), k.wg.data(), k.bg.data(), k.g.data(), k.src.data(), k.w.data(), k.in, k.out);
        if (r != k.ig.data()) sim::fail("wrong-return", "kernel returned another array");
    }
}
void quiet(const char* what)
{
    if (!sim::pool_quiet()) sim::fail("task-left-running", "%s with tasks unfinished", what);
}
void cmp(const char* n, const std::vector<double>& a, const std::vector<double>& b, const K& k, double tol)
{
    long at = h::diff_at(a, b, tol);
    if (at >= 0) sim::fail("kernel-differs", "%s kernel %zux%zu: %s[%ld] is %.12g, the sequential kernel gives %.12g", k.fwd ? "forward" : "backward", k.out, k.in, n, at, b[size_t(at)], a[size_t(at)]);
}
void guard(K& k)
{
    auto f = [](std::vector<double>& v, const char* n) { if (!v.empty()) sim::forbid(v.data(), v.size() * sizeof(double), n); };
    f(k.dst, "dst"); f(k.src, "the kernel's input"); f(k.w, "the weights"); f(k.b, "the biases"); f(k.ig, "the input gradients"); f(k.wg, "the weight gradients"); f(k.bg, "the bias gradients"); f(k.g, "the gradients");
}
void drain()
{
    auto& tm = BetterThreads::TaskManager::instance();
    tm.set_maximum_concurrency();
    auto o = h::attempt([&] { for (int i = 0; i < 5; ++i) tm.enqueue([] {}).get(); });
    if (o.threw) sim::fail("pool-broken", "the task pool is unusable afterwards: %s", o.what.c_str());
}
}

void h_kernels_c03()
{
    unsigned workers = unsigned(sim::range(1, 4));
    sim::pool_config(workers);
    K a = gen(), b = a;
    sim::log("kernel %s %zux%zu workers %u", a.fwd ? "forward" : "backward", a.out, a.in, workers);
    uint64_t calls = sim::range(1, 3);
    // concurrent callers each with arrays of their own
    uint64_t callers = sim::pick(4) == 3 ? 2 : 1;
    for (uint64_t i = 0; i < calls; ++i) run(a, false);
    if (a.out > 1 && workers > 1) sim::nontrivial();
    sim::stall_some(2);
    K c; int t = -1;
    if (callers == 2) { c = b; BetterThreads::TaskManager::instance().set_maximum_concurrency(); }
    if (callers == 2) t = sim::spawn([&] { for (uint64_t i = 0; i < calls; ++i) run(c, true); });
    for (uint64_t i = 0; i < calls; ++i) run(b, true);
    if (callers == 1) quiet("the kernel returned");
    if (t >= 0) { sim::join(t); quiet("both kernels returned"); }
    guard(b);
    drain();
    sim::forbid_clear();
    for (K* q : {&b, &c})
    {
        if (q == &c && callers == 1) break;
        cmp("output", a.dst, q->dst, a, 1e-9); cmp("input_gradients", a.ig, q->ig, a, 1e-9); cmp("weight_gradients", a.wg, q->wg, a, 1e-9); cmp("bias_gradients", a.bg, q->bg, a, 1e-9);
        cmp("weights (input)", a.w, q->w, a, 0); cmp("input", a.src, q->src, a, 0); cmp("biases (input)", a.b, q->b, a, 0); cmp("gradients (input)", a.g, q->g, a, 0);
    }
}

void h_kernels_c04()
{
    unsigned workers = unsigned(sim::range(1, 4));
    sim::pool_config(workers);
    K a = gen();
    sim::log("failing kernel %s %zux%zu workers %u", a.fwd ? "forward" : "backward", a.out, a.in, workers);
    sim::stall_some(2);
    bool al = sim::pick(2);
    if (al) sim::alloc_fail_at(1 + sim::pick(30)); else sim::enqueue_fail_at(1 + sim::pick(8));
    auto o = h::attempt([&] { run(a, true); });
    sim::alloc_fail_at(0); sim::enqueue_fail_at(0);
    bool fired = al ? sim::alloc_fired() : sim::enqueue_fired();
    if (fired) sim::nontrivial();
    if (fired && !o.threw) sim::fail("failure-not-reported", "a task of the kernel failed and the kernel returned normally");
    if (!fired && o.threw) sim::fail("spurious-failure", "the kernel threw without a fault: %s", o.what.c_str());
    if (o.threw) quiet("the kernel threw");
    guard(a);
    drain();
    sim::forbid_clear();
}

void h_kernels_c16()
{
    unsigned workers = unsigned(sim::range(1, 4));
    sim::pool_config(workers);
    K a = gen(), b = a;
    uint64_t s0 = sim::steps();
    { sim::Calm c; run(a, false); }
    sim::step_budget(80 * (sim::steps() - s0) + 3000000);
    sim::stall_some(workers);
    sim::nontrivial();
    run(b, true);
    quiet("the kernel returned");
    if (sim::pool_tasks_enqueued() > 4 * (a.in + a.out + a.in * a.out) + 4 * workers) sim::fail("too-many-tasks", "%llu tasks for %zux%zu", (unsigned long long)sim::pool_tasks_enqueued(), a.out, a.in);
}
