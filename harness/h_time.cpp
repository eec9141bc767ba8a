// Profiling (C18): what is measured is the time that passed, and a report is complete or an error.
#include "nets.hpp"
#include "profile.hpp"

#include <map>
#include <memory>
#include <sstream>

namespace {

struct NullBuf : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };

// time goes by, in one of many ways
struct Wait { uint64_t ns; int64_t jump; bool sleep; };
Wait gen_wait()
{
    static const uint64_t scale[] = {0, 700, 40000, 3000000, 800000000, 20000000000ull, 7200000000000ull, 4300000000000000ull, 150000000000000000ull};
    Wait w; w.ns = scale[sim::pick(20) == 19 ? 7 + sim::pick(2) : sim::pick(7)]; if (w.ns) w.ns += sim::pick(w.ns);
    w.sleep = sim::pick(4) == 3;
    w.jump = 0;
    if (sim::pick(3) == 2) { static const int64_t far[] = {1000, 50000000, 4000000000, 86400000000000, 31536000000000000}; w.jump = far[sim::pick(5)] * (sim::pick(2) ? 1 : -1); sim::nontrivial(); }
    return w;
}
void wait(const Wait& w)
{
    if (w.jump) sim::clock_jump(w.jump);
    if (w.sleep) { struct timespec t; t.tv_sec = time_t(w.ns / 1000000000); t.tv_nsec = long(w.ns % 1000000000); nanosleep(&t, nullptr); }
    else sim::pass(w.ns);
}

// A duration as the report shows it: six digits.
bool shown_in(double d, double lo, double hi) { return d >= 0 && d >= lo * (1 - 1e-5) - 1e-9 && d <= hi * (1 + 1e-5) + 1e-9; }

std::vector<std::string> lines_of(const std::string& text)
{
    std::vector<std::string> v; std::stringstream s(text); std::string l;
    while (std::getline(s, l)) v.push_back(l);
    return v;
}

template<class D> void watch(const std::vector<Wait>& ws, uint64_t tape, const std::string& path, bool dump)
{
    const uint64_t unit_ns = uint64_t(std::chrono::duration_cast<std::chrono::nanoseconds>(D(1)).count()); const double unit = double(unit_ns);
    struct Span { double lo, hi; };
    uint64_t a0 = sim::now();
    Stopwatch<D> sw;
    uint64_t a1 = sim::now();
    std::vector<Span> want; std::vector<double> got;
    if (sw.duration() != -1) sim::fail("wrong-result", "a fresh stopwatch reports a duration of %g", sw.duration());
    for (auto& w : ws)
    {
        wait(w);
        uint64_t k = tape % 7; tape /= 7;
        if (k == 6) { a0 = sim::now(); sw.reset(); a1 = sim::now(); want.clear(); got.clear(); if (sw.duration() != -1) sim::fail("wrong-result", "a reset stopwatch reports a duration of %g", sw.duration()); continue; }
        if (k == 5) { a0 = sim::now(); sw.restart(); a1 = sim::now(); continue; }
        uint64_t b0 = sim::now(); sw.click(); uint64_t b1 = sim::now();
        Span s{double((b0 - a1) / unit_ns), double((b1 - a0) / unit_ns)};
        double d = sw.duration();
        if (!(d >= s.lo && d <= s.hi)) sim::fail("wrong-duration", "a stopwatch reports %.0f units of %.0f ns, between %.0f and %.0f passed", d, unit, s.lo, s.hi);
        want.push_back(s); got.push_back(d);
        if (k >= 3) { a0 = sim::now(); sw.restart(); a1 = sim::now(); }
    }
    if (got.empty()) return;
    // summaries stay inside what was measured
    double lo = *std::min_element(got.begin(), got.end()), hi = *std::max_element(got.begin(), got.end());
    double mean = 0; for (double d : got) mean += d; mean /= double(got.size());
    double var = 0; for (double d : got) var += (d - mean) * (d - mean); var /= double(got.size());
    std::vector<double> sorted = got; std::sort(sorted.begin(), sorted.end());
    if (!h::close(sw.mean(), mean)) sim::fail("wrong-result", "the mean is %g instead of %g", sw.mean(), mean);
    if (sw.median() != sorted[(sorted.size() - 1) / 2]) sim::fail("wrong-result", "the median is %g instead of %g", sw.median(), sorted[(sorted.size() - 1) / 2]);
    if (std::fabs(sw.std() - std::sqrt(var)) > 1e-6 * (hi - lo + 1)) sim::fail("wrong-result", "the deviation is %g instead of %g", sw.std(), std::sqrt(var));
    if (sw.duration() != got.back()) sim::fail("wrong-result", "the last duration changed");
    if (!dump) return;
    for (int n = 1; n <= 2; ++n)
    {
        sw.dump(path, "h");
        auto l = lines_of(sim::disk::get(path));
        if (l.size() != 1 + std::size_t(n) * got.size() || l[0] != "h") sim::fail("wrong-report", "a dump of %zu durations made a file of %zu lines", got.size(), l.size());
        for (std::size_t i = 1; i < l.size(); ++i) { double d = got[(i - 1) % got.size()]; if (!shown_in(std::strtod(l[i].c_str(), nullptr), d, d)) sim::fail("wrong-report", "line %zu of a dump is %s instead of %g", i, l[i].c_str(), d); }
    }
}

void c18_watch()
{
    uint64_t n = sim::range(1, 2);
    struct Job { std::vector<Wait> ws; uint64_t tape; uint64_t unit; bool dump; };
    std::vector<Job> js(n);
    for (auto& j : js)
    {
        uint64_t k = sim::pick(10) == 9 ? sim::range(9, 70) : sim::range(1, 8); for (uint64_t i = 0; i < k; ++i) j.ws.push_back(gen_wait());
        j.tape = sim::pick(5764801); j.unit = sim::pick(4); j.dump = sim::pick(2);
    }
    if (sim::pick(2)) sim::disk::faults(sim::disk::SHORT | sim::disk::EINTR_, 4);
    std::vector<int> tids;
    for (std::size_t i = 0; i < n; ++i)
    {
        auto run = [&, i] {
            Job& j = js[i]; std::string p = "/sim/w" + std::to_string(i);
            switch (j.unit)
            {
                case 0: watch<Nanoseconds>(j.ws, j.tape, p, j.dump); break;
                case 1: watch<Microseconds>(j.ws, j.tape, p, j.dump); break;
                case 2: watch<Milliseconds>(j.ws, j.tape, p, j.dump); break;
                default: watch<Seconds>(j.ws, j.tape, p, j.dump);
            }
        };
        if (n == 1) run(); else tids.push_back(sim::spawn(run));
    }
    for (int t : tids) sim::join(t);
}

// One report asked for.
struct Report { std::size_t file; SizeType tries; bool own_tries; std::vector<Wait> ws; long throws_at; int fault; uint64_t at; bool sticky; uint64_t kind; };
Report gen_report(bool faults)
{
    Report r; r.file = sim::pick(2); r.own_tries = sim::pick(2); r.tries = sim::pick(12) == 11 ? sim::range(6, 60) : sim::range(1, 5);
    for (SizeType i = 0; i < 5; ++i) r.ws.push_back(gen_wait());
    r.throws_at = sim::pick(5) == 4 ? long(sim::pick(r.tries)) : -1;
    r.fault = faults && r.throws_at < 0 ? int(sim::pick(4)) : 0;      // 0, 3: none, 1: disk, 2: memory
    r.at = r.fault ? sim::range(1, r.fault == 1 ? 16 : sim::pick(2) ? 40 : 200) : 0; r.sticky = sim::pick(2); r.kind = sim::pick(6);
    return r;
}
struct Oops : std::runtime_error { Oops() : std::runtime_error("the profiled function gives up") {} };

void reports(const std::string& dir, SizeType tries, const std::vector<Report>& rs)
{
    std::unique_ptr<Profile> p = std::make_unique<Profile>(tries, dir);
    std::map<std::string, std::string> held;          // file -> content so far
    int fresh = 0; std::vector<std::string> names{"a", "b"};
    for (auto& r : rs)
    {
        SizeType n = r.own_tries ? r.tries : tries;
        long throws_at = r.throws_at >= long(n) ? -1 : r.throws_at;
        std::string name = names[r.file], path = dir + "/" + name + ".csv";
        std::vector<uint64_t> s, e; std::vector<SizeType> ids;
        s.reserve(n); e.reserve(n); ids.reserve(n);
        std::function<void(SizeType)> f = [&](SizeType i) {
            s.push_back(sim::now()); ids.push_back(i);
            wait(r.ws[i % 5]);
            if (long(i) == throws_at) throw Oops();
            e.push_back(sim::now());
        };
        sim::disk::reset_fired();
        if (r.fault == 1)
        {
            static const unsigned k[] = {sim::disk::EIO_, sim::disk::ENOSPC_, sim::disk::CLOSE, sim::disk::OPEN, sim::disk::FSTAT, sim::disk::EIO_ | sim::disk::ENOSPC_ | sim::disk::CLOSE | sim::disk::OPEN | sim::disk::FSTAT};
            sim::disk::fail_op(r.kind == 5 ? r.at : 1 + r.at % 8, k[r.kind], r.sticky);
        }
        uint64_t a0 = sim::alloc_fired();
        if (r.fault == 2) sim::alloc_fail_at(r.at, r.sticky ? 3 : 1);
        uint64_t t0 = sim::now();
        bool threw = false, oops = false; std::string msg;
        try
        {
            if (r.own_tries) p->profile("measure", f, n, name); else p->profile("measure", f, name);
        }
        catch (const Oops&) { sim::alloc_fail_at(0); oops = threw = true; }
        catch (const std::exception& x) { sim::alloc_fail_at(0); threw = true; msg = std::string(x.what()).substr(0, 80); }
        sim::alloc_fail_at(0);
        uint64_t t1 = sim::now();
        bool fired = sim::disk::failing_fired() > 0 || sim::alloc_fired() > a0;
        if (fired || throws_at >= 0) sim::nontrivial();
        sim::disk::heal(); sim::disk::reset_fired();
        std::string now = sim::disk::exists(path) ? sim::disk::get(path) : "";
        std::string old = held[path];
        if (now.compare(0, old.size(), old) != 0) sim::fail("report-lost", "%s lost lines it had before", path.c_str());
        if (throws_at >= 0)
        {
            if (!oops) sim::fail("failure-not-reported", "a profiled function threw and the call %s", threw ? "threw something else" : "returned");
            if (now != old) sim::fail("wrong-report", "a measurement that failed was reported");
            sim::count("probe.function_threw");
            continue;
        }
        if (threw)
        {
            if (!fired) sim::fail("spurious-error", "a report raised %s without a fault", msg.c_str());
            sim::count("probe.reported_failure");
            names[r.file] += std::to_string(++fresh);          // that file is as it is
            continue;
        }
        if (ids.size() != n) sim::fail("wrong-report", "the function ran %zu times instead of %zu", ids.size(), n);
        for (SizeType i = 0; i < n; ++i) if (ids[i] != i) sim::fail("wrong-report", "call %zu of the function got index %zu", i, ids[i]);
        auto had = lines_of(old), l = lines_of(now);
        std::size_t first = had.size();
        if (old.empty()) { if (l.empty() || l[0] != "time") sim::fail("wrong-report", "%s has no header%s", path.c_str(), fired ? " (after a fault)" : ""); first = 1; }
        if (l.size() != first + n || now.empty() || now.back() != '\n')
            sim::fail("wrong-report", "a report of %zu durations added %zu lines to %s%s", n, l.size() - std::min(l.size(), first), path.c_str(), fired ? " (after a fault, no error)" : "");
        for (SizeType i = 0; i < n; ++i)
        {
            double lo = double(e[i] - s[i]), hi = double((i + 1 < n ? s[i + 1] : t1) - (i ? e[i - 1] : t0));
            char* end = nullptr; double d = std::strtod(l[first + i].c_str(), &end);
            if (*end || !shown_in(d, lo, hi)) sim::fail("wrong-duration", "duration %zu of the report is %s ns, between %.0f and %.0f passed", i, l[first + i].c_str(), lo, hi);
        }
        held[path] = now;
    }
}

void c18_reports()
{
    uint64_t threads = sim::pick(4) == 3 ? 2 : 1;
    bool same_dir = sim::pick(2), deep = sim::pick(2);
    if (sim::pick(4) == 3) sim::disk::mkdir("/sim/p");
    std::vector<std::vector<Report>> rs(threads); std::vector<SizeType> tries(threads);
    for (uint64_t t = 0; t < threads; ++t) { tries[t] = sim::range(1, 4); uint64_t k = sim::range(1, 4); for (uint64_t i = 0; i < k; ++i) rs[t].push_back(gen_report(threads == 1)); }
    if (sim::pick(2)) { sim::disk::faults(sim::disk::SHORT | sim::disk::EINTR_, 5); sim::nontrivial(); }
    auto dir = [&](uint64_t t) { return std::string("/sim/p") + (same_dir && threads == 1 ? "" : std::to_string(t)) + (deep ? "/q/r" : ""); };
    if (threads == 1) { reports(dir(0), tries[0], rs[0]); return; }
    sim::nontrivial();
    std::vector<int> ids;
    for (uint64_t t = 0; t < threads; ++t) ids.push_back(sim::spawn([&, t] { reports(dir(t), tries[t], rs[t]); }));
    for (int i : ids) sim::join(i);
}

// Networks being profiled: as many lines as tries, in every mode.
void c18_networks()
{
    bool cce = sim::pick(2);
    Net net = gen_net(cce, true);
    Data d = gen_data(sim::range(1, 4), net.in_size, net.out_size, cce);
    auto train = make(d), other = make(d);
    NeuralNetworkDescriptor nd; nd.push_back(Input("in", net.in)); for (auto& l : net.layers) nd.push_back(l);
    SizeType tries = sim::range(1, 3), epochs = 1, batch = sim::range(1, 3);
    sim::pool_config(unsigned(sim::range(1, 3)));
    uint64_t kind = sim::pick(4);
    sim::nontrivial();
    sim::clock_jump(-int64_t(sim::pick(1000)) * 1000000000);
    ProfileNN p(2, "/sim/nn");
    auto go = [&](auto* m) {
        using M = std::remove_pointer_t<decltype(m)>;
        auto opt = sim::pick(2) ? OptimizerType::ADAM : OptimizerType::GRADIENT_DESCENT;
        if (kind == 0) p.training<M>("t", "nn", tries, train, other, nd, opt, epochs, batch, 0.05);
        else if (kind == 1) p.predict<M>("t", "nn", tries, train, nd, opt, epochs, batch, 0.05);
        else if (kind == 2) p.testing<M>("t", "nn", tries, train, other, nd, opt, epochs, batch, 0.05);
        else p.training_testing<M>("t", "nn", tries, train, other, other, nd, opt, epochs, batch, 0.05);
    };
    using PL = ParallelizationLevel;
    uint64_t t0 = sim::now();
    if (cce) { FeedforwardNeuralNetwork<Framework::EDGE_LEARNING, LossType::CCE, InitType::AUTO, PL::SEQUENTIAL>* m = nullptr; go(m); }
    else { FeedforwardNeuralNetwork<Framework::EDGE_LEARNING, LossType::MSE, InitType::AUTO, PL::THREAD_PARALLELISM_ON_DATA_ENTRY>* m = nullptr; go(m); }
    uint64_t t1 = sim::now();
    auto l = lines_of(sim::disk::get("/sim/nn/nn.csv"));
    if (l.size() != 1 + tries || l[0] != "time") sim::fail("wrong-report", "profiling a network %zu times made a file of %zu lines", tries, l.size());
    double sum = 0;
    for (SizeType i = 0; i < tries; ++i) { double v = std::strtod(l[1 + i].c_str(), nullptr); if (!shown_in(v, 1, double(t1 - t0))) sim::fail("wrong-duration", "a duration of %s ns in a call of %llu ns", l[1 + i].c_str(), (unsigned long long)(t1 - t0)); sum += v; }
    if (sum > double(t1 - t0) * 1.00002) sim::fail("wrong-duration", "the durations sum to %.0f ns in a call of %llu ns", sum, (unsigned long long)(t1 - t0));
}

} // namespace

void sim_scenario()
{
    static NullBuf nb; auto* o = std::cout.rdbuf(&nb);
    uint64_t k = sim::pick(8);
    if (k < 3) c18_watch(); else if (k < 7) c18_reports(); else c18_networks();
    std::cout.rdbuf(o);
}
