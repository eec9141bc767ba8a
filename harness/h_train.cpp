// Parallel training: C01 (schedule independence), C02 (each entry once per round), C04 (failing
// tasks), C16 (termination and bounded work).
#include "nets.hpp"

using PLv = ParallelizationLevel;

namespace {

struct Cfg {
    Net net; Data data; bool cce; bool adam; SizeType epochs, batch, workers, seed; double lr; PLv pl; bool dynamic = false;
};
const char* pl_name(PLv p) { return p == PLv::SEQUENTIAL ? "sequential" : p == PLv::THREAD_PARALLELISM_ON_DATA_ENTRY ? "entry" : "batch"; }

Cfg gen_cfg(bool allow_seq, bool allow_adam, bool allow_dropout, bool allow_recurrent = false)
{
    Cfg c;
    uint64_t m = sim::pick(allow_seq ? 5 : 4);
    c.pl = m == 4 ? PLv::SEQUENTIAL : (m & 1) ? PLv::THREAD_PARALLELISM_ON_DATA_BATCH : PLv::THREAD_PARALLELISM_ON_DATA_ENTRY;
    c.cce = sim::pick(3) == 2;
    c.adam = allow_adam && sim::pick(2);
    c.net = allow_recurrent ? gen_any_net(c.cce, allow_dropout) : gen_net(c.cce, allow_dropout);
    SizeType n = sim::pick(8) == 7 ? sim::pick(3) : sim::range(1, c.net.big ? 6 : sim::pick(10) == 9 && !c.net.rec_steps && !c.net.dropout ? 40 : 9);
    bool many = sim::pick(50) == 49 && !c.net.big && !c.net.rec_steps && !c.net.dropout;
    if (many) { n = sim::range(60, 300); sim::count("probe.large_dataset"); }
    c.data = gen_data(n, c.net.in_size, c.net.out_size, c.cce);
    c.epochs = sim::range(1, 2) + (sim::pick(8) == 7 ? 1 : 0);
    c.batch = sim::pick(6) == 5 ? n + sim::pick(3) + 1 : sim::range(1, sim::pick(8) == 7 ? 20 : 5);
    c.workers = sim::range(1, sim::pick(10) == 9 ? 9 : 4);
    if (many) { c.epochs = 1; if (sim::pick(2)) c.batch = sim::range(20, 310); if (sim::pick(2)) c.workers = sim::range(8, 24); }
    c.seed = 1 + sim::pick(1000);
    c.lr = sim::real(0.005, 0.2);
    c.dynamic = sim::pick(4) == 3;       // of the two public network classes
    sim::log("%s%s workers %zu n %zu batch %zu epochs %zu %s %s:%s", c.dynamic ? "dynamic " : "", pl_name(c.pl), c.workers, n, c.batch, c.epochs, c.cce ? "cce" : "mse", c.adam ? "adam" : "gd", c.net.text.c_str());
    sim::pool_config(unsigned(c.workers));
    return c;
}

// ------------------------------------------------------------------ through the public network class
NeuralNetworkDescriptor descriptor(const Net& n)
{
    NeuralNetworkDescriptor nd;
    nd.push_back(Input("in", n.in));
    for (auto& l : n.layers) nd.push_back(l);
    return nd;
}
Dataset<NumType> points(SizeType in)
{
    // predict from many points: they determine the weights
    std::vector<double> pts;
    for (SizeType k = 0; k < 6; ++k) for (SizeType i = 0; i < in; ++i)
        pts.push_back(k == 0 ? 0.0 : 0.3 * double(k) - 0.11 * double(i) + (i + 1 == k ? 1.0 : 0.0));
    return Dataset<NumType>(pts, in, 1, {});
}
template<LossType LT, PLv PL>
std::vector<double> fit_predict(const Cfg& c, Dataset<NumType>& ds)
{
    auto q = points(c.net.in_size);
    auto opt = c.adam ? OptimizerType::ADAM : OptimizerType::GRADIENT_DESCENT;
    if (c.dynamic)
    {
        DynamicFeedforwardNeuralNetwork<PL> fnn(descriptor(c.net), "net");
        fnn.compile(LT, opt, InitType::AUTO);
        fnn.fit(ds, c.epochs, c.batch, c.lr, RneType::result_type(c.seed));
        return fnn.predict(q)[Framework::EDGE_LEARNING].data();
    }
    FeedforwardNeuralNetwork<Framework::EDGE_LEARNING, LT, InitType::AUTO, PL> fnn(descriptor(c.net), "net");
    fnn.fit(ds, opt, c.epochs, c.batch, c.lr, RneType::result_type(c.seed));
    return fnn.predict(q).data();
}
template<LossType LT> std::vector<double> fit_predict(const Cfg& c, Dataset<NumType>& ds)
{
    return c.pl == PLv::THREAD_PARALLELISM_ON_DATA_ENTRY ? fit_predict<LT, PLv::THREAD_PARALLELISM_ON_DATA_ENTRY>(c, ds)
         : c.pl == PLv::THREAD_PARALLELISM_ON_DATA_BATCH ? fit_predict<LT, PLv::THREAD_PARALLELISM_ON_DATA_BATCH>(c, ds)
                                                         : fit_predict<LT, PLv::SEQUENTIAL>(c, ds);
}
std::vector<double> fit_predict(const Cfg& c, Dataset<NumType>& ds) { return c.cce ? fit_predict<LossType::CCE>(c, ds) : fit_predict<LossType::MSE>(c, ds); }

void no_task_left(const char* when)
{
    if (!sim::pool_quiet())
        sim::fail("task-left-running", "%s returned to its caller with %llu of %llu tasks unfinished", when,
                  (unsigned long long)(sim::pool_tasks_enqueued() - sim::pool_tasks_finished()), (unsigned long long)sim::pool_tasks_enqueued());
}

void c01()
{
    Cfg c = gen_cfg(false, true, true);
    auto ds = make(c.data);
    std::vector<double> base;
    sim::entropy(c.seed);
    { sim::Calm calm; base = fit_predict(c, ds); }
    auto ds2 = make(c.data);
    sim::stall_some(2);
    sim::entropy(c.seed);
    if (c.data.n > 1 && c.workers > 1) sim::nontrivial();
    auto got = fit_predict(c, ds2);
    no_task_left("fit");
    long at = h::diff_at(base, got);
    if (at >= 0)
        sim::fail("schedule-dependent", "mode %s, %zu workers: predictions differ between two schedules at %ld: %s against %s", pl_name(c.pl), c.workers, at, h::show(base).c_str(), h::show(got).c_str());
    if (h::diff_at(ds.data(), ds2.data(), 0) >= 0) sim::fail("dataset-changed", "training changed the dataset");
}

// ------------------------------------------------------------------ on a model whose weights we see
void build(Model& m, const Cfg& c) { build(m, c.net, c.cce, c.batch); }
SizeType round_size(const Cfg& c)
{
    SizeType n = std::max<SizeType>(c.data.n, 1);
    SizeType b = std::min(c.batch, n);
    return c.pl == PLv::THREAD_PARALLELISM_ON_DATA_BATCH ? std::min(b * c.workers, n) : b;
}
// One-thread reference: weights after every round; stops before the round of entry `bad`.
std::vector<std::vector<double>> reference(const Cfg& c, const std::vector<double>& w0, long bad = -1)
{
    Model m("reference");
    build(m, c);
    std::vector<double> w = w0;
    std::vector<std::vector<double>> hist{w};
    SizeType rs = round_size(c);
    for (SizeType e = 0; e < c.epochs; ++e)
        for (SizeType i = 0; i < c.data.n; i += rs)
        {
            SizeType to = std::min(i + rs, c.data.n);
            if (bad >= long(i) && bad < long(to)) return hist;
            std::vector<double> sum(w.size(), 0.0);
            for (SizeType k = i; k < to; ++k)
            {
                set_params(m, w);
                auto row = c.data.v.begin() + long(k * (c.data.in + c.data.out));
                std::vector<double> x(row, row + long(c.data.in)), y(row + long(c.data.in), row + long(c.data.in + c.data.out));
                m.step(x, y);
                auto g = take_gradient(m);
                for (std::size_t p = 0; p < sum.size(); ++p) sum[p] += g[p];
            }
            for (std::size_t p = 0; p < w.size(); ++p) w[p] -= c.lr * sum[p];
            hist.push_back(w);
        }
    return hist;
}
void train(Model& m, Dataset<NumType>& ds, Optimizer& o, const Cfg& c)
{
    switch (c.pl)
    {
        case PLv::SEQUENTIAL: Training<PLv::SEQUENTIAL>::run(m, ds, o, c.epochs, c.batch); break;
        case PLv::THREAD_PARALLELISM_ON_DATA_ENTRY: Training<PLv::THREAD_PARALLELISM_ON_DATA_ENTRY>::run(m, ds, o, c.epochs, c.batch); break;
        default: Training<PLv::THREAD_PARALLELISM_ON_DATA_BATCH>::run(m, ds, o, c.epochs, c.batch);
    }
}

// The same history by training, undisturbed, on ever longer parts of the dataset: for networks whose
// layers carry a state of their own from step to step (one epoch only).
std::vector<std::vector<double>> reference_by_prefix(const Cfg& c, const std::vector<double>& w0, long bad)
{
    std::vector<std::vector<double>> hist{w0};
    SizeType rs = round_size(c);
    for (SizeType i = 0; i < c.data.n; i += rs)
    {
        SizeType to = std::min(i + rs, c.data.n);
        if (bad >= long(i) && bad < long(to)) break;
        Model m("reference"); build(m, c);
        m.init(Model::InitializationFunction::AUTO, Model::ProbabilityDensityFunction::NORMAL, RneType::result_type(c.seed));
        set_params(m, w0);
        Data part = c.data; part.n = to; part.v.resize(to * (part.in + part.out));
        auto ds = make(part); GradientDescentOptimizer o(c.lr);
        train(m, ds, o, c);
        hist.push_back(params(m));
    }
    return hist;
}

void c02()
{
    Cfg c = gen_cfg(true, false, false);
    Model m("model");
    build(m, c);
    m.init(Model::InitializationFunction::AUTO, Model::ProbabilityDensityFunction::NORMAL, RneType::result_type(c.seed));
    auto w0 = params(m);
    std::vector<std::vector<double>> ref;
    { sim::Calm calm; ref = reference(c, w0); }
    auto ds = make(c.data);
    GradientDescentOptimizer o(c.lr);
    sim::stall_some(2);
    if (c.data.n > 1 && (c.workers > 1 || c.pl == PLv::SEQUENTIAL)) sim::nontrivial();
    train(m, ds, o, c);
    no_task_left("training");
    auto w = params(m);
    long at = h::diff_at(ref.back(), w);
    if (at >= 0)
        sim::fail("entries-not-applied-once", "mode %s, %zu workers, %zu entries, batch %zu, %zu epochs: weight %ld is %.12g, the reference has %.12g (started at %.12g)",
                  pl_name(c.pl), c.workers, c.data.n, c.batch, c.epochs, at, w[size_t(at)], ref.back()[size_t(at)], w0[size_t(at)]);
    if (h::diff_at(make(c.data).data(), ds.data(), 0) >= 0) sim::fail("dataset-changed", "training changed the dataset");
}

void c04()
{
    Cfg c = gen_cfg(false, false, true, true);
    bool stateful = c.net.dropout || c.net.rec_steps;
    if (stateful) c.epochs = 1;
    uint64_t kind = sim::pick(5);          // 0,1: poisoned entry, 2,4: allocation, 3: enqueue
    if (kind == 4) kind = 2;
    if (kind <= 1 && (!c.cce || c.data.n == 0)) kind = 2 + sim::pick(2);
    std::set<long> bad;
    if (kind <= 1)
    {
        uint64_t nb = 1 + (sim::pick(3) == 2);
        for (uint64_t k = 0; k < nb; ++k)
        {
            long b = long(sim::pick(c.data.n));
            bad.insert(b);
            for (SizeType o = 0; o < c.data.out; ++o) c.data.v[size_t(b) * (c.data.in + c.data.out) + c.data.in + o] = 0.0;
        }
    }
    uint64_t cost = 0;
    if (kind == 2 && sim::pick(3))       // what the training allocates when nothing fails, to place the failure within it
    {
        sim::Calm calm;
        Model t("model"); build(t, c);
        t.init(Model::InitializationFunction::AUTO, Model::ProbabilityDensityFunction::NORMAL, RneType::result_type(c.seed));
        auto dt = make(c.data); GradientDescentOptimizer ot(c.lr);
        uint64_t c0 = sim::alloc_count();
        train(t, dt, ot, c);
        cost = sim::alloc_count() - c0;
    }
    auto* m = new Model("model");
    build(*m, c);
    m->init(Model::InitializationFunction::AUTO, Model::ProbabilityDensityFunction::NORMAL, RneType::result_type(c.seed));
    auto w0 = params(*m);
    std::vector<std::vector<double>> ref;
    { sim::Calm calm; long b = bad.empty() ? -1 : *bad.begin(); ref = stateful ? reference_by_prefix(c, w0, b) : reference(c, w0, b); }
    auto ds = new Dataset<NumType>(make(c.data));
    GradientDescentOptimizer o(c.lr);
    sim::stall_some(2);
    if (kind == 2)
    {
        // anywhere; in the thread that trains; in that thread while no worker is busy (weights being updated)
        auto scope = sim::AllocScope(cost ? 0 : sim::pick(3));
        static const uint64_t span[3][2] = {{120, 2000}, {40, 300}, {12, 60}};
        sim::alloc_fail_at(1 + sim::pick(cost ? cost : span[scope][sim::pick(2)]), 1 + (sim::pick(4) == 3 ? sim::pick(3) : 0), scope);
    }
    if (kind == 3) sim::enqueue_fail_at(1 + sim::pick(12));
    auto out = h::attempt([&] { train(*m, *ds, o, c); });
    sim::alloc_fail_at(0); sim::enqueue_fail_at(0);
    bool fired = kind <= 1 ? true : kind == 2 ? sim::alloc_fired() > 0 : sim::enqueue_fired() > 0;
    if (kind <= 1) sim::count("fault.poisoned_entry");
    if (fired) sim::nontrivial();
    if (fired && !out.threw) sim::fail("failure-not-reported", "mode %s: a task failed (%s) and training returned normally", pl_name(c.pl), kind <= 1 ? "step threw" : kind == 2 ? "allocation failed" : "not enqueued");
    if (!fired && out.threw) sim::fail("spurious-failure", "training threw without a fault: %s", out.what.c_str());
    if (fired && kind == 2 && !out.bad_alloc) sim::fail("failure-changed", "allocation failure surfaced as %s", out.what.c_str());
    if (fired && kind <= 1 && out.what.find("_target is an array of 0.0") == std::string::npos) sim::fail("failure-changed", "the entry's error surfaced as %s", out.what.c_str());
    if (out.threw) no_task_left("training that threw");
    auto w = params(*m);
    if (fired && kind <= 1)
    {
        long at = h::diff_at(ref.back(), w);
        if (at >= 0) sim::fail("failed-round-applied", "mode %s: after the failure of entry %ld weight %ld is %.12g, at the start of its round it was %.12g", pl_name(c.pl), *bad.begin(), at, w[size_t(at)], ref.back()[size_t(at)]);
    }
    else
    {
        bool ok = false;
        for (auto& r : ref) if (h::diff_at(r, w) < 0) ok = true;
        if (!ok) sim::fail("failed-round-applied", "mode %s: after the failure the weights are those of no completed round", pl_name(c.pl));
    }
    // the pool must still serve others; nobody may touch what the call was given
    for (auto& l : m->layers()) for (SizeType i = 0; i < l->param_count(); ++i) sim::forbid(&l->param(i), sizeof(NumType), "the weights given to a call that threw");
    sim::forbid(ds->data().data(), ds->data().size() * sizeof(double), "the dataset given to a call that threw");
    sim::forbid(m, sizeof *m, "the model given to a call that threw");
    auto& tm = BetterThreads::TaskManager::instance();
    auto again = h::attempt([&] { for (int k = 0; k < 5; ++k) tm.enqueue([] {}).get(); });
    if (again.threw) sim::fail("pool-broken", "the task pool is unusable after a failed training: %s", again.what.c_str());
    sim::forbid_clear();
    delete m; delete ds;
    if (!bad.empty()) return;
    // and training works again
    Model m2("model2"); build(m2, c);
    m2.init(Model::InitializationFunction::AUTO, Model::ProbabilityDensityFunction::NORMAL, RneType::result_type(c.seed));
    set_params(m2, w0);
    auto ds2 = make(c.data); GradientDescentOptimizer o2(c.lr);
    auto o3 = h::attempt([&] { train(m2, ds2, o2, c); });
    if (o3.threw) sim::fail("lasting-damage", "training after a failed training throws %s", o3.what.c_str());
    long at = h::diff_at(ref.back(), params(m2));
    if (at >= 0) sim::fail("lasting-damage", "training after a failed training gives other weights");
}

void c16()
{
    Cfg c = gen_cfg(true, true, true);
    uint64_t k = sim::pick(8);
    if (k == 7) { static const SizeType big[] = {SizeType(1) << 20, SizeType(1) << 33, SizeType(1) << 62, SizeType(1) << 63, ~SizeType(0), (~SizeType(0)) / 3 + 1}; c.batch = big[sim::pick(6)]; sim::count("probe.huge_batch"); }
    if (c.data.n == 0) sim::count("probe.empty_dataset");
    uint64_t s0 = sim::steps();
    {   // cost of the same work without the pool
        sim::Calm calm; Cfg q = c; q.pl = PLv::SEQUENTIAL; q.batch = std::min<SizeType>(c.batch, 100);
        auto dq = make(q.data); (void)fit_predict(q, dq);
    }
    uint64_t seq = sim::steps() - s0;
    sim::step_budget(80 * seq + 4000000);
    auto ds = make(c.data);
    sim::stall_some(unsigned(c.workers));
    sim::nontrivial();
    auto p = fit_predict(c, ds);
    no_task_left("fit");
    if (p.size() != 6 * c.net.out_size) sim::fail("wrong-output", "predictions have the wrong size");
    uint64_t rounds = c.data.n;     // at most one round per entry
    if (sim::pool_tasks_enqueued() > c.epochs * (rounds * (c.workers + 1) + c.workers + 1))
        sim::fail("too-many-tasks", "%llu tasks for %zu entries, %zu epochs, %zu workers", (unsigned long long)sim::pool_tasks_enqueued(), c.data.n, c.epochs, c.workers);
}

} // namespace

void h_kernels_c03(); void h_kernels_c04(); void h_kernels_c16();

void sim_scenario()
{
    std::string p = sim::property();
    if (p == "C01") c01();
    else if (p == "C02") c02();
    else if (p == "C03") h_kernels_c03();
    else if (p == "C04") { if (sim::pick(4) == 3) h_kernels_c04(); else c04(); }
    else if (p == "C16") { if (sim::pick(4) == 3) h_kernels_c16(); else c16(); }
    else sim::fail("harness", "unknown property");
}
