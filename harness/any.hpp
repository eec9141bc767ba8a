// Networks of every kind behind one interface, and the training runs they take part in.
#pragma once
#include "nets.hpp"
#include "betterthreads/task_manager.hpp"

#include <memory>

using PLv = ParallelizationLevel;

namespace {

struct Run { Net net; bool cce = false, adam = false; SizeType epochs = 1, batch = 1, workers = 1, seed = 1; double lr = 0.05; PLv pl = PLv::SEQUENTIAL; InitType it = InitType::AUTO; bool dynamic = false; };
const char* pl_name(PLv p) { return p == PLv::SEQUENTIAL ? "sequential" : p == PLv::THREAD_PARALLELISM_ON_DATA_ENTRY ? "entry" : "batch"; }
SizeType gen_seed()
{
    static const SizeType s[] = {1, 2, 5489, 0xffffffffull, 0x100000000ull, ~SizeType(0)};
    return sim::pick(3) == 2 ? s[sim::pick(6)] : 1 + sim::pick(1000);
}
Run gen_run()
{
    Run r;
    static const PLv pls[] = {PLv::SEQUENTIAL, PLv::THREAD_PARALLELISM_ON_DATA_ENTRY, PLv::THREAD_PARALLELISM_ON_DATA_BATCH};
    static const InitType its[] = {InitType::AUTO, InitType::HE_INIT, InitType::XAVIER_INIT};
    r.pl = pls[sim::pick(3)]; r.it = its[sim::pick(3)];
    r.cce = sim::pick(3) == 2; r.adam = sim::pick(2);
    r.net = gen_net(r.cce, true);
    r.epochs = sim::range(1, 3); r.batch = sim::range(1, 5); r.workers = sim::range(1, 4);
    r.seed = gen_seed(); r.lr = sim::real(0.01, 0.2);
    r.dynamic = sim::pick(4) == 3;
    return r;
}
// A network with everything its type depends on hidden.
struct Any {
    virtual ~Any() = default;
    virtual void fit(const Run&, Dataset<NumType>&) = 0;
    virtual std::vector<double> predict(Dataset<NumType>&) = 0;
    virtual std::vector<double> evaluate(Dataset<NumType>&) = 0;
    virtual std::unique_ptr<Any> copy() = 0;
};
template<LossType LT, InitType IT, PLv PL> struct Of : Any {
    using F = FeedforwardNeuralNetwork<Framework::EDGE_LEARNING, LT, IT, PL>;
    F f;
    explicit Of(const Run& r) : f(desc(r), "net") {}
    explicit Of(const F& o) : f(o) {}
    static NeuralNetworkDescriptor desc(const Run& r) { NeuralNetworkDescriptor nd; nd.push_back(Input("in", r.net.in)); for (auto& l : r.net.layers) nd.push_back(l); return nd; }
    void fit(const Run& r, Dataset<NumType>& d) override { f.fit(d, r.adam ? OptimizerType::ADAM : OptimizerType::GRADIENT_DESCENT, r.epochs, r.batch, r.lr, RneType::result_type(r.seed)); }
    std::vector<double> predict(Dataset<NumType>& q) override { return f.predict(q).data(); }
    std::vector<double> evaluate(Dataset<NumType>& d) override { auto e = f.evaluate(d); return {e.loss, e.accuracy, e.error_rate_perc}; }
    std::unique_ptr<Any> copy() override { return std::make_unique<Of>(f); }
};
// The class that is compiled at run time; what it is compiled with can change from fit to fit.
template<PLv PL> struct Dyn : Any {
    using F = DynamicFeedforwardNeuralNetwork<PL>;
    F f; LossType lt; Run run; bool compiled = false;
    explicit Dyn(const Run& r) : f(Of<LossType::MSE, InitType::AUTO, PL>::desc(r), "net"), lt(r.cce ? LossType::CCE : LossType::MSE), run(r) {}
    void compile(const Run& r) { f.compile(lt, r.adam ? OptimizerType::ADAM : OptimizerType::GRADIENT_DESCENT, r.it); compiled = true; }
    void fit(const Run& r, Dataset<NumType>& d) override
    {
        if (!compiled || r.adam != run.adam || r.it != run.it || sim::pick(3) == 2) compile(r);
        run = r;
        f.fit(d, r.epochs, r.batch, r.lr, RneType::result_type(r.seed));
    }
    std::vector<double> predict(Dataset<NumType>& q) override { if (!compiled) compile(run); return f.predict(q)[Framework::EDGE_LEARNING].data(); }
    std::vector<double> evaluate(Dataset<NumType>& d) override { if (!compiled) compile(run); auto e = f.evaluate(d)[Framework::EDGE_LEARNING]; return {e.loss, e.accuracy, e.error_rate_perc}; }
    std::unique_ptr<Any> copy() override { return std::make_unique<Dyn>(run); }
};
template<LossType LT, InitType IT> std::unique_ptr<Any> pick_pl(const Run& r)
{
    if (r.pl == PLv::SEQUENTIAL) return std::make_unique<Of<LT, IT, PLv::SEQUENTIAL>>(r);
    if (r.pl == PLv::THREAD_PARALLELISM_ON_DATA_ENTRY) return std::make_unique<Of<LT, IT, PLv::THREAD_PARALLELISM_ON_DATA_ENTRY>>(r);
    return std::make_unique<Of<LT, IT, PLv::THREAD_PARALLELISM_ON_DATA_BATCH>>(r);
}
template<LossType LT> std::unique_ptr<Any> pick_it(const Run& r)
{
    if (r.it == InitType::AUTO) return pick_pl<LT, InitType::AUTO>(r);
    if (r.it == InitType::HE_INIT) return pick_pl<LT, InitType::HE_INIT>(r);
    return pick_pl<LT, InitType::XAVIER_INIT>(r);
}
std::unique_ptr<Any> network(const Run& r)
{
    if (!r.dynamic) return r.cce ? pick_it<LossType::CCE>(r) : pick_it<LossType::MSE>(r);
    if (r.pl == PLv::SEQUENTIAL) return std::make_unique<Dyn<PLv::SEQUENTIAL>>(r);
    if (r.pl == PLv::THREAD_PARALLELISM_ON_DATA_ENTRY) return std::make_unique<Dyn<PLv::THREAD_PARALLELISM_ON_DATA_ENTRY>>(r);
    return std::make_unique<Dyn<PLv::THREAD_PARALLELISM_ON_DATA_BATCH>>(r);
}

Dataset<NumType> queries(SizeType in)
{
    std::vector<double> pts;
    for (SizeType k = 0; k < 6; ++k) for (SizeType i = 0; i < in; ++i) pts.push_back(k == 0 ? 0.0 : 0.3 * double(k) - 0.11 * double(i) + (i + 1 == k ? 1.0 : 0.0));
    return Dataset<NumType>(pts, in, 1, {});
}

} // namespace
