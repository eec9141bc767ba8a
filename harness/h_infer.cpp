// Copies of a model used at the same time (C05) and automatic names (C06).
#include "nets.hpp"

namespace {

struct Op { int kind; std::vector<double> x, y; };      // 0 predict, 1 step, 2 score, 3 copy and go on with the copy, 4 reset score, 5 assign
using Script = std::vector<Op>;

std::vector<double> point(SizeType n) { std::vector<double> v(n); for (auto& d : v) d = sim::real(-1, 1) + 0.0003; return v; }
std::vector<double> target(const Net& n, bool cce)
{
    std::vector<double> y(n.out_size, 0.0);
    if (cce) y[sim::pick(n.out_size)] = 1.0;
    else for (auto& d : y) d = sim::real(-1, 1);
    return y;
}
Script gen_script(const Net& n, bool cce)
{
    Script s;
    uint64_t len = sim::range(1, 4);
    for (uint64_t i = 0; i < len; ++i)
    {
        static const int kinds[] = {0, 1, 0, 1, 2, 3, 4, 5};
        Op o; o.kind = kinds[sim::pick(8)];
        if (o.kind <= 1 || o.kind == 5) o.x = point(n.in_size);
        if (o.kind == 1) o.y = target(n, cce);
        s.push_back(o);
    }
    return s;
}
// Everything a script shows to its user.
std::vector<double> play(Model& m0, const Script& s)
{
    std::vector<double> out;
    Model m(m0);
    for (auto& o : s)
    {
        if (o.kind == 0) { auto r = m.predict(o.x); out.insert(out.end(), r.begin(), r.end()); }
        else if (o.kind == 1)
        {
            m.step(o.x, o.y);
            for (auto& l : m.layers()) for (SizeType i = 0; i < l->param_count(); ++i) out.push_back(l->gradient(i));
            for (auto& l : m.input_layers()) { auto g = l->last_input_gradient(); out.insert(out.end(), g.begin(), g.end()); }
        }
        else if (o.kind == 2) { out.push_back(m.avg_loss()); out.push_back(m.accuracy()); }
        else if (o.kind == 3) { Model c(m); swap(m, c); }
        else if (o.kind == 4) m.reset_score();
        else { Model c; c = m; auto r = c.predict(o.x); out.insert(out.end(), r.begin(), r.end()); m = c; }
    }
    auto p = params(m);
    out.insert(out.end(), p.begin(), p.end());
    return out;
}
void warm(Model& m, const Script& w)
{
    for (auto& o : w) if (o.kind == 0) (void)m.predict(o.x); else if (o.kind == 1) m.step(o.x, o.y);
}

void c05_model()
{
    bool cce = sim::pick(3) == 2;
    Net n = gen_any_net(cce, true);
    uint64_t copies = sim::range(2, 4);
    RneType::result_type seed = 1 + sim::pick(1000);
    bool copy_in_thread = sim::pick(2), keep_base = sim::pick(2);
    Script w; if (sim::pick(2)) w = gen_script(n, cce);
    std::vector<Script> s;
    for (uint64_t i = 0; i < copies; ++i) s.push_back(gen_script(n, cce));
    sim::log("%s:%s, %zu copies", cce ? "cce" : "mse", n.text.c_str(), size_t(copies));
    auto make_base = [&](Model& m) { build(m, n, cce, 4); m.init(Model::InitializationFunction::AUTO, Model::ProbabilityDensityFunction::NORMAL, seed); warm(m, w); };
    // alone: each script on a model of its own that was never copied from or to anything in use
    std::vector<std::vector<double>> want;
    { sim::Calm calm; for (auto& sc : s) { Model m("alone"); make_base(m); want.push_back(play(m, sc)); } }
    auto base = std::make_unique<Model>("base");
    make_base(*base);
    auto w0 = params(*base);
    std::vector<std::unique_ptr<Model>> cp;
    std::vector<std::vector<double>> got(copies);
    if (!copy_in_thread)
    {
        for (uint64_t i = 0; i < copies; ++i) cp.push_back(std::make_unique<Model>(i && sim::pick(2) ? *cp[i - 1] : *base));
        if (!keep_base) base.reset();
    }
    sim::nontrivial();
    std::vector<int> t;
    for (uint64_t i = 0; i < copies; ++i)
        t.push_back(sim::spawn([&, i] {
            if (copy_in_thread) { Model mine(*base); got[i] = play(mine, s[i]); }
            else { got[i] = play(*cp[i], s[i]); cp[i].reset(); }
        }));
    for (int x : t) sim::join(x);
    for (uint64_t i = 0; i < copies; ++i)
    {
        long at = h::diff_at(want[i], got[i], 1e-12);
        if (at >= 0) sim::fail("copies-interfere", "copy %zu shows %s (differs at %ld), alone it shows %s", size_t(i), h::show(got[i], 12).c_str(), at, h::show(want[i], 12).c_str());
    }
    if (base && h::diff_at(w0, params(*base), 0) >= 0) sim::fail("weights-changed", "predicting or stepping on copies changed the weights");
    if (base && copy_in_thread)
    {   // the original did not notice
        auto x = s[0]; auto r = play(*base, x);
        if (h::diff_at(want[0], r, 1e-12) >= 0) sim::fail("copies-interfere", "the original behaves differently after its copies were used");
    }
}

template<LossType LT> void c05_fnn()
{
    bool cce = LT == LossType::CCE;
    Net n = gen_net(cce, true);
    SizeType rows = sim::range(1, 4);
    Data d = gen_data(rows, n.in_size, n.out_size, cce);
    RneType::result_type seed = 1 + sim::pick(1000);
    uint64_t copies = sim::range(2, 3);
    sim::log("network class, %s:%s, %zu copies", cce ? "cce" : "mse", n.text.c_str(), size_t(copies));
    NeuralNetworkDescriptor nd;
    nd.push_back(Input("in", n.in));
    for (auto& l : n.layers) nd.push_back(l);
    using F = FeedforwardNeuralNetwork<Framework::EDGE_LEARNING, LT, InitType::AUTO, ParallelizationLevel::SEQUENTIAL>;
    F base(nd, "net");
    auto ds = make(d);
    base.fit(ds, OptimizerType::GRADIENT_DESCENT, 1, 2, 0.05, seed);
    std::vector<Dataset<NumType>> q;
    for (uint64_t i = 0; i < copies; ++i)
    {
        std::vector<double> v; SizeType k = sim::range(1, 3);
        for (SizeType j = 0; j < k; ++j) { auto p = point(n.in_size); v.insert(v.end(), p.begin(), p.end()); }
        q.push_back(Dataset<NumType>(v, n.in_size, 1, {}));
    }
    auto use = [&](F& f, uint64_t i) {
        auto out = f.predict(q[i]).data();
        auto e = f.evaluate(ds);
        out.push_back(e.loss); out.push_back(e.accuracy_perc); out.push_back(e.error_rate_perc);
        auto again = f.predict(q[i]).data();
        out.insert(out.end(), again.begin(), again.end());
        return out;
    };
    std::vector<std::vector<double>> want, got(copies);
    { sim::Calm calm; for (uint64_t i = 0; i < copies; ++i) { F f(nd, "net"); auto d2 = make(d); f.fit(d2, OptimizerType::GRADIENT_DESCENT, 1, 2, 0.05, seed); want.push_back(use(f, i)); } }
    std::vector<F> cp(copies, base);
    sim::nontrivial();
    std::vector<int> t;
    for (uint64_t i = 0; i < copies; ++i) t.push_back(sim::spawn([&, i] { got[i] = use(cp[i], i); }));
    for (int x : t) sim::join(x);
    for (uint64_t i = 0; i < copies; ++i)
        if (h::diff_at(want[i], got[i], 1e-12) >= 0) sim::fail("copies-interfere", "network copy %zu gives %s, alone %s", size_t(i), h::show(got[i], 12).c_str(), h::show(want[i], 12).c_str());
}

// ------------------------------------------------------------------------------ names
struct Made { std::string what, name; bool automatic; };

template<class L> void sizes(const L& l, SizeType in, SizeType out, const char* what)
{
    if (l.input_size() != in || l.output_size() != out) sim::fail("wrong-object", "%s of %zux%zu was built as %zux%zu", what, in, out, l.input_size(), l.output_size());
}
void make_one(uint64_t kind, std::vector<Made>& log, bool named, int tag, SizeType a, SizeType b)
{
    std::string n = named ? "own" + std::to_string(tag) : "";
    auto add = [&](const char* w, const std::string& got) { if (named && got != n) sim::fail("wrong-name", "%s named %s is called %s", w, n.c_str(), got.c_str()); log.push_back({w, got, !named}); };
    switch (kind)
    {
        case 0: { Model m(n); if (m.layers().size()) sim::fail("wrong-object", "a new model has layers"); add("model", m.name()); break; }
        case 1: { DenseLayer l(n, a, b); sizes(l, a, b, "dense"); if (l.param_count() != a * b + b) sim::fail("wrong-object", "dense layer with %zu parameters", l.param_count()); add("dense", l.name()); break; }
        case 2: { ReluLayer l(n, a); sizes(l, a, a, "relu"); add("relu", l.name()); break; }
        case 3: { ConvolutionalLayer l(n, DLMath::Shape3d(a + 1, b + 1, 1), DLMath::Shape2d(1), 2); sizes(l, (a + 1) * (b + 1), (a + 1) * (b + 1) * 2, "convolution"); add("convolution", l.name()); break; }
        case 4: { MaxPoolingLayer l(n, DLMath::Shape3d(a + 1, b + 1, 1), DLMath::Shape2d(1)); add("max pooling", l.name()); break; }
        case 5: { AveragePoolingLayer l(n, DLMath::Shape3d(a + 1, b + 1, 1), DLMath::Shape2d(1)); add("avg pooling", l.name()); break; }
        case 6: { DropoutLayer l(n, a, 0.5); sizes(l, a, a, "dropout"); add("dropout", l.name()); break; }
        case 7: { RecurrentLayer l(n, a, b, 2, 1); sizes(l, a, b, "recurrent"); add("recurrent", l.name()); break; }
        case 8: { MeanSquaredLossLayer l(n, a, 1); add("mse", l.name()); break; }
        case 9: { CategoricalCrossEntropyLossLayer l(n, a, 1); add("cce", l.name()); break; }
        case 10: { SoftmaxLayer l(n, a); add("softmax", l.name()); break; }
        case 11: { TanhLayer l(n, a); add("tanh", l.name()); break; }
        case 12: { ConcatenateLayer l(n, {DLMath::Shape3d(a, 1, 1), DLMath::Shape3d(a, 1, 1)}, 1); add("concatenate", l.name()); break; }
        case 13: { LinearLayer l(n, a); add("linear", l.name()); break; }
        case 14: { SigmoidLayer l(n, a); add("sigmoid", l.name()); break; }
        default:
        {   // a whole model, its layers unnamed
            Model m(n);
            auto d = m.add_layer<DenseLayer>("", a, b);
            auto r = m.add_layer<EluLayer>("", b);
            auto l = m.add_loss<MeanSquaredLossLayer>("", b, 1);
            m.create_edge(d, r); m.create_loss_edge(r, l);
            if (m.input_size() != a || m.output_size() != b || m.layers().size() != 3) sim::fail("wrong-object", "model built as %zux%zu", m.input_size(), m.output_size());
            m.init(Model::InitializationFunction::AUTO, Model::ProbabilityDensityFunction::NORMAL, 7);
            std::vector<double> x(a, 0.5);
            if (m.predict(x).size() != b) sim::fail("wrong-object", "prediction of the wrong size");
            add("model", m.name());
            log.push_back({"dense", d->name(), true}); log.push_back({"elu", r->name(), true}); log.push_back({"loss", l->name(), true});
        }
    }
}
void c06()
{
    uint64_t threads = sim::range(2, 4);
    struct Todo { uint64_t kind; bool named; SizeType a, b; };
    std::vector<std::vector<Todo>> todo(threads);
    std::vector<std::vector<Made>> log(threads + 2);
    for (auto& t : todo)
    {
        uint64_t k = sim::range(1, 5);
        bool same = sim::pick(2); uint64_t kind = sim::pick(16);
        for (uint64_t i = 0; i < k; ++i) t.push_back({same ? kind : sim::pick(16), sim::pick(6) == 5, sim::range(1, 3), sim::range(1, 3)});
    }
    for (uint64_t i = sim::pick(12) == 11 ? sim::range(1, 700) : sim::pick(3); i > 0; --i) make_one(sim::pick(16), log[threads], false, 0, 1, 1);
    if (sim::pick(6000) == 5999)
    {   // many objects later
        sim::step_budget(1000000000); sim::count("probe.many_objects");
        for (int i = 0; i < 40; ++i) make_one(0, log[threads], false, 0, 1, 1);
        for (int i = 0; i < 65400; ++i) ReluLayer("", 1);
        for (int i = 0; i < 300; ++i) make_one(0, log[threads], false, 0, 1, 1);
    }
    sim::nontrivial();
    std::vector<int> t;
    for (uint64_t i = 0; i < threads; ++i)
        t.push_back(sim::spawn([&, i] { int tag = int(i) * 100; for (auto& d : todo[i]) make_one(d.kind, log[i], d.named, tag++, d.a, d.b); }));
    for (int x : t) sim::join(x);
    for (uint64_t i = 0; i < 2; ++i) make_one(sim::pick(16), log[threads + 1], false, 0, 1, 1);
    std::set<std::string> seen;
    for (auto& l : log) for (auto& m : l)
    {
        if (m.name.empty()) sim::fail("no-name", "a %s has no name", m.what.c_str());
        if (!m.automatic) continue;
        sim::count("probe.automatic_name");
        if (!seen.insert(m.name).second) sim::fail("name-not-unique", "two objects were automatically called %s", m.name.c_str());
    }
}

} // namespace

void sim_scenario()
{
    std::string p = sim::property();
    if (p == "C05") { uint64_t k = sim::pick(4); if (k < 3) c05_model(); else if (sim::pick(3) == 2) c05_fnn<LossType::CCE>(); else c05_fnn<LossType::MSE>(); }
    else if (p == "C06") c06();
    else sim::fail("harness", "unknown property");
}
