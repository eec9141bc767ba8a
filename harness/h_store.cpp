// Saving and loading models on the simulated disk (C08, C09); models when memory runs out (C17).
#include "files.hpp"
#include "nets.hpp"

namespace {

const std::string P = "/sim/model.json";

std::string gen_name()
{
    static const char* s[] = {"m", "a model", "x,y", "a]b}c", "{[:", "name with a rather long text that does not fit in place", "1.5", "true", "-"};
    return s[sim::pick(9)];
}
double gen_weight()
{
    switch (sim::pick(10))
    {
        case 0: return 0.0;
        case 1: return 1e-7 * double(sim::pick(30));
        case 2: return -12345.678;
        case 3: return 1e9 + 0.125;
        case 4: return -1e-6;
        case 5: return 999999.9999996;
        default: return sim::real(-2, 2) + 0.0000004;
    }
}
struct Case {
    Net n; bool cce = false; std::string name, prefix, other_name, other_prefix;
    std::vector<double> w, v;           // of the saved model, of the target before
    std::vector<std::vector<double>> probe;
    std::string text;                   // what a healthy save writes
};
Net gen_big_net()
{
    // a file of more than one stream buffer
    Net n; n.in = DLMath::Shape3d(1, sim::range(20, 40), 1); n.in_size = n.in.size(); n.out_size = sim::range(20, 40);
    n.layers.push_back(Dense("big", n.out_size, ActivationType::Linear)); n.text = " big";
    return n;
}
void make_model(Model& m, const Case& c, const std::string& prefix, const std::vector<double>& w) { build(m, c.n, c.cce, 1, prefix); set_params(m, w); }
std::string save(Model& m) { { std::ofstream out(P); m.dump(out); out.close(); if (out.fail()) sim::fail("spurious-error", "saving a model failed on a healthy disk"); } return sim::disk::get(P); }

Case gen_case(bool big_too)
{
    Case c;
    c.cce = sim::pick(4) == 3;
    c.n = big_too && sim::pick(40) == 39 ? gen_big_net() : gen_any_net(c.cce, true);
    c.name = gen_name(); c.other_name = sim::pick(3) ? "target" : gen_name();
    c.prefix = sim::pick(2) ? "" : gen_name(); c.other_prefix = sim::pick(2) ? "t" : "";
    Model m("count"); build(m, c.n, c.cce, 1, "");
    std::size_t k = params(m).size();
    for (std::size_t i = 0; i < k; ++i) { bool few = k > 200; c.w.push_back(few && i >= 50 ? 0.001 * double(i) + 0.37 : gen_weight()); c.v.push_back(few && i >= 50 ? 1.0 : gen_weight()); }
    for (int i = 0; i < 2; ++i) { std::vector<double> x; for (std::size_t j = 0; j < c.n.in_size; ++j) x.push_back(j < 12 ? sim::real(-1, 1) : 0.25); c.probe.push_back(x); }
    sim::log("model%s, %zu parameters", c.n.text.c_str(), k);
    return c;
}
// The same kinds of layers in the same order, of other sizes.
Net other_sizes(const Net& a)
{
    Net n = a; n.layers.clear();
    bool image = false;
    for (auto& d : a.layers) image = image || d.type() == LayerType::Conv || d.type() == LayerType::MaxPool || d.type() == LayerType::AvgPool;
    if (n.rec_steps)
    {
        n.rec_in = sim::range(1, 3); n.rec_out = sim::range(1, 3); n.rec_hidden = sim::range(1, 4); n.rec_steps = sim::range(1, 4);
        n.in = DLMath::Shape3d(1, n.rec_in * n.rec_steps, 1);
    }
    else n.in = image ? DLMath::Shape3d(sim::range(2, 5), sim::range(2, 5), sim::range(1, 3)) : DLMath::Shape3d(1, sim::range(1, 6), 1);
    n.in_size = n.in.size();
    for (auto& d : a.layers)
    {
        SizeType k = sim::range(1, 2), s = sim::range(1, 2);
        switch (d.type())
        {
            case LayerType::Conv: n.layers.push_back(Conv(d.name(), {SizeType(sim::range(1, 3)), DLMath::Shape2d(k, sim::range(1, 2)), DLMath::Shape2d(sim::range(1, 2)), DLMath::Shape2d(sim::pick(2))}, d.activation_type())); break;
            case LayerType::MaxPool: n.layers.push_back(MaxPool(d.name(), {DLMath::Shape2d(k), DLMath::Shape2d(s)})); break;
            case LayerType::AvgPool: n.layers.push_back(AvgPool(d.name(), {DLMath::Shape2d(k), DLMath::Shape2d(s)})); break;
            case LayerType::Dropout: n.layers.push_back(Dropout(d.name(), {drop()})); break;
            default: n.out_size = sim::range(1, 6); n.layers.push_back(Dense(d.name(), n.out_size, d.activation_type()));
        }
    }
    return n;
}
// What the model shows; on a copy, so that it does not change the model itself.
struct View { std::string name; std::vector<std::string> names; std::vector<double> w, y; };
View look(Model& m, const Case& c)
{
    View v; v.name = m.name(); v.w = params(m);
    for (auto& l : m.layers()) v.names.push_back(l->name());
    Model k(m);
    for (auto& x : c.probe) { auto r = k.predict(x); v.y.insert(v.y.end(), r.begin(), r.end()); }
    return v;
}
bool same_bits(const std::vector<double>& a, const std::vector<double>& b)
{
    return a.size() == b.size() && (a.empty() || !std::memcmp(a.data(), b.data(), a.size() * sizeof(double)));
}
std::string unchanged(const View& a, const View& b)
{
    if (a.name != b.name) return "the name changed from '" + a.name + "' to '" + b.name + "'";
    if (a.names != b.names) return "layer names changed";
    if (!same_bits(a.w, b.w)) return "the weights changed at " + std::to_string(h::diff_at(a.w, b.w, 0));
    if (h::diff_at(a.y, b.y, 0) >= 0) return "the predictions changed from " + h::show(a.y) + " to " + h::show(b.y);
    return "";
}
// The loaded model against the saved one.
std::string loaded_diff(Model& m, const Case& c, bool used = false, bool steps = false)
{
    View v = look(m, c);
    if (v.name != c.name) return "the model is called '" + v.name + "' instead of '" + c.name + "'";
    Model want(c.name); make_model(want, c, c.prefix, c.w);
    std::size_t i = 0;
    for (auto& l : want.layers()) { if (v.names.at(i) != l->name()) return "a layer is called '" + v.names.at(i) + "' instead of '" + l->name() + "'"; ++i; }
    if (v.w.size() != c.w.size()) return std::to_string(v.w.size()) + " parameters instead of " + std::to_string(c.w.size());
    for (i = 0; i < c.w.size(); ++i) if (!(std::fabs(v.w[i] - c.w[i]) <= 1.0e-6 + 1e-12 * std::fabs(c.w[i])))
    { char b[120]; std::snprintf(b, sizeof b, "parameter %zu is %.9g instead of %.9g", i, v.w[i], c.w[i]); return b; }
    // the predictions are those of such a network with these parameters
    set_params(want, v.w);
    View x = look(want, c);
    if (!used && h::diff_at(x.y, v.y, 1e-12) >= 0) return "predictions are " + h::show(v.y) + " instead of " + h::show(x.y);
    // and it can be trained like one
    if (steps && !used)
    {
        Model a(m), b(want);
        if (c.n.dropout)
        {   // the same masks
            for (Model* x : {&a, &b}) { x->init(Model::InitializationFunction::KAIMING, Model::ProbabilityDensityFunction::UNIFORM, 7); set_params(*x, v.w); }
        }
        std::vector<double> t(c.n.out_size, 0.0); t[0] = 1.0;
        a.step(c.probe[0], t); b.step(c.probe[0], t);
        auto ga = take_gradient(a), gb = take_gradient(b);
        if (h::diff_at(gb, ga, 1e-12) >= 0) return "a training step computes gradients " + h::show(ga) + " instead of " + h::show(gb);
        if (!h::close(a.avg_loss(), b.avg_loss())) return "a training step reports loss " + std::to_string(a.avg_loss()) + " instead of " + std::to_string(b.avg_loss());
    }
    for (std::size_t k = 0; k < m.layers().size(); ++k)
        if (m.layers()[k]->input_size() != want.layers()[k]->input_size() || m.layers()[k]->output_size() != want.layers()[k]->output_size()) return "layer sizes changed";
    return "";
}

void c08()
{
    Case c = gen_case(true);
    Model saved(c.name); make_model(saved, c, c.prefix, c.w);
    View s0 = look(saved, c);
    c.text = save(saved);
    sim::step_budget(100000000 + 10000 * c.text.size());
    Faults fx;
    uint64_t kind = sim::pick(8);
    auto target = std::make_unique<Model>(c.other_name);
    Case o = c;                                         // the target
    if (sim::pick(4) == 3)
    {
        o.n = other_sizes(c.n);
        Model m("count"); build(m, o.n, o.cce, 1, "");
        o.v.assign(params(m).size(), 0.0); for (std::size_t i = 0; i < o.v.size() && i < 50; ++i) o.v[i] = gen_weight();
        for (auto& x : o.probe) x.assign(o.n.in_size, 0.25);
        sim::log("into other sizes"); sim::count("probe.other_sizes");
    }
    make_model(*target, o, c.other_prefix, o.v);
    bool used = sim::pick(3) == 2, stepped = false;
    if (used)
    {
        (void) target->predict(o.probe[0]); sim::log("target used before");
        if (sim::pick(2)) { stepped = true; std::vector<double> y(o.n.out_size, 0.0); y[0] = 1.0; target->step(o.probe[0], y); }
    }
    used = used && (c.n.dropout || c.n.rec_steps);      // then predictions depend on what came before
    View t0 = look(*target, o);
    auto load = [&](const char* what, bool must_fail, const std::function<void(std::ifstream&)>& before = nullptr) {
        bool ok = access(fx, what, must_fail, [&] { std::ifstream in(P); if (before) before(in); target->load(in); return 0; }, [&](int) { return loaded_diff(*target, c, used, !stepped); });
        if (!ok) { Faults none; std::string d = unchanged(t0, look(*target, o)); if (!d.empty()) sim::fail("half-loaded", "after a failed load (%s) %s", what, d.c_str()); }
        return ok;
    };
    if (kind == 0) { fx.begin(sim::pick(2) ? Faults::BENIGN : Faults::HEALTHY); load("loading a complete file", false); }
    else if (kind == 1 || kind == 2)
    {
        // the saving process dies after some bytes reached the disk
        sim::disk::remove(P);
        if (sim::pick(2)) sim::disk::faults(sim::disk::SHORT | sim::disk::EINTR_, 4);
        int64_t at = int64_t(sim::pick(3) == 2 ? sim::pick(c.text.size() + 40) : c.text.size() - std::min<std::size_t>(c.text.size(), sim::pick(24)));
        sim::disk::crash_after_bytes(at);
        int t = sim::spawn([&] { Model mine(c.name); make_model(mine, c, c.prefix, c.w); std::ofstream out(P); mine.dump(out); out.close(); });
        bool lived = sim::join(t);
        sim::disk::crash_after_bytes(-1); sim::disk::heal();
        std::string left = sim::disk::exists(P) ? sim::disk::get(P) : "";
        if (lived && left != c.text) sim::fail("save-lost", "a save that was not interrupted left %zu of %zu bytes", left.size(), c.text.size());
        if (left != c.text && c.text.compare(0, left.size(), left) == 0) sim::nontrivial();
        load(left == c.text ? "loading a file saved just before a crash" : "loading a file cut short by a crash", left != c.text);
        sim::disk::put(P, c.text);
    }
    else if (kind == 3 || kind == 4)
    {
        sim::nontrivial(); sim::count("fault.truncated");
        std::size_t k = sim::pick(2) ? sim::pick(c.text.size()) : c.text.size() - 1 - sim::pick(std::min<std::size_t>(c.text.size() - 1, 30));
        sim::log("cut at %zu of %zu", k, c.text.size());
        fx.begin(sim::pick(2) ? Faults::BENIGN : Faults::HEALTHY);
        if (sim::pick(16) == 15) sim::disk::remove(P); else sim::disk::put(P, c.text.substr(0, k));
        load("loading a truncated file", true);
        sim::disk::put(P, c.text);
    }
    else if (kind == 5)
    {
        // the file shrinks while it is being loaded
        sim::nontrivial(); sim::count("fault.truncated");
        fx.begin(Faults::BENIGN); fx.cut = true;
        std::size_t k = sim::pick(c.text.size());
        int t = -1;
        bool early = sim::pick(2);
        auto cut = [&] { sim::disk::truncate(P, k); };
        load("loading a file that shrinks", false, [&](std::ifstream&) { if (early) cut(); else t = sim::spawn(cut); });
        if (t >= 0) sim::join(t);
        fx.cut = false; sim::disk::put(P, c.text);
    }
    else
    {
        sim::nontrivial();
        fx.begin(Faults::DISK); fx.arm();
        load("loading", false);
    }
    fx.heal();
    // once the fault is over
    access(fx, "loading the file again", false, [&] { std::ifstream in(P); target->load(in); return 0; }, [&](int) { return loaded_diff(*target, c, used, !stepped); });
    std::string d = unchanged(s0, look(saved, c));
    if (!d.empty()) sim::fail("saved-model-changed", "saving or loading elsewhere: %s", d.c_str());
}

void c09()
{
    Case c = gen_case(true);
    Model m(c.name); make_model(m, c, c.prefix, c.w);
    if (!c.n.dropout && sim::pick(3) == 2) (void) m.predict(c.probe[0]);
    // gradients that wait for an update and a score are part of the model too
    if (sim::pick(2))
    {
        std::vector<double> y(c.n.out_size, 0.0); y[0] = 1.0;
        for (int k = int(sim::range(1, 2)); k > 0; --k) m.step(c.probe[std::size_t(k - 1)], y);
        sim::count("probe.pending_gradients");
    }
    auto inner = [&] {
        std::vector<double> v{m.avg_loss(), m.accuracy()};
        for (auto& l : m.layers()) { for (SizeType i = 0; i < l->param_count(); ++i) v.push_back(l->gradient(i)); if (dynamic_cast<LossLayer*>(l.get())) continue; auto& o = l->last_output(); v.insert(v.end(), o.begin(), o.end()); }
        return v;
    };
    View v0 = look(m, c);
    auto inner0 = inner();
    c.text = save(m);
    sim::step_budget(100000000 + 10000 * c.text.size());
    bool fresh = sim::pick(2); if (fresh) sim::disk::remove(P); else if (sim::pick(2)) sim::disk::put(P, std::string(sim::pick(300), 'o') + c.text);
    sim::disk::reset_fired();
    uint64_t kind = sim::pick(7);
    unsigned benign = sim::pick(2) ? unsigned(sim::disk::SHORT | sim::disk::EINTR_) : 0u;
    switch (kind)
    {
        case 0: sim::disk::faults(sim::disk::SHORT | sim::disk::EINTR_, unsigned(sim::range(2, 5))); break;
        case 1: sim::disk::space(int64_t(sim::pick(2) ? sim::pick(c.text.size() + 20) : c.text.size() - 1 - sim::pick(std::min<std::size_t>(c.text.size() - 1, 10)))); break;
        case 2: sim::disk::fail_op(sim::range(1, 8), sim::disk::EIO_, sim::pick(2)); break;
        case 3: sim::disk::fail_op(sim::range(1, 3), sim::disk::CLOSE, sim::pick(2)); break;
        case 4: sim::disk::fail_op(sim::range(1, 8), sim::disk::EIO_ | sim::disk::ENOSPC_ | sim::disk::CLOSE | sim::disk::OPEN, sim::pick(2)); break;
        case 5: sim::disk::faults(sim::disk::EIO_ | sim::disk::ENOSPC_ | sim::disk::CLOSE | sim::disk::SHORT | sim::disk::EINTR_, unsigned(sim::range(2, 6))); break;
        default: break;
    }
    if (kind && kind < 5 && benign) sim::disk::faults(benign, 4);
    if (kind != 6) sim::nontrivial();
    bool threw = false, failed = true;
    {
        std::ofstream out;
        bool exc = sim::pick(4) == 3;
        std::string msg;
        try
        {
            if (exc) out.exceptions(std::ios::failbit | std::ios::badbit);
            out.open(P); m.dump(out); out.close(); failed = out.fail();
        }
        catch (const std::exception& e) { threw = true; msg = std::string(e.what()).substr(0, 60); }
    }
    bool fired = sim::disk::failing_fired() > 0;
    sim::disk::heal(); sim::disk::space(-1); sim::disk::reset_fired();
    std::string got = sim::disk::exists(P) ? sim::disk::get(P) : "";
    if (!failed && !threw)
    {
        if (got != c.text) sim::fail("silent-save-failure", "the stream reports no failure but the file has %s", str_diff(got, c.text).c_str());
    }
    else if (!fired) sim::fail("spurious-error", "a save failed although no write did");
    else sim::count("probe.reported_failure");
    if (h::diff_at(inner0, inner(), 0) >= 0) sim::fail("saved-model-changed", "saving changed the gradients, scores or outputs at %ld", h::diff_at(inner0, inner(), 0));
    std::string d = unchanged(v0, look(m, c));
    if (!d.empty()) sim::fail("saved-model-changed", "saving changed the model: %s", d.c_str());
    // once the fault is over the model saves and loads
    std::string again = save(m);
    if (again != c.text) sim::fail("wrong-result", "a repeated save wrote %s", str_diff(again, c.text).c_str());
    Model t("target"); make_model(t, c, "", c.v);
    std::ifstream in(P); t.load(in);
    d = loaded_diff(t, c);
    if (!d.empty()) sim::fail("wrong-result", "the saved file loads differently: %s", d.c_str());
}

// Memory runs out while a model is used.
void c17_model()
{
    Case c = gen_case(false);
    { Model m(c.name); make_model(m, c, c.prefix, c.w); c.text = save(m); }
    std::size_t len = sim::range(1, 5);
    Tape ops(len);
    bool fnn = sim::pick(4) == 3 && !c.n.rec_steps;
    std::vector<uint64_t> costs;
    auto round = [&](bool faulty) {
        Faults fx; fx.costs = &costs; fx.begin(faulty ? Faults::ALLOC : Faults::HEALTHY);
        Tape t = ops;
        auto again = [&](const char* what, auto&& get, auto&& same) {
            fx.arm();
            bool ok = access(fx, what, false, get, same);
            fx.heal();
            if (!ok) { sim::count("probe.retry_after_fault"); access(fx, what, false, get, same); }
        };
        if (fnn)
        {
            using F = FeedforwardNeuralNetwork<Framework::EDGE_LEARNING, LossType::MSE, InitType::AUTO, ParallelizationLevel::SEQUENTIAL>;
            NeuralNetworkDescriptor nd; nd.push_back(Input("in", c.n.in)); for (auto& l : c.n.layers) nd.push_back(l);
            F f(nd, "net");
            std::vector<double> v; for (auto& x : c.probe) v.insert(v.end(), x.begin(), x.end());
            Dataset<NumType> q(v, c.n.in_size, 1, {});
            Data td = {{}, 2, c.n.in_size, c.n.out_size}; for (int r = 0; r < 2; ++r) { for (auto d : c.probe[std::size_t(r)]) td.v.push_back(d); for (SizeType o = 0; o < c.n.out_size; ++o) td.v.push_back(0.5 - double(o)); }
            auto ds = make(td);
            f.fit(ds, OptimizerType::GRADIENT_DESCENT, 1, 2, 0.05, 5);
            bool drop = c.n.dropout;
            F ref(f); std::vector<double> base; { Faults none; base = ref.predict(q).data(); }
            auto same = [&](const std::vector<double>& g) { return drop ? std::string() : vec_diff(g, base); };
            for (std::size_t i = 0; i < len; ++i)
                switch (t.pick(3))
                {
                    case 0: again("predicting with a network", [&] { return f.predict(q).data(); }, same); break;
                    case 1: again("copying a network and predicting", [&] { F k(f); return k.predict(q).data(); }, same); break;
                    default: again("evaluating a network", [&] { return f.evaluate(ds).loss; }, [&](double) { return std::string(); });
                }
            return;
        }
        Model m(c.name); make_model(m, c, c.prefix, c.w);
        Model target("target"); make_model(target, c, "", c.v);
        std::vector<double> want;
        auto out_is = [&](const std::vector<double>& g) { return vec_diff(g, want); };
        auto probe = [&](Model& k) { std::vector<double> y; for (auto& x : c.probe) { auto& r = k.predict(x); y.insert(y.end(), r.begin(), r.end()); } return y; };
        for (std::size_t i = 0; i < len; ++i)
        {
            want = look(m, c).y;        // by a copy made with memory at hand
            uint64_t op = t.pick(8);
            if (op == 0 && c.n.rec_steps) op = 1;       // a recurrent layer remembers earlier predictions, also attempted ones
            switch (op)
            {
                case 0: again("predicting", [&] { auto& r = m.predict(c.probe[0]); fx.leave(); return std::vector<double>(r); }, [&](const std::vector<double>& g) { return vec_diff(g, std::vector<double>(want.begin(), want.begin() + long(want.size() / 2))); }); break;
                case 1: again("copying and predicting", [&] { Model k(m); return probe(k); }, out_is); break;
                case 2: again("assigning and predicting", [&] { Model k("k"); k = m; return probe(k); }, out_is); break;
                case 6: case 7:
                {
                    // everything a training round sees of a copy
                    auto all = [&](bool assign) {
                        Model k(assign ? Model("k") : m); if (assign) k = m;
                        std::vector<double> r{double(k.layers().size()), double(k.loss_layers().size()), double(k.input_layers().size()), double(k.output_layers().size())};
                        for (auto& x : c.probe)
                        {
                            std::vector<double> y; for (SizeType o = 0; o < c.n.out_size; ++o) y.push_back(c.cce ? (o == 0 ? 1.0 : 0.0) : 0.5 - double(o));
                            k.step(x, y);
                        }
                        auto g = take_gradient(k); r.insert(r.end(), g.begin(), g.end());
                        r.push_back(k.avg_loss());
                        return r;
                    };
                    std::vector<double> ref; { Faults none; ref = all(false); }
                    if (op == 6) again("copying and stepping", [&] { return all(false); }, [&](const std::vector<double>& g) { return vec_diff(g, ref); });
                    else again("assigning and stepping", [&] { return all(true); }, [&](const std::vector<double>& g) { return vec_diff(g, ref); });
                    break;
                }
                case 3: case 4:
                {
                    // an error or a flagged stream
                    struct Flagged : std::runtime_error { using std::runtime_error::runtime_error; };
                    again("saving", [&] {
                        std::ofstream out; { Faults none; out.open(P); }
                        m.dump(out);
                        out.close();
                        if (out.fail()) throw Flagged("stream reports failure");
                        return 0; },
                        [&](int) { return str_diff(sim::disk::get(P), c.text); });
                    break;
                }
                default:
                    sim::disk::put(P, c.text);
                    again("loading", [&] { std::ifstream in(P); target.load(in); return 0; }, [&](int) { return std::string(); });
                    { std::string d = loaded_diff(target, c); if (!d.empty()) sim::fail("wrong-result", "loading again after memory ran out: %s", d.c_str()); }
            }
        }
        std::string d;
        View v = look(m, c);
        if (!same_bits(v.w, c.w)) sim::fail("lasting-damage", "the weights of the model changed");
        if (v.name != c.name) sim::fail("lasting-damage", "the name of the model changed");
    };
    sim::step_budget(2000000000); uint64_t s0 = sim::steps();
    round(false);
    sim::step_budget(50000000 + 40 * (sim::steps() - s0));
    round(false);
    int64_t live = sim::alloc_live_blocks(), bytes = sim::alloc_live_bytes();
    uint64_t f0 = sim::alloc_fired();
    round(true);
    if (sim::alloc_fired() > f0) sim::nontrivial();
    int64_t now = sim::alloc_live_blocks();
    if (now > live) sim::fail("leak", "%ld blocks (%ld bytes) more are in use after allocation failures while using a model", long(now - live), long(sim::alloc_live_bytes() - bytes));
}

} // namespace

void h_store_scenario() { c17_model(); }

__attribute__((weak)) void sim_scenario()
{
    std::string p = sim::property();
    if (p == "C08") c08();
    else if (p == "C09") c09();
    else c17_model();
}
