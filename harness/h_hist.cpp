// What models and networks answer after a past of any kind (C26), against a small reference that has no past.
#include "any.hpp"
#include "dnn/adam_optimizer.hpp"
#include "dnn/gd_optimizer.hpp"

namespace {

using I = Model::InitializationFunction; using D = Model::ProbabilityDensityFunction;

std::vector<double> gradients(Model& m)
{
    std::vector<double> v;
    for (auto& l : m.layers()) for (SizeType i = 0; i < l->param_count(); ++i) v.push_back(l->gradient(i));
    return v;
}
void set_gradients(Model& m, const std::vector<double>& g)
{
    std::size_t k = 0;
    for (auto& l : m.layers()) for (SizeType i = 0; i < l->param_count(); ++i) l->gradient(i) = g[k++];
}

// The reference: weights shared by a model and its copies, and per model the pending gradients and the score.
struct Fam { Net net; int arch = 0; bool cce = false; SizeType batch = 1; std::vector<double> w; std::vector<std::vector<double>> points; };
struct Slot { std::unique_ptr<Model> m; int fam = 0; std::vector<double> g; double loss = 0, acc = 0; int n = 0; };

struct Past {
    bool adam = false, disk_faults = false; double lr = 0.02;
    bool alone = true;                              // no other thread
    std::string file;
    std::vector<Fam> fam;                           // of copies, which share their weights
    std::vector<Slot> s;
    std::unique_ptr<Optimizer> opt, shadow_opt;
    std::vector<double> saved; std::string text; int saved_of = 0;   // the last good save
    std::string story;

    std::unique_ptr<Optimizer> optimizer() const
    {
        if (adam) return std::make_unique<AdamOptimizer>(lr);
        return std::make_unique<GradientDescentOptimizer>(lr);
    }
    void draw(bool alone_, const std::string& f)
    {
        alone = alone_; file = f;
        adam = sim::pick(2); lr = sim::real(0.005, 0.05);
        for (uint64_t k = sim::range(1, 2); k > 0; --k)
        {
            Fam a;
            if (!fam.empty() && sim::pick(3)) a = fam[0];
            else { a.arch = int(fam.size()); a.cce = sim::pick(3) == 2; a.batch = sim::range(1, 4); a.net = gen_any_net(a.cce, true); }
            a.points.clear();
            for (int i = 0; i < 2; ++i) { std::vector<double> v(a.net.in_size); for (auto& d : v) d = sim::real(-1, 1) + 0.0003; a.points.push_back(v); }
            sim::log("%s%s:%s", adam ? "adam" : "gd", a.cce ? ", cce" : "", a.net.text.c_str());
            fam.push_back(a);
        }
        opt = optimizer(); shadow_opt = optimizer();
    }
    Fam& of(const Slot& k) { return fam[std::size_t(k.fam)]; }
    std::unique_ptr<Model> fresh(const Fam& f) const
    {
        auto m = std::make_unique<Model>("reference"); build(*m, f.net, f.cce, f.batch); set_params(*m, f.w);
        return m;
    }
    // The hidden state of recurrent layers is meant to outlive a call, the masks of dropout layers are drawn anew each time.
    void rewind(Model& m, RneType::result_type mask = 5) const
    {
        for (auto& l : m.layers())
            if (auto r = std::dynamic_pointer_cast<RecurrentLayer>(l)) r->reset_hidden_state();
            else if (auto d = std::dynamic_pointer_cast<DropoutLayer>(l)) d->init(Layer::InitializationFunction::XAVIER, D::NORMAL, RneType(mask));
    }
    // often one asked before
    std::vector<double> point(const Fam& f) const
    {
        if (sim::pick(2)) return f.points[sim::pick(f.points.size())];
        std::vector<double> v(f.net.in_size); for (auto& d : v) d = sim::real(-1, 1) + 0.0003; return v;
    }
    std::vector<double> target(const Fam& f) const
    {
        std::vector<double> y(f.net.out_size, 0.0);
        if (f.cce) y[sim::pick(f.net.out_size)] = 1.0; else for (auto& d : y) d = sim::real(-1, 1);
        return y;
    }
    // Put together while it is copied, assigned, swapped, and while memory runs out; another one grows at the same time.
    void build_in_steps(Model& first, const Fam& f)
    {
        Model second("m");
        if (sim::pick(2)) build(second, f.net, f.cce, f.batch);
        Model *m = &first, *other = &second;
        std::size_t grown = 0, layers_of_other = other->layers().size();
        build(first, f.net, f.cce, f.batch, "", false, [&](const std::function<void()>& add) {
            std::size_t before = m->layers().size();
            bool failed = false;
            if (alone && sim::pick(6) == 5)
            {
                Model backup(*m);
                if (!fallible(true, add).threw) return;
                failed = true; sim::count("probe.failed_build");
                *m = backup;
                if (m->layers().size() != before) sim::fail("wrong-model", "a copy taken before a failed step has %zu layers instead of %zu", m->layers().size(), before);
            }
            if (!failed) switch (sim::pick(9))
            {
                case 0: { Model c(*m); *m = c; break; }
                case 1: { Model c("c"); c = *m; swap(c, *m); break; }
                case 2: case 3: swap(*m, *other); std::swap(m, other); break;
                case 4:         // what happens to the other one is none of this one's business
                {
                    std::size_t n = layers_of_other;
                    other->add_layer<LinearLayer>("x" + std::to_string(grown), n ? other->layers().back()->output_size() : 2); ++grown; ++layers_of_other;
                    if (n && sim::pick(2)) other->create_edge(other->layers()[n - 1], other->layers()[n]);
                    break;
                }
                case 5: { Model c(*m); Model d(c); c = *other; *m = std::move(d); break; }
                case 6: { Model c(*m); *m = *other; *other = c; std::swap(m, other); break; }
                case 7: *other = *m; layers_of_other = before; break;
                default: break;
            }
            add();
        }, &m);
        if (m != &first) swap(first, second);
        if (second.layers().size() != layers_of_other) sim::fail("wrong-model", "a model that grew next to another one has %zu layers instead of %zu", second.layers().size(), layers_of_other);
        for (auto& l : second.layers()) if (std::count(first.layers().begin(), first.layers().end(), l)) sim::fail("wrong-model", "two models that were copied while they grew hold the same layer %s", l->name().c_str());
        sim::count("probe.built_in_steps");
    }
    static std::vector<std::size_t> places(Model& m)
    {
        std::vector<std::size_t> v;
        auto put = [&](const auto& some) { v.push_back(some.size()); for (auto& l : some) v.push_back(std::size_t(std::find(m.layers().begin(), m.layers().end(), l) - m.layers().begin())); };
        put(m.layers()); put(m.input_layers()); put(m.output_layers()); put(m.loss_layers());
        return v;
    }
    void make(std::size_t i)
    {
        Slot k; k.m = std::make_unique<Model>("m" + std::to_string(i));
        if (sim::pick(2)) build_in_steps(*k.m, fam[i]); else build(*k.m, fam[i].net, fam[i].cce, fam[i].batch);
        RneType::result_type seed = 1 + sim::pick(1000);
        k.m->init(sim::pick(2) ? I::AUTO : I::XAVIER, D::NORMAL, seed);
        k.fam = int(i); fam[i].w = params(*k.m); k.g.assign(fam[i].w.size(), 0.0);
        s.push_back(std::move(k));
    }
    template<class F> h::Outcome fallible(bool fail, F&& f)
    {
        if (!fail) { f(); return {}; }
        uint64_t f0 = sim::alloc_fired();
        sim::alloc_fail_at(1 + sim::pick(sim::pick(2) ? 12 : 80), 1, alone ? sim::ANY_THREAD : sim::THIS_THREAD);
        auto o = h::attempt([&] { try { f(); } catch (...) { sim::alloc_fail_at(0); throw; } });
        sim::alloc_fail_at(0);
        if (alone && sim::alloc_fired() > f0 && !o.threw) sim::fail("failure-not-reported", "an allocation failed and the operation returned normally (%s)", story.c_str());
        return o;
    }
    void check(std::size_t i)
    {
        Slot& k = s[i];
        long at = h::diff_at(of(k).w, params(*k.m));
        if (at >= 0) sim::fail("wrong-weights", "weight %ld of model %zu is %.12g instead of %.12g after %s", at, i, params(*k.m)[std::size_t(at)], of(k).w[std::size_t(at)], story.c_str());
        auto g = gradients(*k.m);
        at = h::diff_at(k.g, g);
        if (at >= 0) sim::fail("wrong-gradients", "pending gradient %ld of model %zu is %.12g instead of %.12g after %s", at, i, g[std::size_t(at)], k.g[std::size_t(at)], story.c_str());
        k.g = g;
        if (k.n > 0)
        {
            double l = k.m->avg_loss(), a = k.m->accuracy();
            if (!h::close(l, k.loss / k.n) || !h::close(a, k.acc / k.n)) sim::fail("wrong-score", "model %zu reports loss %.12g and accuracy %.12g instead of %.12g and %.12g after %s", i, l, a, k.loss / k.n, k.acc / k.n, story.c_str());
        }
    }
    void ask(std::size_t i, const std::vector<double>& x)
    {
        Slot& k = s[i];
        auto ref = fresh(of(k));
        auto want = ref->predict(x);
        if (places(*ref) != places(*k.m)) sim::fail("wrong-model", "model %zu has other input, output or loss layers than a fresh one after %s", i, story.c_str());
        rewind(*k.m);
        auto got = k.m->predict(x);
        long at = h::diff_at(want, got);
        if (at >= 0) sim::fail("answer-from-the-past", "model %zu predicts %s, a fresh one with its weights %s, after %s", i, h::show(got).c_str(), h::show(want).c_str(), story.c_str());
    }
    void forget(Slot& k) { set_gradients(*k.m, std::vector<double>(k.g.size(), 0.0)); k.g.assign(k.g.size(), 0.0); k.m->reset_score(); k.loss = k.acc = 0; k.n = 0; }
    void step(std::size_t i, bool fail)
    {
        Slot& k = s[i];
        auto x = point(of(k)), y = target(of(k));
        RneType::result_type mask = 1 + sim::pick(1000);
        rewind(*k.m, mask);
        if (!fail && sim::pick(12) == 11)
        {
            story += " bad-step";
            auto o = h::attempt([&] { k.m->step(x, {}); });
            if (!o.threw) sim::fail("failure-not-reported", "a step without a target returned normally");
            sim::count("fault.step_without_target");
            forget(k); return;
        }
        auto o = fallible(fail, [&] { k.m->step(x, y); });
        if (o.threw) { story += "(failed)"; sim::count("probe.failed_step"); forget(k); return; }
        auto ref = fresh(of(k));
        rewind(*ref, mask);
        ref->step(x, y);
        auto g = gradients(*ref);
        for (std::size_t j = 0; j < g.size(); ++j) k.g[j] += g[j];
        k.loss += ref->avg_loss(); k.acc += ref->accuracy(); ++k.n;
        // the gradients with respect to the input too
        auto a = k.m->input_layers().at(0)->last_input_gradient(), b = ref->input_layers().at(0)->last_input_gradient();
        if (h::diff_at(b, a) >= 0) sim::fail("wrong-gradients", "input gradients are %s instead of %s after %s", h::show(a).c_str(), h::show(b).c_str(), story.c_str());
    }
    void update(std::size_t i, std::size_t j)
    {
        Slot &k = s[i], &from = s[j];
        auto ref = fresh(of(k));
        set_gradients(*ref, gradients(*from.m));
        for (auto& l : ref->layers()) shadow_opt->train(*l);
        if (i == j && sim::pick(2)) k.m->train(*opt); else k.m->train(*opt, *from.m);
        auto w = params(*ref), got = params(*k.m);
        long at = h::diff_at(w, got);
        if (at >= 0) sim::fail("wrong-update", "an update makes weight %ld %.12g instead of %.12g after %s", at, got[std::size_t(at)], w[std::size_t(at)], story.c_str());
        of(k).w = got;
        from.g.assign(from.g.size(), 0.0);
    }
    void save(std::size_t i)
    {
        Slot& k = s[i];
        bool faulty = disk_faults && sim::pick(2);
        if (faulty)
        {
            if (sim::pick(2)) sim::disk::space(int64_t(sim::pick(600)));
            else sim::disk::fail_op(sim::range(1, 4), sim::disk::EIO_ | sim::disk::CLOSE | sim::disk::OPEN, sim::pick(2));
        }
        bool ok;
        { std::ofstream out(file); k.m->dump(out); out.close(); ok = !out.fail(); }
        if (faulty) sim::disk::heal();
        if (!ok && !faulty) sim::fail("spurious-error", "saving a model failed on a healthy disk after %s", story.c_str());
        if (!ok) { story += "(failed)"; sim::count("probe.failed_save"); text.clear(); saved.clear(); return; }
        saved = of(k).w; saved_of = k.fam; text = sim::disk::get(file);
    }
    void load(std::size_t i, bool fail)
    {
        Slot& k = s[i];
        auto& w = of(k).w;
        if (!text.empty() && fam[std::size_t(saved_of)].arch != of(k).arch) { save(i); return; }
        if (text.empty() && sim::pick(4)) { save(i); if (text.empty()) return; }
        if (text.empty()) fail = false;
        uint64_t harm = fail ? 0 : text.empty() ? 3 : sim::pick(4);
        std::string left = text.empty() ? (sim::disk::exists(file) ? sim::disk::get(file) : std::string()) : text;
        if (text.empty() && !left.empty() && left.back() == '}') { save(i); return; }     // may be whole
        if (harm == 2 && !disk_faults) harm = 1;
        if (harm == 1 && !text.empty()) { sim::disk::put(file, text.substr(0, sim::pick(text.size()))); sim::count("fault.truncated"); }
        if (harm == 2) sim::disk::fail_op(sim::range(1, 4), sim::disk::EIO_ | sim::disk::OPEN | sim::disk::SEEK, sim::pick(2));
        auto body = [&] { std::ifstream in(file); k.m->load(in); };
        h::Outcome o = fail ? fallible(true, body) : h::attempt(body);
        if (harm == 2) sim::disk::heal();
        if (harm == 1 && !text.empty()) sim::disk::put(file, text);
        if (o.threw)
        {
            if (harm == 0 && !fail) sim::fail("spurious-error", "loading a whole file failed with %s after %s", o.what.c_str(), story.c_str());
            story += "(failed)"; sim::count("probe.failed_load");
            if (fail) { w = params(*k.m); }         // how far it came is judged elsewhere
            k.g = gradients(*k.m);
            return;
        }
        if (text.empty() || harm == 1) sim::fail("damaged-file-loaded", "a file of %zu bytes that is not whole was loaded after %s", left.size(), story.c_str());
        auto got = params(*k.m);
        for (std::size_t j = 0; j < got.size(); ++j) if (std::fabs(got[j] - saved[j]) > 1e-6 + 1e-12 * std::fabs(saved[j]))
            sim::fail("wrong-weights", "weight %zu is loaded as %.9g instead of %.9g after %s", j, got[j], saved[j], story.c_str());
        w = got; k.g = gradients(*k.m);
    }
    void one()
    {
        std::size_t i = sim::pick(s.size());
        Slot& k = s[i];
        bool fail = sim::pick(6) == 5;
        switch (sim::pick(16))
        {
            case 0: case 1: case 2: story += " step"; step(i, fail); break;
            case 3: case 4: story += " update"; update(i, i); break;
            case 5:
            {
                std::size_t j = sim::pick(s.size());
                if (s[j].fam != k.fam) { story += " update"; update(i, i); break; }
                story += " update-from"; update(i, j);
                break;
            }
            case 6: case 7:
            {
                story += " predict";
                auto x = point(of(k));
                rewind(*k.m);
                auto o = fallible(fail, [&] { (void) k.m->predict(x); });
                if (o.threw) { story += "(failed)"; sim::count("probe.failed_predict"); }
                ask(i, sim::pick(2) ? x : point(of(k)));
                break;
            }
            case 8:
            {
                story += " copy";
                if (s.size() >= 5) { story += "-none"; break; }
                Slot c; c.fam = k.fam; c.g = k.g; c.loss = k.loss; c.acc = k.acc; c.n = k.n;
                auto o = fallible(fail, [&] { c.m = std::make_unique<Model>(*k.m); });
                if (o.threw) { story += "(failed)"; break; }
                s.push_back(std::move(c));
                ask(s.size() - 1, point(of(s.back())));
                break;
            }
            case 9:
            {
                story += " assign";
                std::size_t j = sim::pick(s.size());
                auto o = fallible(fail, [&] { *s[j].m = *k.m; });
                if (o.threw) { story += "(failed)"; check(j); break; }
                s[j].fam = k.fam; s[j].g = k.g; s[j].loss = k.loss; s[j].acc = k.acc; s[j].n = k.n;
                ask(j, point(of(s[j])));
                break;
            }
            case 10:
            {
                story += " swap";
                std::size_t j = sim::pick(s.size());
                if (j != i) { swap(*k.m, *s[j].m); std::swap(k.fam, s[j].fam); std::swap(k.g, s[j].g); std::swap(k.loss, s[j].loss); std::swap(k.acc, s[j].acc); std::swap(k.n, s[j].n); }
                break;
            }
            case 11: story += " reset-score"; k.m->reset_score(); k.loss = k.acc = 0; k.n = 0; break;
            case 12:
            {
                story += " init";
                RneType::result_type seed = 1 + sim::pick(1000);
                static const I is[] = {I::AUTO, I::KAIMING, I::XAVIER};
                I in = is[sim::pick(3)]; D pdf = sim::pick(2) ? D::UNIFORM : D::NORMAL;
                auto ref = fresh(of(k));
                ref->init(in, pdf, seed); k.m->init(in, pdf, seed);
                of(k).w = params(*ref); k.g.assign(k.g.size(), 0.0);
                break;
            }
            case 13: story += " save"; save(i); break;
            case 14: story += " load"; load(i, fail); break;
            default:
            {
                story += " set";
                auto& w = of(k).w;
                if (w.empty()) break;
                for (int c = int(sim::range(1, 3)); c > 0; --c) w[sim::pick(w.size())] = sim::real(-1, 1);
                set_params(*k.m, w);
            }
        }
        for (std::size_t j = 0; j < s.size(); ++j) check(j);
        if (sim::pick(3) == 0) { std::size_t j = sim::pick(s.size()); ask(j, point(of(s[j]))); }
    }
    bool sane() const { for (auto& f : fam) for (double d : f.w) if (!(std::fabs(d) < 1e3)) return false; return true; }
    void run()
    {
        for (std::size_t i = 0; i < fam.size(); ++i) make(i);
        uint64_t ops = sim::range(3, 14);
        for (uint64_t k = 0; k < ops && sane(); ++k)
        {
            one();
            if (s.size() > 1 && sim::pick(8) == 7) { story += " drop"; s.erase(s.begin() + long(sim::pick(s.size()))); }
        }
        if (sane()) { std::size_t j = sim::pick(s.size()); ask(j, point(of(s[j]))); }
    }
};

void c26_models()
{
    uint64_t threads = sim::pick(4) == 3 ? 2 : 1;
    std::vector<std::unique_ptr<Past>> p;
    for (uint64_t i = 0; i < threads; ++i)
    {
        p.push_back(std::make_unique<Past>());
        p.back()->draw(threads == 1, "/sim/m" + std::to_string(i));
        p.back()->disk_faults = threads == 1 && sim::pick(2);
    }
    sim::step_budget(120000000);
    sim::nontrivial();
    if (threads == 1) { p[0]->run(); return; }
    std::vector<int> t;
    for (uint64_t i = 0; i < threads; ++i) t.push_back(sim::spawn([&, i] { p[i]->run(); }));
    for (int x : t) sim::join(x);
}

// ---- networks: what they answer comes from the last fit
void c26_network()
{
    Run r = gen_run();
    r.seed = 1 + sim::pick(1000);
    sim::pool_config(unsigned(r.workers));
    auto q = queries(r.net.in_size);
    sim::log("%s workers %zu%s:%s", pl_name(r.pl), r.workers, r.dynamic ? " dynamic" : "", r.net.text.c_str());
    auto a = network(r);
    struct Fit { Run r; Data d; };
    std::unique_ptr<Fit> last;
    std::string story;
    uint64_t ops = sim::range(2, 6);
    sim::step_budget(120000000);
    sim::nontrivial();
    sim::stall_some(2);
    auto judge = [&](const Fit& f, bool ev, const std::vector<double>& got, Data& ed) {
        sim::Calm calm;
        auto b = network(f.r); auto ds = make(f.d); b->fit(f.r, ds);
        std::vector<double> want;
        if (ev) { auto e = make(ed); want = b->evaluate(e); } else want = b->predict(q);
        long at = h::diff_at(want, got);
        if (at >= 0) sim::fail("answer-from-the-past", "%s: %s %s, a network with only the last fit gives %s, after%s", pl_name(r.pl), ev ? "evaluates to" : "predicts", h::show(got).c_str(), h::show(want).c_str(), story.c_str());
    };
    auto data = [&] { return gen_data(sim::pick(6) == 5 ? 1 : sim::range(1, 7), r.net.in_size, r.net.out_size, r.cce); };
    bool judged = false;
    for (uint64_t k = 0; k < ops || !judged; ++k)
    {
        uint64_t op = k >= ops ? (last ? 4 : 0) : sim::pick(8);
        if (op <= 2)
        {
            auto f = std::make_unique<Fit>(Fit{r, data()});
            f->r.seed = 1 + sim::pick(1000); f->r.adam = sim::pick(2); f->r.lr = sim::real(0.01, 0.2); f->r.epochs = sim::range(1, 3); f->r.batch = sim::range(1, 5);
            if (r.dynamic) { static const InitType its[] = {InitType::AUTO, InitType::HE_INIT, InitType::XAVIER_INIT}; f->r.it = its[sim::pick(3)]; }
            auto ds = make(f->d);
            story += " fit";
            a->fit(f->r, ds);
            last = std::move(f);
        }
        else if (op == 3)
        {
            Run o = r; o.seed = 1 + sim::pick(1000); o.epochs = 2; o.batch = sim::range(1, 5);
            Data d = data();
            bool poison = r.cce && sim::pick(2);
            if (poison) { auto b = sim::pick(d.n); for (SizeType c = 0; c < d.out; ++c) d.v[b * (d.in + d.out) + d.in + c] = 0.0; sim::count("fault.poisoned_entry"); }
            auto ds = make(d);
            if (!poison) { if (r.pl != PLv::SEQUENTIAL && sim::pick(3) == 2) sim::enqueue_fail_at(sim::range(1, 6)); else sim::alloc_fail_at(1 + sim::pick(sim::pick(2) ? 600 : 80)); }
            auto x = h::attempt([&] { try { a->fit(o, ds); } catch (...) { sim::alloc_fail_at(0); throw; } });
            sim::alloc_fail_at(0); sim::enqueue_fail_at(0);
            story += x.threw ? " fit(failed)" : " fit";
            if (x.threw) { sim::count("probe.failed_fit"); last.reset(); }
            else { o.adam = r.adam; last = std::make_unique<Fit>(Fit{o, d}); }
        }
        else if (op == 4 || op == 5)
        {
            story += " predict";
            auto got = a->predict(q);
            if (got.size() != q.size() * r.net.out_size) sim::fail("answer-from-the-past", "predicts %zu values instead of %zu after%s", got.size(), size_t(q.size() * r.net.out_size), story.c_str());
            Data none; if (last) { judge(*last, false, got, none); judged = true; }
        }
        else if (op == 6)
        {
            story += " evaluate";
            Data ed = data(); auto e = make(ed);
            auto got = a->evaluate(e);
            if (last) { judge(*last, true, got, ed); judged = true; }
        }
        else if (last)
        {
            uint64_t n = sim::alloc_fired();
            sim::alloc_fail_at(1 + sim::pick(40));
            auto x = h::attempt([&] { try { (void) a->predict(q); } catch (...) { sim::alloc_fail_at(0); throw; } });
            sim::alloc_fail_at(0);
            story += x.threw ? " predict(failed)" : " predict";
            if (sim::alloc_fired() > n && !x.threw) sim::fail("failure-not-reported", "an allocation failed and predict returned normally");
        }
    }
}

} // namespace

void sim_scenario()
{
    if (sim::pick(3) == 2) c26_network(); else c26_models();
}
