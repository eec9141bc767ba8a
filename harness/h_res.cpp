// What an operation takes it gives back (C19): memory and open files over long repetition, with and
// without failures; working memory of training and reading.
#include "files.hpp"
#include "nets.hpp"
#include "dnn/adam_optimizer.hpp"
#include "dnn/gd_optimizer.hpp"
#include "betterthreads/task_manager.hpp"

using PLv = ParallelizationLevel;

namespace {

struct Plan {
    Faults::Mode mode = Faults::HEALTHY; unsigned kinds = 0; uint64_t at = 1, burst = 1; bool sticky = false, enqueue = false;
    std::function<void()> damage, repair;           // of the files
    uint64_t cost = 1;
    void apply() const
    {
        if (damage) damage();
        if (mode == Faults::BENIGN) sim::disk::faults(sim::disk::SHORT | sim::disk::EINTR_, 4);
        else if (mode == Faults::DISK) sim::disk::fail_op(at, kinds, sticky);
        else if (mode == Faults::ALLOC) sim::alloc_fail_at(at, burst);
        if (enqueue) sim::enqueue_fail_at(at);
    }
    void heal() const
    {
        sim::alloc_fail_at(0); sim::enqueue_fail_at(0);
        sim::disk::faults(0, 1); sim::disk::heal();
        if (repair) repair();
    }
    const char* text() const { return mode == Faults::DISK ? "failing disk operations" : mode == Faults::ALLOC ? "failing allocations" : enqueue ? "failing tasks" : damage ? "damaged files" : "no failure"; }
};
Plan gen_plan(bool files, uint64_t cost, bool pool)
{
    Plan p; uint64_t k = sim::pick(6);
    if (k == 1 && files) p.mode = Faults::BENIGN;
    else if (k == 2 && files)
    {
        static const unsigned kinds[] = {sim::disk::EIO_, sim::disk::SEEK, sim::disk::OPEN, sim::disk::CLOSE, sim::disk::FSTAT, sim::disk::ENOSPC_, sim::disk::EIO_ | sim::disk::OPEN | sim::disk::SEEK};
        p.mode = Faults::DISK; p.kinds = kinds[sim::pick(7)]; p.at = sim::range(1, sim::pick(2) ? 40 : 6); p.sticky = sim::pick(2);
    }
    else if (k >= 3 && k <= 6) { p.mode = Faults::ALLOC; p.cost = std::max<uint64_t>(cost, 1); p.at = sim::range(1, p.cost); p.burst = sim::pick(3) == 2 ? sim::range(2, 30) : 1; }
    else if (k == 7 && pool) { p.enqueue = true; p.at = sim::range(1, 12); }
    return p;
}

struct Subject {
    virtual ~Subject() = default;
    virtual const char* what() const = 0;
    virtual void build() = 0;           // may throw
    virtual void use() = 0;             // may throw; the same every time
    virtual void drop() = 0;
    bool files = false, pool = false, damaged_use = false;
    std::function<void()> damage, repair;
};
bool attempt(const std::function<void()>& f)
{
    try { f(); return true; }
    catch (const std::exception&) { return false; }
}

// Repeats `step`; memory may settle (the masks of a dropout layer differ in length), but must not grow again and again.
// Failing allocations are tried at several places; one after which more memory is in use is then repeated.
void repeat(const char* what, Plan p, unsigned files, const std::function<void()>& step)
{
    int64_t last = 0, first = 0; unsigned n = 0, failed = 0;
    auto once = [&] {
        p.apply();
        bool ok = attempt(step);
        p.heal(); sim::pool_settle();
        failed += !ok;
        unsigned open = sim::disk::open_files();
        if (open > files) sim::fail("file-left-open", "%u files are open after %s (%s) instead of %u", open, what, p.text(), files);
        int64_t now = sim::alloc_live_bytes();
        bool grew = n && now > last;
        if (!n) first = now;
        if (!n || now > last) last = now;
        ++n;
        return grew;
    };
    bool sweep = p.mode == Faults::ALLOC;
    for (unsigned place = 0; place < (sweep ? 12u : 1u); ++place)
    {
        if (place) p.at = sim::range(1, p.cost);
        unsigned grown = 0, limit = sweep ? 1 : 4, k = 0, n0 = n; int64_t from = last;
        for (; k < limit; ++k) if (once()) { ++grown; limit = 30; }
        if (grown >= 12) sim::fail("leak", "%s, repeated %u times (%s, at %llu; %u failed): memory in use grew %u times, by %lld bytes in all", what, n - n0, p.text(), (unsigned long long) p.at, failed, grown, (long long)(last - (n0 ? from : first)));
    }
    if (failed) sim::count("probe.failing_repetition");
}
void judge(Subject& s)
{
    // what it costs, and what is set up only once
    uint64_t c0 = sim::alloc_count();
    unsigned f0 = sim::disk::open_files();
    s.build();
    uint64_t c1 = sim::alloc_count();
    s.use();
    uint64_t used = sim::alloc_count() - c1;
    s.drop();
    uint64_t cost = sim::alloc_count() - c0;
    s.build(); s.use(); s.drop(); sim::pool_settle();
    int64_t b2 = sim::alloc_live_bytes();
    bool persist = sim::pick(2);
    Plan p = gen_plan(s.files, persist ? used : cost, s.pool);
    if (s.damage && sim::pick(3) == 2) { p.damage = s.damage; p.repair = s.repair; sim::count("fault.truncated"); }
    if (p.mode != Faults::HEALTHY || p.damage || p.enqueue || sim::pick(2)) sim::nontrivial();
    sim::log("%s: %s, %s, at %llu", s.what(), persist ? "one object" : "an object each time", p.text(), (unsigned long long) p.at);
    if (!persist)
    {
        repeat(s.what(), p, f0, [&] {
            struct End { Subject& s; ~End() { s.drop(); } } e{s};
            s.build(); s.use();
        });
    }
    else
    {
        s.build(); s.use();
        unsigned open = sim::disk::open_files();
        repeat(s.what(), p, open, [&] { s.use(); });
        s.drop();
    }
    s.drop();
    // with memory at hand and healthy files everything is back where it was
    s.build(); s.use(); s.drop(); sim::pool_settle();
    unsigned open = sim::disk::open_files();
    if (open > f0) sim::fail("file-left-open", "%u files are open after %s", open - f0, s.what());
    int64_t grew = sim::alloc_live_bytes() - b2;
    if (grew > 0 && p.mode == Faults::HEALTHY && !p.damage && !p.enqueue) sim::fail("leak", "%s: %lld bytes more in use than after the second time", s.what(), (long long) grew);
}

// ---- readers
template<class User, class File> struct Reader : Subject {
    File f; Faults fx; Tape tape, t; std::unique_ptr<User> u; std::size_t len; const char* name;
    Reader(const char* n, File g) : f(std::move(g)), name(n) { files = true; len = sim::range(1, 4); tape = Tape(3 * len); }
    const char* what() const override { return name; }
    void build() override { t = tape; fx.lenient = true; u = std::make_unique<User>(f, fx, t); u->open(); }
    void use() override
    {
        t = tape; fx.lenient = true;        // errors are other properties' business
        struct End { User& u; ~End() { forget(u); } } end{*u};
        for (std::size_t i = 0; i < len; ++i) u->op();
    }
    static void forget(CsvUser& u) { u.its.clear(); u.its.shrink_to_fit(); }
    template<class O> static void forget(O&) {}
    void drop() override { u.reset(); }
};
struct JsonReader : Subject {
    Tree a; std::string text; bool file, twice; Json kept; std::size_t cut;
    JsonReader()
    {
        files = true; int b = 14; a = gen_tree(3, true, b); text = json_text(a); file = sim::pick(2); twice = sim::pick(2); cut = sim::pick(text.size());
        sim::disk::put("/sim/doc", text);
        damage = [this] { sim::disk::truncate("/sim/doc", cut); }; repair = [this] { sim::disk::put("/sim/doc", text); };
    }
    const char* what() const override { return "reading and writing a JSON document"; }
    void build() override {}
    void use() override
    {
        std::unique_ptr<std::istream> in;
        if (file) in = std::make_unique<std::ifstream>("/sim/doc"); else in = std::make_unique<std::stringstream>(text);
        Json j; *in >> j;
        Json k(j); kept = k;
        std::ofstream out("/sim/copy"); out << j;
    }
    void drop() override { kept = Json(); }
};
struct Import : Subject {
    CsvFile f; std::set<SizeType> lab; bool oh; std::unique_ptr<CSV> c; std::size_t cut;
    Import() { files = true; f = gen_csv("/sim/t.csv", true, 6); lab = {f.cols() - 1}; oh = sim::pick(2); cut = sim::pick(f.text.size());
        damage = [this] { sim::disk::truncate(f.path, cut); }; repair = [this] { sim::disk::put(f.path, f.text); }; }
    const char* what() const override { return "importing a dataset"; }
    void build() override { c = std::make_unique<CSV>(f.path, f.types, f.sep, lab); }
    void use() override
    {
        using E = DatasetParser::LabelEncoding;
        auto d = Dataset<NumType>::parse(*c, oh ? E::ONE_HOT_ENCODING : E::DEFAULT_ENCODING);
        d.shuffle(); auto s = d.split(0.5); auto x = d.inputs(), y = d.labels(); (void) s; (void) x; (void) y;
    }
    void drop() override { c.reset(); }
};

// ---- models
struct Models : Subject {
    Net n; bool cce; std::vector<double> x, y, bad; std::unique_ptr<Model> m; std::vector<uint64_t> ops; std::string text; std::size_t cut = 0; bool adam;
    Models()
    {
        files = true; cce = sim::pick(3) == 2; n = gen_any_net(cce, true); adam = sim::pick(2);
        for (SizeType i = 0; i < n.in_size; ++i) x.push_back(sim::real(-1, 1));
        for (SizeType o = 0; o < n.out_size; ++o) { y.push_back(cce ? (o ? 0.0 : 1.0) : 0.3); bad.push_back(0); }
        uint64_t k = sim::range(1, 5); for (uint64_t i = 0; i < k; ++i) ops.push_back(sim::pick(11));
        Model t("m"); ::build(t, n, cce, 1, ""); { std::ofstream out("/sim/m"); t.dump(out); }
        text = sim::disk::get("/sim/m"); cut = sim::pick(text.size());
        damage = [this] { sim::disk::truncate("/sim/m", cut); }; repair = [this] { sim::disk::put("/sim/m", text); };
    }
    const char* what() const override { return "using a model"; }
    void build() override { m = std::make_unique<Model>("m"); ::build(*m, n, cce, 1, ""); }
    void use() override
    {
        // the same generator state and weights each time
        std::unique_ptr<Optimizer> o; if (adam) o = std::make_unique<AdamOptimizer>(0.01); else o = std::make_unique<GradientDescentOptimizer>(0.01);
        for (auto k : ops) switch (k)
        {
            case 0: (void) m->predict(x); break;
            case 1: m->step(x, y); break;
            case 2: { Model c(*m); c.step(x, y); (void) c.predict(x); break; }
            case 3: { Model c("c"); c = *m; c = *m; (void) c.predict(x); break; }
            case 4: m->init(Model::InitializationFunction::AUTO, Model::ProbabilityDensityFunction::NORMAL, 7); break;
            case 5: m->step(x, y); m->train(*o); break;
            case 6: { Model c(*m); c.step(x, y); m->train(*o, c); break; }
            case 7: { std::ofstream out("/sim/o"); m->dump(out); break; }
            case 8: { std::ifstream in("/sim/m"); m->load(in); break; }
            case 9: if (cce) try { m->step(x, bad); } catch (const std::exception&) {} break;
            default: m->reset_score(); { Model c(*m); std::vector<Model> v; for (int i = 0; i < 3; ++i) v.push_back(c); } break;
        }
    }
    void drop() override { m.reset(); }
};

// ---- networks
struct Cfg { Net net; Data data; bool cce, adam; SizeType epochs, batch, workers, seed; PLv pl; uint64_t use; };
Cfg gen_cfg()
{
    static const PLv pls[] = {PLv::SEQUENTIAL, PLv::THREAD_PARALLELISM_ON_DATA_ENTRY, PLv::THREAD_PARALLELISM_ON_DATA_BATCH};
    Cfg c; c.pl = pls[sim::pick(3)]; c.cce = sim::pick(3) == 2; c.adam = sim::pick(2); c.net = gen_net(c.cce, true);
    c.data = gen_data(sim::range(1, 5), c.net.in_size, c.net.out_size, c.cce);
    c.epochs = 1; c.batch = sim::range(1, 3); c.workers = sim::range(1, 3); c.seed = 1 + sim::pick(100); c.use = sim::pick(5);
    if (c.cce && sim::pick(3) == 2) { auto b = sim::pick(c.data.n); for (SizeType o = 0; o < c.data.out; ++o) c.data.v[b * (c.data.in + c.data.out) + c.data.in + o] = 0.0; sim::count("fault.poisoned_entry"); }
    sim::pool_config(unsigned(c.workers));
    return c;
}
template<LossType LT, PLv PL> struct Static : Subject {
    using F = FeedforwardNeuralNetwork<Framework::EDGE_LEARNING, LT, InitType::AUTO, PL>;
    Cfg c; std::unique_ptr<F> f; std::vector<double> q;
    Static(const Cfg& k) : c(k) { pool = PL != PLv::SEQUENTIAL; for (SizeType i = 0; i < 2 * c.net.in_size; ++i) q.push_back(0.1 * double(i)); }
    const char* what() const override { return PL == PLv::SEQUENTIAL ? "sequential fitting" : PL == PLv::THREAD_PARALLELISM_ON_DATA_ENTRY ? "fitting parallel on entries" : "fitting parallel on batches"; }
    void build() override { NeuralNetworkDescriptor nd; nd.push_back(Input("in", c.net.in)); for (auto& l : c.net.layers) nd.push_back(l); f = std::make_unique<F>(nd, "net"); }
    void use() override
    {
        auto d = make(c.data);
        auto opt = c.adam ? OptimizerType::ADAM : OptimizerType::GRADIENT_DESCENT;
        try { f->fit(d, opt, c.epochs, c.batch, 0.01, c.seed); } catch (const std::runtime_error&) {}
        Dataset<NumType> qs(q, c.net.in_size, 1, {});
        if (c.use & 1) (void) f->predict(qs);
        if (c.use & 2) { F g(*f); (void) g.predict(qs); try { g.fit(d, opt, 1, c.batch + 1, 0.01, c.seed); } catch (const std::runtime_error&) {} }
        if (c.use & 4) try { (void) f->evaluate(d); } catch (const std::runtime_error&) {}
    }
    void drop() override { f.reset(); }
};
template<PLv PL> struct Dynamic : Subject {
    using F = DynamicFeedforwardNeuralNetwork<PL>;
    Cfg c; std::unique_ptr<F> f; std::vector<double> q;
    Dynamic(const Cfg& k) : c(k) { pool = PL != PLv::SEQUENTIAL; for (SizeType i = 0; i < 2 * c.net.in_size; ++i) q.push_back(0.1 * double(i)); }
    const char* what() const override { return "compiling and fitting"; }
    void build() override { NeuralNetworkDescriptor nd; nd.push_back(Input("in", c.net.in)); for (auto& l : c.net.layers) nd.push_back(l); f = std::make_unique<F>(nd, "net"); }
    void use() override
    {
        auto d = make(c.data);
        f->compile(c.cce ? LossType::CCE : LossType::MSE, c.adam ? OptimizerType::ADAM : OptimizerType::GRADIENT_DESCENT, InitType::AUTO);
        try { f->fit(d, c.epochs, c.batch, 0.01, c.seed); } catch (const std::runtime_error&) {}
        Dataset<NumType> qs(q, c.net.in_size, 1, {});
        if (c.use & 1) (void) f->predict(qs);
        if (c.use & 4) try { (void) f->evaluate(d); } catch (const std::runtime_error&) {}
    }
    void drop() override { f.reset(); }
};
std::unique_ptr<Subject> network(const Cfg& c)
{
    using E = Static<LossType::MSE, PLv::THREAD_PARALLELISM_ON_DATA_ENTRY>;
    if (sim::pick(4) == 3)
    {
        if (c.pl == PLv::SEQUENTIAL) return std::make_unique<Dynamic<PLv::SEQUENTIAL>>(c);
        if (c.pl == PLv::THREAD_PARALLELISM_ON_DATA_ENTRY) return std::make_unique<Dynamic<PLv::THREAD_PARALLELISM_ON_DATA_ENTRY>>(c);
        return std::make_unique<Dynamic<PLv::THREAD_PARALLELISM_ON_DATA_BATCH>>(c);
    }
    if (c.cce)
    {
        if (c.pl == PLv::SEQUENTIAL) return std::make_unique<Static<LossType::CCE, PLv::SEQUENTIAL>>(c);
        if (c.pl == PLv::THREAD_PARALLELISM_ON_DATA_ENTRY) return std::make_unique<Static<LossType::CCE, PLv::THREAD_PARALLELISM_ON_DATA_ENTRY>>(c);
        return std::make_unique<Static<LossType::CCE, PLv::THREAD_PARALLELISM_ON_DATA_BATCH>>(c);
    }
    if (c.pl == PLv::SEQUENTIAL) return std::make_unique<Static<LossType::MSE, PLv::SEQUENTIAL>>(c);
    if (c.pl == PLv::THREAD_PARALLELISM_ON_DATA_ENTRY) return std::make_unique<E>(c);
    return std::make_unique<Static<LossType::MSE, PLv::THREAD_PARALLELISM_ON_DATA_BATCH>>(c);
}

// ---- threaded kernels
struct Kernels : Subject {
    SizeType in, out; bool fwd; std::vector<double> a, b, w, g, d, wg, bg;
    Kernels()
    {
        pool = true; in = sim::range(1, 12); out = sim::range(1, 12); fwd = sim::pick(2); sim::pool_config(unsigned(sim::range(1, 4)));
        a.assign(in, 0.5); b.assign(out, 0.1); w.assign(in * out, 0.2); g.assign(out, 0.3); d.assign(std::max(in, out), 0); wg.assign(in * out, 0); bg.assign(out, 0);
    }
    const char* what() const override { return "a threaded kernel"; }
    void build() override {}
    void use() override
    {
        if (fwd) DLMath::dense_thread_opt(d.data(), a.data(), w.data(), b.data(), in, out);
        else DLMath::dense_1_thread_opt(d.data(), wg.data(), bg.data(), g.data(), a.data(), w.data(), in, out);
    }
    void drop() override {}
};

// ---- working memory
void peak_fit()
{
    Cfg c = gen_cfg(); sim::nontrivial();
    SizeType rows = c.batch * c.workers * 2;
    Data small = gen_data(rows, c.net.in_size, c.net.out_size, c.cce), big = small;
    big.n = 8 * small.n; for (int k = 0; k < 7; ++k) big.v.insert(big.v.end(), small.v.begin(), small.v.end());
    sim::Calm calm;
    auto run = [&](const Data& d, SizeType epochs) {
        Cfg k = c; k.epochs = epochs; auto ds = make(d);
        NeuralNetworkDescriptor nd; nd.push_back(Input("in", c.net.in)); for (auto& l : c.net.layers) nd.push_back(l);
        int64_t base = sim::alloc_live_bytes(); sim::alloc_peak_reset();
        auto go = [&](auto* p) {
            using F = std::remove_pointer_t<decltype(p)>; F f(nd, "net");
            f.fit(ds, c.adam ? OptimizerType::ADAM : OptimizerType::GRADIENT_DESCENT, epochs, c.batch, 0.01, c.seed);
        };
        using M = FeedforwardNeuralNetwork<Framework::EDGE_LEARNING, LossType::MSE, InitType::AUTO, PLv::SEQUENTIAL>;
        using E = FeedforwardNeuralNetwork<Framework::EDGE_LEARNING, LossType::MSE, InitType::AUTO, PLv::THREAD_PARALLELISM_ON_DATA_ENTRY>;
        using B = FeedforwardNeuralNetwork<Framework::EDGE_LEARNING, LossType::MSE, InitType::AUTO, PLv::THREAD_PARALLELISM_ON_DATA_BATCH>;
        if (c.pl == PLv::SEQUENTIAL) go(static_cast<M*>(nullptr)); else if (c.pl == PLv::THREAD_PARALLELISM_ON_DATA_ENTRY) go(static_cast<E*>(nullptr)); else go(static_cast<B*>(nullptr));
        return sim::alloc_peak_bytes() - base;
    };
    (void) run(small, 1);
    // interleavings make the peak of a parallel fit vary with what happens to be alive at the same time
    const bool seq = c.pl == PLv::SEQUENTIAL;
    const SizeType epochs = 40;
    int64_t one = run(small, 1), more = run(small, epochs), larger = run(big, 1);
    int64_t slack = seq ? 256 : 512 + one / 8;
    if (more > one + slack) sim::fail("memory-grows", "fitting for %lu epochs takes %lld bytes at its peak, for one epoch %lld", (unsigned long) epochs, (long long) more, (long long) one);
    if (larger > one + slack) sim::fail("memory-grows", "fitting on eight times the entries takes %lld bytes at its peak instead of %lld", (long long) larger, (long long) one);
}
void peak_read()
{
    sim::nontrivial();
    uint64_t kind = sim::pick(3), salt = sim::pick(100), order = sim::pick(2);
    auto measure = [&](std::size_t n, std::size_t reads) {
        int64_t base = sim::alloc_live_bytes(); sim::alloc_peak_reset();
        double sum = 0;
        if (kind == 0)
        {
            CSV c("/sim/big.csv", {TypeChecker::Type::INT}, ',', {});
            if (order) for (std::size_t i = 0; i < 4 * reads; ++i) sum += (*&c)[(i * (n / 12 + salt)) % n].size();
            else { std::size_t k = 0; for (auto it = c.begin(); k < std::min<std::size_t>(n - 2, 5 * reads); ++it, ++k) sum += double((*it).size()); }
        }
        else if (kind == 1) { Mnist m("/sim/big-i", "/sim/big-l"); for (std::size_t i = 0; i < reads; ++i) { sum += double(m.image((i * 7919 + salt) % n).data().size()) + double(m.label(n - 1 - i).data()); } }
        else { Cifar m("/sim/big-c", "/sim/big-n", order ? CifarShapeOrder::ROW_COL_CHN : CifarShapeOrder::CHN_ROW_COL, CifarDataset::CIFAR_10); for (std::size_t i = 0; i < reads; ++i) sum += double(m.image((i * 7919 + salt) % n).data().size()); }
        (void) sum;
        return sim::alloc_peak_bytes() - base;
    };
    auto prepare = [&](std::size_t n) {
        if (kind == 0) { std::string s = "a,b,c\n"; for (std::size_t i = 1; i < n; ++i) { char b[64]; std::snprintf(b, sizeof b, "%03zu,%03zu,%03zu\n", i % 1000, i * 7 % 1000, i * 13 % 1000); s += b; } sim::disk::put("/sim/big.csv", s); }
        else if (kind == 1)
        {
            sim::disk::put_large("/sim/big-i", be32(0x803) + be32(uint32_t(n)) + be32(28) + be32(28), 16 + n * 784, 5);
            sim::disk::put_large("/sim/big-l", be32(0x801) + be32(uint32_t(n)), 8 + n, 6);
        }
        else { sim::disk::put_large("/sim/big-c", "", n * 3073, 5); sim::disk::put("/sim/big-n", "a\nb\n"); }
    };
    std::size_t a = kind == 0 ? 30 : 300, b = kind == 0 ? 600 : kind == 1 ? 6000000 : 10000;
    prepare(a); (void) measure(a, 5); int64_t one = measure(a, 5), many = measure(a, 60);
    prepare(b); int64_t more = measure(b, 5);
    if (many > one + 512) sim::fail("memory-grows", "reading 60 entries of a %s file one by one takes %lld bytes at its peak, reading 5 takes %lld", kind == 0 ? "CSV" : kind == 1 ? "MNIST" : "CIFAR", (long long) many, (long long) one);
    if (more > one + 512) sim::fail("memory-grows", "reading a few entries of a %s file of %zu entries takes %lld bytes at its peak, of %zu entries %lld", kind == 0 ? "CSV" : kind == 1 ? "MNIST" : "CIFAR", b, (long long) more, a, (long long) one);
}

} // namespace

void sim_scenario()
{
    sim::step_budget(1000000000);
    std::unique_ptr<Subject> s;
    switch (sim::pick(12))
    {
        case 0: { auto r = std::make_unique<Reader<CsvUser, CsvFile>>("reading a CSV file", gen_csv("/sim/t.csv", sim::pick(2), 6)); auto cut = sim::pick(r->f.text.size()); auto* p = r.get();
            r->damage = [p, cut] { sim::disk::truncate(p->f.path, cut); }; r->repair = [p] { sim::disk::put(p->f.path, p->f.text); }; s = std::move(r); break; }
        case 1: { auto r = std::make_unique<Reader<MnistUser, MnistFiles>>("reading MNIST files", gen_mnist("/sim/m", 3, true)); auto cut = sim::pick(r->f.img.size()); auto* p = r.get();
            r->damage = [p, cut] { sim::disk::truncate(p->f.ip, cut); }; r->repair = [p] { p->f.store(); }; s = std::move(r); break; }
        case 2: { auto r = std::make_unique<Reader<CifarUser, CifarFiles>>("reading a CIFAR file", gen_cifar("/sim/c", 2, true)); auto cut = sim::pick(r->f.data.size()); auto* p = r.get();
            r->damage = [p, cut] { sim::disk::truncate(p->f.bp, cut); }; r->repair = [p] { p->f.store(); }; s = std::move(r); break; }
        case 3: s = std::make_unique<JsonReader>(); break;
        case 4: s = std::make_unique<Import>(); break;
        case 5: case 6: s = std::make_unique<Models>(); break;
        case 7: s = std::make_unique<Kernels>(); break;
        case 8: peak_fit(); return;
        case 9: peak_read(); return;
        default: { Cfg c = gen_cfg(); s = network(c); }
    }
    judge(*s);
}
