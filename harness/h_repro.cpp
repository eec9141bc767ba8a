// Reproducibility (C15): a seed decides the run, not entropy, clock, addresses, schedule or the past.
// Independent networks trained at the same time (C25).
#include "any.hpp"

namespace {

// What the outside world is like, and what the process did before.
void other_world(uint64_t k)
{
    sim::entropy(100 + k);
    if (sim::pick(6) == 5) sim::entropy_zero();
    sim::clock_jump(int64_t(sim::pick(2) ? 1 : -1) * int64_t(sim::pick(1000000)) * 1000000);
}
struct Junk { std::vector<std::unique_ptr<char[]>> v; };
void shift_heap(Junk& j) { for (uint64_t i = sim::pick(6); i > 0; --i) j.v.emplace_back(new char[16 * sim::range(1, 40)]); }

void c15_fit()
{
    Run r = gen_run();
    SizeType n = sim::range(1, 8);
    Data data = gen_data(n, r.net.in_size, r.net.out_size, r.cce);
    sim::pool_config(unsigned(r.workers));
    sim::log("%s workers %zu n %zu batch %zu epochs %zu seed %zu %s:%s", pl_name(r.pl), r.workers, n, r.batch, r.epochs, r.seed, r.adam ? "adam" : "gd", r.net.text.c_str());
    auto q = queries(r.net.in_size);
    std::vector<double> base;
    sim::entropy(1);
    { sim::Calm calm; auto a = network(r); auto ds = make(data); a->fit(r, ds); base = a->predict(q); }
    sim::nontrivial();
    std::unique_ptr<Any> keep;
    uint64_t rounds = sim::range(1, 2);
    for (uint64_t k = 0; k < rounds; ++k)
    {
        Junk junk; shift_heap(junk);
        sim::stall_some(2);
        auto a = network(r);
        std::string past = "a fresh network";
        uint64_t h = sim::pick(8);
        other_world(10 * k);
        if (h == 1)
        {
            Run o = r; o.seed = gen_seed(); o.adam = sim::pick(2); o.lr = sim::real(0.01, 0.2); o.epochs = sim::range(1, 2);
            if (sim::pick(2)) o.batch = sim::range(1, 5);
            SizeType m = sim::range(1, 5);
            auto od = make(gen_data(m, r.net.in_size, r.net.out_size, r.cce));
            a->fit(o, od); past = o.batch == r.batch ? "a network fitted before" : "a network fitted before with another batch size";
        }
        else if (h == 2)
        {
            // an earlier fit ran out of memory
            auto od = make(gen_data(3, r.net.in_size, r.net.out_size, r.cce));
            uint64_t at = 1 + sim::pick(sim::pick(2) ? 600 : 80);
            sim::alloc_fail_at(at);
            auto o = h::attempt([&] { a->fit(r, od); });
            sim::alloc_fail_at(0);
            past = o.threw ? "a network whose earlier fit failed" : "a network fitted before";
            if (o.threw) sim::count("probe.failed_fit_before");
        }
        else if (h == 3) { auto ds = make(data); (void) a->predict(q); past = "a network used before"; }
        else if (h == 4) { auto c = a->copy(); a = std::move(c); past = "a copy of a network"; }
        else if (h == 5) { auto ds = make(data); a->fit(r, ds); a->evaluate(ds); auto c = a->copy(); a = std::move(c); past = "a copy of a fitted network"; }
        else if (h == 6)
        {
            auto other = network(r); Run o = r; o.seed = gen_seed(); auto od = make(data); od.shuffle(); other->fit(o, od); (void) other->predict(q); keep = std::move(other);
            past = "a network made after another was trained";
        }
        other_world(10 * k + 5);
        auto ds = make(data);
        a->fit(r, ds);
        if (sim::pick(4) == 3) { sim::entropy(77 + k); a->evaluate(ds); }
        auto got = a->predict(q);
        long at = h::diff_at(base, got);
        if (at >= 0) sim::fail("not-reproducible", "%s, seed %zu, %s: predictions %s, before they were %s (differ at %ld)", pl_name(r.pl), r.seed, past.c_str(), h::show(got).c_str(), h::show(base).c_str(), at);
    }
}

void c15_init()
{
    bool cce = sim::pick(3) == 2;
    Net n = gen_any_net(cce, true);
    using I = Model::InitializationFunction; using D = Model::ProbabilityDensityFunction;
    static const I is[] = {I::AUTO, I::KAIMING, I::XAVIER};
    I init = is[sim::pick(3)]; D pdf = sim::pick(2) ? D::UNIFORM : D::NORMAL;
    bool zero = sim::pick(3) == 2;
    RneType::result_type seed = zero ? 0 : RneType::result_type(gen_seed());
    sim::nontrivial();
    std::vector<double> x, y(n.out_size, cce ? 0.0 : 0.25); if (cce) y[0] = 1.0;
    for (SizeType i = 0; i < n.in_size; ++i) x.push_back(sim::real(-1, 1));
    uint64_t steps = sim::pick(4);
    // weights, then what training steps show (masks of dropout layers included)
    auto show = [&](Model& m) {
        std::vector<double> v = params(m);
        for (uint64_t k = 0; k < steps; ++k) { m.step(x, y); auto g = take_gradient(m); v.insert(v.end(), g.begin(), g.end()); auto& o = m.predict(x); v.insert(v.end(), o.begin(), o.end()); }
        return v;
    };
    sim::entropy(3); if (zero && sim::pick(4) == 3) sim::entropy_zero();
    bool unnamed = sim::pick(2);     // automatic names tell how many objects were made before
    Model a(unnamed ? "" : "a"); build(a, n, cce, 1, "", unnamed);
    RneType::result_type used = a.init(init, pdf, seed);
    if (!zero && used != seed) sim::fail("wrong-seed", "init was given seed %llu and reports %llu", (unsigned long long) seed, (unsigned long long) used);
    if (zero && used == 0) sim::fail("wrong-seed", "init reports seed zero, that cannot reproduce it");
    auto va = show(a);
    Junk junk; shift_heap(junk); other_world(4);
    for (uint64_t k = unnamed ? sim::pick(4) : 0; k > 0; --k) { Model o; }
    Model b(unnamed ? "" : "b"); build(b, n, cce, 1, "", unnamed);
    bool before = sim::pick(2);
    if (before) { (void) b.init(init, pdf, gen_seed()); for (int k = int(sim::pick(3)); k > 0; --k) b.step(x, y); (void) take_gradient(b); }
    other_world(5);
    RneType::result_type again = b.init(init, pdf, used);
    if (again != used) sim::fail("wrong-seed", "init was given seed %llu and reports %llu", (unsigned long long) used, (unsigned long long) again);
    auto vb = show(b);
    long at = h::diff_at(va, vb, 0);
    if (at >= 0) sim::fail("not-reproducible", "two initialisations with seed %llu%s differ at %ld: %s against %s", (unsigned long long) used, before ? " (the second on a used model)" : "", at, h::show(va).c_str(), h::show(vb).c_str());
    // a seed of zero draws a new seed each time, and reports it
    if (zero)
    {
        Model c("c"); build(c, n, cce, 1);
        other_world(6);
        RneType::result_type u2 = c.init(init, pdf, 0);
        Model d("d"); build(d, n, cce, 1);
        other_world(7);
        (void) d.init(init, pdf, u2);
        if (h::diff_at(show(c), show(d), 0) >= 0) sim::fail("not-reproducible", "the reported seed %llu does not reproduce the initialisation", (unsigned long long) u2);
    }
}

void c15_shuffle()
{
    SizeType n = sim::pick(8) == 7 ? sim::pick(2) : sim::range(2, 30), w = sim::range(1, 4);
    std::vector<double> v; for (SizeType i = 0; i < n * w; ++i) v.push_back(double(i));
    std::set<SizeType> lab; if (w > 1 && sim::pick(2)) lab.insert(w - 1);
    RneType::result_type seed = gen_seed();
    sim::nontrivial();
    RneType g(seed); g.discard(sim::pick(20));
    sim::entropy(1);
    Dataset<NumType> a(v, w, 1, lab); a.shuffle(g);
    Junk junk; shift_heap(junk); other_world(2);
    for (uint64_t k = sim::pick(3); k > 0; --k) { Dataset<NumType> o(v, w, 1, lab); o.shuffle(); }
    Dataset<NumType> b(v, w, 1, lab); b.shuffle(g);
    if (h::diff_at(a.data(), b.data(), 0) >= 0) sim::fail("not-reproducible", "two shuffles with one generator give %s and %s", h::show(a.data()).c_str(), h::show(b.data()).c_str());
    // every entry once
    std::vector<char> seen(n, 0);
    for (SizeType i = 0; i < n; ++i)
    {
        auto e = a.entry(i); std::size_t first = std::size_t(e[0]);
        bool ok = e.size() == w && first % w == 0 && first / w < n && !seen[first / w];
        for (SizeType k = 0; ok && k < w; ++k) ok = e[k] == double(first + k);
        if (!ok) sim::fail("wrong-result", "entry %zu of the shuffled dataset is %s", i, h::show(e).c_str());
        seen[first / w] = 1;
    }
    // shuffled data train reproducibly too
    Dataset<NumType> c(v, w, 1, lab); RneType g2(seed); c.shuffle(g2); c.shuffle(g2);
    other_world(3);
    Dataset<NumType> d(v, w, 1, lab); RneType g3(seed); d.shuffle(g3).shuffle(g3);
    if (h::diff_at(c.data(), d.data(), 0) >= 0) sim::fail("not-reproducible", "two double shuffles with one generator differ");
}

// ---- independent networks, each in a thread of its own
struct Client {
    Run r; Data d; std::vector<int> ops; Data poisoned; uint64_t doom_at = 0;
    std::vector<double> play() const
    {
        std::vector<double> out;
        auto q = queries(r.net.in_size);
        auto a = network(r);
        auto ds = make(d);
        auto add = [&](const std::vector<double>& v) { out.insert(out.end(), v.begin(), v.end()); };
        Run k = r;
        for (int o : ops) switch (o)
        {
            case 0: a->fit(k, ds); k.seed += 1; break;
            case 1: add(a->predict(q)); break;
            case 2: a->evaluate(ds); break;
            case 3: { auto c = a->copy(); add(c->predict(q)); break; }
            case 4: { auto s = make(d); RneType g(RneType::result_type(k.seed)); s.shuffle(g); add(s.data()); a->fit(k, s); break; }
            case 5:     // an entry that cannot be trained with: the network is as good as new afterwards
            {
                auto b = network(r); auto pd = make(poisoned);
                auto f = h::attempt([&] { b->fit(k, pd); });
                out.push_back(f.threw && !f.bad_alloc); sim::count("fault.poisoned_entry");
                b->fit(k, ds); add(b->predict(q));
                break;
            }
            case 6:
            {
                Model m("m"); build(m, r.net, r.cce, r.batch, "");
                m.init(Model::InitializationFunction::AUTO, Model::ProbabilityDensityFunction::NORMAL, RneType::result_type(k.seed));
                add(params(m));
                break;
            }
            default:    // this thread runs out of memory
            {
                auto b = network(r); auto od = make(d);
                uint64_t f0 = sim::alloc_fired();
                sim::alloc_fail_at(doom_at, 1, sim::THIS_THREAD);
                auto f = h::attempt([&] { b->fit(k, od); });
                sim::alloc_fail_at(0);
                if (sim::alloc_fired() > f0 && !f.threw) sim::fail("failure-not-reported", "an allocation failed in one of several threads and its fit returned normally");
                break;
            }
        }
        add(a->predict(q));
        return out;
    }
};
void c25()
{
    uint64_t n = sim::pick(4) == 3 ? 3 : 2, same = sim::pick(3), doomed = sim::pick(4);
    std::vector<Client> cs;
    for (uint64_t i = 0; i < n; ++i)
    {
        Client c;
        if (i && same == 2) { c.r = cs[0].r; c.d = cs[0].d; c.r.seed = 1 + sim::pick(1000); if (sim::pick(2)) { static const PLv pls[] = {PLv::SEQUENTIAL, PLv::THREAD_PARALLELISM_ON_DATA_ENTRY, PLv::THREAD_PARALLELISM_ON_DATA_BATCH}; c.r.pl = pls[sim::pick(3)]; } }
        else { c.r = gen_run(); c.r.seed = 1 + sim::pick(1000); c.r.epochs = sim::range(1, 2); c.d = gen_data(sim::range(1, 5), c.r.net.in_size, c.r.net.out_size, c.r.cce); }
        c.poisoned = c.d; c.ops.clear();
        auto b = sim::pick(c.d.n); for (SizeType o = 0; o < c.d.out; ++o) c.poisoned.v[b * (c.d.in + c.d.out) + c.d.in + o] = 0.0;
        for (uint64_t k = sim::range(1, 3); k > 0; --k)
        {
            int o = int(sim::pick(9)); if (o == 7 && i != doomed) o = 0; if (o == 8) o = 0; if (o == 5 && !c.r.cce) o = 4;
            c.ops.push_back(o);
        }
        if (i == 0) c.ops.push_back(0);
        c.doom_at = 1 + sim::pick(sim::pick(2) ? 600 : 60);
        cs.push_back(c);
    }
    uint64_t workers = 1; for (auto& c : cs) workers = std::max<uint64_t>(workers, c.r.workers);
    sim::pool_config(unsigned(workers));
    for (auto& c : cs) sim::log("%s workers %llu n %zu batch %zu %s%s:%s", pl_name(c.r.pl), (unsigned long long) workers, c.d.n, c.r.batch, c.r.dynamic ? "dynamic " : "", c.r.adam ? "adam" : "gd", c.r.net.text.c_str());
    std::vector<std::vector<double>> want, got(n);
    { sim::Calm calm; for (auto& c : cs) want.push_back(c.play()); }
    sim::nontrivial();
    sim::stall_some(2);
    std::vector<int> t;
    for (uint64_t i = 0; i < n; ++i) t.push_back(sim::spawn([&, i] { got[i] = cs[i].play(); }));
    for (int x : t) sim::join(x);
    for (uint64_t i = 0; i < n; ++i)
    {
        long at = h::diff_at(want[i], got[i]);
        if (at >= 0) sim::fail("networks-interfere", "network %zu of %zu trained at the same time shows %s (differs at %ld), alone it shows %s", size_t(i), size_t(n), h::show(got[i]).c_str(), at, h::show(want[i]).c_str());
    }
    if (!sim::pool_quiet()) sim::fail("task-left-running", "tasks are left when every fit has returned");
}

} // namespace

void sim_scenario()
{
    if (sim::property() != std::string("C15")) { c25(); return; }
    uint64_t k = sim::pick(8);
    if (k < 5) c15_fit(); else if (k < 7) c15_init(); else c15_shuffle();
}
