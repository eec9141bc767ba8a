// Datasets in memory (C28): values, whatever their past, also when memory runs out, also in several threads.
#include "files.hpp"
#include "data/dataset.hpp"
#include <array>
#include <cstring>
#include <functional>

namespace {

using DS = Dataset<NumType>;
using Rows = std::vector<std::vector<double>>;

struct Val {
    Rows rows; std::size_t f = 0, seq = 0; std::set<SizeType> labels;
    std::size_t seqs() const { return seq ? rows.size() / seq : 0; }
    std::vector<SizeType> inputs() const { std::vector<SizeType> v; for (SizeType i = 0; i < f; ++i) if (!labels.count(i)) v.push_back(i); return v; }
    std::vector<double> flat() const { std::vector<double> v; for (auto& r : rows) v.insert(v.end(), r.begin(), r.end()); return v; }
    std::size_t cells() const { return rows.size() * f; }
};
// What the constructors promise: whole rows, whole sequences, labels inside the row.
Val make_val(const std::vector<double>& v, std::size_t f, std::size_t s, std::set<SizeType> labels)
{
    Val r; r.f = std::min(f, v.size()); std::size_t n = r.f ? v.size() / r.f : 0;
    r.seq = std::min(s, n); n = r.seq ? n / r.seq * r.seq : 0;
    for (std::size_t i = 0; i < n; ++i) r.rows.emplace_back(v.begin() + long(i * r.f), v.begin() + long((i + 1) * r.f));
    for (auto l : labels) if (l < r.f) r.labels.insert(l);
    return r;
}
bool bits(double a, double b) { return !std::memcmp(&a, &b, sizeof a) || h::close(a, b); }
std::string vdiff(const std::vector<double>& got, const std::vector<double>& want)
{
    if (got.size() != want.size()) return std::to_string(got.size()) + " values instead of " + std::to_string(want.size());
    for (std::size_t i = 0; i < got.size(); ++i) if (!bits(got[i], want[i]) && !(got[i] != got[i] && want[i] != want[i])) return "value " + std::to_string(i) + " is " + std::to_string(got[i]) + " instead of " + std::to_string(want[i]);
    return "";
}
std::vector<double> pickcols(const Rows& rows, std::size_t from, std::size_t n, const std::vector<SizeType>& cols)
{
    std::vector<double> v; for (std::size_t r = from; r < from + n; ++r) for (auto c : cols) v.push_back(rows[r][c]); return v;
}
std::string diff(const DS& d, const Val& v)
{
    if (d.size() != v.rows.size()) return "has " + std::to_string(d.size()) + " entries instead of " + std::to_string(v.rows.size());
    if (d.feature_size() != v.f) return "has entries of " + std::to_string(d.feature_size()) + " fields instead of " + std::to_string(v.f);
    if (d.sequence_size() != v.seq) return "has sequences of " + std::to_string(d.sequence_size()) + " entries instead of " + std::to_string(v.seq);
    if (d.empty() != v.rows.empty()) return "empty() is wrong";
    std::vector<SizeType> lab(v.labels.begin(), v.labels.end()), in = v.inputs();
    if (d.label_idx() != lab) return "has other label columns";
    if (d.input_idx() != in) return "has other input columns";
    std::string s = vdiff(d.data(), v.flat());
    return s.empty() ? s : "data: " + s;
}

struct Sets {
    Faults& fx; Tape& t; const std::vector<Val>& stock;
    std::vector<DS> d; std::vector<Val> v;
    const std::vector<DS>* sd = nullptr; const std::vector<Val>* sv = nullptr;   // of somebody else, to read only
    const char* who;
    Sets(Faults& f, Tape& t_, const std::vector<Val>& s, const char* w) : fx(f), t(t_), stock(s), d(3), v(3), who(w) {}

    static DS make(const Val& x, unsigned how)
    {
        if (how % 3 == 0 || x.rows.empty()) return DS(x.flat(), x.rows.empty() ? 1 : x.f, x.rows.empty() ? 1 : x.seq, x.labels);
        if (how % 3 == 1) return DS(x.rows, x.seq, x.labels);
        std::vector<Rows> c; for (std::size_t i = 0; i < x.rows.size(); i += x.seq) c.emplace_back(x.rows.begin() + long(i), x.rows.begin() + long(i + x.seq));
        return DS(c, x.labels);
    }
    void same(std::size_t k, const char* when) const
    {
        std::string s = diff(d[k], v[k]);
        if (!s.empty()) sim::fail("wrong-value", "%s: dataset %zu %s (%s)", who, k, s.c_str(), when);
    }
    void all_same(const char* when) const
    {
        for (std::size_t k = 0; k < d.size(); ++k) same(k, when);
        if (sd && sv) for (std::size_t k = 0; k < sd->size(); ++k) { std::string s = diff((*sd)[k], (*sv)[k]); if (!s.empty()) sim::fail("wrong-value", "%s: a dataset that is only read changed: %s (%s)", who, s.c_str(), when); }
    }
    template<class Do> void change(const char* what, std::size_t k, const Val& after, Do&& f)
    {
        if (after.cells() > 3000) return;
        fx.arm();
        auto g = [&] { f(); return 0; };
        auto none = [](int) { return std::string(); };
        bool ok = access(fx, what, false, g, none);
        fx.heal();
        if (!ok)
        {
            sim::count("probe.failed_change");
            for (std::size_t o = 0; o < d.size(); ++o) if (o != k || !diff(d[o], after).empty()) same(o, what);
            d[k] = make(v[k], 0);
            sim::count("probe.retry_after_fault");
            access(fx, what, false, g, none);
        }
        v[k] = after;
        all_same(what);
    }
    template<class Get, class Same> void look(const char* what, Get&& get, Same&& eq)
    {
        fx.arm();
        bool ok = access(fx, what, false, get, eq);
        fx.heal();
        if (!ok) { sim::count("probe.retry_after_fault"); access(fx, what, false, get, eq); }
        all_same(what);
    }
    void op()
    {
        unsigned k = unsigned(t.pick(18)), how = unsigned(t.pick(5040));
        std::size_t a = t.pick(d.size()), b = t.pick(d.size());
        const Val& fresh = stock[t.pick(stock.size())];
        bool other = sd && how % 5 < 2;
        const DS& from = other ? (*sd)[b % sd->size()] : d[b];
        const Val& fv = other ? (*sv)[b % sv->size()] : v[b];
        Val after = v[a];
        std::size_t n = fv.rows.size(), m = v[a].rows.size();
        auto vec = [&](std::vector<double> w) { return [w](const std::vector<double>& g) { return vdiff(g, w); }; };
        auto is = [&](const Val& w) { return [w](const DS& g) { return diff(g, w); }; };
        switch (k)
        {
            case 0: case 1: change("a new dataset", a, fresh, [&] { d[a] = make(fresh, how); }); break;
            case 2:
                // rows and sequences that do not come out even
                { std::size_t f = 1 + how % 4, s = 1 + how / 4 % 5; auto w = fresh.flat();
                  if (how % 2 || fresh.rows.empty()) change("a dataset of uneven data", a, make_val(w, f, s, fresh.labels), [&] { d[a] = DS(w, f, s, fresh.labels); });
                  else change("a dataset of rows in uneven sequences", a, make_val(w, fresh.f, s, fresh.labels), [&] { d[a] = DS(fresh.rows, s, fresh.labels); }); }
                break;
            case 3: change("assigning a dataset", a, fv, [&] { d[a] = from; }); break;
            case 4: if (how % 2) change("copying a dataset", a, fv, [&] { DS c(from); d[a] = c; }); else change("moving a dataset", a, fv, [&] { DS c(from); DS mv(std::move(c)); d[a] = std::move(mv); }); break;
            case 5: case 6:
            {
                after.labels.clear(); std::set<SizeType> l;
                for (SizeType c = 0; c < 12; ++c) if ((how >> c) & 1) { l.insert(c); if (c < after.f) after.labels.insert(c); }
                change("other label columns", a, after, [&] { d[a].label_idx(l); });
                break;
            }
            case 7:
            {
                std::size_t s = 1 + how % 7; after.seq = std::min(s, m); after.rows.resize(after.seq ? m / after.seq * after.seq : 0);
                change("other sequences", a, after, [&] { d[a].sequence_size(s); });
                break;
            }
            case 8:
            {
                RneType rne(how); DS ref = make(v[a], 0); RneType r2(how); { sim::Calm calm; ref.shuffle(r2); }
                // the order is the generator's business, the rows are not
                after.rows.clear(); for (std::size_t i = 0; i < m; ++i) after.rows.emplace_back(ref.data().begin() + long(i * after.f), ref.data().begin() + long((i + 1) * after.f));
                auto x = v[a].rows, y = after.rows; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
                if (x != y) { bool nan = false; for (auto& r : x) for (double e : r) nan = nan || e != e; if (!nan) sim::fail("wrong-value", "%s: shuffling changed the entries themselves", who); }
                change("shuffling", a, after, [&] { d[a].shuffle(rne); });
                break;
            }
            case 9:
            {
                double lo = -double(how % 50), hi = double(how % 70) + 1; std::vector<SizeType> cols;
                for (SizeType c = 0; c < after.f; ++c) if ((how >> c) & 1) cols.push_back(c);
                for (auto& r : after.rows) for (std::size_t c = 0; c < after.f; ++c) if (cols.empty() || std::count(cols.begin(), cols.end(), c)) r[c] = (r[c] - lo) / (hi - lo);
                change("normalisation to a range", a, after, [&] { d[a].min_max_normalization(lo, hi, cols); });
                break;
            }
            case 10:
            {
                if (!m) break;
                for (std::size_t c = 0; c < after.f; ++c)
                {
                    double lo = v[a].rows[0][c], hi = lo; for (auto& r : v[a].rows) { if (r[c] > hi) hi = r[c]; if (r[c] < lo) lo = r[c]; }
                    for (auto& r : after.rows) r[c] = (r[c] - lo) / (hi - lo);
                }
                change("normalisation", a, after, [&] { d[a].min_max_normalization(); });
                break;
            }
            case 11:
            {
                std::size_t x = how % (n + 2), y = how / 7 % (n + 3);
                if (x > std::min(y, n)) { bool threw = false; fx.arm(); fx.enter(); try { (void) from.subdata(x, y); } catch (const std::exception&) { fx.leave(); threw = true; } fx.heal(); if (!threw) sim::fail("no-error", "%s: a part from %zu to %zu of %zu entries", who, x, y, n); all_same("a refused part"); break; }
                y = std::min(y, n);
                std::vector<double> w; for (std::size_t r = x; r < y; ++r) w.insert(w.end(), fv.rows[r].begin(), fv.rows[r].end());
                Val part = make_val(w, fv.f, fv.seq, fv.labels);
                if (how % 2) change("a part of a dataset kept", a, part, [&] { d[a] = from.subdata(x, y); }); else look("a part of a dataset", [&] { return from.subdata(x, y); }, is(part));
                break;
            }
            case 12:
            {
                if (!n) break;
                double perc = double(how % 11) / 10; DS src(from);
                auto to = static_cast<SizeType>(perc * static_cast<NumType>(n) / static_cast<NumType>(fv.seq)) * fv.seq;
                std::vector<double> w, z; for (std::size_t r = 0; r < n; ++r) { auto& q = r < to ? w : z; q.insert(q.end(), fv.rows[r].begin(), fv.rows[r].end()); }
                Val l = make_val(w, fv.f, fv.seq, fv.labels), r = make_val(z, fv.f, fv.seq, fv.labels);
                look("splitting", [&] { return src.split(perc); }, [&](const DS::SplitDataset& s) { auto e = diff(s.training_set, l); return e.empty() ? diff(s.testing_set, r) : e; });
                break;
            }
            case 13:
            {
                const Val& o = v[a]; unsigned axis = how % 3; Val w; bool bad = false;
                if (!n) w = o; else if (!m) w = fv;
                else if (axis != 2 && fv.labels != o.labels) bad = true;
                else if ((axis != 0 && fv.seqs() != o.seqs()) || (axis != 1 && fv.seq != o.seq) || (axis != 2 && fv.f != o.f)) bad = true;
                else if (axis == 0) { w = fv; w.rows.insert(w.rows.end(), o.rows.begin(), o.rows.end()); }
                else if (axis == 1) { w = fv; w.rows.clear(); w.seq = fv.seq + o.seq; for (std::size_t q = 0; q < fv.seqs(); ++q) { for (std::size_t i = 0; i < fv.seq; ++i) w.rows.push_back(fv.rows[q * fv.seq + i]); for (std::size_t i = 0; i < o.seq; ++i) w.rows.push_back(o.rows[q * o.seq + i]); } }
                else { w = fv; w.f = fv.f + o.f; w.labels.clear(); for (std::size_t i = 0; i < n; ++i) w.rows[i].insert(w.rows[i].end(), o.rows[i].begin(), o.rows[i].end()); }
                if (bad) { bool threw = false; fx.arm(); fx.enter(); try { (void) DS::concatenate(from, d[a], axis); } catch (const std::exception&) { fx.leave(); threw = true; } fx.heal(); if (!threw) sim::fail("no-error", "%s: datasets that do not fit were concatenated along %u", who, axis); all_same("a refused concatenation"); break; }
                if (how / 3 % 2) change("a concatenation kept", a, w, [&] { d[a] = DS::concatenate(from, d[a], axis); }); else look("a concatenation", [&] { return DS::concatenate(from, d[a], axis); }, is(w));
                break;
            }
            case 14:
            {
                std::vector<SizeType> in = fv.inputs(), lab(fv.labels.begin(), fv.labels.end());
                Val x = make_val(pickcols(fv.rows, 0, n, in), in.size(), fv.seq, {}), y = make_val(pickcols(fv.rows, 0, n, lab), lab.size(), fv.seq, {});
                if (how % 3 == 0 && !in.empty()) change("the inputs kept", a, x, [&] { d[a] = from.inputs(); });
                else { look("the inputs", [&] { return from.inputs(); }, is(x)); look("the labels", [&] { return from.labels(); }, is(y)); }
                break;
            }
            default:
            {
                std::size_t i = how % (n + 2), q = how % (fv.seqs() + 2);
                std::vector<SizeType> in = fv.inputs(), lab(fv.labels.begin(), fv.labels.end()), all; for (SizeType c = 0; c < fv.f; ++c) all.push_back(c);
                auto row = [&](const std::vector<SizeType>& c) { return i < n ? pickcols(fv.rows, i, 1, c) : std::vector<double>(); };
                auto sq = [&](const std::vector<SizeType>& c) { return q < fv.seqs() ? pickcols(fv.rows, q * fv.seq, fv.seq, c) : std::vector<double>(); };
                switch (how / 16 % 6)
                {
                    case 0: look("an entry", [&] { return from.entry(i); }, vec(row(all))); break;
                    case 1: look("an input", [&] { return from.input(i); }, vec(row(in))); break;
                    case 2: look("a label", [&] { return from.label(i); }, vec(row(lab))); break;
                    case 3: look("a sequence", [&] { return from.entry_seq(q); }, vec(sq(all))); break;
                    case 4: look("the inputs of a sequence", [&] { return from.inputs_seq(q); }, vec(sq(in))); break;
                    default: look("the labels of a sequence", [&] { return from.labels_seq(q); }, vec(sq(lab)));
                }
            }
        }
    }
};

std::vector<Val> draw_stock()
{
    std::vector<Val> s;
    // some of one shape, so that they can be concatenated
    std::size_t f0 = sim::range(1, 5), q0 = sim::range(1, 3), n0 = sim::range(1, 4);
    for (int i = 0; i < 6; ++i)
    {
        bool alike = sim::pick(2);
        std::size_t f = alike ? f0 : sim::range(1, 6), q = alike ? q0 : sim::range(1, 3), n = (alike ? n0 : sim::range(1, sim::pick(8) == 7 ? 40 : 5)) * q;
        std::set<SizeType> l; uint64_t kind = sim::pick(4);
        if (kind == 1) l.insert(f - 1); else if (kind == 2) for (SizeType c = 0; c < f; ++c) { if (sim::pick(2)) l.insert(c); } else if (kind == 3) l = {f / 2};
        uint64_t salt = sim::pick(500);
        std::vector<double> v; for (std::size_t k = 0; k < n * f; ++k) v.push_back(double((k * 37 + salt * 11) % 101) - 50 + double(i) / 8);
        s.push_back(make_val(v, f, q, l));
    }
    s.emplace_back();
    return s;
}

} // namespace

void sim_scenario()
{
    std::vector<Val> stock = draw_stock();
    std::size_t len = sim::range(1, sim::pick(3) == 2 ? 40 : 12);
    Tape tape(len * 5);
    bool threads = sim::pick(3) == 2, faults = !threads && sim::pick(3) < 2;
    if (threads)
    {
        Faults none; Tape t0 = tape;
        Sets shared(none, t0, stock, "before the threads");
        for (std::size_t i = 0; i < len / 2 + 1; ++i) shared.op();
        for (std::size_t i = 0; i < 3; ++i) if (shared.v[i].rows.empty()) { shared.d[i] = shared.make(stock[i], 0); shared.v[i] = stock[i]; }
        std::size_t n = sim::range(2, 3), each = std::min<std::size_t>(len, 8);
        std::vector<Tape> tapes; for (std::size_t i = 0; i < n; ++i) tapes.emplace_back(each * 5);
        std::vector<int> tids;
        sim::nontrivial();
        for (std::size_t i = 0; i < n; ++i) tids.push_back(sim::spawn([&, i] {
            Faults fx; Sets d(fx, tapes[i], stock, "a thread");
            d.sd = &shared.d; d.sv = &shared.v;
            for (std::size_t k = 0; k < each; ++k) d.op();
        }));
        for (int t : tids) sim::join(t);
        shared.all_same("after the threads");
        return;
    }
    std::vector<uint64_t> costs;
    auto round = [&](bool faulty) {
        Faults fx; if (faults) fx.costs = &costs;
        fx.begin(faulty ? Faults::ALLOC : Faults::HEALTHY);
        Tape t = tape;
        Sets d(fx, t, stock, "one user");
        for (std::size_t i = 0; i < len; ++i) d.op();
    };
    sim::step_budget(2000000000); uint64_t s0 = sim::steps();
    round(false);
    if (!faults) { if (len > 5) sim::nontrivial(); return; }
    sim::step_budget(50000000 + 40 * (sim::steps() - s0));
    round(false);
    int64_t live = sim::alloc_live_blocks(), bytes = sim::alloc_live_bytes();
    uint64_t f0 = sim::alloc_fired();
    round(true);
    if (sim::alloc_fired() > f0) sim::nontrivial();
    int64_t now = sim::alloc_live_blocks();
    if (now > live) sim::fail("leak", "%ld blocks (%ld bytes) more are in use after allocation failures in datasets", long(now - live), long(sim::alloc_live_bytes() - bytes));
}
