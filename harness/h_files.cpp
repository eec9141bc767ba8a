// Readers of CSV, MNIST, CIFAR and JSON on the simulated disk: C07, C10, C11, C12, C13, C14, C17 (reading).
#include "files.hpp"

__attribute__((weak)) void h_store_scenario();        // C17 on models, when linked
namespace {

Faults::Mode draw_mode(bool alloc)
{
    uint64_t k = sim::pick(8);
    if (k < 1) return Faults::HEALTHY;
    if (k < 3) return Faults::BENIGN;
    if (alloc && k == 7) return Faults::ALLOC;
    return Faults::DISK;
}

// Random accesses with faults coming and going; every access is judged on the spot.
template<class User> void script(User& u, Faults& fx, Tape& t, std::size_t len, const std::function<void()>& cut, const std::function<void()>& restore)
{
    bool is_cut = false;
    for (std::size_t n = 0; n < len; ++n)
    {
        if (fx.mode >= Faults::DISK && !fx.armed && sim::pick(3) == 2) fx.arm();
        if (cut && !is_cut && sim::pick(8) == 7 && u.opened()) { cut(); is_cut = true; fx.cut = true; sim::count("fault.truncated"); }
        Tape before = t;
        bool ok = u.op();
        if (!ok && (sim::pick(2) || !u.opened()))
        {
            // once the fault is over the same access is right
            fx.heal(); if (is_cut) { restore(); is_cut = false; fx.cut = false; }
            t = before;
            sim::count("probe.retry_after_fault");
            u.op();
        }
        else if (is_cut && sim::pick(3) == 2) { restore(); is_cut = false; fx.cut = false; }
        if (fx.armed && sim::pick(4) == 3) fx.heal();
    }
    fx.heal();
    if (is_cut) { restore(); fx.cut = false; }
    for (int n = 0; n < 3; ++n) u.op();
}
struct CsvU : CsvUser { using CsvUser::CsvUser; bool opened() const { return bool(csv); } };
struct MnistU : MnistUser { using MnistUser::MnistUser; bool opened() const { return bool(m); } };
struct CifarU : CifarUser { using CifarUser::CifarUser; bool opened() const { return bool(m); } };

// No data row: the header, when its line is complete, or an error; no row out of nowhere.
void barren(const CsvFile& f)
{
    Faults fx; std::unique_ptr<CSV> c;
    fx.cut = true;                      // refusing to open it is fine
    if (!access(fx, "opening a CSV file without rows", false, [&] { c = std::make_unique<CSV>(f.path, f.types, f.sep); return 0; }, [&](int) {
        return c->rows_size() != f.rows() ? "rows_size " + std::to_string(c->rows_size()) : c->entries_amount() ? "entries_amount " + std::to_string(c->entries_amount()) : std::string(); })) return;
    for (std::uint64_t n = sim::range(1, 6); n > 0; --n)
    {
        std::size_t i = sim::pick(4);
        auto line = [&](const std::string& s) { return str_diff(s, f.lines[0]); };
        fx.cut = f.rows() == 1; bool none = f.rows() == 0;
        switch (sim::pick(4))
        {
            case 0: access(fx, "csv[i] without rows", none, [&] { return std::string((*c)[i].line()); }, line); break;
            case 1: access(fx, "conversion to lines without rows", false, [&] { return std::vector<std::string>(*c); }, [&](const auto& v) { return v == f.lines ? std::string() : std::to_string(v.size()) + " lines"; }); break;
            case 2: fx.cut = false; access(fx, "*begin() without rows", true, [&] { auto it = c->begin(); return (*it).line(); }, line); break;
            default: if (f.rows()) access(fx, "the header", false, [&] { return c->header().line(); }, line);
        }
    }
}
// A table with more rows than fit in 16 bits.
void long_table()
{
    CsvFile f; f.path = "/sim/long.csv"; f.types.push_back(TypeChecker::Type::INT);
    std::size_t rows = sim::range(65530, 67000);
    f.lines.reserve(rows + 1); f.fields.reserve(rows + 1);
    for (std::size_t r = 0; r <= rows; ++r)
    {
        std::string s = r ? std::to_string(r * 7 % 1000) : "n";
        f.fields.push_back({s}); f.lines.push_back(s); f.text += s + "\n";
    }
    sim::disk::put(f.path, f.text);
    sim::step_budget(2000000000); sim::count("probe.long_table"); sim::nontrivial();
    Faults fx; fx.begin(sim::pick(2) ? Faults::BENIGN : Faults::HEALTHY);
    Tape t(0); CsvU u(f, fx, t);
    u.open();
    for (std::size_t i : {std::size_t(65535 + sim::pick(rows - 65534)), std::size_t(1 + sim::pick(300)), rows})
        access(fx, "csv[i] of a long table", false, [&] { CSVRow r = (*u.csv)[i]; return r; }, [&](const CSVRow& r) { return u.same_row(r, i); });
    access(fx, "a loop over a long table", false, [&] {
        std::size_t n = 0, wrong = 0;
        auto end = u.csv->end();                      // stands on the last row
        for (auto it = u.csv->begin(); it != end; ++it) { ++n; if (n > 65500 && (*it).line() != f.lines[n]) ++wrong; if (n > rows + 5) break; }
        return std::pair<std::size_t, std::size_t>(n, wrong); }, [&](const auto& p) { return p.first == rows - 1 && !p.second ? std::string() : std::to_string(p.first) + " rows, " + std::to_string(p.second) + " of them wrong"; });
}
void c12()
{
    if (sim::pick(4000) == 3999) { long_table(); return; }
    CsvFile f = gen_csv("/sim/table.csv", sim::pick(2), sim::pick(12) == 11 ? 300 : sim::pick(4) == 3 ? 40 : 8);
    if (sim::pick(5) == 4)
    {
        // written only in part before anybody opens it
        shorten(f, sim::pick(3) ? f.text.size() - 1 - sim::pick(std::min<std::size_t>(f.text.size() - 1, 40)) : sim::pick(f.text.size()));
        sim::count("fault.torn_file"); sim::nontrivial();
        if (f.rows() < 2) { barren(f); return; }
    }
    Faults fx; fx.begin(draw_mode(false));
    if (fx.mode != Faults::HEALTHY) sim::nontrivial();
    std::size_t len = sim::range(2, 10);
    Tape t(3 * (len + 5));
    CsvU u(f, fx, t);
    script(u, fx, t, len, [&] { sim::disk::truncate(f.path, sim::pick(2) ? sim::pick(f.text.size()) : f.text.size() - 1 - sim::pick(std::min<std::size_t>(f.text.size() - 1, 12))); }, [&] { sim::disk::put(f.path, f.text); });
}
void c10()
{
    if (sim::pick(6) == 5)
    {
        // headers that cannot be read or are wrong
        MnistFiles f = gen_mnist("/sim/m", 2, false);
        uint64_t k = sim::pick(6);
        std::string im = f.img, la = f.lab;
        if (k == 0) im.resize(sim::pick(16));
        else if (k == 1) la.resize(sim::pick(8));
        else if (k == 2) im[sim::pick(4)] ^= char(1 + sim::pick(100));
        else if (k == 3) la[sim::pick(4)] ^= char(1 + sim::pick(100));
        else if (k == 4) im[8 + sim::pick(8)] ^= char(1 + sim::pick(100));
        else la[4 + sim::pick(4)] ^= char(1 + sim::pick(100));
        sim::disk::put(f.ip, im); sim::disk::put(f.lp, la);
        sim::count("probe.bad_header"); sim::nontrivial();
        Faults fx; fx.begin(sim::pick(2) ? Faults::BENIGN : Faults::HEALTHY);
        bool none = sim::pick(8) == 7; if (none) sim::disk::remove(sim::pick(2) ? f.ip : f.lp);
        access(fx, "opening MNIST files with an unreadable or wrong header", true, [&] { Mnist m(f.ip, f.lp); return m.size(); }, [](std::size_t) { return std::string(); });
        return;
    }
    MnistFiles f = sim::pick(6) == 5 ? gen_large_mnist("/sim/m") : gen_mnist("/sim/m", sim::pick(5) == 4 ? 14 : 4, true);
    Faults fx; fx.begin(draw_mode(false));
    if (fx.mode != Faults::HEALTHY) sim::nontrivial();
    std::size_t len = sim::range(2, 9);
    Tape t(2 * (len + 5));
    MnistU u(f, fx, t);
    script(u, fx, t, len, [&] { sim::disk::truncate(f.ip, sim::pick(f.image_bytes())); if (sim::pick(2)) sim::disk::truncate(f.lp, sim::pick(f.label_bytes())); },
           [&] { f.store(); });
}
void c11()
{
    CifarFiles f = gen_cifar("/sim/c", sim::pick(4) == 3 ? 6 : 3, true, sim::pick(6) == 5);
    if (sim::pick(8) == 7)
    {
        uint64_t k = sim::pick(f.fp.empty() ? 2 : 3);
        sim::disk::remove(k == 0 ? f.bp : k == 1 ? f.cp : f.fp);
        sim::count("probe.missing_file"); sim::nontrivial();
        Faults fx; Tape t(0); CifarU u(f, fx, t);
        // with the file missing, opening or the first reading must fail
        access(fx, "opening a CIFAR dataset with a missing file and reading its first entry", true, [&] { auto m = u.make(); m->entry(0); return 0; }, [](int) { return std::string(); });
        return;
    }
    Faults fx; fx.begin(draw_mode(false));
    if (fx.mode != Faults::HEALTHY) sim::nontrivial();
    std::size_t len = sim::range(2, 9);
    Tape t(2 * (len + 5));
    CifarU u(f, fx, t);
    script(u, fx, t, len, [&] { sim::disk::truncate(f.bp, sim::pick(f.bytes())); }, [&] { f.store(); });
}

// Reads one document; an error is an exception or bad().
struct ReadDoc { bool error = false; Json j; };
void read_doc(std::istream& in, ReadDoc& r) { r.error = false; r.j = Json(); in >> r.j; if (in.bad()) r.error = true; }

bool doc_access(Faults& fx, const char* what, bool must_fail, std::istream& in, const Tree& t, Json* used = nullptr)
{
    struct Error : std::runtime_error { using std::runtime_error::runtime_error; };
    return access(fx, what, must_fail, [&] {
        if (used) { in >> *used; if (in.bad()) throw Error("bad()"); return *used; }   // whatever it held before
        ReadDoc r; read_doc(in, r); if (r.error) throw Error("bad()"); return r.j; }, [&](const Json& j) { return json_diff(j, t); });
}
void c13()
{
    int budget = sim::pick(5) == 4 ? 60 : 12;
    Tree a = gen_tree(3, true, budget); budget = 8; Tree b = gen_tree(2, true, budget);
    std::string ta = json_text(a), tb = json_text(b);
    bool file = sim::pick(3) < 2;
    const std::string P = "/sim/doc.json";
    Faults fx; fx.begin(file ? draw_mode(false) : Faults::HEALTHY);
    uint64_t kind = sim::pick(6);
    sim::log("document of %zu bytes: %.200s", ta.size(), ta.c_str());
    sim::step_budget(6000000 + 400 * ta.size() * (1 + ta.size() / 64));
    if (kind == 0)
    {
        // write and read back
        if (fx.mode != Faults::HEALTHY) sim::nontrivial();
        Json j = to_json(a);
        if (file)
        {
            { std::ofstream out(P); out << j; out.close(); if (out.fail()) sim::fail("spurious-error", "writing a JSON document failed on a healthy disk"); }
            if (sim::disk::get(P) != ta) sim::fail("wrong-result", "the file holds %s", str_diff(sim::disk::get(P), ta).c_str());
        }
        else { std::stringstream ss; ss << j; if (ss.str() != ta) sim::fail("wrong-result", "written document: %s", str_diff(ss.str(), ta).c_str()); }
    }
    if (kind == 5)
    {
        // a document damaged by lost or misplaced writes: whatever is read, reading ends
        sim::nontrivial(); sim::count("fault.damaged");
        std::string text = ta;
        for (int n = int(sim::range(1, 3)); n > 0; --n)
        {
            std::size_t at = sim::pick(text.size()), len = std::min<std::size_t>(sim::range(1, 6), text.size() - at);
            switch (sim::pick(3))
            {
                case 0: for (std::size_t i = 0; i < len; ++i) text[at + i] = '\0'; break;
                case 1: for (std::size_t i = 0; i < len; ++i) text[at + i] = "[]{}\",: 1"[sim::pick(10)]; break;
                default: text.replace(at, len, tb.substr(0, std::min(tb.size(), len)));
            }
        }
        sim::log("damaged: %.200s", text.c_str());
        sim::disk::put(P, text);
        std::unique_ptr<std::istream> in;
        if (file) in = std::make_unique<std::ifstream>(P); else in = std::make_unique<std::stringstream>(text);
        try { ReadDoc r; read_doc(*in, r); } catch (const std::exception& e) { sim::log("error: %s", e.what()); }
        return;
    }
    bool two = kind == 2 || kind == 3;
    std::string text = ta, sep = sim::pick(2) ? "," : "";
    std::size_t cutpos = 0; bool cut1 = false, cut2 = false;
    if (two) text += sep + tb;
    if (kind == 1) { cutpos = sim::pick(ta.size()); text.resize(cutpos); cut1 = true; }
    if (kind == 3) { cutpos = ta.size() + sep.size() + sim::pick(tb.size()); text.resize(cutpos); cut2 = true; }
    if (cut1 || cut2) { sim::count("fault.truncated"); sim::nontrivial(); }
    else if (two) sim::nontrivial();
    sim::disk::put(P, text);
    Json used; Json* into = sim::pick(2) ? &used : nullptr;
    if (into && sim::pick(2)) { int few = 6; used = to_json(gen_tree(2, true, few)); }
    for (int round = 0; round < 2; ++round)
    {
        bool faulty = round == 0 && fx.mode == Faults::DISK;
        if (faulty) { sim::nontrivial(); fx.arm(); }
        std::unique_ptr<std::istream> in;
        if (file) in = std::make_unique<std::ifstream>(P); else in = std::make_unique<std::stringstream>(text);
        bool ok = doc_access(fx, "reading a document", cut1, *in, a, into);
        if (ok && two && !cut1) doc_access(fx, "reading the second document", cut2, *in, b, into);
        in.reset();
        fx.heal();
    }
}

// A dataset parsed from a file against the expected one.
struct Want { std::vector<double> data; std::size_t width = 0; std::set<SizeType> labels; };
Want encode(const std::vector<std::vector<double>>& rows, std::set<SizeType> labels, bool onehot)
{
    Want w; std::size_t width = rows.empty() ? 0 : rows[0].size();
    if (!onehot) { for (auto& r : rows) w.data.insert(w.data.end(), r.begin(), r.end()); w.width = width; w.labels = labels; return w; }
    std::size_t first = width - labels.size();           // labels are the last columns
    std::vector<std::vector<double>> uniq;
    for (auto l : labels) { std::set<double> s; for (auto& r : rows) s.insert(r[l]); uniq.emplace_back(s.begin(), s.end()); }
    w.width = first; for (auto& u : uniq) w.width += u.size();
    for (auto& r : rows)
    {
        w.data.insert(w.data.end(), r.begin(), r.begin() + long(first));
        std::size_t k = 0;
        for (auto l : labels) { for (double v : uniq[k]) w.data.push_back(v == r[l] ? 1.0 : 0.0); ++k; }
    }
    for (std::size_t i = first; i < w.width; ++i) w.labels.insert(i);
    return w;
}
std::string dataset_diff(const Dataset<NumType>& d, const Want& w)
{
    if (d.feature_size() != w.width) return "feature_size " + std::to_string(d.feature_size()) + " instead of " + std::to_string(w.width);
    auto li = d.label_idx();
    if (std::set<SizeType>(li.begin(), li.end()) != w.labels) return "label columns differ";
    if (d.size() != w.data.size() / std::max<std::size_t>(1, w.width)) return std::to_string(d.size()) + " entries instead of " + std::to_string(w.data.size() / w.width);
    return vec_diff(d.data(), w.data);
}
using Enc = DatasetParser::LabelEncoding;

template<class Make, class Cut, class Restore> void import(Faults& fx, bool reuse, bool onehot, const Want& w, Make make, Cut cut, Restore restore)
{
    using P = typename decltype(make())::element_type;
    std::unique_ptr<P> keep;
    bool cutter = sim::pick(6) == 5;
    auto run = [&](const char* what) {
        return access(fx, what, false, [&] {
            std::unique_ptr<P> mine;
            if (!keep) { mine = make(); if (reuse) keep = std::move(mine); }
            DatasetParser& p = keep ? *keep : *mine;
            return Dataset<NumType>::parse(p, onehot ? Enc::ONE_HOT_ENCODING : Enc::DEFAULT_ENCODING);
        }, [&](const Dataset<NumType>& d) { return dataset_diff(d, w); });
    };
    if (cutter)
    {
        // the parser is opened, then someone truncates the file while it is being imported
        sim::nontrivial(); sim::count("fault.truncated");
        keep = make();
        fx.cut = true;
        bool during = sim::pick(2);
        if (!during) { cut(); run("import of a truncated file"); }
        else { int t = sim::spawn([&] { cut(); }); run("import of a file being truncated"); sim::join(t); }
        restore(); fx.cut = false;
    }
    else
    {
        if (fx.mode >= Faults::DISK) { sim::nontrivial(); fx.arm(); }
        else if (fx.mode == Faults::BENIGN) sim::nontrivial();
        run("import");
    }
    fx.heal();
    run("import after the fault");
}
void c14()
{
    Faults fx; Faults::Mode mode = draw_mode(true);
    bool onehot = sim::pick(2), reuse = sim::pick(2);
    uint64_t kind = sim::pick(5);
    if (kind < 3)
    {
        std::size_t cols = sim::range(1, 4), nl = sim::range(onehot ? 1 : 0, std::min<std::size_t>(cols, 2));
        CsvFile f = gen_csv("/sim/table.csv", true, sim::pick(16) == 15 ? 200 : sim::pick(4) == 3 ? 30 : 6, cols);
        std::set<SizeType> labels; for (std::size_t i = 0; i < nl; ++i) labels.insert(cols - 1 - i);
        if (sim::pick(6) == 5)
        {
            shorten(f, sim::pick(3) ? f.text.size() - 1 - sim::pick(std::min<std::size_t>(f.text.size() - 1, 60)) : sim::pick(f.text.size()));
            sim::count("fault.torn_file"); sim::nontrivial();
            if (f.rows() < 2)
            {
                fx.cut = true;
                access(fx, "import of a file without rows", false, [&] { CSV c(f.path, f.types, f.sep, labels); return Dataset<NumType>::parse(c, onehot ? Enc::ONE_HOT_ENCODING : Enc::DEFAULT_ENCODING); },
                       [&](const Dataset<NumType>& d) { return d.size() || !d.data().empty() ? std::to_string(d.size()) + " entries of no row" : std::string(); });
                return;
            }
        }
        std::vector<std::vector<double>> rows; for (std::size_t r = 1; r < f.rows(); ++r) rows.push_back(f.numbers(r));
        Want w = encode(rows, labels, onehot);
        fx.begin(mode);
        import(fx, reuse, onehot, w, [&] { return std::make_unique<CSV>(f.path, f.types, f.sep, labels); },
               [&] { sim::disk::truncate(f.path, sim::pick(f.text.size())); }, [&] { sim::disk::put(f.path, f.text); });
    }
    else if (kind == 3)
    {
        MnistFiles f = gen_mnist("/sim/m", sim::pick(100) == 99 ? 270 : 3, false);
        std::vector<std::vector<double>> rows;
        for (std::size_t i = 0; i < f.n; ++i) { std::vector<double> v; for (char c : f.image(i)) v.push_back(double(static_cast<unsigned char>(c))); v.push_back(f.label(i)); rows.push_back(v); }
        Want w = encode(rows, {784}, onehot);
        fx.begin(mode);
        import(fx, reuse, onehot, w, [&] { return std::make_unique<Mnist>(f.ip, f.lp); },
               [&] { sim::disk::truncate(f.ip, sim::pick(f.img.size())); if (sim::pick(2)) sim::disk::truncate(f.lp, sim::pick(f.lab.size())); },
               [&] { sim::disk::put(f.ip, f.img); sim::disk::put(f.lp, f.lab); });
    }
    else
    {
        // A CIFAR import always asks for 10000 entries: a shorter file must be refused whatever the faults.
        CifarFiles f = gen_cifar("/sim/c", 3, true);
        fx.begin(mode); sim::nontrivial();
        if (mode >= Faults::DISK) fx.arm();
        Tape t(0); CifarU u(f, fx, t);
        // unique() of the label column reads entry by entry; the import itself would reserve 245 MB first
        if (onehot) access(fx, "import of a CIFAR file with fewer entries than it must hold", true, [&] { auto m = u.make(); return m->unique(m->feature_size() - 1).size(); }, [](std::size_t) { return std::string(); });
        else access(fx, "reading past the end of a CIFAR file", true, [&] { auto m = u.make(); return m->entry(f.n); }, [](const std::vector<double>&) { return std::string(); });
        fx.heal();
    }
}

// Several threads, each with objects of its own over the same files.
struct Actor {
    int kind = 0; Tape t{0}; std::size_t len = 0;
    Tree tree; std::string text;
};
void c07()
{
    std::size_t n = sim::range(2, 4);
    CsvFile csv = gen_csv("/sim/table.csv", sim::pick(2), 6);
    MnistFiles mn = gen_mnist("/sim/m", 2, true);
    CifarFiles ci = gen_cifar("/sim/c", 2, true);
    std::vector<Actor> as(n);
    bool same = sim::pick(2);
    for (std::size_t i = 0; i < n; ++i)
    {
        as[i].kind = i && same ? as[0].kind : int(sim::pick(6));
        as[i].len = sim::range(1, 3);
        as[i].t = Tape(6 * as[i].len + 6);
        if (as[i].kind == 3 || as[i].kind == 5) { int b = 8; as[i].tree = gen_tree(2, true, b); as[i].text = json_text(as[i].tree); sim::disk::put("/sim/doc" + std::to_string(i), as[i].text); }
    }
    Faults fx; fx.begin(sim::pick(2) ? Faults::BENIGN : Faults::HEALTHY);
    sim::nontrivial();
    std::vector<int> tids;
    for (std::size_t i = 0; i < n; ++i) tids.push_back(sim::spawn([&, i] {
        Actor& a = as[i]; Faults f = fx;
        switch (a.kind)
        {
            case 0: { CsvU u(csv, f, a.t); for (std::size_t k = 0; k <= a.len; ++k) u.op(); break; }
            case 1: { MnistU u(mn, f, a.t); for (std::size_t k = 0; k <= a.len; ++k) u.op(); break; }
            case 2: { CifarU u(ci, f, a.t); for (std::size_t k = 0; k <= a.len; ++k) u.op(); break; }
            case 3: { for (std::size_t k = 0; k < a.len; ++k) { std::ifstream in("/sim/doc" + std::to_string(i)); doc_access(f, "reading a document", false, in, a.tree); } break; }
            case 4:
            {
                static const char* s[] = {"12", "-7", "1.5", "1e3", "true", "false", "abc", "\"q\"", "", "0x"};
                using Ty = TypeChecker::Type;
                static const Ty want[] = {Ty::INT, Ty::INT, Ty::FLOAT, Ty::FLOAT, Ty::BOOL, Ty::BOOL, Ty::STRING, Ty::STRING, Ty::NONE, Ty::STRING};
                TypeChecker tc;
                for (std::size_t k = 0; k < 2 * a.len; ++k)
                {
                    uint64_t q = a.t.pick(10); Ty g = tc(std::string(s[q]));
                    if (g != want[q]) sim::fail("wrong-result", "type of '%s' is %d instead of %d", s[q], int(g), int(want[q]));
                    if (want[q] == Ty::INT || want[q] == Ty::FLOAT) { double d = -1; tc(std::string(s[q]), d); if (d != std::strtod(s[q], nullptr)) sim::fail("wrong-result", "value of '%s' is %g", s[q], d); }
                    if (a.t.pick(3) == 2)
                    {   // several at a time
                        std::vector<std::string> v; std::vector<Ty> w;
                        for (uint64_t x = 0; x < 1 + q % 4; ++x) { v.push_back(s[(q * 3 + x) % 10]); w.push_back(want[(q * 3 + x) % 10]); }
                        if (tc(v) != w) sim::fail("wrong-result", "the types of %zu fields from '%s' on are wrong", v.size(), v[0].c_str());
                    }
                    if (a.t.pick(3) == 2)
                    {   // the tests, and back to text
                        std::string x = s[q];
                        if (TypeChecker::is_int(x) != (want[q] == Ty::INT) || TypeChecker::is_float(x) != (want[q] == Ty::FLOAT) || TypeChecker::is_bool(x) != (want[q] == Ty::BOOL) || TypeChecker::is_string(x) != (want[q] == Ty::STRING))
                            sim::fail("wrong-result", "'%s' is taken for something else", x.c_str());
                        int n = int(q) * 1001 - 4000; std::string back = tc(n);
                        if (back != std::to_string(n)) sim::fail("wrong-result", "%d as text is '%s'", n, back.c_str());
                    }
                }
                break;
            }
            default:
            {
                std::vector<std::vector<double>> rows; if (!csv.numeric) break;
                for (std::size_t r = 1; r < csv.rows(); ++r) rows.push_back(csv.numbers(r));
                std::set<SizeType> lab{csv.cols() - 1}; bool oh = a.t.pick(2);
                Want w = encode(rows, lab, oh);
                access(f, "import", false, [&] { CSV c(csv.path, csv.types, csv.sep, lab); return Dataset<NumType>::parse(c, oh ? Enc::ONE_HOT_ENCODING : Enc::DEFAULT_ENCODING); }, [&](const Dataset<NumType>& d) { return dataset_diff(d, w); });
                std::stringstream ss(a.text); (void) ss;
            }
        }
    }));
    for (int t : tids) sim::join(t);
}

// Allocation failures while reading: an error, no leak, and right again afterwards.
void c17()
{
    uint64_t kind = sim::pick(5);
    std::size_t len = sim::range(1, 4);
    CsvFile csv; MnistFiles mn; CifarFiles ci; Tree tree; std::string text; Want w; std::set<SizeType> lab; bool oh = false;
    if (kind == 0 || kind == 4) csv = gen_csv("/sim/table.csv", kind == 4 || sim::pick(2), 6);
    if (kind == 1) mn = gen_mnist("/sim/m", 3, false);
    if (kind == 2) ci = gen_cifar("/sim/c", 2, false);
    if (kind == 3) { int b = 14; tree = gen_tree(3, true, b); text = json_text(tree); sim::disk::put("/sim/doc", text); }
    if (kind == 4)
    {
        lab = {csv.cols() - 1}; oh = sim::pick(2);
        std::vector<std::vector<double>> rows; for (std::size_t r = 1; r < csv.rows(); ++r) rows.push_back(csv.numbers(r));
        w = encode(rows, lab, oh);
    }
    bool file = sim::pick(2);
    Tape tape(3 * (len + 4));
    // one round: the same accesses, optionally with memory failing
    std::vector<uint64_t> costs;
    auto round = [&](bool faulty) {
        Faults fx; fx.costs = &costs; fx.begin(faulty ? Faults::ALLOC : Faults::HEALTHY);
        Tape t = tape;
        auto go = [&](auto& u) {
            for (std::size_t k = 0; k <= len; ++k)
            {
                fx.arm();
                Tape before = t;
                if (!u.op()) { fx.heal(); t = before; sim::count("probe.retry_after_fault"); u.op(); }
                fx.heal();
            }
        };
        switch (kind)
        {
            case 0: { CsvU u(csv, fx, t); go(u); break; }
            case 1: { MnistU u(mn, fx, t); go(u); break; }
            case 2: { CifarU u(ci, fx, t); go(u); break; }
            case 3:
                for (std::size_t k = 0; k < len; ++k)
                {
                    // the stream itself belongs to the user and is made with memory at hand
                    std::unique_ptr<std::istream> in;
                    auto fresh = [&] { if (file) in = std::make_unique<std::ifstream>("/sim/doc"); else in = std::make_unique<std::stringstream>(text); };
                    fresh(); fx.arm();
                    bool ok = doc_access(fx, "reading a document", false, *in, tree);
                    fx.heal();
                    if (!ok) { fresh(); sim::count("probe.retry_after_fault"); doc_access(fx, "reading the document again", false, *in, tree); }
                }
                break;
            default:
            {
                std::unique_ptr<CSV> c;
                for (std::size_t k = 0; k < len; ++k)
                {
                    fx.arm();
                    auto f = [&] { return access(fx, "import", false, [&] { if (!c) c = std::make_unique<CSV>(csv.path, csv.types, csv.sep, lab); return Dataset<NumType>::parse(*c, oh ? Enc::ONE_HOT_ENCODING : Enc::DEFAULT_ENCODING); }, [&](const Dataset<NumType>& d) { return dataset_diff(d, w); }); };
                    bool ok = f(); fx.heal();
                    if (!ok) { sim::count("probe.retry_after_fault"); f(); }
                }
            }
        }
    };
    sim::step_budget(2000000000); uint64_t s0 = sim::steps();
    round(false);
    sim::step_budget(50000000 + 40 * (sim::steps() - s0));
    round(false);
    int64_t live = sim::alloc_live_blocks(), bytes = sim::alloc_live_bytes();
    uint64_t f0 = sim::alloc_fired();
    round(true);
    if (sim::alloc_fired() > f0) sim::nontrivial();
    int64_t now = sim::alloc_live_blocks();
    if (now > live) sim::fail("leak", "%ld blocks (%ld bytes) more are in use after allocation failures while reading %s", long(now - live), long(sim::alloc_live_bytes() - bytes),
                              kind == 0 ? "CSV" : kind == 1 ? "MNIST" : kind == 2 ? "CIFAR" : kind == 3 ? "JSON" : "a dataset");
}

} // namespace

void sim_scenario()
{
    std::string p = sim::property();
    if (p == "C07") c07();
    else if (p == "C10") c10();
    else if (p == "C11") c11();
    else if (p == "C12") c12();
    else if (p == "C13") c13();
    else if (p == "C14") c14();
    else if (h_store_scenario && sim::pick(2)) h_store_scenario();
    else c17();
}
