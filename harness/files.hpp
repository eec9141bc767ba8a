// Files the readers work on, and accesses to them with their expected results.
#pragma once
#include "common.hpp"
#include "parser/csv.hpp"
#include "parser/mnist.hpp"
#include "parser/cifar.hpp"
#include "parser/json.hpp"
#include "data/dataset.hpp"

#include <fstream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>

using namespace EdgeLearning;

namespace {

// Choices drawn ahead, so that threads do not share the stream of choices.
struct Tape {
    std::vector<uint32_t> v; std::size_t at = 0;
    explicit Tape(std::size_t n = 0) { for (std::size_t i = 0; i < n; ++i) v.push_back(uint32_t(sim::pick(5040))); }
    uint64_t pick(uint64_t n) { uint64_t x = at < v.size() ? v[at] : 0; ++at; return n ? x % n : 0; }
    bool done() const { return at >= v.size(); }
};

// What may go wrong at the moment.
struct Faults {
    enum Mode { HEALTHY, BENIGN, DISK, ALLOC };
    Mode mode = HEALTHY;
    bool cut = false;               // the file is shorter than it was: errors are fine
    bool armed = false;
    bool lenient = false;           // results are not judged here
    uint64_t at = 0, burst = 0;
    uint64_t alloc0 = 0;
    // how many allocations each access took when memory was at hand: a failure is aimed inside
    std::vector<uint64_t>* costs = nullptr; std::size_t slot = 0; uint64_t count0 = 0;
    void begin(Mode m)
    {
        mode = m;
        if (mode != HEALTHY) sim::disk::faults(sim::disk::SHORT | sim::disk::EINTR_, mode == ALLOC ? 6 : unsigned(sim::range(2, 5)));
        alloc0 = sim::alloc_fired();
        if (mode == HEALTHY && costs) costs->clear();
    }
    void arm()
    {
        if (mode == HEALTHY && costs) { costs->push_back(0); armed = true; }
        if (mode == DISK)
        {
            static const unsigned kinds[] = {sim::disk::EIO_, sim::disk::SEEK, sim::disk::OPEN, sim::disk::EIO_, sim::disk::CLOSE, sim::disk::FSTAT,
                                             sim::disk::EIO_ | sim::disk::SEEK | sim::disk::OPEN};
            unsigned k = kinds[sim::pick(7)];
            if (sim::pick(3) < 2) sim::disk::fail_op(sim::range(1, sim::pick(2) ? 40 : 8), k, sim::pick(2));
            else sim::disk::faults(k | sim::disk::SHORT | sim::disk::EINTR_, unsigned(sim::range(2, 8)));
            armed = true;
        }
        else if (mode == ALLOC)
        {
            uint64_t c = costs && slot < costs->size() ? (*costs)[slot] : 0; ++slot;
            bool aimed = sim::pick(8) < 7 && c;
            at = sim::range(1, aimed ? c : sim::pick(2) ? 200 : 24); burst = sim::pick(3) == 2 ? sim::range(2, 40) : 1;
            armed = true;
        }
    }
    // the library is about to be called; memory fails only inside it
    void enter() { if (!armed) return; if (mode == ALLOC) sim::alloc_fail_at(at, burst); count0 = sim::alloc_count(); }
    void leave()
    {
        if (!armed || mode == DISK) return;
        armed = false;
        if (mode == ALLOC) sim::alloc_fail_at(0);
        if (mode == HEALTHY && costs && !costs->empty()) costs->back() += sim::alloc_count() - count0;
    }
    bool fired() const { return sim::disk::failing_fired() > 0 || sim::alloc_fired() > alloc0; }
    void heal()
    {
        sim::disk::heal(); sim::disk::reset_fired();
        leave();
        alloc0 = sim::alloc_fired(); armed = false;
    }
};

// One access. False: it failed with an error, and a fault explains that.
template<class Get, class Same> bool access(Faults& fx, const char* what, bool must_fail, Get&& get, Same&& same)
{
    using R = std::decay_t<decltype(get())>;
    std::optional<R> r;
    bool threw = false; std::string msg;
    fx.enter();
    try { r.emplace(get()); }
    catch (const std::exception& e) { fx.leave(); threw = true; msg = std::string(e.what()).substr(0, 100); }
    catch (...) { threw = true; }
    fx.leave();
    if (fx.lenient) return !threw;
    if (!threw)
    {
        if (must_fail && !fx.cut) sim::fail("made-up-data", "%s returned although the file does not hold the data", what);
        if (!must_fail) { std::string d = same(*r); if (!d.empty()) sim::fail("wrong-result", "%s: %s%s", what, d.c_str(), fx.fired() ? " (after a fault)" : fx.cut ? " (truncated file)" : ""); }
        return true;
    }
    if (must_fail || fx.fired() || fx.cut) { sim::log("%s: error, explained", what); return false; }
    sim::fail("spurious-error", "%s raised an error on a healthy file: %s", what, msg.c_str());
}

std::string vec_diff(const std::vector<double>& got, const std::vector<double>& want)
{
    if (got.size() != want.size()) return "size " + std::to_string(got.size()) + " instead of " + std::to_string(want.size());
    for (std::size_t i = 0; i < got.size(); ++i) if (!h::close(got[i], want[i]))
        return "element " + std::to_string(i) + " is " + std::to_string(got[i]) + " instead of " + std::to_string(want[i]);
    return "";
}
std::string str_diff(const std::string& got, const std::string& want)
{
    if (got == want) return "";
    return "'" + got.substr(0, 60) + "' (" + std::to_string(got.size()) + " characters) instead of '" + want.substr(0, 60) + "' (" + std::to_string(want.size()) + ")";
}
template<class B> std::string bytes_diff(const B& got, const std::string& want)
{
    if (got.size() != want.size()) return "size " + std::to_string(got.size()) + " instead of " + std::to_string(want.size());
    for (std::size_t i = 0; i < want.size(); ++i) if (static_cast<unsigned char>(got[i]) != static_cast<unsigned char>(want[i]))
        return "byte " + std::to_string(i) + " is " + std::to_string(int(static_cast<unsigned char>(got[i]))) + " instead of " + std::to_string(int(static_cast<unsigned char>(want[i])));
    return "";
}

// ------------------------------------------------------------------------------------ CSV
struct CsvFile {
    std::string path, text;
    char sep = ',';
    std::vector<std::string> lines;                     // header first
    std::vector<std::vector<std::string>> fields;
    std::vector<TypeChecker::Type> types;
    bool numeric = true;
    std::size_t cols() const { return fields[0].size(); }
    std::size_t rows() const { return lines.size(); }
    std::vector<double> numbers(std::size_t r) const { std::vector<double> v; for (auto& f : fields[r]) v.push_back(std::strtod(f.c_str(), nullptr)); return v; }
};
CsvFile gen_csv(const std::string& path, bool numeric, std::size_t max_rows, std::size_t cols = 0)
{
    CsvFile f; f.path = path; f.numeric = numeric;
    f.sep = sim::pick(3) == 2 ? ';' : ',';
    bool table_wide = !cols && sim::pick(40) == 39;
    if (!cols) cols = table_wide ? sim::range(20, 300) : sim::range(1, 5);
    std::size_t rows = sim::range(1, table_wide && max_rows > 5 ? 5 : max_rows);
    std::vector<int> kind;
    for (std::size_t c = 0; c < cols; ++c) kind.push_back(int(sim::pick(numeric ? 2 : 4)));
    bool big = sim::pick(6) == 5;                       // lines beyond the stream buffer
    std::size_t big_row = big ? sim::range(1, rows) : 0;
    std::size_t salt = sim::pick(90);
    bool explicit_types = sim::pick(2);
    // rows that get longer and longer, or shorter: buffers that held one row must grow for the next
    uint64_t slope = sim::pick(5);
    bool odd = sim::pick(4) == 3, repeats = sim::pick(5) == 4, blanks = !numeric && !repeats && sim::pick(5) == 4;
    auto pad = [&](std::size_t r) { return slope == 3 ? r * (r + 1) * 4 : slope == 4 ? (rows - r) * 13 : 0; };
    for (std::size_t r = 0; r <= rows; ++r)
    {
        std::vector<std::string> v;
        for (std::size_t c = 0; c < cols; ++c)
        {
            std::string s;
            std::size_t n = salt + r * 7 + c * 13;
            if (r == 0) s = "col" + std::to_string(c);
            else switch (kind[c])
            {
                case 0: s = std::to_string(int(n * 37 % 1000) - 300); break;
                case 1: { char b[32]; std::snprintf(b, sizeof b, "%d.%03d", int(n * 31 % 400), int(n * 77 % 1000)); s = (n % 5 == 0 ? "-" : "") + std::string(b); break; }
                case 2: s = n % 3 ? "true" : "false"; break;
                default: s = "s" + std::string(n % 9, char('a' + n % 26)) + std::to_string(n);
            }
            if (r && odd)       // text and numbers as they may well come
            {
                static const char* texts[] = {"", " ", "  two words ", "\"quoted\"", "\"open", "tab\there", "caf\xc3\xa9", "#no comment", "a\r", "-", "\\n", "0", "true", "12", "nan"};
                static const char* numbers[] = {"0", "-0", "+7", "1e3", "-2.5E-3", ".5", "00012", "3.", "2147483648", "-9007199254740993", "1e-300", "0.1000000000000000055511151231257827", "255", "1"};
                if (kind[c] == 3) { s = texts[n % 15]; if (c == cols - 1 && s.empty()) s = "."; }
                else if (kind[c] <= 1 && n % 3) s = numbers[n % 14];
            }
            if (r && pad(r) && c == cols - 1 && pad(r) < 4000)
            {
                if (kind[c] == 3) s += std::string(pad(r), char('A' + n % 20));
                else if (kind[c] == 1 && explicit_types) s = (s[0] == '-' ? "-" : "") + std::string(pad(r), '0') + s.substr(s[0] == '-');
            }
            if (r && r == big_row && c == cols - 1)
            {
                if (kind[c] == 3) s += std::string(9000, char('A' + n % 20));
                else if (kind[c] <= 1 && explicit_types) s = (s[0] == '-' ? "-" : "") + std::string(kind[c] ? 8600 : 0, '0') + s.substr(s[0] == '-');
            }
            v.push_back(s);
        }
        if (repeats && r > 1 && (salt + r * r) % 3) v = f.fields[r - 1 - (salt + r) % (r - 1)];
        std::string line;
        if (r && blanks && (salt + r * 5) % 3 == 0) v.assign(cols, "");
        else for (std::size_t c = 0; c < cols; ++c) line += (c ? std::string(1, f.sep) : "") + v[c];
        f.fields.push_back(v); f.lines.push_back(line); f.text += line + "\n";
    }
    if (explicit_types) for (std::size_t c = 0; c < cols; ++c)
    {
        static const TypeChecker::Type t[] = {TypeChecker::Type::INT, TypeChecker::Type::FLOAT, TypeChecker::Type::BOOL, TypeChecker::Type::STRING};
        f.types.push_back(t[kind[c]]);
    }
    else f.types.push_back(TypeChecker::Type::AUTO);
    sim::disk::put(f.path, f.text);
    return f;
}

// What is left when the file is cut before anybody opens it: a file with fewer lines.
void shorten(CsvFile& f, std::size_t n)
{
    f.text.resize(n); sim::disk::truncate(f.path, n);
    std::size_t left = std::size_t(std::count(f.text.begin(), f.text.end(), '\n'));
    f.lines.resize(left); f.fields.resize(left);
}

// A CSV object being used.
struct CsvUser {
    const CsvFile& f; Faults& fx; Tape& t;
    std::set<SizeType> labels;
    std::unique_ptr<CSV> csv;
    struct It { std::unique_ptr<CSVIterator> it; std::size_t pos; };
    std::vector<It> its;
    CsvUser(const CsvFile& f_, Faults& x, Tape& t_) : f(f_), fx(x), t(t_) {}

    std::string same_row(const CSVRow& r, std::size_t i) const
    {
        std::string d = str_diff(r.line(), f.lines[i]);
        if (d.empty() && r.size() != f.cols()) d = "row has " + std::to_string(r.size()) + " columns instead of " + std::to_string(f.cols());
        if (d.empty() && r.idx() != i) d = "row reports index " + std::to_string(r.idx()) + " instead of " + std::to_string(i);
        return d.empty() ? "" : "row " + std::to_string(i) + " of " + std::to_string(f.rows()) + ": " + d;
    }
    bool open()
    {
        return access(fx, "opening the CSV file", false, [&] { csv = std::make_unique<CSV>(f.path, f.types, f.sep, labels); return int(0); }, [&](int) {
            if (csv->rows_size() != f.rows()) return "rows_size " + std::to_string(csv->rows_size()) + " instead of " + std::to_string(f.rows());
            if (csv->cols_size() != f.cols()) return "cols_size " + std::to_string(csv->cols_size()) + " instead of " + std::to_string(f.cols());
            return str_diff(csv->header().line(), f.lines[0]);
        });
    }
    bool op(unsigned force = 99)
    {
        if (!csv) return open();
        unsigned k = force != 99 ? force : unsigned(t.pick(18));
        uint64_t a = t.pick(5040), b = t.pick(97);
        std::size_t R = f.rows();
        switch (k)
        {
            case 0: case 1: case 2:
            {
                std::size_t i = a % (k == 2 ? 3 * R : R);
                return access(fx, "csv[i]", false, [&] { return std::string((*csv)[i].line()); }, [&](const std::string& s) { std::string d = str_diff(s, f.lines[i % R]); return d.empty() ? d : "row " + std::to_string(i) + " of " + std::to_string(R) + ": " + d; });
            }
            case 3:
            {
                std::size_t i = a % R;
                return access(fx, "csv[i] with its fields", false, [&] { CSVRow r = (*csv)[i]; return std::pair<CSVRow, std::vector<std::string>>(r, std::vector<std::string>(r)); },
                              [&](const auto& p) { std::string d = same_row(p.first, i);
                                  if (d.empty() && p.second != f.fields[i]) d = "fields of row " + std::to_string(i) + " differ";
                                  return d; });
            }
            case 4:
            {
                std::size_t i = a % R, c = b % f.cols(); if (f.lines[i].empty()) i = 0;
                return access(fx, "a field of csv[i]", false, [&] { return (*csv)[i][c].as<std::string>(); }, [&](const std::string& s) { return str_diff(s, f.fields[i][c]); });
            }
            case 5:
            {
                if (!f.numeric) return true;
                std::size_t i = a % R, c = b % f.cols(); if (!i) i = 1;
                return access(fx, "a numeric field of csv[i]", false, [&] { return (*csv)[i][c].as<double>(); }, [&](double d) { return vec_diff({d}, {f.numbers(i)[c]}); });
            }
            case 6:
                return access(fx, "the header row", false, [&] { return csv->header().line(); }, [&](const std::string& s) { return str_diff(s, f.lines[0]); });
            case 7:
                return access(fx, "conversion to lines", false, [&] { return std::vector<std::string>(*csv); }, [&](const auto& v) {
                    if (v.size() != R) return std::to_string(v.size()) + " lines instead of " + std::to_string(R);
                    for (std::size_t i = 0; i < R; ++i) if (v[i] != f.lines[i]) return "line " + std::to_string(i) + ": " + str_diff(v[i], f.lines[i]);
                    return std::string(); });
            case 8:
                return access(fx, "conversion to rows", false, [&] { return std::vector<CSVRow>(*csv); }, [&](const auto& v) {
                    if (v.size() != R) return std::to_string(v.size()) + " rows instead of " + std::to_string(R);
                    for (std::size_t i = 0; i < R; ++i) { auto d = same_row(v[i], i); if (!d.empty()) return d; }
                    return std::string(); });
            case 9:
                return access(fx, "conversion to a matrix of strings", false, [&] { return csv->template to_mat<std::string>(); }, [&](const auto& v) {
                    if (v != f.fields) return std::string("matrix of strings differs"); return std::string(); });
            case 10:
                if (!f.numeric) return true;
                return access(fx, "conversion to numbers", false, [&] { return csv->template to_vec<double>(); }, [&](const auto& v) {
                    std::vector<double> got = v, want; std::size_t skip = f.cols();     // the header row is not numeric
                    if (got.size() >= skip) got.erase(got.begin(), got.begin() + long(skip));
                    for (std::size_t i = 1; i < R; ++i) { auto n = f.numbers(i); want.insert(want.end(), n.begin(), n.end()); }
                    return vec_diff(got, want); });
            case 11:
            {
                if (!f.numeric) return true;
                std::size_t i = a % (R - 1);
                return access(fx, "entry(i)", false, [&] { return csv->entry(i); }, [&](const auto& v) { return vec_diff(v, f.numbers(i + 1)); });
            }
            case 12:
            {
                if (its.size() >= 3) its.erase(its.begin());
                if (!its.empty() && b % 3 == 0)
                {
                    It& o = its[a % its.size()]; std::size_t pos = o.pos;
                    return access(fx, "copying an iterator", false, [&] { its.push_back({std::make_unique<CSVIterator>(*o.it), pos}); return 0; }, [](int) { return std::string(); });
                }
                bool end = b % 7 == 1;
                return access(fx, "begin()", false, [&] { if (end) its.push_back({std::make_unique<CSVIterator>(csv->end()), csv->rows_size() - 1}); else its.push_back({std::make_unique<CSVIterator>(csv->begin()), 1}); return 0; }, [](int) { return std::string(); });
            }
            case 13:
                if (R < 3) return true;
                return access(fx, "a loop over the rows", false, [&] {
                        std::vector<std::string> v;
                        for (auto& row : *csv) { v.push_back(row.line()); if (v.size() > R) break; }
                        return v; },
                    [&](const auto& v) {        // (the last row is left out)
                        if (v.size() + 2 != R && v.size() + 1 != R) return std::to_string(v.size()) + " rows in a loop over " + std::to_string(R - 1);
                        for (std::size_t i = 0; i < v.size(); ++i) { auto d = str_diff(v[i], f.lines[i + 1]); if (!d.empty()) return "row " + std::to_string(i + 1) + " of the loop: " + d; }
                        return std::string(); });
            case 14:
            {
                std::size_t i = a % R;
                return access(fx, "a row as text and fields", false, [&] {
                        CSVRow r = (*csv)[i]; std::vector<CSVField> fs(r); std::vector<std::string> v; std::stringstream o; o.exceptions(std::ios_base::badbit); o << r;
                        for (auto& x : fs) v.push_back(x.template as<std::string>() + "@" + std::to_string(x.idx()));
                        return std::pair<std::string, std::vector<std::string>>(o.str(), v); },
                    [&](const auto& p) {
                        auto d = str_diff(p.first, f.lines[i]);
                        for (std::size_t c = 0; d.empty() && c < f.cols(); ++c) d = c < p.second.size() ? str_diff(p.second[c], f.fields[i][c] + "@" + std::to_string(c)) : "fields missing";
                        if (d.empty() && p.second.size() != f.cols()) d = "too many fields";
                        return d; });
            }
            case 15:
                if (its.size() < 2) return op(12);
                else
                {
                    It& x = its[a % its.size()]; It& y = its[b % its.size()];
                    if ((*x.it == *y.it) != (x.pos == y.pos) || (*x.it != *y.it) == (x.pos == y.pos)) sim::fail("wrong-result", "iterators at rows %zu and %zu compare wrongly", x.pos, y.pos);
                    return true;
                }
            default:
            {
                if (its.empty()) return op(12);
                It& i = its[a % its.size()];
                switch (b % 6)
                {
                    case 0: case 1:
                        if (i.pos + 1 < R) { ++*i.it; ++i.pos; }
                        break;
                    case 2:
                        if (i.pos > 0) { --*i.it; --i.pos; }
                        break;
                    case 3:
                        if (i.pos + 1 < R)
                        {
                            std::size_t pos = i.pos;
                            bool back = pos > 0 && b % 2;
                            // the step itself may have happened when the copy fails
                            std::size_t tag = 0; bool ok = access(fx, "stepping an iterator", false, [&] { CSVIterator old = back ? (*i.it)-- : (*i.it)++; tag = 1; return std::pair<std::string, std::size_t>((*old).line(), (*old).idx()); },
                                [&](const auto& p) { std::string d = str_diff(p.first, f.lines[pos]); return d.empty() ? d : "the old position " + std::to_string(pos) + ": " + d; });
                            if (tag) i.pos = back ? pos - 1 : pos + 1;
                            if (!ok) { its.erase(its.begin() + long(a % its.size())); return false; }
                        }
                        break;
                    default: break;
                }
                It& j = its[a % its.size()];
                std::size_t pos = j.pos;
                return access(fx, "*iterator", false, [&] { CSVRow& r = b % 2 ? **j.it : *j.it->operator->(); return std::pair<CSVRow, std::string>(r, r.line()); }, [&](const auto& p) { return same_row(p.first, pos); });
            }
        }
    }
};

// ---------------------------------------------------------------------------------- MNIST
struct MnistFiles {
    std::string ip, lp, img, lab;           // a large pair: the headers only, the rest is computed
    std::size_t n = 1, announced = 1;
    uint64_t large = 0;
    std::string image(std::size_t i) const
    {
        if (!large) return img.substr(16 + i * 784, 784);
        std::string s; for (std::size_t p = 0; p < 784; ++p) s += char(sim::disk::large_byte(large, 16 + i * 784 + p));
        return s;
    }
    int label(std::size_t i) const { return large ? sim::disk::large_byte(large + 1, 8 + i) : static_cast<unsigned char>(lab[8 + i]); }
    bool has_image(std::size_t i) const { return large || 16 + (i + 1) * 784 <= img.size(); }
    bool has_label(std::size_t i) const { return large || 8 + i + 1 <= lab.size(); }
    uint64_t image_bytes() const { return large ? 16 + announced * 784 : img.size(); }
    uint64_t label_bytes() const { return large ? 8 + announced : lab.size(); }
    void store() const
    {
        if (large) { sim::disk::put_large(ip, img, image_bytes(), large); sim::disk::put_large(lp, lab, label_bytes(), large + 1); }
        else { sim::disk::put(ip, img); sim::disk::put(lp, lab); }
    }
};
std::string be32(uint32_t v) { std::string s; for (int k = 3; k >= 0; --k) s += char((v >> (8 * k)) & 255); return s; }
MnistFiles gen_mnist(const std::string& stem, std::size_t max_n, bool may_be_short)
{
    MnistFiles f; f.ip = stem + "-images"; f.lp = stem + "-labels";
    f.n = sim::range(1, max_n); f.announced = f.n;
    uint64_t salt = sim::pick(250);
    if (may_be_short && sim::pick(4) == 3) f.announced += sim::range(1, 3);
    f.img = be32(0x803) + be32(uint32_t(f.announced)) + be32(28) + be32(28);
    f.lab = be32(0x801) + be32(uint32_t(f.announced));
    for (std::size_t i = 0; i < f.n; ++i)
    {
        for (std::size_t p = 0; p < 784; ++p) f.img += char((i * 31 + p * 7 + p / 28 * 3 + salt) & 255);
        f.lab += char((i * 3 + salt) % 10);
    }
    if (f.announced > f.n && sim::pick(2)) f.img += std::string(sim::range(1, 783), char(7));
    f.store();
    return f;
}
// As large as the format allows.
MnistFiles gen_large_mnist(const std::string& stem)
{
    MnistFiles f; f.ip = stem + "-images"; f.lp = stem + "-labels";
    static const std::size_t n[] = {300, 70000, 6000000, 4000000000};
    f.n = f.announced = n[sim::pick(4)]; f.large = 1 + sim::pick(1000);
    f.img = be32(0x803) + be32(uint32_t(f.announced)) + be32(28) + be32(28);
    f.lab = be32(0x801) + be32(uint32_t(f.announced));
    f.store();
    sim::count("probe.large_file");
    return f;
}
struct MnistUser {
    const MnistFiles& f; Faults& fx; Tape& t;
    std::unique_ptr<Mnist> m;
    MnistUser(const MnistFiles& f_, Faults& x, Tape& t_) : f(f_), fx(x), t(t_) {}
    bool open()
    {
        return access(fx, "opening the MNIST files", false, [&] { m = std::make_unique<Mnist>(f.ip, f.lp); return 0; }, [&](int) {
            if (m->size() != f.announced) return "size " + std::to_string(m->size()) + " instead of " + std::to_string(f.announced);
            return std::string(); });
    }
    bool op()
    {
        if (!m) return open();
        unsigned k = unsigned(t.pick(7)); std::size_t i = t.pick(5040); if (f.large) i = i * 2654435761u + i % 7; i %= 3 * f.announced; std::size_t j = i % f.announced;
        bool hi = f.has_image(j), hl = f.has_label(j);
        std::string want = hi ? f.image(j) : ""; int wl = hl ? f.label(j) : -1;
        switch (k)
        {
            case 0: case 1: return access(fx, "image(i)", !hi, [&] { return m->image(i); }, [&](const MnistImage& x) { return x.idx() != j ? std::string("wrong idx()") : bytes_diff(x.data(), want); });
            case 2: case 3: return access(fx, "label(i)", !hl, [&] { return m->label(i); }, [&](const MnistLabel& x) { return x.idx() != j ? std::string("wrong idx()") : int(x.data()) == wl ? std::string() : "label " + std::to_string(int(x.data())) + " instead of " + std::to_string(wl); });
            case 4: return access(fx, "mnist[i]", !hi || !hl, [&] { return (*m)[i]; }, [&](const MnistItem& x) { return int(x.label.data()) != wl ? "label " + std::to_string(int(x.label.data())) : bytes_diff(x.image.data(), want); });
            case 5: return access(fx, "entry(i)", !hi || !hl, [&] { return m->entry(i); }, [&](const std::vector<double>& v) {
                std::vector<double> w; for (char c : want) w.push_back(double(static_cast<unsigned char>(c))); w.push_back(wl); return vec_diff(v, w); });
            default: return access(fx, "size()", false, [&] { return m->size(); }, [&](std::size_t s) { return s == f.announced ? std::string() : std::string("wrong size"); });
        }
    }
};

// ---------------------------------------------------------------------------------- CIFAR
struct CifarFiles {
    std::string bp, cp, fp, data;
    CifarDataset kind = CifarDataset::CIFAR_10; CifarShapeOrder order = CifarShapeOrder::CHN_ROW_COL;
    std::size_t n = 1;
    std::vector<std::string> coarse, fine;
    uint64_t large = 0;                     // all 10000 entries, computed
    unsigned char at(std::size_t p) const { return large ? sim::disk::large_byte(large, p) : static_cast<unsigned char>(data[p]); }
    std::size_t bytes() const { return large ? 10000 * rec() : data.size(); }
    void store() const { if (large) sim::disk::put_large(bp, "", bytes(), large); else sim::disk::put(bp, data); }
    std::size_t lab() const { return kind == CifarDataset::CIFAR_100 ? 2 : 1; }
    std::size_t rec() const { return 3072 + lab(); }
    bool has_label(std::size_t i) const { return i * rec() + lab() <= bytes(); }
    bool has_image(std::size_t i) const { return (i + 1) * rec() <= bytes(); }
    std::string raw(std::size_t i) const { std::string s; for (std::size_t p = 0; p < 3072; ++p) s += char(at(i * rec() + lab() + p)); return s; }
    std::string image(std::size_t i) const
    {
        std::string r = raw(i); if (order == CifarShapeOrder::CHN_ROW_COL) return r;
        std::string s(3072, 0); for (int p = 0; p < 1024; ++p) for (int c = 0; c < 3; ++c) s[std::size_t(p * 3 + c)] = r[std::size_t(c * 1024 + p)];
        return s;
    }
    int l0(std::size_t i) const { return at(i * rec()); }
    int l1(std::size_t i) const { return kind == CifarDataset::CIFAR_100 ? at(i * rec() + 1) : 0; }
};
CifarFiles gen_cifar(const std::string& stem, std::size_t max_n, bool may_be_short, bool large = false)
{
    CifarFiles f; f.bp = stem + "-batch"; f.cp = stem + "-names";
    f.kind = sim::pick(2) ? CifarDataset::CIFAR_100 : CifarDataset::CIFAR_10;
    f.order = sim::pick(2) ? CifarShapeOrder::ROW_COL_CHN : CifarShapeOrder::CHN_ROW_COL;
    f.n = sim::range(1, max_n);
    uint64_t salt = sim::pick(250);
    for (std::size_t i = 0; i < f.n; ++i)
    {
        f.data += char((salt + i * 3) % 20); if (f.kind == CifarDataset::CIFAR_100) f.data += char((salt + i * 11 + 1) % 100);
        for (std::size_t p = 0; p < 3072; ++p) f.data += char((i * 29 + p * 7 + p / 32 * 5 + salt) & 255);
    }
    if (may_be_short && sim::pick(3) == 2) f.data.resize(f.data.size() - sim::range(1, 3072));
    std::string names, fn;
    std::size_t nn = sim::range(1, 10);
    for (std::size_t i = 0; i < nn; ++i) { f.coarse.push_back("label" + std::to_string(i) + std::string(salt % 40, 'x')); names += f.coarse.back() + "\n"; if (i % 4 == 3) names += "\n"; }
    if (large) { f.large = 1 + salt; f.n = 10000; f.data.clear(); sim::count("probe.large_file"); }
    f.store(); sim::disk::put(f.cp, names);
    if (f.kind == CifarDataset::CIFAR_100)
    {
        f.fp = stem + "-fine";
        std::size_t m = sim::range(1, 12); for (std::size_t i = 0; i < m; ++i) { f.fine.push_back("fine_" + std::to_string(i)); fn += f.fine.back() + "\n"; }
        sim::disk::put(f.fp, fn);
    }
    return f;
}
struct CifarUser {
    const CifarFiles& f; Faults& fx; Tape& t;
    std::unique_ptr<Cifar> m;
    CifarUser(const CifarFiles& f_, Faults& x, Tape& t_) : f(f_), fx(x), t(t_) {}
    std::unique_ptr<Cifar> make() const
    {
        if (f.kind == CifarDataset::CIFAR_100) return std::make_unique<Cifar>(f.bp, f.cp, f.order, f.kind, f.fp);
        return std::make_unique<Cifar>(f.bp, f.cp, f.order, f.kind);
    }
    bool open()
    {
        return access(fx, "opening the CIFAR files", false, [&] { m = make(); return 0; }, [&](int) {
            if (m->coarse_label_names() != f.coarse) return "label names: " + std::to_string(m->coarse_label_names().size()) + " instead of the " + std::to_string(f.coarse.size()) + " in the file";
            if (m->fine_label_names() != f.fine) return "fine label names: " + std::to_string(m->fine_label_names().size()) + " instead of the " + std::to_string(f.fine.size()) + " in the file";
            return std::string(); });
    }
    bool op()
    {
        if (!m) return open();
        unsigned k = unsigned(t.pick(7)); uint64_t a = t.pick(5040);
        std::size_t i = (f.large ? a * 2654435761u + a % 7 : a) % (f.large ? f.n : f.n + 2), j = i; if (a % 7 == 0) i += 10000;
        if (k == 6 && a % 5 == 0) i = j = 9999;
        bool hi = f.has_image(j), hl = f.has_label(j);
        std::string want = hi ? f.image(j) : ""; int w0 = hl ? f.l0(j) : -1, w1 = hl ? f.l1(j) : -1;
        switch (k)
        {
            case 0: case 1: case 6: return access(fx, "image(i)", !hi, [&] { return m->image(i); }, [&](const CifarImage& x) { return x.idx() != j ? std::string("wrong idx()") : bytes_diff(x.data(), want); });
            case 2: case 3: return access(fx, "label(i)", !hl, [&] { return m->label(i); }, [&](const CifarLabel& x) {
                return x.idx() != j ? std::string("wrong idx()") : int(x.coarse_label()) != w0 || int(x.fine_label()) != w1 ? "label " + std::to_string(int(x.coarse_label())) + "/" + std::to_string(int(x.fine_label())) + " instead of " + std::to_string(w0) + "/" + std::to_string(w1) : std::string(); });
            case 4: return access(fx, "cifar[i]", !hi || !hl, [&] { return (*m)[i]; }, [&](const CifarItem& x) { return int(x.label.coarse_label()) != w0 || int(x.label.fine_label()) != w1 ? std::string("wrong label") : bytes_diff(x.image.data(), want); });
            default: return access(fx, "entry(i)", !hi || !hl, [&] { return m->entry(i); }, [&](const std::vector<double>& v) {
                std::vector<double> w; for (char c : want) w.push_back(double(static_cast<unsigned char>(c))); w.push_back(f.kind == CifarDataset::CIFAR_100 ? w1 : w0); return vec_diff(v, w); });
        }
    }
};

// ----------------------------------------------------------------------------------- JSON
struct Tree {
    enum K { INT, FLOAT, BOOL, STR, LIST, DICT } k = INT;
    std::string text;                       // of a leaf
    std::vector<std::pair<std::string, Tree>> kids;
};
std::string gen_chars(std::size_t max)
{
    static const char cs[] = "abc,]}[{:.-7 e+";
    std::string s; std::size_t n = sim::pick(max + 1);
    for (std::size_t i = 0; i < n; ++i) s += cs[sim::pick(sizeof cs - 1)];
    return s;
}
Tree gen_tree(int depth, bool top, int& budget)
{
    Tree t; --budget;
    uint64_t k = top ? 4 + sim::pick(2) : sim::pick(depth > 0 && budget > 0 ? 6 : 4);
    t.k = Tree::K(k);
    switch (t.k)
    {
        case Tree::INT: t.text = std::to_string(int64_t(sim::pick(2000)) - 900); break;
        case Tree::FLOAT: t.text = std::to_string(sim::real(-40, 40)); break;
        case Tree::BOOL: t.text = sim::pick(2) ? "true" : "false"; break;
        case Tree::STR: t.text = gen_chars(8); if (sim::pick(40) == 39) t.text += std::string(sim::range(100, 9000), 'z'); break;
        default:
        {
            std::size_t n = sim::pick(12) == 11 ? 0 : sim::range(1, top ? 4 : 3);
            std::set<std::string> used;
            if (uint64_t much = budget > 0 ? sim::pick(60) : 0; much == 59)         // many elements
            {
                std::size_t many = sim::range(20, 300); budget = 0;
                for (std::size_t i = 0; i < many; ++i)
                {
                    Tree e; e.k = Tree::INT; e.text = std::to_string(i * 37 % 101);
                    t.kids.emplace_back(t.k == Tree::DICT ? "key" + std::to_string(i) : "", e);
                }
                return t;
            }
            else if (much == 58)                                                    // deep
            {
                Tree in; in.k = Tree::BOOL; in.text = "true"; budget = 0;
                for (std::size_t i = sim::range(5, 40); i > 0; --i)
                {
                    Tree o; o.k = (i + n) % 2 ? Tree::LIST : Tree::DICT;
                    o.kids.emplace_back(o.k == Tree::DICT ? std::string(i * i % 300 + 1, 'k') : "", in); in = o;
                }
                t.kids.emplace_back("deep", in);
                return t;
            }
            for (std::size_t i = 0; i < n; ++i)
            {
                std::string key;
                if (t.k == Tree::DICT) { key = gen_chars(5); while (!used.insert(key).second) key += char('a' + i); }
                t.kids.emplace_back(key, gen_tree(depth - 1, false, budget));
            }
        }
    }
    return t;
}
Json to_json(const Tree& t)
{
    switch (t.k)
    {
        case Tree::INT: return Json(JsonLeaf(t.text, TypeChecker::Type::INT));
        case Tree::FLOAT: return Json(JsonLeaf(t.text, TypeChecker::Type::FLOAT));
        case Tree::BOOL: return Json(JsonLeaf(t.text, TypeChecker::Type::BOOL));
        case Tree::STR: return Json(JsonLeaf(t.text, TypeChecker::Type::STRING));
        case Tree::LIST: { if (t.kids.empty()) return Json(JsonList()); Json j; for (auto& e : t.kids) j.append(to_json(e.second)); return j; }
        default: { if (t.kids.empty()) return Json(JsonDict()); Json j; for (auto& e : t.kids) j[e.first] = to_json(e.second); return j; }
    }
}
std::string json_diff(const Json& j, const Tree& t)
{
    if (t.k == Tree::LIST || t.k == Tree::DICT)
    {
        if (j.json_type() != (t.k == Tree::LIST ? JsonObject::JsonType::LIST : JsonObject::JsonType::DICT)) return "other kind of value";
        if (j.size() != t.kids.size()) return "container has " + std::to_string(j.size()) + " elements instead of " + std::to_string(t.kids.size());
        for (std::size_t i = 0; i < t.kids.size(); ++i)
        {
            std::string d;
            try { d = json_diff(t.k == Tree::LIST ? j.at(i) : j.at(t.kids[i].first), t.kids[i].second); }
            catch (const std::exception& e) { d = std::string("missing: ") + e.what(); }
            if (!d.empty()) return (t.k == Tree::LIST ? std::to_string(i) : t.kids[i].first) + ": " + d;
        }
        return "";
    }
    if (j.json_type() != JsonObject::JsonType::LEAF) return "not a leaf";
    const JsonLeaf* l = dynamic_cast<const JsonLeaf*>(&j.value());
    if (!l) return "not a leaf object";
    static const TypeChecker::Type ty[] = {TypeChecker::Type::INT, TypeChecker::Type::FLOAT, TypeChecker::Type::BOOL, TypeChecker::Type::STRING};
    if (l->type() != ty[t.k]) return "type changed";
    return str_diff(l->value(), t.text);
}
// Independent of the library's writer.
std::string json_text(const Tree& t)
{
    if (t.k == Tree::STR) return "\"" + t.text + "\"";
    if (t.k != Tree::LIST && t.k != Tree::DICT) return t.text;
    std::map<std::string, const Tree*> byk; for (auto& e : t.kids) byk[e.first] = &e.second;
    std::string s; bool first = true;
    if (t.k == Tree::LIST) for (auto& e : t.kids) { s += (first ? "" : ",") + json_text(e.second); first = false; }
    else for (auto& e : byk) { s += (first ? "" : ",") + ("\"" + e.first + "\":") + json_text(*e.second); first = false; }
    return t.k == Tree::LIST ? "[" + s + "]" : "{" + s + "}";
}

} // namespace
