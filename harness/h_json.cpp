// JSON documents in memory (C27): values, whatever their past, also when memory runs out, also in several threads.
#include "files.hpp"
#include <functional>

namespace {

struct Val {
    enum K { NONE, INT, FLOAT, BOOL, STR, LIST, DICT } k = NONE;
    std::string text;
    std::vector<Val> list;
    std::map<std::string, Val> dict;
    bool has_none() const
    {
        if (k == NONE) return true;
        for (auto& e : list) if (e.has_none()) return true;
        for (auto& e : dict) if (e.second.has_none()) return true;
        return false;
    }
    std::size_t nodes() const { std::size_t n = 1; for (auto& e : list) n += e.nodes(); for (auto& e : dict) n += e.second.nodes(); return n; }
    bool leaf() const { return k >= INT && k <= STR; }
};
Val to_val(const Tree& t)
{
    Val v;
    switch (t.k)
    {
        case Tree::LIST: v.k = Val::LIST; for (auto& e : t.kids) v.list.push_back(to_val(e.second)); return v;
        case Tree::DICT: v.k = Val::DICT; for (auto& e : t.kids) v.dict[e.first] = to_val(e.second); return v;
        default: v.k = Val::K(int(Val::INT) + int(t.k)); v.text = t.text; return v;
    }
}
// Equal, different, or of the same text but another type of leaf, which the library may see either way.
int compare(const Val& a, const Val& b)
{
    if (a.leaf() && b.leaf()) return a.text != b.text ? 0 : a.k == b.k ? 1 : 2;
    if (a.k != b.k) return 0;
    int r = 1;
    if (a.k == Val::LIST)
    {
        if (a.list.size() != b.list.size()) return 0;
        for (std::size_t i = 0; i < a.list.size(); ++i) { int c = compare(a.list[i], b.list[i]); if (!c) return 0; r = std::max(r, c); }
    }
    if (a.k == Val::DICT)
    {
        if (a.dict.size() != b.dict.size()) return 0;
        for (auto& e : a.dict) { auto i = b.dict.find(e.first); if (i == b.dict.end()) return 0; int c = compare(e.second, i->second); if (!c) return 0; r = std::max(r, c); }
    }
    return r;
}
std::string text_of(const Val& v)
{
    if (v.k == Val::STR) return "\"" + v.text + "\"";
    std::string s; bool first = true;
    if (v.k == Val::LIST) { for (auto& e : v.list) { s += (first ? "" : ",") + text_of(e); first = false; } return "[" + s + "]"; }
    if (v.k == Val::DICT) { for (auto& e : v.dict) { s += (first ? "" : ",") + ("\"" + e.first + "\":") + text_of(e.second); first = false; } return "{" + s + "}"; }
    return v.text;
}
using JT = JsonObject::JsonType;
std::string diff(const Json& j, const Val& v)
{
    JT want = v.k == Val::NONE ? JT::NONE : v.k == Val::LIST ? JT::LIST : v.k == Val::DICT ? JT::DICT : JT::LEAF;
    if (j.json_type() != want) return "is of another kind";
    if (v.k == Val::NONE) return j.size() ? "an empty value has elements" : "";
    const JsonObject& o = j.value();
    if (o.json_type() != want) return "holds a value of another kind";
    if (v.k == Val::LIST)
    {
        auto* l = dynamic_cast<const JsonList*>(&o); if (!l) return "is not a list";
        if (l->size() != v.list.size() || j.size() != l->size() || l->empty() != v.list.empty() || l->value().size() != l->size()) return "has " + std::to_string(l->size()) + " elements instead of " + std::to_string(v.list.size());
        for (std::size_t i = 0; i < v.list.size(); ++i) { std::string d = diff(l->value()[i], v.list[i]); if (!d.empty()) return "[" + std::to_string(i) + "]" + d; }
        return "";
    }
    if (v.k == Val::DICT)
    {
        auto* l = dynamic_cast<const JsonDict*>(&o); if (!l) return "is not an object";
        if (l->size() != v.dict.size() || j.size() != l->size() || l->empty() != v.dict.empty() || l->value().size() != l->size()) return "has " + std::to_string(l->size()) + " members instead of " + std::to_string(v.dict.size());
        for (auto& e : v.dict)
        {
            auto i = l->value().find(e.first); if (i == l->value().end()) return "has no member " + e.first.substr(0, 40);
            std::string d = diff(i->second, e.second); if (!d.empty()) return "." + e.first.substr(0, 40) + d;
        }
        return "";
    }
    auto* l = dynamic_cast<const JsonLeaf*>(&o); if (!l) return "is not a leaf";
    static const TypeChecker::Type ty[] = {TypeChecker::Type::NONE, TypeChecker::Type::INT, TypeChecker::Type::FLOAT, TypeChecker::Type::BOOL, TypeChecker::Type::STRING};
    std::string d = str_diff(l->value(), v.text);
    return !d.empty() ? " is " + d : l->type() != ty[v.k] ? " '" + v.text.substr(0, 40) + "' has another type" : "";
}

struct Step { std::size_t i = 0; std::string key; bool in_dict = false; };
using Path = std::vector<Step>;

// Documents of one user, and what they must hold.
struct Docs {
    Faults& fx; Tape& t; const std::vector<Val>& stock;
    std::vector<Json> j; std::vector<Val> v;
    const std::vector<Json>* sj = nullptr; const std::vector<Val>* sv = nullptr;   // documents of somebody else, to read only
    const char* who;
    std::string file;
    Docs(Faults& f, Tape& t_, const std::vector<Val>& s, const char* w, std::string fi) : fx(f), t(t_), stock(s), j(3), v(3), who(w), file(std::move(fi)) {}

    Json make(const Val& x, unsigned how) const
    {
        switch (x.k)
        {
            case Val::NONE: return Json();
            case Val::INT: { long n = std::stol(x.text); switch (how % 4) { case 0: return Json(int(n)); case 1: return Json(n); case 2: return Json((long long)n); default: return Json(JsonLeaf(x.text, TypeChecker::Type::INT)); } }
            case Val::FLOAT: return Json(JsonLeaf(x.text, TypeChecker::Type::FLOAT));
            case Val::BOOL: return how % 2 ? Json(x.text == "true") : Json(JsonLeaf(x.text, TypeChecker::Type::BOOL));
            case Val::STR: return Json(JsonLeaf(x.text, TypeChecker::Type::STRING));
            case Val::LIST:
            {
                if (x.list.empty()) return Json(JsonList());
                if (how % 3 == 0) { Json r; for (auto& e : x.list) r.append(make(e, how / 3)); return r; }
                std::vector<JsonItem> l; for (auto& e : x.list) l.push_back(make(e, how / 3));
                if (how % 3 == 1) return Json(l);
                JsonList li; for (auto& e : l) li.append(e); return Json(li);
            }
            default:
            {
                if (x.dict.empty()) return Json(JsonDict());
                if (how % 3 == 0) { Json r; for (auto& e : x.dict) r[e.first] = make(e.second, how / 3); return r; }
                std::map<std::string, JsonItem> m; for (auto& e : x.dict) m[e.first] = make(e.second, how / 3);
                if (how % 3 == 1) return Json(m);
                JsonDict d; for (auto& e : m) d[e.first] = e.second; return Json(d);
            }
        }
    }
    Path walk(const Val& x, unsigned depth)
    {
        Path p; const Val* at = &x;
        while (depth-- > 0)
        {
            Step s;
            if (at->k == Val::LIST && !at->list.empty()) { s.i = t.pick(at->list.size()); at = &at->list[s.i]; }
            else if (at->k == Val::DICT && !at->dict.empty()) { auto i = at->dict.begin(); std::advance(i, long(t.pick(at->dict.size()))); s.key = i->first; s.in_dict = true; at = &i->second; }
            else break;
            p.push_back(s);
        }
        return p;
    }
    static Val& at(Val& x, const Path& p) { Val* a = &x; for (auto& s : p) a = s.in_dict ? &a->dict[s.key] : &a->list[s.i]; return *a; }
    static const Val& at(const Val& x, const Path& p) { const Val* a = &x; for (auto& s : p) a = s.in_dict ? &a->dict.at(s.key) : &a->list[s.i]; return *a; }
    static Json& ref(Json& x, const Path& p) { Json* a = &x; for (auto& s : p) a = s.in_dict ? &(*a)[s.key] : &(*a)[s.i]; return *a; }
    static const Json& cref(const Json& x, const Path& p) { const Json* a = &x; for (auto& s : p) a = s.in_dict ? &a->at(s.key) : &a->at(s.i); return *a; }

    void same(std::size_t k, const char* when) const
    {
        std::string d = diff(j[k], v[k]);
        if (!d.empty()) sim::fail("wrong-value", "%s: document %zu %s (%s)", who, k, d.c_str(), when);
    }
    void all_same(const char* when) const
    {
        for (std::size_t k = 0; k < j.size(); ++k) same(k, when);
        if (sj && sv) for (std::size_t k = 0; k < sj->size(); ++k) { std::string d = diff((*sj)[k], (*sv)[k]); if (!d.empty()) sim::fail("wrong-value", "%s: a document that is only read changed: %s (%s)", who, d.c_str(), when); }
    }
    // a change of document k: the library's side and the model's
    template<class Do> void change(const char* what, std::size_t k, const Val& after, bool strong, Do&& f)
    {
        if (after.nodes() > 400) return;
        fx.arm();
        auto g = [&] { f(); return 0; };
        auto none = [](int) { return std::string(); };
        bool ok = access(fx, what, false, g, none);
        fx.heal();
        if (!ok)
        {
            sim::count("probe.failed_change");
            for (std::size_t o = 0; o < j.size(); ++o) if (o != k || (strong && !diff(j[o], after).empty())) same(o, what);
            // whatever it holds now, it can be used, and given another value
            { std::stringstream ss; ss << j[k]; Json c(j[k]); if (!(c == j[k])) sim::fail("wrong-value", "%s: after a change that failed (%s) a document differs from its copy", who, what); c.size(); }
            j[k] = make(v[k], 5);
            sim::count("probe.retry_after_fault");
            access(fx, what, false, g, none);
        }
        v[k] = after;
        all_same(what);
    }
    template<class Get, class Same> void look(const char* what, Get&& get, Same&& eq)
    {
        fx.arm();
        bool ok = access(fx, what, false, get, eq);
        fx.heal();
        if (!ok) { sim::count("probe.retry_after_fault"); access(fx, what, false, get, eq); }
        all_same(what);
    }
    template<class Do> void refused(const char* what, Do&& f)
    {
        bool threw = false;
        fx.arm(); fx.enter();
        try { f(); } catch (const std::exception&) { fx.leave(); threw = true; }
        fx.heal();
        if (!threw) sim::fail("no-error", "%s: %s raised no error", who, what);
        all_same(what);
    }
    void op()
    {
        unsigned k = unsigned(t.pick(16)), how = unsigned(t.pick(5040));
        std::size_t a = t.pick(j.size()), b = t.pick(j.size());
        const Val& fresh = stock[t.pick(stock.size())];
        Path pa = walk(v[a], how % 4), pb;
        // where another value comes from: one of the own documents or one only read
        bool other = sj && how % 5 < 2;
        const Json& from = other ? (*sj)[b % sj->size()] : j[b];
        const Val& fromv = other ? (*sv)[b % sv->size()] : v[b];
        pb = walk(fromv, how / 4 % 4);
        const Val source = at(fromv, pb);
        Val& target = at(v[a], pa);
        Val after = v[a];
        switch (k)
        {
            case 0: case 1: change("a new document", a, fresh, true, [&] { j[a] = make(fresh, how); }); break;
            case 2: change("assigning to a place in a document", a, (at(after, pa) = fresh, after), true, [&] { ref(j[a], pa) = make(fresh, how); }); break;
            case 3: change("assigning a part of a document", a, (at(after, pa) = source, after), true, [&] { ref(j[a], pa) = cref(from, pb); }); break;
            case 4:
                if (target.k != Val::LIST && target.k != Val::NONE) { refused("append to a value that is no list", [&] { ref(j[a], pa).append(cref(from, pb)); }); break; }
                { Val& x = at(after, pa); bool none = x.k == Val::NONE; x.k = Val::LIST; x.list.push_back(source); change("append", a, after, !none, [&] { ref(j[a], pa).append(cref(from, pb)); }); }
                break;
            case 5: case 6:
            {
                std::string key = how % 3 ? "k" + std::to_string(how % 7) : std::string(how % 40, 'm') + char('x' + how % 2);
                if (target.k != Val::DICT && target.k != Val::NONE) { refused("a member of a value that is no object", [&] { ref(j[a], pa)[key] = 1; }); break; }
                Val& x = at(after, pa); x.k = Val::DICT; bool is = target.dict.count(key) > 0;
                if (k == 6 && how % 2 && !is) { x.dict[key]; change("naming a new member", a, after, target.k == Val::DICT, [&] { ref(j[a], pa)[key]; }); break; }
                x.dict[key] = source;
                if (how % 2) change("a member set through const char*", a, after, is, [&] { Json s = cref(from, pb); ref(j[a], pa)[key.c_str()] = s; });
                else change("a member set", a, after, is, [&] { ref(j[a], pa)[key] = Json(cref(from, pb)); });
                break;
            }
            case 7:
                // a document takes the value of a part of itself, or becomes a part of itself
                if (how % 2) { const Val part = target; change("a document assigned from its own part", a, part, true, [&] { j[a] = ref(j[a], pa); }); }
                else { Val whole = v[a]; at(after, pa) = whole; change("a part assigned from the whole document", a, after, true, [&] { ref(j[a], pa) = j[a]; }); }
                break;
            case 8:
                if (how % 3 == 0) change("copying a document", a, fromv, true, [&] { Json c(from); j[a] = c; c = Json(1); });
                else if (how % 3 == 1) change("moving a document", a, fromv, true, [&] { Json c(from); Json m(std::move(c)); j[a] = std::move(m); });
                else change("assigning a document", a, fromv, true, [&] { j[a] = from; });
                break;
            case 9:
            {
                std::size_t far = 1000 + how; std::string none = "no such member";
                if (target.k == Val::LIST) { refused("an element past the end", [&] { if (how % 2) ref(j[a], pa)[far]; else (void)cref(j[a], pa).at(target.list.size()); }); }
                else if (target.k == Val::DICT) { if (how % 2) refused("at() with a key of no member", [&] { (void)cref(j[a], pa).at(none); }); else refused("an index into an object", [&] { ref(j[a], pa)[std::size_t(0)]; }); }
                else refused("an element of a leaf", [&] { if (how % 2) (void)cref(j[a], pa).at(std::size_t(0)); else (void)cref(j[a], pa).at(none); });
                if (target.k != Val::LIST) refused("conversion to a list", [&] { (void)cref(j[a], pa).as_vec<Json>(); });
                if (target.k != Val::DICT) refused("conversion to a map", [&] { (void)cref(j[a], pa).as_map<Json>(); });
                break;
            }
            case 10:
            {
                if (how % 2)
                {
                    // with a copy changed in one place, or in none
                    Path p = walk(fromv, 6); Val near = fromv; if (how % 8 > 1) at(near, p) = how % 8 < 4 ? target : fresh;
                    int c = compare(fromv, near); Json n = make(near, how / 8);
                    look("comparing with an altered copy", [&] { return std::array<bool, 4>{{from == n, n == from, from != n, n != from}}; },
                         [&](const auto& r) { return c == 2 || (r[0] == (c == 1) && r[1] == r[0] && r[2] != r[0] && r[3] != r[0]) ? std::string() : std::string(c ? "equal values are said to differ" : "different values are said to be equal"); });
                    break;
                }
                int c = compare(source, target);
                look("comparing", [&] { const Json& x = cref(from, pb); const Json& y = cref(j[a], pa); return std::array<bool, 4>{{x == y, y == x, x != y, y != x}}; },
                     [&](const auto& r) { return c == 2 || (r[0] == (c == 1) && r[1] == r[0] && r[2] != r[0] && r[3] != r[0]) ? std::string() : std::string(c ? "equal values are said to differ" : "different values are said to be equal"); });
                break;
            }
            case 11:
                look("a document as text", [&] { return std::string(cref(from, pb)); }, [&](const std::string& s) { return str_diff(s, source.leaf() ? source.text : text_of(source)); });
                break;
            case 12:
            {
                struct Flagged : std::runtime_error { using std::runtime_error::runtime_error; };
                look("writing a document", [&] {
                    std::stringstream ss; ss << cref(from, pb);
                    if (ss.bad()) throw Flagged("bad()");
                    fx.leave(); return ss.str(); }, [&](const std::string& s) { return str_diff(s, text_of(source)); });
                break;
            }
            case 13:
                // written out and read into a document that holds something else
                if (source.has_none() || source.leaf()) break;
                {
                    std::string text = text_of(source);
                    // the streams are the user's, made with memory at hand; a failed reading is repeated with the second
                    struct Flagged : std::runtime_error { using std::runtime_error::runtime_error; };
                    std::unique_ptr<std::istream> in[2]; int n = 0;
                    if (how % 2) sim::disk::put(file, text);
                    for (auto& i : in) { if (how % 2) i = std::make_unique<std::ifstream>(file); else i = std::make_unique<std::stringstream>(text); }
                    change("reading into a document", a, source, true, [&] { auto& i = *in[n++]; i >> j[a]; if (i.bad()) throw Flagged("bad()"); });
                }
                break;
            case 14:
                if (source.k == Val::LIST)
                {
                    bool ints = true; for (auto& e : source.list) ints = ints && e.k == Val::INT;
                    if (ints) look("a list as numbers", [&] { return cref(from, pb).as_vec<double>(); }, [&](const std::vector<double>& r) { std::vector<double> w; for (auto& e : source.list) w.push_back(std::stod(e.text)); return vec_diff(r, w); });
                    else look("a list of values", [&] { return cref(from, pb).as_vec<Json>(); }, [&](const std::vector<Json>& r) { if (r.size() != source.list.size()) return std::string("wrong size"); for (std::size_t i = 0; i < r.size(); ++i) { auto d = diff(r[i], source.list[i]); if (!d.empty()) return d; } return std::string(); });
                }
                else if (source.k == Val::DICT) look("a map of values", [&] { return cref(from, pb).as_map<Json>(); }, [&](const std::map<std::string, Json>& r) { if (r.size() != source.dict.size()) return std::string("wrong size"); for (auto& e : r) { auto d = diff(e.second, source.dict.at(e.first)); if (!d.empty()) return d; } return std::string(); });
                else if (source.k == Val::INT || source.k == Val::FLOAT) look("a number", [&] { return how % 2 ? cref(from, pb).as<double>() : double(cref(from, pb)); }, [&](double d) { return vec_diff({d}, {std::stod(source.text)}); });
                else if (source.k == Val::BOOL) look("a truth value", [&] { return cref(from, pb).as<bool>(); }, [&](bool x) { return x == (source.text == "true") ? std::string() : std::string("inverted"); });
                else if (source.k == Val::STR) look("a string", [&] { return cref(from, pb).as<std::string>(); }, [&](const std::string& s) { return str_diff(s, source.text); });
                break;
            default:
                // lists and objects of scalars in one go
                if (how % 2) { std::vector<int> l; Val x; x.k = Val::LIST; for (unsigned i = 0; i < how % 9; ++i) { l.push_back(int(i * how % 17)); Val e; e.k = Val::INT; e.text = std::to_string(l.back()); x.list.push_back(e); } change("a list of numbers", a, (at(after, pa) = x, after), true, [&] { ref(j[a], pa) = JsonList(l); }); }
                else { std::map<std::string, bool> m; Val x; x.k = Val::DICT; for (unsigned i = 0; i < how % 6; ++i) { bool y = (how >> i) & 1; std::string key(1, char('a' + i)); m[key] = y; Val e; e.k = Val::BOOL; e.text = y ? "true" : "false"; x.dict[key] = e; } change("an object of truth values", a, (at(after, pa) = x, after), true, [&] { ref(j[a], pa) = JsonDict(m); }); }
        }
    }
};

std::vector<Val> draw_stock()
{
    std::vector<Val> s;
    int many = sim::pick(4) == 3 ? 40 : 10;
    for (int i = 0; i < 5; ++i) { int b = many; s.push_back(to_val(gen_tree(3, i < 3, b))); }
    s.emplace_back();
    return s;
}

void c27()
{
    std::vector<Val> stock = draw_stock();
    std::size_t len = sim::range(1, sim::pick(3) == 2 ? 40 : 12);
    Tape tape(len * 16);
    bool threads = sim::pick(3) == 2, faults = !threads && sim::pick(3) < 2;
    if (threads)
    {
        // documents read by all, others edited by one thread each
        Faults none; Tape t0 = tape;
        Docs shared(none, t0, stock, "before the threads", "/sim/shared");
        for (std::size_t i = 0; i < len / 2 + 1; ++i) shared.op();
        for (std::size_t i = 0; i < 3; ++i) if (shared.v[i].k == Val::NONE) { shared.j[i] = shared.make(stock[i], 3); shared.v[i] = stock[i]; }
        std::size_t n = sim::range(2, 3), each = std::min<std::size_t>(len, 8);
        std::vector<Tape> tapes; for (std::size_t i = 0; i < n; ++i) tapes.emplace_back(each * 16);
        std::vector<int> tids;
        sim::nontrivial();
        for (std::size_t i = 0; i < n; ++i) tids.push_back(sim::spawn([&, i] {
            Faults fx; Docs d(fx, tapes[i], stock, "a thread", "/sim/own" + std::to_string(i));
            d.sj = &shared.j; d.sv = &shared.v;
            for (std::size_t k = 0; k < each; ++k) d.op();
        }));
        for (int t : tids) sim::join(t);
        shared.all_same("after the threads");
        return;
    }
    std::vector<uint64_t> costs;
    auto round = [&](bool faulty) {
        Faults fx; if (faults) fx.costs = &costs;
        fx.begin(faulty ? Faults::ALLOC : Faults::HEALTHY);
        Tape t = tape;
        Docs d(fx, t, stock, "one user", "/sim/doc");
        for (std::size_t i = 0; i < len; ++i) d.op();
    };
    sim::step_budget(2000000000); uint64_t s0 = sim::steps();
    round(false);
    if (!faults) { if (len > 5) sim::nontrivial(); return; }
    sim::step_budget(50000000 + 40 * (sim::steps() - s0));
    round(false);
    int64_t live = sim::alloc_live_blocks(), bytes = sim::alloc_live_bytes();
    uint64_t f0 = sim::alloc_fired();
    round(true);
    if (sim::alloc_fired() > f0) sim::nontrivial();
    int64_t now = sim::alloc_live_blocks();
    if (now > live) sim::fail("leak", "%ld blocks (%ld bytes) more are in use after allocation failures in JSON documents", long(now - live), long(sim::alloc_live_bytes() - bytes));
}

} // namespace

void sim_scenario() { c27(); }
