// Driver: seeded search (one forked child per execution), determinism checks, minimisation,
// replay files. Uses malloc-backed containers only, so that the simulated heap seen by a child is
// the same in every driver process.
#include "internal.hpp"
#include "rt.hpp"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <set>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace simrt;

static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }
static Result* shm() {
    void* p = mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return static_cast<Result*>(p);
}
struct Outcome { int done; Str cls, key; uint64_t loghash; };
static Str S(const char* c) { return Str(c); }

static bool g_broken = false; static char g_brokenmsg[400];

static void run(Result* r, Plan& plan) {
    memset(r, 0, offsetof(Result, counters));
    r->logtext[0] = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1); if (!getenv("SIM_STDERR")) dup2(nul, 2);
        run_child(r, &plan);
        _exit(96);
    }
    int st = 0;
    double t0 = wall();
    while (true) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        double dt = wall() - t0;
        if (dt > 150) { kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
        struct timespec ts = {0, dt < 0.02 ? 100000 : 2000000}; nanosleep(&ts, nullptr);
    }
    if (r->done == 0) {
        g_broken = true;
        snprintf(g_brokenmsg, sizeof g_brokenmsg, "child ended without a verdict (status %x, seed %llu, step %llu)", unsigned(st), (unsigned long long)plan.seed, (unsigned long long)r->steps);
    }
    if (r->overflow) { g_broken = true; snprintf(g_brokenmsg, sizeof g_brokenmsg, "record overflow (seed %llu W%u S%u F%u)", (unsigned long long)plan.seed, r->nW, r->nS, r->nF); }
}
static void take(Plan& p, const Result* r) {
    p.W.assign(r->W, r->W + r->nW); p.S.assign(r->S, r->S + r->nS); p.F.assign(r->F, r->F + r->nF);
}
static bool same(const Result* r, const Str& cls, const Str& key) { return r->done == 2 && cls == r->cls && key == r->key; }

static void jstr(FILE* f, const char* s) {
    fputc('"', f);
    for (; *s; ++s) {
        unsigned char c = (unsigned char)*s;
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c == '\n') fputs("\\n", f);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}
static void write_replay(const char* path, const Plan& p, const Result* r) {
    FILE* f = fopen(path, "w"); if (!f) { perror(path); exit(2); }
    fprintf(f, "sim-replay 1\nproperty %s\ntier %d\nseed %llu\nclass %s\nkey %s\nloghash %016llx\n", g_property, int(g_thorough), (unsigned long long)p.seed, r->cls, r->key, (unsigned long long)r->loghash);
    fprintf(f, "# %s\n", r->msg);
    for (auto& w : p.W) fprintf(f, "W %llu %llu\n", (unsigned long long)w.v, (unsigned long long)w.n);
    for (auto& s : p.S) fprintf(f, "S %llu %d %d\n", (unsigned long long)s.step, s.tid, s.kind);
    for (auto& x : p.F) fprintf(f, "F %llu %llu\n", (unsigned long long)x.key, (unsigned long long)x.val);
    fprintf(f, "end\n");
    // what happened, for the reader
    char* save = nullptr; char* copy = strdup(r->logtext);
    for (char* l = strtok_r(copy, "\n", &save); l; l = strtok_r(nullptr, "\n", &save)) fprintf(f, "# %s\n", l);
    free(copy);
    fclose(f);
}
static bool read_replay(const char* path, Plan& p, Str& cls, Str& key, uint64_t& h) {
    FILE* f = fopen(path, "r"); if (!f) return false;
    static char line[8192]; bool ok = false;
    while (fgets(line, sizeof line, f)) {
        size_t n = strlen(line); if (n && line[n - 1] == '\n') line[n - 1] = 0;
        unsigned long long a, b; int c, d;
        if (sscanf(line, "W %llu %llu", &a, &b) == 2) p.W.push_back({a, b});
        else if (sscanf(line, "S %llu %d %d", &a, &c, &d) == 3) p.S.push_back({a, c, d});
        else if (sscanf(line, "F %llu %llu", &a, &b) == 2) p.F.push_back({a, b});
        else if (!strncmp(line, "class ", 6)) cls = line + 6;
        else if (!strncmp(line, "key ", 4)) key = line + 4;
        else if (!strncmp(line, "property ", 9)) { g_property = strdup(line + 9); }
        else if (sscanf(line, "tier %d", &c) == 1) g_thorough = c != 0;
        else if (sscanf(line, "seed %llu", &a) == 1) p.seed = a;
        else if (sscanf(line, "loghash %llx", &a) == 1) h = a;
        else if (!strcmp(line, "end")) ok = true;
    }
    fclose(f);
    return ok;
}

// ------------------------------------------------------------------ minimisation
struct Min {
    Result* r; Plan best; Str cls, key; double until; int trials = 0;
    bool try_plan(Plan& cand) {
        if (wall() > until || trials > 3000) return false;
        ++trials;
        cand.replay = true; cand.gen_sched = false;
        run(r, cand);
        g_broken = false;
        if (!same(r, cls, key)) return false;
        Plan b; b.replay = true; b.seed = best.seed; take(b, r);
        best = b;
        return true;
    }
    template<class V> bool ddmin(Vec<V> Plan::* m) {
        bool any = false;
        size_t chunk = (best.*m).size();
        while (chunk >= 1) {
            bool hit = false;
            for (size_t i = 0; i < (best.*m).size() && wall() < until;) {
                Plan c = best; auto& v = c.*m;
                size_t e = std::min(i + chunk, v.size());
                v.erase(v.begin() + long(i), v.begin() + long(e));
                if (try_plan(c)) { hit = any = true; } else i += chunk;
            }
            if (wall() > until) break;
            if (!hit) chunk /= 2;
            else chunk = std::min(chunk, (best.*m).size());
            if ((best.*m).empty()) break;
        }
        return any;
    }
    bool workload() {
        bool any = false;
        // zero chunks of choices, then shrink single ones
        for (size_t chunk = std::max<size_t>(1, best.W.size()); chunk >= 1; chunk /= 2) {
            for (size_t i = 0; i < best.W.size() && wall() < until; i += chunk) {
                Plan c = best; bool ch = false;
                for (size_t j = i; j < std::min(i + chunk, c.W.size()); ++j) if (c.W[j].v) { c.W[j].v = 0; ch = true; }
                if (!ch) continue;
                if (try_plan(c)) { any = true; continue; }
                // the schedule no longer fits the shorter run: look for another
                if (chunk <= 2 || c.S.size() < 4) for (uint64_t k = 1; k <= 6 && wall() < until; ++k) {
                    Plan g = c; g.replay = true; g.gen_sched = true; g.seed = mix(best.seed, k); ++trials;
                    run(r, g); g_broken = false;
                    if (same(r, cls, key)) { Plan b; b.seed = best.seed; take(b, r); if (try_plan(b)) { any = true; break; } }
                }
            }
            if (chunk == 1) break;
        }
        for (size_t i = 0; i < best.W.size() && wall() < until; ++i) {
            while (i < best.W.size() && best.W[i].v > 1) {
                Plan c = best; c.W[i].v /= 2;
                if (try_plan(c)) { any = true; continue; }
                c = best; c.W[i].v -= 1;
                if (try_plan(c)) { any = true; continue; }
                break;
            }
        }
        return any;
    }
    void go() {
        for (int round = 0; round < 4 && wall() < until; ++round) {
            bool a = ddmin(&Plan::S), b = ddmin(&Plan::F), c = workload();
            if (!a && !b && !c) break;
        }
        while (!best.W.empty() && best.W.back().v == 0) best.W.pop_back();
    }
};

struct Seen { Str cls, key; };

int main(int argc, char** argv) {
    // the address space must be the same in every process
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        if (personality(unsigned(pers) | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
    }
    g_main_started = true;
    const char* out = nullptr; const char* replay = nullptr; const char* rdir = "/tmp";
    uint64_t base = 1, from = 0, stepn = 1, runs = 100; double secs = 1e9, minsecs = 40; int maxviol = 2; uint64_t twice = 9; bool verbose = false; long long one = -1; uint64_t oneseed = 0;
    for (int i = 1; i < argc; ++i) {
        auto is = [&](const char* n) { return !strcmp(argv[i], n) && i + 1 < argc; };
        if (is("--property")) g_property = argv[++i];
        else if (is("--base")) base = strtoull(argv[++i], nullptr, 10);
        else if (is("--from")) from = strtoull(argv[++i], nullptr, 10);
        else if (is("--step")) stepn = strtoull(argv[++i], nullptr, 10);
        else if (is("--runs")) runs = strtoull(argv[++i], nullptr, 10);
        else if (is("--secs")) secs = atof(argv[++i]);
        else if (is("--minsecs")) minsecs = atof(argv[++i]);
        else if (is("--maxviol")) maxviol = atoi(argv[++i]);
        else if (is("--twice")) twice = strtoull(argv[++i], nullptr, 10);
        else if (is("--out")) out = argv[++i];
        else if (is("--dir")) rdir = argv[++i];
        else if (is("--replay")) replay = argv[++i];
        else if (is("--one")) one = atoll(argv[++i]);
        else if (is("--seed")) { one = 0; oneseed = strtoull(argv[++i], nullptr, 10); }
        else if (!strcmp(argv[i], "--thorough")) g_thorough = true;
        else if (!strcmp(argv[i], "--verbose")) verbose = true;
        else { fprintf(stderr, "bad argument %s\n", argv[i]); return 2; }
    }
    Result* r = shm();
    if (replay) {
        Plan p; Str cls, key; uint64_t h = 0;
        if (!read_replay(replay, p, cls, key, h)) { fprintf(stderr, "cannot read %s\n", replay); return 2; }
        p.replay = true; p.keeplog = verbose;
        run(r, p);
        if (g_broken) { fprintf(stderr, "%s\n", g_brokenmsg); return 2; }
        if (verbose) fputs(r->logtext, stdout);
        if (r->done == 2) printf("violation %s %s: %s\n", r->cls, r->key, r->msg); else printf("no violation\n");
        bool exact = same(r, cls, key) && r->loghash == h;
        printf("%s\n", exact ? "reproduced exactly" : "NOT reproduced");
        if (verbose) for (uint32_t i = 0; i < r->npc; ++i) printf("pc %llx\n", (unsigned long long)r->pcs[i]);
        return exact ? 0 : 3;
    }
    if (one >= 0) {
        Plan p; p.seed = oneseed ? oneseed : mix(base, uint64_t(one)); p.keeplog = true; run(r, p);
        fputs(r->logtext, stdout);
        printf("done %d %s %s %s steps %llu hash %016llx sched %016llx W%u S%u F%u\n", r->done, r->cls, r->key, r->msg, (unsigned long long)r->steps, (unsigned long long)r->loghash, (unsigned long long)r->schedhash, r->nW, r->nS, r->nF);
        for (uint32_t i = 0; i < r->nC; ++i) printf("  %s %llu\n", r->counters[i].name, (unsigned long long)r->counters[i].n);
        for (uint32_t i = 0; i < r->npc; ++i) printf("pc %llx\n", (unsigned long long)r->pcs[i]);
        if (g_broken) fprintf(stderr, "%s\n", g_brokenmsg);
        return 0;
    }
    double t0 = wall();
    uint64_t nruns = 0, steps = 0, ns = 0, sw = 0, pre = 0, rechecked = 0, nontriv = 0, maxstep = 0;
    Vec<uint64_t> sched, execs, nts;
    Map<Str, uint64_t> ctr, ctr_runs;
    Vec<Seen> seen;
    FILE* vf = nullptr; char vpath[4096]; snprintf(vpath, sizeof vpath, "%s.viol", out ? out : "/dev/null"); if (out) vf = fopen(vpath, "w");
    Vec<Str> samples;
    bool stop = false;
    for (uint64_t i = from; nruns < runs && wall() - t0 < secs && !stop; i += stepn) {
        Plan p; p.seed = mix(base, i); p.keeplog = nruns < 2;
        run(r, p);
        if (g_broken) break;
        ++nruns; steps += r->steps; ns += r->time_ns; sw += r->switches; pre += r->preemptions; maxstep = std::max(maxstep, r->steps);
        sched.push_back(r->schedhash); execs.push_back(r->loghash);
        if (r->nontrivial) { ++nontriv; nts.push_back(r->loghash); }
        for (uint32_t c = 0; c < r->nC; ++c) { ctr[S(r->counters[c].name)] += r->counters[c].n; ctr_runs[S(r->counters[c].name)] += 1; }
        if (p.keeplog && samples.size() < 2) { Str s = S("seed "); char b[32]; snprintf(b, sizeof b, "%llu: ", (unsigned long long)p.seed); s += b; s += Str(r->logtext).substr(0, 1500); samples.push_back(s); }
        bool viol = r->done == 2;
        uint64_t h = r->loghash, st = r->steps; Str cls = S(r->cls), key = S(r->key);
        if (viol) {
            bool known = false; for (auto& s : seen) if (s.cls == cls && s.key == key) known = true;
            if (known) continue;
        }
        if (viol || (twice && nruns % twice == 1)) {
            run(r, p); ++rechecked;
            if (g_broken) break;
            if (r->loghash != h || r->steps != st || (r->done == 2) != viol) {
                g_broken = true; snprintf(g_brokenmsg, sizeof g_brokenmsg, "NONDETERMINISM seed %llu: %016llx/%llu then %016llx/%llu", (unsigned long long)p.seed, (unsigned long long)h, (unsigned long long)st, (unsigned long long)r->loghash, (unsigned long long)r->steps);
                break;
            }
        }
        if (!viol) continue;
        // replay from the recorded choices alone
        Plan q; q.replay = true; q.seed = p.seed; take(q, r);
        run(r, q);
        if (g_broken || !same(r, cls, key)) {
            g_broken = true; snprintf(g_brokenmsg, sizeof g_brokenmsg, "replay of seed %llu does not reproduce %s/%s (got %s/%s)", (unsigned long long)p.seed, cls.c_str(), key.c_str(), r->cls, r->key);
            break;
        }
        uint32_t os = q.S.size(), ofl = q.F.size(), ow = q.W.size();
        Min m; m.r = r; m.cls = cls; m.key = key; m.best.seed = p.seed; m.best.replay = true; take(m.best, r); m.until = wall() + minsecs;
        m.go();
        m.best.replay = true; m.best.keeplog = true; m.best.gen_sched = false;
        run(r, m.best);
        if (g_broken || !same(r, cls, key)) { g_broken = true; snprintf(g_brokenmsg, sizeof g_brokenmsg, "minimised plan of seed %llu does not reproduce", (unsigned long long)p.seed); break; }
        char path[4096]; snprintf(path, sizeof path, "%s/%s-%s-%llu.replay", rdir, g_property, cls.c_str(), (unsigned long long)p.seed);
        write_replay(path, m.best, r);
        if (vf) {
            fprintf(vf, "{\"class\":"); jstr(vf, r->cls); fprintf(vf, ",\"key\":"); jstr(vf, r->key); fprintf(vf, ",\"msg\":"); jstr(vf, r->msg);
            fprintf(vf, ",\"replay\":"); jstr(vf, path);
            fprintf(vf, ",\"seed\":%llu,\"loghash\":\"%016llx\",\"trials\":%d,\"before\":[%u,%u,%u],\"after\":[%zu,%zu,%zu],\"pcs\":[", (unsigned long long)p.seed, (unsigned long long)r->loghash, m.trials, ow, os, ofl, m.best.W.size(), m.best.S.size(), m.best.F.size());
            for (uint32_t c = 0; c < r->npc; ++c) fprintf(vf, "%s%llu", c ? "," : "", (unsigned long long)r->pcs[c]);
            fprintf(vf, "]}\n"); fflush(vf);
        }
        seen.push_back({cls, key});
        if (int(seen.size()) >= maxviol) stop = true;
    }
    if (vf) fclose(vf);
    if (out) {
        auto dump64 = [&](const char* suf, Vec<uint64_t>& v) { char b[4096]; snprintf(b, sizeof b, "%s.%s", out, suf); FILE* f = fopen(b, "w"); if (f) { fwrite(v.data(), 8, v.size(), f); fclose(f); } };
        dump64("sched", sched); dump64("execs", execs); dump64("nts", nts);
        FILE* f = fopen(out, "w"); if (!f) { perror(out); return 2; }
        fprintf(f, "{\"runs\":%llu,\"steps\":%llu,\"sim_ns\":%llu,\"switches\":%llu,\"preemptions\":%llu,\"rechecked\":%llu,\"nontrivial\":%llu,\"max_steps\":%llu,\"secs\":%.3f,\"broken\":", (unsigned long long)nruns, (unsigned long long)steps, (unsigned long long)ns, (unsigned long long)sw, (unsigned long long)pre, (unsigned long long)rechecked, (unsigned long long)nontriv, (unsigned long long)maxstep, wall() - t0);
        jstr(f, g_broken ? g_brokenmsg : "");
        fprintf(f, ",\"counters\":{"); bool first = true;
        for (auto& c : ctr) { fprintf(f, "%s", first ? "" : ","); first = false; jstr(f, c.first.c_str()); fprintf(f, ":%llu", (unsigned long long)c.second); }
        fprintf(f, "},\"counter_runs\":{"); first = true;
        for (auto& c : ctr_runs) { fprintf(f, "%s", first ? "" : ","); first = false; jstr(f, c.first.c_str()); fprintf(f, ":%llu", (unsigned long long)c.second); }
        fprintf(f, "},\"samples\":["); first = true;
        for (auto& s : samples) { fprintf(f, "%s", first ? "" : ","); first = false; jstr(f, s.c_str()); }
        fprintf(f, "]}\n"); fclose(f);
    }
    if (verbose || g_broken) fprintf(stderr, "runs %llu steps %llu violations %zu %s\n", (unsigned long long)nruns, (unsigned long long)steps, seen.size(), g_broken ? g_brokenmsg : "");
    return g_broken ? 2 : seen.empty() ? 0 : 1;
}
