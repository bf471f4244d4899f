#include "mc.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <ctime>
#include <random>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {
std::string prop;
bool thorough;
u64 seed = 1;
std::string last_show;

std::string fmt(const char *f, ...) {
    char b[1024];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    return b;
}
double now() {
    struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static bool also_all; static std::set<std::string> also;
void set_also(const std::vector<std::string> &v) { for (auto &x : v) { if (x == "all") also_all = true; also.insert(x); } }
bool want(const char *p) { return also_all || prop == p || also.count(p); }
void fail(const char *p, const char *clause, const char *f, ...) {
    if (strcmp(p, "*") && !want(p)) return;
    char b[1024];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    throw Violation{clause, b};
}

// ---------------------------------------------------------------- shared area
struct CovEnt { char name[56]; std::atomic<u64> n; };
struct Shared {
    std::atomic<u64> states, transitions, execs, probes, oracle, next, paths;
    std::atomic<int> stop, violated, capped, ncov, dead;
    char clause[256], msg[2048], path[65536];
    u64 index;
    std::atomic<int> nsamples;
    char samples[24][1024];
    CovEnt cov[256];
    u64 depth_trans[64];
};
static Shared *sh;
static std::atomic<u64> *table;
static u64 tmask;
static constexpr u64 TSIZE = 1ull << 26;
static int worker_id;

static void shared_init() {
    if (!sh) {
        sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    } else memset((void *)sh, 0, sizeof *sh);
}
static void table_init() {
    if (table) munmap((void *)table, TSIZE * 8);
    table = (std::atomic<u64> *)mmap(nullptr, TSIZE * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    tmask = TSIZE - 1;
}
void count(const char *what, u64 n) {
    if (!sh) return;
    for (int i = 0; i < 256; i++) {
        CovEnt &e = sh->cov[i];
        if (i < sh->ncov && !strcmp(e.name, what)) { e.n += n; return; }
        if (i >= sh->ncov) {
            static std::atomic_flag *lk = (std::atomic_flag *)&sh->dead;  // only a spin lock bit
            while (lk->test_and_set()) {}
            int k = sh->ncov;
            bool dup = false;
            for (int j = 0; j < k; j++) if (!strcmp(sh->cov[j].name, what)) { sh->cov[j].n += n; dup = true; }
            if (!dup && k < 256) { snprintf(sh->cov[k].name, sizeof sh->cov[k].name, "%s", what); sh->cov[k].n = n; sh->ncov++; }
            lk->clear();
            return;
        }
    }
}
void note_probe(u64 n) { if (sh) sh->probes += n; }
void note_oracle(u64 n) { if (sh) sh->oracle += n; }

// 0: first visit, 1: seen but shallower (expand again), 2: nothing new
static int visit(u64 h, int remaining) {
    u64 key = h & ~63ull;
    if (!key) key = 64;
    u64 val = key | (u64)(remaining + 1);
    u64 i = env::mix64(key) & tmask;
    for (;;) {
        u64 cur = table[i].load(std::memory_order_relaxed);
        if (!cur) {
            if (table[i].compare_exchange_strong(cur, val)) { sh->states++; return 0; }
        }
        if ((cur & ~63ull) == key) {
            while ((int)(cur & 63) < remaining + 1) {
                if (table[i].compare_exchange_strong(cur, val)) return 1;
            }
            return 2;
        }
        i = (i + 1) & tmask;
    }
}

// ---------------------------------------------------------------- choices
static Script *script;
static size_t script_pos;
int choose(int n) {
    if (n <= 1) return 0;
    if (!script) return 0;
    if (script_pos < script->size()) {
        auto &e = (*script)[script_pos];
        if (e.second != n) {
            fprintf(stderr, "hmc internal error: nondeterminism not captured (arity %d became %d)\n", e.second, n);
            _exit(71);
        }
        script_pos++;
        return e.first;
    }
    script->push_back({0, n});
    script_pos++;
    return 0;
}
static bool advance(Script &s) {
    while (!s.empty()) {
        if (++s.back().first < s.back().second) return true;
        s.pop_back();
    }
    return false;
}

std::string encode(const std::vector<Step> &p) {
    std::string r;
    for (auto &s : p) {
        r += fmt("%u %u %lu %lu %zu", s.op.k, s.op.a, s.op.x, s.op.y, s.s.size());
        for (auto &c : s.s) r += fmt(" %d/%d", c.first, c.second);
        r += "\n";
    }
    return r;
}
std::vector<Step> decode(const std::string &t) {
    std::vector<Step> r;
    const char *p = t.c_str();
    while (*p) {
        Step s; size_t n; int c;
        if (sscanf(p, "%u %u %lu %lu %zu%n", &s.op.k, &s.op.a, &s.op.x, &s.op.y, &n, &c) < 5) break;
        p += c;
        for (size_t i = 0; i < n; i++) { int a, b; sscanf(p, " %d/%d%n", &a, &b, &c); p += c; s.s.push_back({a, b}); }
        while (*p && *p != '\n') p++;
        if (*p) p++;
        r.push_back(s);
    }
    return r;
}

// ---------------------------------------------------------------- depth-first search with state matching
struct Ctx {
    World &w; const Limits &l; int bound, split; std::vector<Step> path; double t0; std::mt19937 rng;
};
static std::string do_step(World &w, const Op &op, Script &s) {
    script = &s; script_pos = 0;
    w.run(op);
    if (script_pos < s.size()) {
        fprintf(stderr, "hmc internal error: nondeterminism not captured (choice sequence shorter on replay)\n");
        _exit(71);
    }
    script = nullptr;
    return "";
}
static void report(const std::vector<Step> &path, const Violation &v, u64 index = 0) {
    int z = 0;
    if (sh->violated.compare_exchange_strong(z, 1)) {
        snprintf(sh->clause, sizeof sh->clause, "%s", v.clause.c_str());
        snprintf(sh->msg, sizeof sh->msg, "%s", v.msg.c_str());
        snprintf(sh->path, sizeof sh->path, "%s", encode(path).c_str());
        sh->index = index;
        sh->violated = 2;
    }
    sh->stop = 1;
}
static void add_sample(Ctx &c) {
    if (worker_id > 5) return;
    static int mine;
    if (mine >= 3 || c.rng() % 7) return;
    mine++;
    int k = sh->nsamples++;
    if (k >= 24) return;
    std::string s = encode(c.path);
    for (auto &ch : s) if (ch == '\n') ch = ';';
    snprintf(sh->samples[k], sizeof sh->samples[k], "%s", s.c_str());
}

static void dfs(Ctx &c, int depth) {
    std::vector<Op> ops;
    c.w.ops(ops);
    env::Snap *S = env::snapshot();
    auto M = c.w.save();
    if (worker_id && depth < c.split) {
        // each worker walks the shallow part in its own order
        std::shuffle(ops.begin(), ops.end(), c.rng);
    }
    bool counted = depth >= c.split || worker_id == 0;
    for (auto &op : ops) {
        Script s;
        for (;;) {
            if (sh->stop) goto out;
            size_t before = s.size(); (void)before;
            bool ok = true;
            c.path.push_back(Step{op, {}});
            try {
                do_step(c.w, op, s);
            } catch (Violation &v) {
                script = nullptr;
                c.path.back().s = s;
                report(c.path, v);
                goto out;
            } catch (Prune &) { ok = false; script = nullptr; }
            c.path.back().s = s;
            if (counted) { sh->transitions++; sh->depth_trans[depth]++; }
            if (ok) {
                u64 h = env::state_hash() ^ env::mix64(c.w.hash() + 0x77);
                int rem = c.bound - depth - 1;
                int v = visit(h, rem);
                if (v == 0) {
                    try { c.w.probe(); }
                    catch (Violation &x) { script = nullptr; report(c.path, x); goto out; }
                    if (rem == 0) add_sample(c);
                    if (sh->states >= c.l.max_states) { sh->capped = 1; sh->stop = 1; }
                }
                bool expand = rem > 0 && (v < 2 || depth + 1 < c.split);
                if (expand) dfs(c, depth + 1); else if (counted) sh->paths++;
                if (mc::now() - c.t0 > c.l.wall) { sh->capped = 1; sh->stop = 1; }
            }
            c.path.pop_back();
            env::restore(S);
            c.w.load(M);
            if (!advance(s)) break;
        }
    }
out:
    env::free_snap(S);
}

static void wait_all(std::vector<pid_t> &pids, const char *what) {
    bool bad = false;
    for (pid_t p : pids) {
        int st = 0;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (!WIFEXITED(st) || WEXITSTATUS(st)) {
            fprintf(stderr, "hmc internal error: %s worker died (status %x)\n", what, st);
            bad = true;
            sh->stop = 1;
        }
    }
    if (bad) _exit(72);
}

std::string replay(World &w, const std::vector<Step> &path, std::string *msg, std::vector<std::string> *log) {
    // fresh child: base state, one path
    struct Out { char clause[256], msg[2048]; int n; char lines[400][240]; };
    Out *o = (Out *)mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pid_t p = fork();
    if (!p) {
        try {
            for (auto &st : path) {
                Script s = st.s;
                std::string err;
                last_show.clear();
                try { do_step(w, st.op, s); }
                catch (...) {
                    script = nullptr;
                    if (o->n < 400) snprintf(o->lines[o->n++], 240, "%s", (w.show(st.op)).c_str());
                    throw;
                }
                if (o->n < 400) snprintf(o->lines[o->n++], 240, "%s", w.show(st.op).c_str());
                if (s != st.s) { fprintf(stderr, "hmc internal error: replay diverged\n"); _exit(71); }
            }
            w.probe();
        } catch (Violation &v) {
            snprintf(o->clause, sizeof o->clause, "%s", v.clause.c_str());
            snprintf(o->msg, sizeof o->msg, "%s", v.msg.c_str());
        } catch (Prune &) {}
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    std::string r = o->clause;
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "hmc internal error: replay died (%x)\n", st); _exit(72); }
    if (msg) *msg = o->msg;
    if (log) for (int i = 0; i < o->n; i++) log->push_back(o->lines[i]);
    munmap(o, sizeof(Out));
    return r;
}

Stats explore(World &w, const Limits &l) {
    Stats st;
    double t0 = now();
    int split = 1;
    for (int bound = std::max(1, l.start_depth); bound <= l.max_depth; bound++) {
        shared_init();
        table_init();
        std::vector<pid_t> pids;
        int nw = bound <= 2 ? 1 : l.workers;
        if (l.max_depth == 1 || l.start_depth == l.max_depth) nw = l.workers;
        fflush(stdout); fflush(stderr);
        for (int i = 0; i < nw; i++) {
            pid_t p = fork();
            if (!p) {
                worker_id = i;
                Ctx c{w, l, bound, nw == 1 ? 0 : split, {}, t0, std::mt19937((u32)(seed * 1000 + i))};
                dfs(c, 0);
                _exit(0);
            }
            pids.push_back(p);
        }
        wait_all(pids, "search");
        st.execs += sh->transitions;
        if (sh->violated) {
            st.violated = true;
            st.clause = sh->clause; st.msg = sh->msg; st.path = decode(sh->path);
            st.depth = bound;
        }
        if (sh->capped && !st.violated) {
            st.complete = false;
            st.cov["states_beyond_completed_depth"] = sh->states;
            if (st.depth == 0) { st.states = sh->states; st.transitions = sh->transitions; st.probes = sh->probes; st.oracle = sh->oracle; }
            // keep the larger counts: the capped level covered them, incompletely
            break;
        }
        st.states = sh->states; st.transitions = sh->transitions; st.probes = sh->probes; st.oracle = sh->oracle;
        st.depth = bound;
        st.samples.clear();
        for (int i = 0; i < std::min(24, (int)sh->nsamples); i++) st.samples.push_back(sh->samples[i]);
        st.cov.clear();
        for (int i = 0; i < sh->ncov; i++) st.cov[sh->cov[i].name] = sh->cov[i].n;
        st.cov["paths"] = sh->paths;
        if (st.violated) break;
        // choose the split level for the next bound
        u64 cum = 0; split = 1;
        for (int d = 0; d < bound; d++) { cum += sh->depth_trans[d]; if (cum > 600) break; split = d + 1; }
        if (split > bound) split = bound;
        double used = now() - t0;
        if (used > l.wall) { st.complete = bound == l.max_depth; break; }
    }
    st.wall = now() - t0;
    if (st.violated) {
        std::string m1, m2; std::vector<std::string> log;
        std::string c1 = replay(w, st.path, &m1, &log), c2 = replay(w, st.path, &m2, nullptr);
        if (c1 != st.clause || c2 != st.clause) {
            fprintf(stderr, "hmc internal error: violation '%s' did not reproduce ('%s', '%s')\n%s\n%s", st.clause.c_str(), c1.c_str(), c2.c_str(), st.msg.c_str(), encode(st.path).c_str());
            _exit(73);
        }
        for (auto &x : log) st.trace += x + "\n";
    }
    return st;
}

// every root operation x every choice sequence, each from the base state (no state matching)
Stats enumerate(World &w, const std::vector<Op> &roots, const Limits &l) {
    Stats st;
    double t0 = now();
    shared_init();
    // work items: (root, first choice value) are claimed dynamically
    std::vector<pid_t> pids;
    fflush(stdout); fflush(stderr);
    for (int i = 0; i < l.workers; i++) {
        pid_t p = fork();
        if (!p) {
            worker_id = i;
            env::Snap *S = env::snapshot();
            auto M = w.save();
            std::mt19937 rng((u32)seed + i);
            for (;;) {
                u64 k = sh->next++;
                if (k >= roots.size() || sh->stop) break;
                Script s;
                for (;;) {
                    if (sh->stop) break;
                    std::vector<Step> path{Step{roots[k], {}}};
                    try { do_step(w, roots[k], s); }
                    catch (Violation &v) { script = nullptr; path[0].s = s; report(path, v); break; }
                    catch (Prune &) { script = nullptr; }
                    sh->execs++;
                    if ((sh->execs & 255) == 1 && sh->nsamples < 12) {
                        int q = sh->nsamples++;
                        path[0].s = s;
                        std::string t = w.show(roots[k]) + " | " + encode(path);
                        for (auto &ch : t) if (ch == '\n') ch = ';';
                        if (q < 24) snprintf(sh->samples[q], sizeof sh->samples[q], "%s", t.c_str());
                    }
                    env::restore(S);
                    w.load(M);
                    if (now() - t0 > l.wall) { sh->capped = 1; sh->stop = 1; }
                    if (!advance(s)) break;
                }
            }
            _exit(0);
        }
        pids.push_back(p);
    }
    wait_all(pids, "enumeration");
    st.execs = sh->execs; st.transitions = sh->transitions ? (u64)sh->transitions : (u64)sh->execs; st.states = sh->states ? (u64)sh->states : st.execs; st.cov["paths"] = st.execs;
    st.probes = sh->probes; st.oracle = sh->oracle;
    st.complete = !sh->capped;
    for (int i = 0; i < std::min(24, (int)sh->nsamples); i++) st.samples.push_back(sh->samples[i]);
    for (int i = 0; i < sh->ncov; i++) st.cov[sh->cov[i].name] = sh->cov[i].n;
    st.depth = 1;
    if (sh->violated) {
        st.violated = true; st.clause = sh->clause; st.msg = sh->msg; st.path = decode(sh->path);
        std::string m1, m2; std::vector<std::string> log;
        std::string c1 = replay(w, st.path, &m1, &log), c2 = replay(w, st.path, &m2, nullptr);
        if (c1 != st.clause || c2 != st.clause) {
            fprintf(stderr, "hmc internal error: violation '%s' did not reproduce ('%s', '%s')\n%s\n", st.clause.c_str(), c1.c_str(), c2.c_str(), st.msg.c_str());
            _exit(73);
        }
        for (auto &x : log) st.trace += x + "\n";
    }
    st.wall = now() - t0;
    return st;
}

LoopResult parallel_for(u64 n, u64 chunk, const std::function<void(u64)> &body, double wall, int workers) {
    LoopResult r;
    double t0 = now();
    shared_init();
    std::vector<pid_t> pids;
    fflush(stdout); fflush(stderr);
    for (int i = 0; i < workers; i++) {
        pid_t p = fork();
        if (!p) {
            worker_id = i;
            for (;;) {
                u64 k = sh->next.fetch_add(chunk);
                if (k >= n || sh->stop) break;
                for (u64 j = k; j < std::min(n, k + chunk); j++) {
                    if (sh->stop) break;
                    try { body(j); }
                    catch (Violation &v) { report({}, v, j); break; }
                    catch (Prune &) {}
                    sh->execs++;
                    if (now() - t0 > wall) { sh->capped = 1; sh->stop = 1; }
                }
            }
            _exit(0);
        }
        pids.push_back(p);
    }
    wait_all(pids, "loop");
    r.done = sh->execs; r.complete = !sh->capped;
    r.probes = sh->probes; r.oracle = sh->oracle;
    for (int i = 0; i < sh->ncov; i++) r.cov[sh->cov[i].name] = sh->cov[i].n;
    if (sh->violated) { r.violated = true; r.clause = sh->clause; r.msg = sh->msg; r.index = sh->index; }
    return r;
}
} // namespace mc
