// hmc TARGET.so PROPERTY KIND [options]  -- runs one exploration, prints a JSON result
#include "drivers.h"
#include "seq.h"
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <unistd.h>

using namespace mc;

Args args;
static std::vector<std::string> split(const std::string &s, char c) {
    std::vector<std::string> r; std::stringstream ss(s); std::string x;
    while (std::getline(ss, x, c)) r.push_back(x);
    return r;
}
std::vector<std::string> Args::list(const char *k) const {
    std::vector<std::string> r;
    auto it = kv.equal_range(k);
    for (auto i = it.first; i != it.second; ++i) for (auto &x : split(i->second, ',')) r.push_back(x);
    return r;
}
std::string Args::str(const char *k, const char *d) const { auto it = kv.find(k); return it == kv.end() ? d : it->second; }
long Args::num(const char *k, long d) const { auto it = kv.find(k); return it == kv.end() ? d : strtol(it->second.c_str(), nullptr, 0); }
bool Args::has(const char *k) const { return kv.count(k); }
std::vector<u64> Args::nums(const char *k) const { std::vector<u64> r; for (auto &x : list(k)) r.push_back(strtoull(x.c_str(), nullptr, 0)); return r; }

std::string json_str(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) r += fmt("\\u%04x", c);
        else r += c;
    }
    return r + "\"";
}

void emit(const Stats &s, const std::string &extra) {
    std::string o = "{";
    o += fmt("\"states\": %lu, \"transitions\": %lu, \"execs\": %lu, \"probes\": %lu, \"oracle\": %lu, \"depth\": %d, \"complete\": %s, \"wall\": %.2f",
             s.states, s.transitions, s.execs, s.probes, s.oracle, s.depth, s.complete ? "true" : "false", s.wall);
    o += ", \"cov\": {";
    bool f = true;
    for (auto &c : s.cov) { o += (f ? "" : ", ") + json_str(c.first) + ": " + fmt("%lu", c.second); f = false; }
    o += "}, \"samples\": [";
    f = true;
    for (auto &x : s.samples) { o += (f ? "" : ", ") + json_str(x); f = false; }
    o += "]";
    if (s.violated) o += ", \"violated\": true, \"clause\": " + json_str(s.clause) + ", \"msg\": " + json_str(s.msg) + ", \"trace\": " + json_str(s.trace) + ", \"path\": " + json_str(encode(s.path));
    if (!extra.empty()) o += ", " + extra;
    o += "}\n";
    std::string out = args.str("out");
    FILE *fp = out.empty() ? stdout : fopen(out.c_str(), "w");
    fputs(o.c_str(), fp);
    if (!out.empty()) fclose(fp);
}

void run_world(World &w, const Limits &l) {
    if (args.has("replay")) {
        std::ifstream in(args.str("replay")); std::stringstream b; b << in.rdbuf();
        std::string msg; std::vector<std::string> log;
        Stats s;
        s.path = decode(b.str());
        s.clause = replay(w, s.path, &msg, &log);
        s.violated = !s.clause.empty(); s.msg = msg;
        for (auto &x : log) s.trace += x + "\n";
        emit(s);
        return;
    }
    emit(explore(w, l));
}
// loop result -> JSON, with the failing index in the path
void emit_loop(const LoopResult &r, const std::string &extra, u64 states) {
    Stats s;
    s.states = states ? states : r.done; s.transitions = r.done; s.execs = r.done; s.probes = r.probes; s.oracle = r.oracle; s.complete = r.complete; s.cov = r.cov;
    s.violated = r.violated; s.clause = r.clause; s.msg = r.msg; s.trace = r.msg + "\n";
    s.path = {Step{Op{0, 0, r.index, 0}, {}}};
    s.depth = 1;
    emit(s, extra);
}
LoopResult run_loop(u64 n, u64 chunk, const std::function<void(u64)> &body, double wall) {
    if (args.has("replay")) {
        std::ifstream in(args.str("replay")); std::stringstream b; b << in.rdbuf();
        auto p = decode(b.str());
        u64 i = p.empty() ? 0 : p[0].op.x;
        return parallel_for(1, 1, [&](u64) { body(i); }, wall, 1);
    }
    return parallel_for(n, chunk, body, wall, args.num("workers", 8));
}

static int fn_of(const std::string &s) {
    static const char *n[] = {"malloc", "calloc", "aligned_alloc", "posix_memalign", "memalign", "valloc", "pvalloc"};
    for (int i = 0; i < 7; i++) if (s == n[i]) return i;
    fprintf(stderr, "unknown function %s\n", s.c_str()); exit(70);
}
void setup_seq(seq::Seq &w) {
    for (auto &x : args.list("alloc")) {
        auto p = split(x, ':');
        seq::AllocOp a{fn_of(p[0]), strtoull(p[1].c_str(), nullptr, 0), p.size() > 2 ? strtoull(p[2].c_str(), nullptr, 0) : 0};
        w.allocs.push_back(a);
    }
    for (const char *k : {"bulk", "prefix"})
        for (auto &x : args.list(k)) {
            auto p = split(x, ':');
            seq::Bulk b{atoi(p[0].c_str()), strtoull(p[1].c_str(), nullptr, 0), strtoull(p[2].c_str(), nullptr, 0), p.size() > 3 ? atoi(p[3].c_str()) : 0};
            (k[0] == 'b' ? w.bulks : w.prefix).push_back(b);
        }
    w.resizes = args.nums("resize");
    w.max_live = args.num("live", 4); w.threads = args.num("threads", 1); w.max_pokes = args.num("pokes", 0); w.max_bulk = args.num("maxbulk", 1);
    w.max_trim = args.num("maxtrim", 2); w.max_resize = args.num("maxresize", 99);
    w.trim = args.num("trim", 0); w.fsized = args.num("fsized", 0); w.rnull = args.num("rnull", 0);
    w.free_window = args.num("window", 8); w.focus = args.num("focus", 0); w.every = args.num("every", 0);
    w.probe_every = args.num("probeevery", 1);
    for (auto &x : args.list("probe")) {
        if (x == "bad") w.p_bad = true; else if (x == "freed") w.p_freed = true; else if (x == "canary") w.p_canary = true; else if (x == "cover") w.p_cover = true;
        else if (x == "sizes") w.p_sizes = true; else if (x == "poke") w.p_poke = true; else if (x == "leftover") w.p_leftover = true; else if (x == "stats") w.p_stats = true;
        else { fprintf(stderr, "unknown probe %s\n", x.c_str()); exit(70); }
    }
    w.rnd.full16 = args.num("full16", 0); w.rnd.full64 = args.num("full64", 0); w.rnd.word_cycle = args.num("words", 1); w.rnd.real = args.num("realrnd", 0);
    if (args.has("reps")) { w.rnd.reps.clear(); for (auto &x : args.list("reps")) w.rnd.reps.push_back(atof(x.c_str())); }
    w.place_mode = args.num("place", 0);
    w.purge = env::android && args.num("purge", 0);
    w.notag = env::android ? args.num("notag", 0) : 0;
    w.light_fill = args.num("light", 0);
    env::pkey_have = args.num("pkey", -1);
    env::sealed_real = args.num("sealed", 0);
    w.m.faults = args.num("faults", 0);
    for (u64 x : args.nums("codes")) w.hard_codes.push_back(x);
    w.hard = !w.hard_codes.empty();
}
Limits limits() {
    Limits l;
    l.max_depth = args.num("depth", 4); l.wall = atof(args.str("wall", "60").c_str()); l.workers = args.num("workers", 8);
    l.start_depth = args.num("startdepth", 1); l.max_states = args.num("maxstates", 20000000);
    return l;
}

static int run_seq() {
    static seq::Seq w;
    int faults = args.num("faults", 0);
    setup_seq(w);
    w.m.faults = 0;
    w.start();
    w.m.faults = faults;
    run_world(w, limits());
    return 0;
}

int main(int argc, char **argv) {
    if (argc < 4) { fprintf(stderr, "usage: hmc target property kind [key=value...]\n"); return 70; }
    prop = argv[2];
    for (int i = 4; i < argc; i++) {
        char *e = strchr(argv[i], '=');
        if (!e) { fprintf(stderr, "bad argument %s\n", argv[i]); return 70; }
        args.kv.insert({std::string(argv[i], e - argv[i]), e + 1});
    }
    thorough = args.num("thorough", 0);
    seed = args.num("seed", 1);
    set_also(args.list("also"));
    env::load_target(argv[1], args.str("what") == "selfinit");
    std::string k = argv[3];
    try {
        if (k == "seq") return run_seq();
        for (auto *d = driver_list; d->name; d++) if (k == d->name) return d->fn();
    } catch (Violation &v) {
        Stats s; s.violated = true; s.clause = v.clause; s.msg = v.msg; s.trace = v.msg + "\n"; emit(s);
        return 0;
    } catch (Prune &) {
        Stats s; emit(s, "\"pruned_at_start\": true");
        return 0;
    }
    fprintf(stderr, "unknown kind %s\n", k.c_str());
    return 70;
}
