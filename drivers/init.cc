// Start-up: every first call, every failing system call during it, every placement of the random gaps.
#include "drivers.h"
#include "seq.h"
#include <algorithm>
#include <cerrno>
#include <unistd.h>

using namespace env;
using namespace heap;
using mc::fail;
using mc::want;

namespace env { extern int atfork_calls; }

namespace {
struct Init : seq::Seq {
    std::vector<seq::AllocOp> firsts = {{0, 16, 0}, {0, 0, 0}, {0, 140000, 0}, {1, 3, 5}, {2, 64, 100}, {3, 4096, 5000}, {4, 65536, 100000}, {5, 1, 0},
                                        {6, 1, 0}, {0, ~0ull - 4096, 0}, {0, 33554432, 0}};
    Snap *S0 = nullptr; std::shared_ptr<void> M0;
    std::vector<Draw> dry; u64 dry_meta_s = 0;
    int err_mode = 0; std::string fault_note; bool rnd_bad = false;

    void prepare() {
        load_window();
        load_config();
        size_t n; u8 *t = (u8 *)tls_ptr(&n);
        tls0.assign(t, t + n);
        install();
        finish_base();
        S0 = snapshot(); M0 = save();
        // learn the layout once
        int f = m.faults; m.faults = 0;
        log_events = true; events.clear(); draws.clear();
        u64 p = 0, q = 0;
        Result r = env::run_([&] { p = (u64)T.malloc(~0ull - 4096); });
        need_ok(r, "malloc of an impossible size as the first call");
        if (p) fail("*", "impossible-size", "malloc(2^64-4097) returned %#lx", p);
        dry = draws;
        Snap *S1 = snapshot();
        r = env::run_([&] { q = (u64)T.malloc(16); });
        need_ok(r, "malloc(16)");
        restore(S1);
        learn(q);
        free_snap(S1);
        restore(S0);
        m.faults = f;
        log_events = false; events.clear();
        M0 = save();
    }
    // the allocator works normally: a short life with all checks
    void live() {
        int f = m.faults; m.faults = 0;
        int i = do_alloc(0, 16376, 0); int j = do_alloc(0, 140000, 0);
        if (i < 0 || j < 0) fail("*", "refused", "allocation failed after initialisation");
        do_alloc(0, 0, 0); do_alloc(3, 65536, 40000);
        while (m.objs.size()) do_free(m.objs.size() / 2);
        i = do_alloc(0, 100, 0);
        do_realloc(i, 5000);
        do_trim();
        m.faults = f;
    }
    void once(const char *what) {
        if (atfork_calls != 1) fail("C21", "fork-handlers", "%s: fork handlers registered %d times", what, atfork_calls);
        if (!atfork_prepare || !atfork_parent || !atfork_child) fail("C21", "fork-handlers", "%s: a fork handler is missing", what);
    }
    void ops(std::vector<mc::Op> &) override {}
    void run(const mc::Op &op) override {
        mc::note_oracle();
        shown = "";
        rnd.reps = {0.0};
        atfork_calls = 0;
        switch (op.k) {
        case 0: {   // first call allocates; with failing system calls
            starting = true;
            struct R { Init *s; ~R() { s->starting = false; } } reset{this};
            auto &a = firsts[op.a];
            if (op.a < firsts.size() - 0 && op.x == 1) { mc::count("realloc_first"); do_realloc(-1, 100); }
            else if (op.x == 2) {
                shown = "malloc_disable, malloc_enable";
                Result r = call([&] { T.malloc_disable(); T.malloc_enable(); });
                if (r.o != O_OK) { fail("C21", "first-call", "malloc_disable and malloc_enable as the first calls: %s %s", outcome_name[r.o], r.msg.c_str()); fail("C33", "first-call", "malloc_disable and malloc_enable as the first calls: %s %s", outcome_name[r.o], r.msg.c_str()); need_ok(r, "malloc_disable"); }
            }
            else do_alloc(a.fn, a.a, a.b);
            bool inj0 = injected;
            std::string note = shown;
            once(note.c_str());
            int calls = atfork_calls;
            starting = false;
            live();
            if (atfork_calls != calls) fail("C21", "fork-handlers", "%s: later calls registered fork handlers again", note.c_str());
            mc::count(inj0 ? "refusals_survived" : "clean_starts");
            shown = note;
            break;
        }
        case 1: queries(op.a); break;
        case 2: layout(op.a, op.x); break;
        case 3: environment(op.a); break;
        }
    }
    // calls that do not initialise
    void queries(int q) {
        static u64 dummy[8];
        u64 r = 0; int e = 0; bool dead = false; const char *what = "";
        struct mallinfo2 mi; memset(&mi, 0, sizeof mi);
        char *xml = nullptr; size_t xn = 0; FILE *fp = q == 6 ? open_memstream(&xml, &xn) : nullptr;
        Result R = env::run_([&] {
            errno = 0;
            switch (q) {
            case 0: what = "malloc_trim(0)"; r = T.malloc_trim(0); break;
            case 1: what = "malloc_object_size(p)"; r = T.malloc_object_size(dummy) != ~0ull; break;
            case 2: what = "malloc_object_size_fast(p)"; r = T.malloc_object_size_fast(dummy) != ~0ull; break;
            case 3: what = "malloc_usable_size(NULL)"; r = T.malloc_usable_size(nullptr); break;
            case 4: what = "free(NULL)"; T.free(nullptr); break;
            case 5: what = "mallinfo2()"; mi = T.mallinfo2(); r = mi.hblkhd | mi.uordblks | mi.fordblks | mi.usmblks; break;
            case 6: what = "malloc_info"; r = T.malloc_info(0, fp); break;
            case 7: what = "free_sized(NULL)"; T.free_sized(nullptr, 10); break;
            case 8: what = "malloc_object_size(NULL)"; r = T.malloc_object_size(nullptr) != 0 && T.malloc_object_size(nullptr) != ~0ull; break;
            case 9: what = "malloc_info(1)"; r = T.malloc_info(1, nullptr) != -1 || errno != EINVAL; break;
            case 10: what = "mallopt"; r = T.mallopt(1, 1); break;
            case 11: {
                what = "Android's statistics";
                struct mallinfo2 x = T.mallinfo_arena_info(0), y = T.mallinfo_bin_info(0, 1), z = T.mallinfo_arena_info(T.mallinfo_narenas() - 1);
                r = x.hblkhd | x.fsmblks | x.uordblks | y.ordblks | y.uordblks | y.fordblks | z.hblkhd | z.uordblks;
                break;
            }
            case 12: what = "mallopt(M_PURGE)"; r = T.mallopt(-101, 0) != 1; break;
            case 27: what = "malloc_enable()"; dead = true; T.malloc_enable(); break;
            case 20: what = "free(p)"; dead = true; T.free(dummy); break;
            case 21: what = "malloc_usable_size(p)"; dead = true; T.malloc_usable_size(dummy); break;
            case 22: what = "realloc(p, 10)"; dead = true; T.realloc(dummy, 10); break;
            case 23: what = "free_sized(p, 16)"; dead = true; T.free_sized(dummy, 16); break;
            case 24: what = "realloc(p, 300000)"; dead = true; T.realloc(dummy, 300000); break;
            case 25: what = "free(8)"; dead = true; T.free((void *)8); break;
            case 26: what = "realloc(p, 0)"; dead = true; T.realloc(dummy, 0); break;
            }
            e = errno;
        });
        (void)e;
        shown = mc::fmt("%s before initialisation: %s %s", what, outcome_name[R.o], R.msg.c_str());
        if (fp) { fclose(fp); std::string x(xml, xn); free(xml); if (x.find("<malloc version=") != 0 || x.find("</malloc>") == std::string::npos) fail("C25", "malloc-info", "before initialisation: %s", x.c_str()); }
        if (dead) {
            if (R.o != O_FATAL && R.o != O_SEGV) { fail("C05", "uninitialised-use", "%s", shown.c_str()); fail("C21", "uninitialised-use", "%s", shown.c_str()); }
            mc::count("uninitialised_uses_detected");
            return;
        }
        if (R.o != O_OK) { fail("C21", "early-query", "%s", shown.c_str()); fail("*", "early-query", "%s", shown.c_str()); }
        if (r) { fail("C21", "early-query-answer", "%s gave a wrong answer", shown.c_str()); if (q == 5) fail("C25", "early-query-answer", "%s gave a wrong answer", shown.c_str()); if (q < 4) fail("C24", "early-query-answer", "%s gave a wrong answer", shown.c_str()); }
        if (atfork_calls && mapped_set().empty()) fail("C21", "fork-handlers", "%s registered fork handlers without initialising", what);
        std::string note = shown;
        int f = m.faults; m.faults = 0;
        int i = do_alloc(0, 16, 0);
        m.faults = f;
        if (i < 0) fail("*", "first-allocation", "malloc(16) failed after %s", what);
        once(what);
        live();
        once(what);
        shown = note;
    }
    // placement of the gaps
    void layout(int pat, u64 k) {
        u64 n = dry.size();
        auto val = [&](u64 i) -> u64 {
            u64 b = dry[i].bound;
            switch (pat) {
            case 0: return 0;
            case 1: return b - 1;
            case 2: return b / 2;
            case 3: return i % 2 ? 0 : b - 1;
            case 4: return i % 2 ? b - 1 : 0;
            case 5: return i == k ? b - 1 : 0;
            case 6: return i == k ? 0 : b - 1;
            case 7: return i == k ? 1 : 0;
            }
            return 0;
        };
        forced.clear();
        for (u64 i = 0; i < n; i++) forced.push_back(val(i));
        shown = mc::fmt("start-up with gap pattern %d (%lu)", pat, k);
        force_pos = 0;
        draws.clear();
        log_events = true; events.clear();
        u64 p = 0;
        Result r = env::run_([&] { p = (u64)T.malloc(~0ull - 4096); });
        force_pos = -1;
        std::vector<Draw> got = draws;
        need_ok(r, shown.c_str());
        if (p) fail("*", "impossible-size", "malloc(2^64-4097) returned %#lx", p);
        if (got.size() != n) { fail("C31", "gap-draws", "%zu random draws instead of %lu", got.size(), n); throw mc::Prune{}; }
        for (u64 i = 0; i < n; i++) if (got[i].bound != dry[i].bound) { fail("C31", "gap-draws", "draw %lu has bound %lu instead of %lu", i, got[i].bound, dry[i].bound); throw mc::Prune{}; }
        Snap *S1 = snapshot();
        u64 q = 0;
        r = env::run_([&] { q = (u64)T.malloc(16); });
        need_ok(r, "malloc(16)");
        restore(S1); free_snap(S1);
        learn(q);
        log_events = false; events.clear();
        u64 region = cfg("CONFIG_CLASS_REGION_SIZE"), nc = classes.size(), real = (slab_e - slab_s) / nc / n_arena;
        if (slab_e - slab_s != real * nc * n_arena || real < region + 2 * PG) { fail("C12", "reservation-size", "the small-object reservation of %#lx bytes does not hold %lu regions of %#lx bytes with gaps", slab_e - slab_s, nc * n_arena, region); throw mc::Prune{}; }
        // one block of every class in every arena
        std::vector<u64> base;
        for (int a = 0; a < n_arena; a++) {
            if (n_arena > 1) set_thread(a);
            for (u64 c = 0; c < nc; c++) {
                quiet = c != nc - 1;
                int i = do_alloc(0, classes[c].size ? classes[c].size - canary : 0, 0);
                quiet = false;
                if (i < 0) { fail("C02", "refused", "%s: class %u cannot be used", shown.c_str(), classes[c].size); throw mc::Prune{}; }
                if (m.objs[i].arena != a) fail("C15", "wrong-arena", "%s: thread %d got memory of arena %d", shown.c_str(), a, m.objs[i].arena);
                base.push_back(pgdn(m.objs[i].a));
                if (classes[c].size && m.objs[i].a != run_start(m.objs[i].a)) { fail("C15", "first-slot", "%s: class %u starts at %#lx inside an accessible run", shown.c_str(), classes[c].size, m.objs[i].a); }
            }
        }
        shown = mc::fmt("start-up with gap pattern %d (%lu)", pat, k);
        check_state();
        // the regions are disjoint, inside their share of the reservation, with inaccessible gaps between them
        std::vector<std::pair<u64, u64>> s;
        for (u64 i = 0; i < base.size(); i++) {
            s.push_back({base[i], i});
            u64 lo = slab_s + i * real;
            if (base[i] < lo + PG || base[i] + region > lo + real) {
                fail("C12", "no-gap", "%s: class region %lu [%#lx,+%#lx) leaves its share [%#lx,+%#lx)", shown.c_str(), i, base[i], region, lo, real);
                fail("C15", "region-outside-share", "%s: class region %lu [%#lx,+%#lx) leaves its share [%#lx,+%#lx)", shown.c_str(), i, base[i], region, lo, real);
            }
        }
        std::sort(s.begin(), s.end());
        for (size_t i = 0; i + 1 < s.size(); i++)
            if (s[i].first + region + PG > s[i + 1].first) {
                fail("C12", "no-gap", "%s: class regions %lu and %lu are not separated", shown.c_str(), s[i].second, s[i + 1].second);
                fail("C15", "regions-overlap", "%s: class regions %lu and %lu are not separated", shown.c_str(), s[i].second, s[i + 1].second);
            }
        if (want("C31")) {
            // which draw moves which region is learnt from the pattern with all draws 0
            if (pat == 0) for (u64 i = 0; i < base.size(); i++) if (base[i] != slab_s + i * real + PG) fail("C31", "lowest-gap", "class region %lu starts %#lx bytes into its share for the lowest draw, one page expected", i, base[i] - slab_s - i * real);
            if (pat == 1) for (u64 i = 0; i < base.size(); i++) {
                u64 hi = slab_s + (i + 1) * real - region;
                if (base[i] + 2 * PG < hi) fail("C31", "highest-gap", "class region %lu starts at most %#lx bytes into its share, its gap allows %#lx", i, base[i] - slab_s - i * real, real - region);
            }
            if (pat >= 5) {
                u64 moved = 0;
                for (u64 i = 0; i < base.size(); i++) {
                    u64 off = base[i] - slab_s - i * real - PG;
                    u64 rest = pat == 6 ? 1 : 0;   // pattern 6: all others at the top
                    bool m2 = rest ? off == 0 : off != 0;
                    moved += m2;
                }
                // metadata guard draw moves no class region
                u64 gs = meta_guard();
                bool mm = pat == 6 ? gs == PG : gs != PG;
                if (moved + mm != 1) fail("C31", "shared-gap", "draw %lu decides the place of %lu class regions and %d metadata guards (each must have its own)", k, moved, (int)mm);
            }
        }
        if (want("C16") || want("C31")) {
            u64 g = meta_guard(), after = meta_guard_after();
            if (g < PG || after < PG || g != after) fail("C16", "metadata-guard", "%s: metadata reservation has guards of %#lx and %#lx bytes", shown.c_str(), g, after);
        }
        mc::count("layouts");
    }
    // bytes reserved before the first and after the last byte of metadata
    u64 meta_guard() {
        u64 g = 0;
        for (auto &x : meta) for (auto &v : vmas) if (v.prot != P_NONE && v.s >= x.s && v.e <= x.e) { g = v.s - x.s; return g; }
        return g;
    }
    u64 meta_guard_after() {   // the last class's slab metadata is too far from the end to be judged exactly: the tail beyond all use
        u64 best = 0;
        for (auto &x : meta) {
            u64 last = 0;
            for (auto &v : vmas) if (v.prot != P_NONE && v.s >= x.s && v.e <= x.e) last = std::max(last, v.e);
            if (last) best = std::max(best, x.e - last);
        }
        u64 g = meta_guard();
        return best >= g ? g : best;
    }
    // page size, random source, fork handler registration
    void environment(int q) {
        const char *what = "";
        bool must_die = true;
        int calls = 0;
        fault = nullptr; 
        auto ofault = fault; (void)ofault;
        switch (q) {
        case 0: what = "page size 16384"; sysconf_pagesize = 16384; break;
        case 1: what = "page size 65536"; sysconf_pagesize = 65536; break;
        case 2: what = "page size unknown"; sysconf_pagesize = -1; break;
        case 3: what = "page size 2048"; sysconf_pagesize = 2048; break;
        case 4: case 5: case 6: case 7: {
            static int codes[] = {ENOSYS, EAGAIN, EFAULT, EINVAL};
            int c = codes[q - 4];
            what = "getrandom failing";
            getrandom_fn = [c](u8 *, size_t) { errno = c; return -1; };
            break;
        }
        case 8: what = "getrandom returning 0"; getrandom_fn = [](u8 *, size_t) { return 0; }; break;
        case 9: what = "getrandom returning 16 bytes, then failing";
            getrandom_fn = [&calls](u8 *b, size_t n) { if (calls++) { errno = EIO; return -1; } memset(b, 7, std::min<size_t>(16, n)); return (int)std::min<size_t>(16, n); }; break;
        case 10: what = "getrandom returning 16 bytes, then 0";
            getrandom_fn = [&calls](u8 *b, size_t n) { if (calls++) return 0; memset(b, 7, std::min<size_t>(16, n)); return (int)std::min<size_t>(16, n); }; break;
        case 11: what = "pthread_atfork failing with ENOMEM"; fault = [](EvKind k, u64 a, u64, int) { return k == EV_PRCTL && a == 1 ? ENOMEM : 0; }; break;
        case 12: what = "pthread_atfork failing with EAGAIN"; fault = [](EvKind k, u64 a, u64, int) { return k == EV_PRCTL && a == 1 ? EAGAIN : 0; }; break;
        case 13: what = "getrandom interrupted, short reads"; must_die = false;
            getrandom_fn = [&calls](u8 *b, size_t n) { calls++; if (calls % 3 == 1) { errno = EINTR; return -1; } size_t k = std::min<size_t>(n, 1 + calls % 5); memset(b, 0x35 + calls, k); return (int)k; }; break;
        case 14: what = "getrandom one byte at a time"; must_die = false;
            getrandom_fn = [&calls](u8 *b, size_t n) { calls++; b[0] = calls; return n ? 1 : 0; }; break;
        case 15: what = "getrandom failing with EINTR, then EIO";
            getrandom_fn = [&calls](u8 *, size_t) { errno = calls++ < 3 ? EINTR : EIO; return -1; }; break;
        }
        Result r = env::run_([&] { T.malloc(16); });
        sysconf_pagesize = 4096; getrandom_fn = nullptr;
        install();
        shown = mc::fmt("malloc(16) as the first call with %s: %s %s", what, outcome_name[r.o], r.msg.c_str());
        if (must_die && r.o != O_FATAL) fail("C18", "start-up-error-ignored", "%s", shown.c_str());
        if (!must_die && r.o != O_OK) { fail("C18", "spurious-abort", "%s", shown.c_str()); fail("C23", "spurious-abort", "%s", shown.c_str()); fail("*", "spurious-abort", "%s", shown.c_str()); }
        mc::count("environment_cases");
    }
};
}

// the library initialises itself when it is loaded, so that a fork before the first allocation is covered
static void self_init() {
    if (!self_start.empty()) { fail("C21", "self-init", "loading the library: %s", self_start.c_str()); fail("*", "self-init", "loading the library: %s", self_start.c_str()); }
    if (atfork_calls != 1 || mapped_set().empty()) {
        for (const char *p : {"C21", "C20"}) fail(p, "self-init", "after loading the library, which should initialise itself, %s and fork handlers are registered %d times", mapped_set().empty() ? "nothing is mapped" : "memory is mapped", atfork_calls);
    }
    u64 p = 0, q = 0, z = 0;
    Result r = env::run_([&] {
        atfork_prepare(); atfork_parent();
        p = (u64)T.malloc(100); q = (u64)T.malloc(200000); z = (u64)T.calloc(10, 10);
        if (p) memset((void *)p, 1, 100);
        if (q) memset((void *)q, 1, 200000);
        T.free((void *)p); T.free((void *)q); T.free((void *)z);
        atfork_prepare(); atfork_child();
        p = (u64)T.malloc(100);
        T.free((void *)p);
    });
    if (r.o != O_OK || !p || !q || !z) for (const char *c : {"C21", "C20", "*"}) fail(c, "self-init", "after loading the library: %s %s", outcome_name[r.o], r.msg.c_str());
    if (atfork_calls != 1) fail("C21", "fork-handlers", "fork handlers registered %d times", atfork_calls);
    mc::note_oracle(5); mc::count("self_started");
}
int run_init() {
    static Init w;
    if (args.str("what") == "selfinit") {
        auto r = run_loop(1, 1, [&](u64) { self_init(); }, 20);
        emit_loop(r, "", 1);
        return 0;
    }
    int faults = args.num("faults", 0);
    setup_seq(w);
    w.m.faults = 0;
    w.prepare();
    w.m.faults = faults;
    w.M0 = w.save();
    std::vector<mc::Op> roots;
    std::string what = args.str("what", "first,queries,environment");
    if (what.find("first") != std::string::npos) {
        for (size_t i = 0; i < w.firsts.size(); i++) if (!android || w.firsts[i].fn < 5) roots.push_back({0, (u32)i, 0, 0});
        roots.push_back({0, 0, 1, 0});
        if (android) roots.push_back({0, 0, 2, 0});
    }
    if (what.find("queries") != std::string::npos) for (int q : {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 20, 21, 22, 23, 24, 25, 26, 11, 12, 27}) if (android || (q != 11 && q != 12 && q != 27)) roots.push_back({1, (u32)q, 0, 0});
    if (what.find("layout") != std::string::npos) {
        for (u32 p = 0; p < 5; p++) roots.push_back({2, p, 0, 0});
        for (u32 p = 5; p < 8; p++) for (u64 k = 0; k < w.dry.size(); k++) roots.push_back({2, p, k, 0});
    }
    if (what.find("environment") != std::string::npos) for (u32 q = 0; q < 16; q++) roots.push_back({3, q, 0, 0});
    mc::Limits l = limits();
    if (args.has("replay")) { run_world(w, l); return 0; }
    emit(mc::enumerate(w, roots, l));
    return 0;
}
