// How a fatal error is reported: every pattern of short, interrupted and failing writes of the message.
#include "drivers.h"
#include "seq.h"
#include <algorithm>
#include <cerrno>
#include <unistd.h>

using namespace env;
using namespace heap;
using mc::fail;

namespace {
struct Fatal : seq::Seq {
    struct Kind { const char *name; bool initialised; std::function<void()> prepare, offend; };
    std::vector<Kind> kinds;
    std::vector<std::string> whole;       // the message of each kind when every write takes everything
    std::vector<bool> reported;
    u64 a = 0;
    int deviations = 2, interrupts = 2;
    std::string out; bool failed = false; int calls = 0, after = 0; std::string log_;

    void prepare() {
        load_window(); load_config();
        size_t n; u8 *t = (u8 *)tls_ptr(&n);
        tls0.assign(t, t + n);
        install();
        finish_base();
        rnd.reps = {0.0};
        auto add = [&](const char *n, bool i, std::function<void()> p, std::function<void()> o) { kinds.push_back({n, i, p, o}); };
        auto none = [] {};
        add("free before initialisation", false, none, [] { static u64 x[8]; T.free(x); });
        add("double free", true, [&] { a = (u64)T.malloc(100); T.free((void *)a); }, [&] { T.free((void *)a); });
        add("interior free", true, [&] { a = (u64)T.malloc(100); }, [&] { T.free((void *)(a + 16)); });
        add("misaligned free", true, [&] { a = (u64)T.malloc(100); }, [&] { T.free((void *)(a + 1)); });
        add("free of a foreign pointer", true, [&] { a = (u64)T.malloc(100); }, [] { T.free((void *)16); });
        add("large double free", true, [&] { a = (u64)T.malloc(300000); T.free((void *)a); }, [&] { T.free((void *)a); });
        add("large interior free", true, [&] { a = (u64)T.malloc(300000); }, [&] { T.free((void *)(a + 4096)); });
        add("wrong size", true, [&] { a = (u64)T.malloc(100); }, [&] { T.free_sized((void *)a, 1000); });
        add("wrong large size", true, [&] { a = (u64)T.malloc(300000); }, [&] { T.free_sized((void *)a, 600000); });
        add("realloc of a freed block", true, [&] { a = (u64)T.malloc(100); T.free((void *)a); }, [&] { T.realloc((void *)a, 5000); });
        add("size of a freed block", true, [&] { a = (u64)T.malloc(100); T.free((void *)a); }, [&] { T.malloc_usable_size((void *)a); });
        add("size of a foreign block", true, [&] { a = (u64)T.malloc(100); }, [] { T.malloc_usable_size((void *)16); });
        if (has_canary) add("overflow", true, [&] { a = (u64)T.malloc(100); memset((void *)(a + T.malloc_usable_size((void *)a)), 7, 8); }, [&] { T.free((void *)a); });
        add("page size", false, none, [] { sysconf_pagesize = 65536; struct R { ~R() { sysconf_pagesize = 4096; } } r; T.malloc(1); });
        add("start-up refused", false, none, [] { env::fault = [](EvKind, u64, u64, int) { return EINVAL; }; T.malloc(1); });
        add("mapping refused", true, [&] { a = (u64)T.malloc(100); }, [] { env::fault = [](EvKind, u64, u64, int) { return EINVAL; }; T.malloc(300000); });
        add("unmapping refused", true, [&] { a = (u64)T.malloc(64 << 20); }, [&] { env::fault = [](EvKind, u64, u64, int) { return EINVAL; }; T.free((void *)a); });
        add("no random numbers", false, none, [] { getrandom_fn = [](u8 *, size_t) { errno = EIO; return -1; }; T.malloc(1); });
        Snap *S = snapshot(); auto M = save();
        for (auto &k : kinds) {
            run_kind(k, false);
            whole.push_back(out); reported.push_back(calls > 0);
            restore(S); load(M);
        }
    }
    void run_kind(Kind &k, bool branch) {
        env::fault = nullptr;
        if (k.initialised) {
            Result r = env::run_([&] { k.prepare(); });
            if (r.o != O_OK) fail("*", "crash", "preparing %s: %s %s", k.name, outcome_name[r.o], r.msg.c_str());
        }
        out = ""; failed = false; calls = after = 0; log_ = "";
        int dev = 0, intr = 0; bool gone = false;
        write_hook = [&, branch](int fd, const void *buf, size_t n) -> ssize_t {
            if (++calls > 2000) fail("C34", "endless", "%s: more than 2000 writes:%s", k.name, log_.substr(0, 300).c_str());
            if (fd != 2) fail("C34", "descriptor", "%s: the message is written to descriptor %d", k.name, fd);
            if (failed) after++;
            if (!n) return 0;
            // everything; a part of it; interrupted; an error
            enum { ALL, INTR, ERR, GONE, PART };
            int opts = 1, what = ALL;
            bool can_dev = branch && dev < deviations && !failed, can_intr = branch && intr < interrupts && !failed;
            if (can_dev) opts = 4 + (int)n - 1; else if (can_intr) opts = 2;
            int c = opts > 1 ? mc::choose(opts) : 0;
            size_t part = 0;
            if (c == 1) { if (can_intr) what = INTR; else { what = ALL; } }
            else if (c == 2) what = ERR;
            else if (c == 3) what = GONE;
            else if (c >= 4) { what = PART; part = c - 3; }
            if (what == INTR) { intr++; log_ += mc::fmt(" %zu:EINTR", n); errno = EINTR; return -1; }
            if (what == GONE || gone) { dev++; failed = gone = true; log_ += mc::fmt(" %zu:closed", n); errno = EBADF; return -1; }
            if (what == ERR) { dev++; failed = true; log_ += mc::fmt(" %zu:error", n); errno = dev & 1 ? EIO : EAGAIN; return -1; }
            size_t take = what == PART ? part : n;
            if (what == PART) dev++;
            log_ += mc::fmt(" %zu:%zu", n, take);
            out.append((const char *)buf, take);
            return take;
        };
        auto of = env::fault;
        Result r = env::run_([&] { k.offend(); });
        write_hook = nullptr; env::fault = of; getrandom_fn = nullptr; sysconf_pagesize = 4096;
        if (r.o != O_FATAL) {
            fail("C34", "no-abort", "%s; writes (length:taken)%s: %s, the process goes on", k.name, log_.c_str(), outcome_name[r.o]);
            fail("*", "no-abort", "%s: %s", k.name, outcome_name[r.o]);
        }
        mc::note_oracle();
    }
    void ops(std::vector<mc::Op> &) override {}
    void run(const mc::Op &op) override {
        Kind &k = kinds[op.a];
        const std::string &w = whole[op.a];
        static const std::string prefix = "fatal allocator error: ";
        if (!reported[op.a]) return;      // not through write: nothing to explore
        if ((android ? w.find(prefix) == std::string::npos : w.compare(0, prefix.size(), prefix) != 0) || w.size() < prefix.size() + 2 || w.find('\n') != w.size() - 1)
            fail("C34", "message", "%s is reported as \"%s\"", k.name, w.c_str());
        if (android) { env::android_restored = 0; }
        run_kind(k, !android);
        shown = mc::fmt("%s; writes (length:taken)%s -> \"%s\"", k.name, log_.c_str(), out.c_str());
        for (auto &c : shown) if (c == '\n') c = '$';
        if (android && env::android_restored != 1) fail("C34", "sigabrt-handler", "%s: the default SIGABRT handler was restored %d times before aborting", k.name, env::android_restored);
        if (failed) {
            if (w.compare(0, out.size(), out) != 0) fail("C34", "message-garbled", "%s: what was written before and after the error is not the beginning of the message", shown.c_str());
            mc::count("reports_cut_by_an_error");
        } else if (out != w) fail("C34", "message-garbled", "%s: the message is \"%s\"", shown.c_str(), w.substr(0, w.size() - 1).c_str());
        else mc::count("whole_reports");
    }
    std::string show(const mc::Op &) override { return shown; }
};
} // namespace

int run_fatal() {
    static Fatal w;
    setup_seq(w);
    w.m.faults = 0;
    w.deviations = args.num("deviations", 2); w.interrupts = args.num("interrupts", 2);
    w.prepare();
    std::vector<mc::Op> roots;
    for (u32 i = 0; i < w.kinds.size(); i++) roots.push_back({0, i, 0, 0});
    mc::Limits l = limits();
    if (args.has("replay")) { run_world(w, l); return 0; }
    emit(mc::enumerate(w, roots, l));
    return 0;
}
