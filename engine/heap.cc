#include "heap.h"
#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace env;
using mc::fail;
using mc::want;

namespace heap {
std::vector<ClassInfo> classes;
u64 max_small, max_empty, canary;
bool ext_classes, large_classes, zero_on_free, waf_check, has_canary, slot_rand, has_stats;
int sq_rand, sq_queue, rq_rand, rq_queue, fsq, n_arena, guard_interval, guard_div;
u64 rq_skip;
int last_errno;

void load_config() {
    ext_classes = cfg("CONFIG_EXTENDED_SIZE_CLASSES"); large_classes = cfg("CONFIG_LARGE_SIZE_CLASSES");
    zero_on_free = cfg("ZERO_ON_FREE"); waf_check = cfg("WRITE_AFTER_FREE_CHECK"); has_canary = cfg("SLAB_CANARY");
    slot_rand = cfg("SLOT_RANDOMIZE"); has_stats = cfg("CONFIG_STATS");
    sq_rand = cfg("SLAB_QUARANTINE_RANDOM_LENGTH"); sq_queue = cfg("SLAB_QUARANTINE_QUEUE_LENGTH");
    rq_rand = cfg("REGION_QUARANTINE_RANDOM_LENGTH"); rq_queue = cfg("REGION_QUARANTINE_QUEUE_LENGTH");
    rq_skip = cfg("REGION_QUARANTINE_SKIP_THRESHOLD"); fsq = cfg("FREE_SLABS_QUARANTINE_RANDOM_LENGTH");
    n_arena = cfg("N_ARENA"); guard_interval = cfg("GUARD_SLABS_INTERVAL"); guard_div = cfg("GUARD_SIZE_DIVISOR");
    canary = has_canary ? 8 : 0;
    static const u32 t[][2] = {{0, 256}, {16, 256}, {32, 128}, {48, 85}, {64, 64}, {80, 51}, {96, 42}, {112, 36}, {128, 64},
        {160, 51}, {192, 64}, {224, 54}, {256, 64}, {320, 64}, {384, 64}, {448, 64}, {512, 64}, {640, 64}, {768, 64}, {896, 64}, {1024, 64},
        {1280, 16}, {1536, 16}, {1792, 16}, {2048, 16}, {2560, 8}, {3072, 8}, {3584, 8}, {4096, 8}, {5120, 8}, {6144, 8}, {7168, 8}, {8192, 8},
        {10240, 6}, {12288, 5}, {14336, 4}, {16384, 4}};
    classes.clear();
    for (auto &x : t) classes.push_back({x[0], x[1], (u32)pgup((u64)(x[0] ? x[0] : 16) * x[1])});
    if (ext_classes)
        for (u32 s : {20480, 24576, 28672, 32768, 40960, 49152, 57344, 65536, 81920, 98304, 114688, 131072}) classes.push_back({s, 1, s});
    max_small = classes.back().size;
    max_empty = ext_classes ? 131072 : 65536;
}
int class_of(u64 n) {
    for (size_t i = 0; i < classes.size(); i++) if (n <= classes[i].size) return i;
    return -1;
}
int class_of_aligned(u64 n, u64 al) {
    if (al <= 16) return class_of(n);
    for (size_t i = 1; i < classes.size(); i++) if (n <= classes[i].size && classes[i].size % al == 0) return i;
    return -1;
}
u64 adjust(u64 req) { return req > 0 && req <= max_small ? req + canary : req; }
u64 large_size(u64 n) {
    if (n > ~0ull - 8191) return 0;
    if (n < 4096) n = 4096;
    if (!large_classes) return pgup(n);
    // four size classes for every doubling
    u64 p = 4096;
    if (n <= 4096) return 4096;
    while (p < n && p < (1ull << 63)) p <<= 1;    // p >= n, p/2 < n
    if (p < n) { // n > 2^63
        u64 step = 1ull << 61;
        u64 r = (n + step - 1) / step;
        return r >= 8 ? 0 : r * step;
    }
    u64 step = p / 8;
    return (n + step - 1) / step * step;
}
u64 pattern(u64 a) { return ((a >> 3) * 0x9e3779b97f4a7c15ull) | 0x0101010101010101ull; }

// ---------------------------------------------------------------- interval sets
IvSet iv_norm(IvSet v) {
    std::sort(v.begin(), v.end(), [](const Iv &a, const Iv &b) { return a.s < b.s; });
    IvSet r;
    for (auto &x : v) {
        if (x.s >= x.e) continue;
        if (!r.empty() && r.back().e >= x.s) r.back().e = std::max(r.back().e, x.e);
        else r.push_back(x);
    }
    return r;
}
IvSet iv_sub(const IvSet &a, const IvSet &b) {
    IvSet r;
    size_t j = 0;
    for (Iv x : a) {
        while (j < b.size() && b[j].e <= x.s) j++;
        size_t k = j;
        while (x.s < x.e) {
            if (k >= b.size() || b[k].s >= x.e) { r.push_back(x); break; }
            if (b[k].s > x.s) r.push_back({x.s, b[k].s});
            x.s = std::max(x.s, b[k].e);
            k++;
        }
    }
    return r;
}
bool iv_has(const IvSet &a, u64 s, u64 e) {
    for (auto &x : a) if (x.s <= s && e <= x.e) return true;
    return false;
}
IvSet mapped_set() {
    IvSet r;
    for (auto &v : vmas) {
        if (!r.empty() && r.back().e == v.s) r.back().e = v.e;
        else r.push_back({v.s, v.e});
    }
    return r;
}
static std::string ivs(const IvSet &a) {
    std::string r;
    for (auto &x : a) r += mc::fmt("[%#lx,%#lx) ", x.s, x.e);
    return r.empty() ? "nothing" : r;
}
static bool iv_eq(const IvSet &a, const IvSet &b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (a[i].s != b[i].s || a[i].e != b[i].e) return false;
    return true;
}

// ---------------------------------------------------------------- environment
u64 Heap::draw_value(int width, u64 bound) {
    if (bound <= 1) return 0;
    if (force_pos >= 0 && force_pos < (int)forced.size()) { u64 v = forced[force_pos++]; return v < bound ? v : bound - 1; }
    if (fixed_stream >= 0) {
        if (fixed_stream == 0) return 0;
        if (fixed_stream == 1) return bound - 1;
        return mix64((u64)fixed_stream * 1000003 + ++m.stream_pos) % bound;
    }
    if (width == 16 ? bound <= (u64)rnd.full16 : bound <= (u64)rnd.full64) return mc::choose((int)bound);
    double f;
    if (rnd.reps.empty()) {
        // not searched over: the lowest value for slots, for the rest one that varies from state to state
        static const double some[] = {0, 1, 0.5};
        f = width == 16 ? 0 : some[(m.objs.size() + draws.size()) % 3];
    } else f = rnd.reps[mc::choose((int)rnd.reps.size())];
    if (f >= 1.0) return bound - 1;
    u64 v = (u64)(f * (double)bound);
    return v >= bound ? bound - 1 : v;
}
static bool edges_only;
struct Inj { EvKind k; u64 a, l; };
static std::vector<Inj> inj;

static const char *ev_name(EvKind k) {
    static const char *n[] = {"mmap", "MAP_FIXED mmap", "munmap", "mprotect", "mremap", "madvise", "getrandom", "prctl", "pkey_alloc", "lock", "unlock"};
    return n[k];
}
void Heap::install() {
    edges_only = light_fill == 2;
    if (!rnd.real) {
        rnd_uniform = [this](int w, u64 b) {
            u64 v = draw_value(w, b);
            draws.push_back({w, b, v});
            return v;
        };
        rnd_word = [this](int w) -> u64 {
            (void)w;
            if (rnd.word_cycle > 1) m.words = (m.words + 1) % rnd.word_cycle;
            return 0xc3a5c85c97cb3127ull + (u64)m.words * 0x0101010101010101ull;
        };
    }
    fault = [this](EvKind k, u64 a, u64 l, int) -> int {
        if (k == EV_PRCTL) return 0;
        op_calls++;
        if (in_op && refuse_release && k == EV_MMAP_FIXED && a >= slab_s && a < slab_e) {
            injected++; injected_unmap = true;
            inj.push_back({k, a, pgup(l)});
            return ENOMEM;
        }
        if (!in_op || quiet || m.faults <= 0) return 0;
        int c = mc::choose(hard ? 1 + (int)hard_codes.size() : 2);
        if (c == 0) return 0;
        m.faults--;
        injected++;
        int err = hard ? hard_codes[c - 1] : ENOMEM;
        if (err != ENOMEM) { hard_injected = err; hard_call = mc::fmt("%s of %#lx+%#lx", ev_name(k), a, l); return err; }
        if (k == EV_MUNMAP || k == EV_MMAP_FIXED || k == EV_MREMAP) injected_unmap = true;
        inj.push_back({k, a, pgup(l)});
        return ENOMEM;
    };
    if (place_mode == 1)
        place = [](u64 len) -> u64 {
            // lowest gap (0: first fit) or just above everything mapped so far
            if (mc::choose(2) == 0 || vmas.empty()) return 0;
            u64 a = vmas.back().e;
            return a + len <= WE ? a : 0;
        };
}

env::Result Heap::call(const std::function<void()> &f) {
    in_op = true;
    errno = 0x5a5a5a;
    Result r = env::run_(f);
    last_errno = errno;
    in_op = false;
    mc::note_oracle(1);
    if (hard_injected) {
        int e = hard_injected;
        hard_injected = 0;
        if (r.o == O_FATAL) { mc::count("unexpected_errors_fatal"); throw mc::Prune{}; }
        fail("C18", "error-ignored", "%s failed with %s and the call %s %s", hard_call.c_str(), strerrorname_np(e), r.o == O_OK ? "continued" : outcome_name[r.o], r.msg.c_str());
        throw mc::Prune{};
    }
    if (starting && injected && r.o == O_FATAL) { mc::count("start_up_refusals_fatal"); throw mc::Prune{}; }
    return r;
}
void Heap::need_ok(const Result &r, const char *what) {
    if (r.o == O_OK) return;
    if (r.o == O_FOREIGN) fail("C14", "foreign-memory", "%s: %s", what, r.msg.c_str());
    if (r.o == O_HANG) fail("*", "hang", "%s: %s", what, r.msg.c_str());
    if (r.o == O_DEADLOCK) { fail("C19", "deadlock", "%s: %s", what, r.msg.c_str()); fail("*", "deadlock", "%s: %s", what, r.msg.c_str()); }
    fail("*", r.o == O_FATAL ? "spurious-abort" : "crash", "%s: %s: %s (address %#lx)", what, outcome_name[r.o], r.msg.c_str(), r.addr);
    throw mc::Prune{};
}

// Initialise the allocator with a request nothing can satisfy, so that no block has been through the heap; where small
// blocks land is learnt in a forked child.
void Heap::boot() {
    size_t n; u8 *t = (u8 *)tls_ptr(&n);
    tls0.assign(t, t + n);
    load_config();
    install();
    bool ol = log_events;
    log_events = true; events.clear();
    u64 p = 0;
    Result r = env::run_([&] { p = (u64)T.malloc(~0ull - 4096); });
    if (r.o != O_OK) { need_ok(r, "initialisation (malloc of a huge size)"); }
    if (p) { fail("C02", "impossible-size", "malloc(2^64-4097) returned %#lx", p); fail("*", "impossible-size", "malloc(2^64-4097) returned %#lx", p); }
    log_events = false;
    int fd[2];
    if (pipe(fd)) exit(70);
    pid_t c = fork();
    if (!c) {
        u64 v[2] = {0, 0};
        std::string msg;
        Result q = env::run_([&] { v[0] = (u64)T.malloc(16); });
        v[1] = q.o;
        if (write(fd[1], v, sizeof v) != (ssize_t)sizeof v || write(fd[1], q.msg.data(), q.msg.size()) < 0) _exit(70);
        _exit(0);
    }
    close(fd[1]);
    u64 v[2] = {0, 99}; char mb[256] = {0};
    if (read(fd[0], v, sizeof v) != (ssize_t)sizeof v) v[1] = 99;
    if (read(fd[0], mb, sizeof mb - 1) < 0) mb[0] = 0;
    close(fd[0]);
    int st; waitpid(c, &st, 0);
    if (v[1] != O_OK || !v[0]) { fail("*", "first-allocation", "malloc(16) as the first request: %s", v[1] < 7 ? (std::string(outcome_name[v[1]]) + " " + mb).c_str() : "died"); }
    learn(v[0]);
    events.clear(); log_events = ol;
}

// find the reservations made during initialisation (events), given the address of a small block
void Heap::learn(u64 p) {
    meta.clear();
    n_init_maps = 0;
    IvSet init;
    for (auto &e : events)
        if (e.k == EV_MMAP && !e.err) init.push_back({e.addr, e.addr + pgup(e.len)});
    // what survived of each mapping made during initialisation
    IvSet now = mapped_set();
    for (auto &x : init) {
        if (!mapped_range(x.s, x.s + PG) && !mapped_range(x.e - PG, x.e)) continue;
        IvSet rest = iv_sub(IvSet{x}, iv_sub(IvSet{x}, now));
        for (auto &y : rest) {
            n_init_maps++;
            if (p >= y.s && p < y.e) { slab_s = y.s; slab_e = y.e; }
            else meta.push_back(y);
        }
    }
    if (!slab_s) { fail("*", "first-allocation", "the first small block %#lx lies in no reservation", p); fprintf(stderr, "hmc internal error: no slab reservation found\n"); exit(70); }
    meta_rw = 0;
    for (auto &v2 : vmas) if (v2.prot != P_NONE) for (auto &x : meta) if (v2.s >= x.s && v2.e <= x.e) meta_rw += v2.e - v2.s;
}

// The current state becomes the base of the search.
void Heap::finish_base() {
    hot_all();
    env::rebase();
}

// ---------------------------------------------------------------- model
ClassM &Heap::cm(int arena, int cls) {
    ClassM &c = m.cls[arena * 64 + cls];
    if (c.frand.empty() && fsq > 0) c.frand.resize(fsq);
    if (c.rq.empty() && c.q.empty()) {
        u64 size = classes[cls].size ? classes[cls].size : 16;
        int shift = __builtin_clzll(size) - (63 - (ext_classes ? 17 : 14));
        c.rq.resize((u64)sq_rand << shift);
        c.q.resize((u64)sq_queue << shift);
    }
    return c;
}
int Heap::find(u64 a) const {
    for (size_t i = 0; i < m.objs.size(); i++) if (m.objs[i].a == a) return i;
    return -1;
}
static std::vector<u64> sample_offs(u64 us) {
    std::vector<u64> r;
    if (edges_only && us > 64) return {0, us - 8 - us % 8};
    for (u64 o = 0; o < 64 && o < us; o += 8) r.push_back(o);
    for (u64 o = 4096; o < us && o <= 12 * 4096; o += 4096) { r.push_back(o - 8); r.push_back(o); }
    for (u64 o = 1 << 16; o < us; o *= 2) { r.push_back(o - 8); r.push_back(o); }
    for (u64 o = us >= 64 ? us - 64 : 0; o + 8 <= us; o += 8) r.push_back(o);
    std::sort(r.begin(), r.end());
    r.erase(std::unique(r.begin(), r.end()), r.end());
    return r;
}
static bool big(const Obj &o, bool light) { return o.kind == LARGE || (light && o.us > 512); }
void Heap::fill(const Obj &o) {
    if (o.kind == ZERO) return;
    if (big(o, light_fill)) { for (u64 x : sample_offs(o.us)) *(u64 *)(o.a + x) = pattern(o.a + x); return; }
    u64 *p = (u64 *)o.a; u64 n = o.us / 8;
    for (u64 i = 0; i < n; i++) p[i] = pattern(o.a + i * 8);
    for (u64 i = n * 8; i < o.us; i++) ((u8 *)o.a)[i] = (u8)(pattern(o.a + n * 8) >> (8 * (i - n * 8)));
}
bool Heap::intact(const Obj &o, u64 *bad) const {
    if (o.kind == ZERO) return true;
    if (big(o, light_fill)) {
        for (u64 x : sample_offs(o.us)) if (*(u64 *)(o.a + x) != pattern(o.a + x)) { *bad = x; return false; }
        return true;
    }
    u64 *p = (u64 *)o.a; u64 n = o.us / 8;
    for (u64 i = 0; i < n; i++) if (p[i] != pattern(o.a + i * 8)) { *bad = i * 8; return false; }
    return true;
}
void Heap::check_contents(const char *prp) {
    if (!want(prp)) return;
    for (auto &o : m.objs) {
        if (o.kind == ZERO) continue;
        u64 bad = 0;
        Result r = env::run_([&] { if (!intact(o, &bad)) bad |= 1ull << 63; });
        if (r.o != O_OK) fail(prp, "live-memory-inaccessible", "live block %#lx (usable %lu): %s at %#lx", o.a, o.us, r.msg.c_str(), r.addr);
        if (bad >> 63) fail(prp, "contents-changed", "live block %#lx (usable %lu) changed at offset %lu", o.a, o.us, (u64)(bad & ~(1ull << 63)));
    }
}

bool Heap::poke_ok(const ClassM &, u64) const { return true; }

void Heap::small_alloced(const Obj &o) {
    ClassM &c = cm(o.arena, o.cls);
    const ClassInfo &ci = classes[o.cls];
    u64 size = ci.size ? ci.size : 16;
    if (!c.base) {
        c.base = o.kind == ZERO ? pgdn(o.a) : run_start(o.a);
        if (o.kind != ZERO && run_end(o.a) - c.base != ci.slab)
            fail("C12", "first-slab-extent", "first slab of class %u: accessible run [%#lx,%#lx) is not one slab of %u bytes", ci.size, c.base, run_end(o.a), ci.slab);
    }
    if (o.a < c.base) { fail("C15", "class-range", "block %#lx of class %u below the class's first slab %#lx", o.a, ci.size, c.base); throw mc::Prune{}; }
    u64 idx = (o.a - c.base) / ci.slab, off = (o.a - c.base) % ci.slab;
    if (off % size || off / size >= ci.slots) { fail("C01", "slot-position", "block %#lx of class %u does not start on one of the slab's %u slots", o.a, ci.size, ci.slots); throw mc::Prune{}; }
    if (idx > 100000) { fail("C15", "class-range", "block %#lx of class %u far outside the class region", o.a, ci.size); throw mc::Prune{}; }
    // quarantine
    if (c.q_exact) {
        for (u64 x : c.rq) if (x == o.a) fail("C07", "reused-in-random-quarantine", "slot %#lx of class %u handed out while still in the random quarantine", o.a, ci.size);
        for (u64 x : c.q) if (x == o.a) fail("C07", "reused-in-queue", "slot %#lx of class %u handed out while still in the quarantine queue", o.a, ci.size);
    } else {
        u64 min_frees = (c.rq.empty() ? 0 : 1) + c.q.size();
        for (auto &x : c.inexact)
            if (x.first == o.a && c.frees - x.second < min_frees)
                fail("C07", "reused-too-early", "slot %#lx of class %u handed out after %lu later frees (at least %lu needed)", o.a, ci.size, c.frees - x.second, min_frees);
        c.inexact.erase(std::remove_if(c.inexact.begin(), c.inexact.end(), [&](auto &x) { return x.first == o.a; }), c.inexact.end());
    }
    bool partial = false, cached = false;
    for (auto &s : c.slabs) {
        if (s.st == S_ACTIVE && s.live + s.quar < (int)ci.slots) partial = true;
        if (s.st == S_CACHED) cached = true;
    }
    if (c.slabs.size() <= idx) c.slabs.resize(idx + 1);
    Slab &s = c.slabs[idx];
    bool faulty = injected > 0;
    switch (s.st) {
    case S_ACTIVE: break;
    case S_CACHED:
        if (partial) fail("C32", "partial-slab-ignored", "class %u: cached empty slab taken while a partly used slab has free slots", ci.size);
        c.cached -= ci.slab;
        break;
    case S_RELEASED:
        if (partial || cached) fail("C32", "free-slots-ignored", "class %u: released slab taken while free slots were available", ci.size);
        if (c.fifo_exact) {
            if (c.fifo.empty() || c.fifo.front() != (int)idx)
                fail("C12", "released-slab-order", "class %u: released slab %lu reused %s", ci.size, idx, c.fifo.empty() ? "while still in the random quarantine" : "out of order");
        }
        if (!c.fifo.empty()) {
            auto it = std::find(c.fifo.begin(), c.fifo.end(), (int)idx);
            if (it != c.fifo.end()) c.fifo.erase(it);
        }
        break;
    case S_NEVER:
        if ((partial || cached) && !faulty) fail("C32", "free-slots-ignored", "class %u: new slab taken while free slots were available", ci.size);
        if (c.fifo_exact && !c.fifo.empty()) fail("C32", "released-slab-ignored", "class %u: new slab taken while a released slab was ready for reuse", ci.size);
        if (idx != c.next) fail("C12", "guard-slab-spacing", "class %u: new slab at index %lu, expected %u with guard interval %d", ci.size, idx, c.next, guard_interval);
        c.next = idx + 1;
        if (++c.unguarded >= (u32)guard_interval) { c.next++; c.unguarded = 0; }
        break;
    }
    s.st = S_ACTIVE;
    s.live++;
    c.nmalloc++;
    c.lo = std::min(c.lo, o.a); c.hi = std::max(c.hi, o.a + size);
    for (auto &k : m.cls)
        if (&k.second != &c && k.second.lo < c.hi && c.lo < k.second.hi)
            fail("C15", "class-ranges-overlap", "classes %u and %u (arena %d and %d) share address space", ci.size, classes[k.first % 64].size, o.arena, k.first / 64);
}

static bool injected_at(EvKind k, u64 a) {
    for (auto &i : inj) if (i.k == k && i.a == a) return true;
    return false;
}
static void enqueue(ClassM &c, int idx, int v) {
    if (c.frand.empty()) { c.fifo.push_back(idx); return; }
    int sub = c.frand[v];
    c.frand[v] = idx + 1;
    if (sub) c.fifo.push_back(sub - 1);
}

void Heap::slot_left_quarantine(ClassM &c, int cls, u64 p, size_t &di) {
    const ClassInfo &ci = classes[cls];
    u64 idx = (p - c.base) / ci.slab;
    if (idx >= c.slabs.size()) return;
    Slab &s = c.slabs[idx];
    s.quar--;
    if (s.live + s.quar) return;
    if (c.cached + ci.slab > max_empty && !injected_at(EV_MMAP_FIXED, c.base + idx * ci.slab)) {
        s.st = S_RELEASED;
        int v = 0; bool seen = fsq <= 1;
        for (size_t k = di; fsq > 1 && k < draws.size(); k++) if (draws[k].bound == (u64)fsq) { v = (int)draws[k].val; seen = true; break; }
        if (!seen) c.fifo_exact = false;
        if (c.fifo_exact) enqueue(c, idx, v);
        u64 lo = c.base + idx * ci.slab, hi = lo + ci.slab;
        m.poisoned.erase(std::remove_if(m.poisoned.begin(), m.poisoned.end(), [&](auto &x) { return x.first >= lo && x.first < hi; }), m.poisoned.end());
    } else {
        if (c.cached + ci.slab > max_empty) {  // kernel refused to release: purged instead
            u64 lo = c.base + idx * ci.slab, hi = lo + ci.slab;
            if (!injected_at(EV_MADVISE, lo)) {
                u64 left = 0;
                for (u64 a = lo; a < hi && !left; a += PG) {
                    if (prot_at(a) < P_R) continue;
                    Result r = env::run_([&] { for (u64 w = a; w < a + PG && !left; w += 8) if (*(volatile u64 *)w) left = w; });
                    if (r.o != O_OK) need_ok(r, "reading a purged slab");
                }
                if (left) fail("C10", "not-purged", "after %s: the kernel refused to replace the empty slab %#lx, which should have been purged instead, but its contents remain at %#lx", shown.c_str(), lo, left);
                mc::count("purged_slabs");
            }
            if (!injected_at(EV_MADVISE, lo))
                m.poisoned.erase(std::remove_if(m.poisoned.begin(), m.poisoned.end(), [&](auto &x) { return x.first >= lo && x.first < hi; }), m.poisoned.end());
        }
        s.st = S_CACHED;
        c.cached += ci.slab;
    }
}

void Heap::small_freed(const Obj &o) {
    ClassM &c = cm(o.arena, o.cls);
    const ClassInfo &ci = classes[o.cls];
    u64 idx = (o.a - c.base) / ci.slab;
    if (idx >= c.slabs.size()) return;
    c.slabs[idx].live--;
    c.slabs[idx].quar++;
    c.ndalloc++;
    c.frees++;
    size_t di = 0;
    u64 p = o.a;
    if (!c.rq.empty()) {
        u64 R = c.rq.size(), v = 0;
        bool seen = R == 1;
        for (size_t k = 0; k < draws.size(); k++)
            if (draws[k].bound == R) { v = draws[k].val; seen = true; di = k + 1; break; }
        if (!seen) {
            if (!draws.empty() && draws[0].bound != (u64)fsq)
                fail("C07", "quarantine-length", "class %u: random quarantine position drawn from %lu values, %lu expected", ci.size, draws[0].bound, R);
            c.q_exact = false; c.fifo_exact = false;
        }
        if (c.q_exact) {
            u64 sub = c.rq[v];
            c.rq[v] = p;
            if (!sub) return;
            p = sub;
        }
    }
    if (!c.q_exact) {
        c.inexact.push_back({o.a, c.frees});
        return;  // slab life cycle no longer tracked for this class
    }
    if (!c.q.empty()) {
        u64 sub = c.q[c.qi];
        c.q[c.qi] = p;
        c.qi = (c.qi + 1) % c.q.size();
        if (!sub) return;
        p = sub;
    }
    slot_left_quarantine(c, o.cls, p, di);
}

void Heap::large_freed(const Iv &whole, u64 us, const IvSet &before, bool) {
    IvSet after = mapped_set();
    IvSet removed = iv_sub(before, after), expect;
    bool quar = (rq_rand > 0 || rq_queue > 0) && us < rq_skip;
    if (!quar) expect.push_back(whole);
    else if (m.r_exact) {
        Iv t = whole;
        bool stop = false;
        if (rq_rand > 0) {
            u64 v = 0; bool seen = rq_rand == 1;
            for (size_t k = draws.size(); k-- > 0;) if (draws[k].bound == (u64)rq_rand) { v = draws[k].val; seen = true; break; }
            if (!seen) {
                if (!draws.empty()) fail("C14", "region-quarantine-length", "random quarantine position drawn from %lu values, %d expected", draws.back().bound, rq_rand);
                m.r_exact = false;
            } else {
                if (m.rrand.empty()) m.rrand.resize(rq_rand, Iv{0, 0});
                std::swap(m.rrand[v], t);
                if (!t.s) stop = true;
            }
        }
        if (m.r_exact && !stop && rq_queue > 0) {
            if (m.rq.empty()) m.rq.resize(rq_queue, Iv{0, 0});
            std::swap(m.rq[m.rqi], t);
            m.rqi = (m.rqi + 1) % rq_queue;
            if (!t.s) stop = true;
        }
        if (m.r_exact && !stop) expect.push_back(t);
    }
    if (quar && !m.r_exact) {
        for (auto &x : m.rrand) if (x.s) m.r_loose.push_back(x);
        for (auto &x : m.rq) if (x.s) m.r_loose.push_back(x);
        m.rrand.clear(); m.rq.clear();
        m.r_loose.push_back(whole);
        for (auto &x : removed) {
            bool ok = false;
            for (size_t i = 0; i < m.r_loose.size(); i++) if (m.r_loose[i].s == x.s && m.r_loose[i].e == x.e) { m.r_loose.erase(m.r_loose.begin() + i); ok = true; break; }
            if (!ok) fail("C14", "released-wrong-range", "freeing a large block released %s", ivs(removed).c_str());
        }
        return;
    }
    if (iv_eq(removed, iv_norm(expect))) {
        for (auto &x : expect) m.fenced_rw = iv_sub(m.fenced_rw, IvSet{x});
        return;
    }
    if (injected) {
        // ranges the kernel refused to give back stay reserved
        IvSet missing = iv_sub(iv_norm(expect), removed), extra = iv_sub(removed, iv_norm(expect));
        if (extra.empty()) {
            bool ok = true;
            for (auto &x : missing) {
                bool just = false;
                for (auto &i : inj) if (i.k == EV_MUNMAP && i.a <= x.s && x.e <= i.a + i.l) just = true;
                ok &= just;
            }
            if (ok) {
                IvSet all = m.leaked; for (auto &x : missing) all.push_back(x);
                m.leaked = iv_norm(all);
                // still readable, but purged
                if (!none_accessible(whole.s, whole.e)) { IvSet f = m.fenced_rw; for (auto &x : missing) f.push_back(x); m.fenced_rw = iv_norm(f); }
                return;
            }
        }
    }
    for (auto &o : m.objs) {
        if (o.kind != LARGE || (o.a - o.guard >= whole.s && o.a < whole.e)) continue;
        IvSet g = {{o.a - o.guard, o.a}, {o.a + o.span(), o.a + o.span() + o.guard}};
        if (!iv_eq(iv_sub(iv_norm(g), removed), iv_norm(g))) fail("C13", "guard-lost", "the address space %s was released, which holds a guard of the live block %#lx", ivs(removed).c_str(), o.a);
    }
    fail("C14", "released-wrong-range", "expected the address space %s to be released, but %s was", ivs(expect).c_str(), ivs(removed).c_str());
    fail("C32", "released-wrong-range", "expected the address space %s to be released, but %s was", ivs(expect).c_str(), ivs(removed).c_str());
    throw mc::Prune{};
}

IvSet Heap::expected_mapped() const {
    IvSet v = meta;
    v.push_back({slab_s, slab_e});
    for (auto &o : m.objs) if (o.kind == LARGE) v.push_back({o.a - o.guard, o.a + o.span() + o.guard});
    for (auto &x : m.rrand) if (x.s) v.push_back(x);
    for (auto &x : m.rq) if (x.s) v.push_back(x);
    for (auto &x : m.r_loose) v.push_back(x);
    for (auto &x : m.leaked) v.push_back(x);
    return iv_norm(v);
}
void Heap::mapped_check(const char *what) {
    IvSet e = expected_mapped(), a = mapped_set();
    if (iv_eq(e, a)) return;
    IvSet missing = iv_sub(e, a), extra = iv_sub(a, e);
    if (!missing.empty()) {
        fail("C14", "reserved-range-lost", "%s: address space %s was given back although it is in use, a guard, or in quarantine", what, ivs(missing).c_str());
        fail("C13", "guard-lost", "%s: address space %s is no longer reserved", what, ivs(missing).c_str());
        throw mc::Prune{};
    }
    if (!extra.empty()) {
        bool excused = false;
        if (injected_unmap) {
            // only what the kernel refused to take back
            IvSet refused;
            for (auto &i : inj) if (i.k == EV_MUNMAP) refused.push_back({i.a, pgup(i.a + i.l)});
            excused = iv_sub(extra, iv_norm(refused)).empty();
        }
        if (!excused) {
            fail("C32", "address-space-leak", "%s: address space %s stays reserved with no owner", what, ivs(extra).c_str());
            fail("C14", "not-released", "%s: address space %s stays reserved with no owner", what, ivs(extra).c_str());
            fail("C17", "leak-after-failure", "%s: address space %s stays reserved with no owner", what, ivs(extra).c_str());
        }
        IvSet all = m.leaked;
        for (auto &x : extra) all.push_back(x);
        m.leaked = iv_norm(all);
        for (auto &x : extra) if (!none_accessible(x.s, x.e)) { m.fenced_rw.push_back(x); m.fenced_rw = iv_norm(m.fenced_rw); }
    }
}

int Heap::add(u64 a, u64 us, u64 req, u64 align, const char *what, bool zeroed, u64 zero_len) {
    u64 adj = adjust(req);
    Obj o{a, us, req, LARGE, 0, 0, 0, align};
    bool in_slab = a >= slab_s && a < slab_e;
    int k = align > 16 && align <= PG && adj <= max_small ? class_of_aligned(adj, align) : align <= PG ? class_of(adj) : -1;
    if (in_slab) {
        if (k < 0) { fail("C15", "large-in-slab-region", "%s: request of %lu bytes placed at %#lx inside the small-object region", what, req, a); throw mc::Prune{}; }
        o.kind = classes[k].size ? SMALL : ZERO;
        o.cls = k;
        o.arena = (a - slab_s) / ((slab_e - slab_s) / n_arena);
    } else if (k >= 0) {
        fail("C15", "small-outside-slab-region", "%s: request of %lu bytes placed at %#lx outside the small-object region", what, req, a);
        throw mc::Prune{};
    }
    if (a % align || a % 16) fail("C02", "misaligned", "%s: %#lx is not aligned to %lu", what, a, align);
    if (us < req) fail("C02", "too-small", "%s: %lu bytes requested, usable size %lu", what, req, us);
    if (o.kind == ZERO) {
        if (us) fail("C24", "usable-size", "%s: zero-size block %#lx has usable size %lu", what, a, us);
        if (!none_accessible(a, a + 16)) fail("C11", "zero-size-accessible", "%s: zero-size block %#lx is accessible", what, a);
    } else {
        u64 room = o.kind == SMALL ? classes[k].size - canary : ~0ull;
        if (us > room) fail("C24", "usable-size", "%s: usable size %lu exceeds the %lu bytes of the slot", what, us, room);
        if (!all_prot(pgdn(a), pgup(a + us), P_RW)) fail(want("C02") ? "C02" : "C01", "not-accessible", "%s: block %#lx+%lu is not fully accessible", what, a, us);
    }
    u64 len = o.kind == ZERO ? 16 : us;
    for (auto &x : m.objs) {
        u64 xl = x.kind == ZERO ? 16 : x.us;
        if (a < x.a + xl && x.a < a + len) {
            fail("C01", "overlap", "%s: new block %#lx+%lu overlaps live block %#lx+%lu", what, a, us, x.a, x.us);
            if (o.kind == ZERO) fail("C11", "not-distinct", "%s: zero-size block %#lx is already live", what, a);
            fail("C19", "overlap", "%s: new block %#lx+%lu overlaps live block %#lx+%lu", what, a, us, x.a, x.us);
            fail("C17", "overlap", "%s: new block %#lx+%lu overlaps live block %#lx+%lu", what, a, us, x.a, x.us);
            throw mc::Prune{};
        }
    }
    if (zeroed && o.kind != ZERO && want("C03")) {
        u64 bad = ~0ull;
        Result r = env::run_([&] {
            if (big(o, light_fill)) { for (u64 x : sample_offs(zero_len)) if (x + 8 <= zero_len && *(u64 *)(a + x)) bad = x; }
            else for (u64 x = 0; x < zero_len; x++) if (*(u8 *)(a + x)) { bad = x; break; }
        });
        if (r.o != O_OK) fail("C03", "not-readable", "%s: %s", what, r.msg.c_str());
        if (bad != ~0ull) fail("C03", "not-zero", "%s: new block %#lx+%lu has a non-zero byte at offset %lu", what, a, us, bad);
    }
    size_t pos = 0;
    while (pos < m.objs.size() && m.objs[pos].a < a) pos++;
    m.objs.insert(m.objs.begin() + pos, o);
    return pos;
}

static const char *fn_name[] = {"malloc", "calloc", "aligned_alloc", "posix_memalign", "memalign", "valloc", "pvalloc"};

int Heap::do_alloc(int fn, u64 a, u64 b) {
    enter_thread();
    u64 req = fn == 6 ? pgup(a) : fn == 0 || fn == 5 ? a : fn == 1 ? a * b : b, align = fn >= 2 && fn <= 4 ? a : fn >= 5 ? PG : 16;
    if (align < 16) align = 16;
    IvSet before = mapped_set();
    draws.clear(); injected = 0; injected_unmap = false; inj.clear();
    u64 p = 0, us = 0; int rc = 0;
    struct Pre { Snap *s = nullptr; ~Pre() { if (s) free_snap(s); } } pre;
    if (want("C08") && has_canary && !quiet && !starting && !rnd.real && req && req <= max_small) pre.s = snapshot();
    auto invoke = [&] {
        switch (fn) {
        case 0: p = (u64)T.malloc(a); break;
        case 1: p = (u64)T.calloc(a, b); break;
        case 2: p = (u64)T.aligned_alloc(a, b); break;
        case 3: { void *q = nullptr; rc = T.posix_memalign(&q, a, b); p = (u64)q; break; }
        case 4: p = (u64)T.memalign(a, b); break;
        case 5: p = (u64)T.valloc(a); break;
        case 6: p = (u64)T.pvalloc(a); break;
        }
    };
    Result r = call(invoke);
    std::string what = fn == 1 || (fn >= 2 && fn <= 4) ? mc::fmt("%s(%lu, %lu)", fn_name[fn], a, b) : mc::fmt("%s(%lu)", fn_name[fn], a);
    shown = what + mc::fmt(" -> %#lx", p) + (injected ? " [a system call failed with ENOMEM]" : "") + (r.o != O_OK ? " : " + r.msg : "");
    if (r.o == O_FATAL && !m.poisoned.empty() && r.msg.find("write after free") != std::string::npos) {
        // legitimate only if a changed slot could have been chosen
        int k = class_of(adjust(req));
        bool just = false;
        for (auto &x : m.poisoned) for (auto &c : m.cls) if (c.first % 64 == k && c.second.base && x.first >= c.second.base && x.first < c.second.base + c.second.slabs.size() * (u64)classes[k].slab) just = true;
        mc::count("write_after_free_detected");
        if (just) throw mc::Prune{};
    }
    need_ok(r, what.c_str());
    int err = fn == 3 ? rc : last_errno;
    if (!p || (fn == 3 && rc)) {
        if (fn == 3 && rc && p) fail("C02", "memptr-on-error", "%s failed with %d but stored a pointer", what.c_str(), rc);
        bool full = false;
        int k = align <= PG ? (align > 16 ? class_of_aligned(adjust(req), align) : class_of(adjust(req))) : -1;
        u64 reg = cfg("CONFIG_CLASS_REGION_SIZE");
        if (k >= 0) { ClassM &c = cm(m.arena_of.empty() ? 0 : m.arena_of[m.thread], k); full = (c.next + 1) * (u64)classes[k].slab > reg; }
        else { u64 n = 0; for (auto &o : m.objs) n += o.kind == LARGE; u64 cap = std::max<u64>(128, reg / 4096 / 24); full = (n + 1) * 4 > cap * 3 - 8 || req > (1ull << 40); }
        if (!injected && !full) {
            fail("C02", "refused", "%s failed (errno %d) although memory was available", what.c_str(), err);
            fail("C32", "refused", "%s failed (errno %d) although memory was available", what.c_str(), err);
            fail("C17", "refused", "%s failed (errno %d) although memory was available", what.c_str(), err);
            throw mc::Prune{};
        }
        if (err != ENOMEM) { fail("C17", "errno", "%s failed with error %d instead of ENOMEM", what.c_str(), err); fail("C02", "errno", "%s failed with error %d instead of ENOMEM", what.c_str(), err); }
        mc::count("refused_allocations");
        mapped_check(what.c_str());
        check_state();
        return -1;
    }
    r = call([&] { us = T.malloc_usable_size((void *)p); });
    if (r.o != O_OK) { fail("C24", "usable-size-abort", "malloc_usable_size of new block %#lx: %s", p, r.msg.c_str()); need_ok(r, "malloc_usable_size"); }
    int i = add(p, us, req, align, what.c_str(), zero_on_free || fn == 1, zero_on_free ? us : req);
    Obj &o = m.objs[i];
    if (o.kind != LARGE) {
        for (auto &x : m.poisoned)
            if (x.first == o.a) fail("C09", "undetected", "slot %#lx handed out although its byte %lu was changed while it was free", o.a, x.second);
        if (!m.arena_of.empty() && o.arena != m.arena_of[m.thread])
            fail("C15", "wrong-arena", "%s: thread %d got memory of arena %d, its arena is %d", what.c_str(), m.thread, o.arena, m.arena_of[m.thread]);
        small_alloced(o);
    } else {
        if (starting) { before.push_back({slab_s, slab_e}); for (auto &x : meta) before.push_back(x); before = iv_norm(before); }
        IvSet added = iv_sub(mapped_set(), before);
        u64 g0 = 0, g1 = 0, sp = o.span();
        if (added.size() == 1 || injected_unmap) {
            for (auto &x : added) if (x.s <= p && p + sp <= x.e) { g0 = p - x.s; g1 = x.e - (p + sp); }
        }
        if (!g0 || !g1 || g0 % PG) fail("C13", "no-guard", "%s: block %#lx+%lu reserved with %lu bytes before and %lu bytes after it", what.c_str(), p, us, g0, g1);
        if (!injected) {
            if (g0 != g1) fail("C13", "guard-sizes-differ", "%s: guards of %lu and %lu bytes", what.c_str(), g0, g1);
            u64 maxg = std::max<u64>(1, us / PG / guard_div) * PG;
            if (g0 > maxg) fail("C13", "guard-size", "%s: guard of %lu bytes, at most %lu configured", what.c_str(), g0, maxg);
        }
        if (injected_unmap && g1 != g0) { u64 g = std::min(g0, g1); m.leaked.push_back({p - g0, p - g}); m.leaked.push_back({p + sp + g, p + sp + g1}); m.leaked = iv_norm(m.leaked); g0 = g; }
        o.guard = g0;
        if (!none_accessible(p - g0, p) || !none_accessible(p + sp, p + sp + g1)) fail("C13", "guard-accessible", "%s: a guard of block %#lx+%lu is accessible", what.c_str(), p, us);
    }
    // the canary of a slab taken into use comes from fresh randomness: with other random words it is another one
    if (pre.s && p && o.kind == SMALL && !injected) {
        u64 c0 = *(u64 *)(o.a + o.us), c1 = 0, p0 = p, varied = 0;
        Snap *post = snapshot();
        restore(pre.s);
        if (prot_at(pgdn(o.a)) != P_RW) {
            auto ou = rnd_uniform; auto ow = rnd_word; auto of = fault; int runs = 0, k = 0;
            // complementary words first; further words for implementations which combine several
            for (; k < 24 && varied != ~0xffull; k++) {
                if (k) restore(pre.s);
                size_t at = 0; u64 nw = 0;
                rnd_uniform = [&](int, u64) -> u64 { return at < draws.size() ? draws[at++].val : 0; };
                rnd_word = [&](int) -> u64 { ++nw; u64 w = 0x71d3a86f2be49550ull + 0x0301010701010103ull * nw; return k == 0 ? w : k == 1 ? ~w : mix64(nw * 1000 + k); };
                fault = nullptr;
                p = 0;
                Result d = env::run_([&] { invoke(); if (p == p0) c1 = *(u64 *)(p + o.us); });
                rnd_uniform = ou; rnd_word = ow; fault = of;
                mc::note_probe();
                if (d.o != O_OK || p != p0) break;
                varied |= c1 ^ c0; runs++;
            }
            varied &= ~0xffull;
            if (runs && !varied) fail("C08", "stale-canary", "%s: the slab of %#lx is taken into use with a canary (%#lx) that does not depend on anything drawn for it", what.c_str(), p0, c0);
            else if (runs == k && varied != ~0xffull) fail("C08", "poor-canary", "%s: bits %#lx of the canary (%#lx) of the slab of %#lx are the same whatever is drawn", what.c_str(), ~varied & ~0xffull, c0, p0);
            p = p0;
        }
        restore(post); free_snap(post);
    }
    // write through the block
    Obj cp = o;
    Result fr = env::run_([&] { fill(cp); });
    if (fr.o != O_OK) { fail("C01", "not-writable", "%s: %s at %#lx", what.c_str(), fr.msg.c_str(), fr.addr); fail("C02", "not-writable", "%s: %s at %#lx", what.c_str(), fr.msg.c_str(), fr.addr); throw mc::Prune{}; }
    check_state();
    return find(p);
}

void Heap::do_free(int i, int fn, u64 sz) {
    Obj o = m.objs[i];
    IvSet before = mapped_set();
    draws.clear(); injected = 0; injected_unmap = false; inj.clear();
    Result r = call([&] { if (fn == 1) T.free_sized((void *)o.a, sz); else if (fn == 2) T.cfree((void *)o.a); else T.free((void *)o.a); });
    shown = mc::fmt(fn == 1 ? "free_sized(%#lx, %lu)" : "free(%#lx)", o.a, sz) + mc::fmt("  (block of %lu)", o.req) + (injected ? " [a system call failed with ENOMEM]" : "") + (r.o != O_OK ? " : " + r.msg : "");
    if (r.o != O_OK && fn == 1) fail("C06", "matching-size-rejected", "%s: %s", shown.c_str(), r.msg.c_str());
    if (r.o == O_FATAL && r.msg.find("canary") != std::string::npos) fail("C08", "false-alarm", "%s: %s", shown.c_str(), r.msg.c_str());
    need_ok(r, shown.c_str());
    m.freed.push_back(o.a);
    if (m.freed.size() > 16) m.freed.erase(m.freed.begin());
    if (fn != 1 && last_errno != 0x5a5a5a) fail("C28", "errno-changed", "%s changed errno to %d", shown.c_str(), last_errno);
    m.objs.erase(m.objs.begin() + i);
    if (o.kind == LARGE) {
        if (!injected && !none_accessible(o.a - o.guard, o.a + o.span() + o.guard)) fail("C14", "accessible-after-free", "freed large block %#lx+%lu is still accessible", o.a, o.us);
        if (!none_accessible(o.a, o.a + o.span())) {
            if (want("C10") && nz_rw_bytes(o.a, o.a + o.span())) {
                bool madv = false; for (auto &x : inj) madv |= x.k == EV_MADVISE;
                if (!madv) fail("C10", "large-contents-remain", "freed large block %#lx+%lu still holds its contents", o.a, o.us);
            }
            m.fenced_rw.push_back({o.a, o.a + o.span()}); m.fenced_rw = iv_norm(m.fenced_rw);
        }
        large_freed({o.a - o.guard, o.a + o.span() + o.guard}, o.span(), before, true);
    } else {
        small_freed(o);
        if (o.kind == SMALL && zero_on_free && want("C10") && nz_rw_bytes(o.a, o.a + o.us))
            fail("C10", "small-contents-remain", "freed block %#lx+%lu still holds %lu non-zero bytes", o.a, o.us, nz_rw_bytes(o.a, o.a + o.us));
    }
    check_state();
}

int Heap::do_realloc(int i, u64 n) {
    if (i < 0) {
        // realloc(NULL, n)
        Heap *h = this; auto om = T.malloc;
        T.malloc = [](size_t s) -> void * { return T.realloc(nullptr, s); };
        int k;
        try { k = h->do_alloc(0, n, 0); } catch (...) { T.malloc = om; throw; }
        T.malloc = om;
        return k;
    }
    Obj o = m.objs[i];
    IvSet before = mapped_set();
    draws.clear(); injected = 0; injected_unmap = false; inj.clear();
    u64 q = 0, us = 0;
    Result r = call([&] { q = (u64)T.realloc((void *)o.a, n); });
    int err = last_errno;
    shown = mc::fmt("realloc(%#lx, %lu)  (block of %lu) -> %#lx", o.a, n, o.req, q) + (injected ? " [a system call failed with ENOMEM]" : "") + (r.o != O_OK ? " : " + r.msg : "");
    if (r.o == O_FATAL && !m.poisoned.empty() && r.msg.find("write after free") != std::string::npos) throw mc::Prune{};
    if (r.o == O_FATAL && r.msg.find("canary") != std::string::npos) fail("C08", "false-alarm", "%s: %s", shown.c_str(), r.msg.c_str());
    if (r.o != O_OK) fail("C04", "realloc-crash", "%s: %s", shown.c_str(), r.msg.c_str());
    need_ok(r, shown.c_str());
    if (q != o.a) enter_thread();
    if (!q) {
        bool huge = large_size(n) == 0 || n > (1ull << 42);
        if (!injected && !huge) {
            // full class regions / tables
            int k = class_of(adjust(n)); u64 reg = cfg("CONFIG_CLASS_REGION_SIZE"); bool full = k < 0;
            if (k >= 0) { ClassM &c = cm(o.arena, k); full = (c.next + 1) * (u64)classes[k].slab > reg; }
            if (!full) { fail("C04", "refused", "%s failed although memory was available", shown.c_str()); throw mc::Prune{}; }
        }
        if (err != ENOMEM) { fail("C17", "errno", "%s failed with errno %d instead of ENOMEM", shown.c_str(), err); fail("C04", "errno", "%s failed with errno %d instead of ENOMEM", shown.c_str(), err); }
        mc::count("refused_reallocs");
        r = call([&] { us = T.malloc_usable_size((void *)o.a); });
        if (r.o != O_OK || us != o.us) fail("C04", "lost-on-failure", "after failed %s the block is gone or changed size: %s usable %lu (was %lu)", shown.c_str(), r.msg.c_str(), us, o.us);
        u64 bad;
        Result c = env::run_([&] { bad = 0; if (!intact(o, &bad)) bad |= 1ull << 63; });
        if (c.o != O_OK || bad >> 63) { fail("C04", "lost-on-failure", "after failed %s the block's contents are damaged: %s", shown.c_str(), c.msg.c_str()); fail("C17", "lost-on-failure", "after failed %s the block's contents are damaged: %s", shown.c_str(), c.msg.c_str()); throw mc::Prune{}; }
        mapped_check(shown.c_str());
        check_state();
        return i;
    }
    r = call([&] { us = T.malloc_usable_size((void *)q); });
    if (r.o != O_OK) { fail("C04", "result-not-live", "%s: result: %s", shown.c_str(), r.msg.c_str()); need_ok(r, "malloc_usable_size"); }
    if (us < n) fail("C02", "too-small", "%s: usable size %lu", shown.c_str(), us);
    // contents
    u64 keep = std::min(o.us, n);
    if (o.kind != ZERO && keep) {
        u64 bad = ~0ull;
        Result c = env::run_([&] {
            auto cmp = [&](u64 x) {
                u64 w = pattern(o.a + x); u64 k = std::min<u64>(8, keep - x);
                if (memcmp((void *)(q + x), &w, k)) bad = x;
            };
            if (big(o, light_fill)) { for (u64 x : sample_offs(o.us)) if (x < keep) cmp(x); }
            else for (u64 x = 0; x < keep && bad == ~0ull; x += 8) cmp(x);
        });
        if (c.o != O_OK || bad != ~0ull) {
            fail("C04", "contents-lost", "%s: contents differ at offset %lu of %lu preserved bytes %s", shown.c_str(), bad, keep, c.msg.c_str());
            if (c.o != O_OK) throw mc::Prune{};
        }
    }
    if (q == o.a) {
        Obj &x = m.objs[i];
        u64 old = o.us;
        if (o.kind == LARGE && us < old) {
            x.us = us; x.req = n;
            if (!injected && !none_accessible(o.a + us, o.a + old + o.guard)) {
                fail("C14", "accessible-after-shrink", "%s: tail of the shrunk block is still accessible", shown.c_str());
                fail("C13", "guard-accessible", "%s: tail of the shrunk block is still accessible", shown.c_str());
            }
            if (!none_accessible(o.a + us, o.a + us + o.guard)) fail("C13", "guard-accessible", "%s: guard after the shrunk block is accessible", shown.c_str());
            if (want("C10")) {
                bool madv = false; for (auto &z : inj) madv |= z.k == EV_MADVISE;
                if (!madv && nz_rw_bytes(o.a + us, o.a + old)) fail("C10", "large-contents-remain", "%s: tail still holds its contents", shown.c_str());
            }
            Iv part{o.a + us + o.guard, o.a + old + o.guard};
            if (!none_accessible(part.s, part.e)) { m.fenced_rw.push_back(part); m.fenced_rw = iv_norm(m.fenced_rw); }
            large_freed(part, old - us, before, true);
        } else if (o.kind == LARGE && us > old) {
            IvSet added = iv_sub(mapped_set(), before);
            if (!(added.size() == 1 && added[0].s == o.a + old + o.guard && added[0].e == o.a + us + o.guard))
                fail("C13", "in-place-growth", "%s: growth in place reserved %s", shown.c_str(), ivs(added).c_str());
            x.us = us; x.req = n;
        } else {
            if (us != old) fail("C24", "usable-size-changed", "%s: usable size changed from %lu to %lu without a move", shown.c_str(), old, us);
            x.req = n;
        }
        Obj cp = x;
        Result c = env::run_([&] { fill(cp); });
        if (c.o != O_OK) { fail("C04", "not-writable", "%s: %s", shown.c_str(), c.msg.c_str()); need_ok(c, shown.c_str()); }
        check_state();
        return i;
    }
    // moved: old block released
    m.objs.erase(m.objs.begin() + i);
    std::string nm = shown;
    int j = add(q, us, n, 16, nm.c_str(), false, 0);
    if (zero_on_free && m.objs[j].kind != ZERO && want("C03") && us > std::min(o.us, us)) {
        u64 from = std::min(o.us, us), bad = 0;
        Result c = env::run_([&] {
            if (big(m.objs[j], light_fill)) { for (u64 x : sample_offs(us)) if (x >= from && x + 8 <= us && *(u64 *)(q + x)) bad = x; }
            else for (u64 x = from; x < us; x++) if (*(u8 *)(q + x)) { bad = x; break; }
        });
        if (c.o != O_OK || bad) fail("C03", "not-zero", "%s: byte %lu of the grown block is not zero", nm.c_str(), bad);
    }
    IvSet after = mapped_set();
    if (m.objs[j].kind == LARGE) {
        IvSet added = iv_sub(after, before);
        u64 g0 = 0, g1 = 0, sp = m.objs[j].span();
        for (auto &x : added) if (x.s <= q && q + sp <= x.e) { g0 = q - x.s; g1 = x.e - (q + sp); }
        if (!g0 || !g1) fail("C13", "no-guard", "%s: block reserved with %lu bytes before and %lu after it", nm.c_str(), g0, g1);
        if (!injected && (g0 != g1 || g0 > std::max<u64>(1, us / PG / guard_div) * PG)) fail("C13", "guard-size", "%s: guards of %lu and %lu bytes", nm.c_str(), g0, g1);
        m.objs[j].guard = g0;
        if (!none_accessible(q - g0, q) || !none_accessible(q + sp, q + sp + g1)) fail("C13", "guard-accessible", "%s: a guard is accessible", nm.c_str());
    } else {
        for (auto &x : m.poisoned)
            if (x.first == q) fail("C09", "undetected", "slot %#lx handed out although its byte %lu was changed while it was free", q, x.second);
        Obj cp = m.objs[j];
        // the allocation happened before the release
        small_alloced(cp);
    }
    if (o.kind == LARGE) {
        bool gone = none_accessible(o.a, o.a + o.span());
        if (!injected && !none_accessible(o.a - o.guard, o.a + o.span() + o.guard)) fail("C14", "accessible-after-free", "%s: the old block is still accessible", nm.c_str());
        if (!gone && want("C10") && nz_rw_bytes(o.a, o.a + o.span())) {
            bool madv = false; for (auto &x : inj) madv |= x.k == EV_MADVISE;
            if (!madv) fail("C10", "large-contents-remain", "%s: the old block still holds its contents", nm.c_str());
        }
        if (!gone) { m.fenced_rw.push_back({o.a, o.a + o.span()}); m.fenced_rw = iv_norm(m.fenced_rw); }
        IvSet mid = before;
        large_freed({o.a - o.guard, o.a + o.span() + o.guard}, o.span(), mid, true);
    } else {
        small_freed(o);
        if (o.kind == SMALL && zero_on_free && want("C10") && nz_rw_bytes(o.a, o.a + o.us)) fail("C10", "small-contents-remain", "%s: the old block still holds its contents", nm.c_str());
    }
    j = find(q);
    Obj cp = m.objs[j];
    Result c = env::run_([&] { fill(cp); });
    if (c.o != O_OK) { fail("C04", "not-writable", "%s: %s", nm.c_str(), c.msg.c_str()); need_ok(c, nm.c_str()); }
    shown = nm;
    check_state();
    return find(q);
}

void Heap::do_trim() {
    draws.clear(); injected = 0; injected_unmap = false; inj.clear();
    int ret = 0;
    // purge: by bionic's name for it
    Result r = call([&] { ret = purge ? T.mallopt(-101, 0) : T.malloc_trim(0); });
    shown = mc::fmt("malloc_trim(0) -> %d", ret) + (injected ? " [a system call failed with ENOMEM]" : "") + (r.o != O_OK ? " : " + r.msg : "");
    if (r.o != O_OK) fail("C26", "trim-crash", "%s", shown.c_str());
    need_ok(r, shown.c_str());
    bool any = false; size_t di = 0;
    for (auto &kv : m.cls) {
        ClassM &c = kv.second;
        const ClassInfo &ci = classes[kv.first % 64];
        if (!ci.size) continue;
        std::vector<int> rel; bool left = false;
        for (size_t i = 0; i < c.slabs.size(); i++)
            if (c.slabs[i].st == S_CACHED) {
                u64 s = c.base + i * ci.slab;
                if (none_accessible(s, s + ci.slab)) { rel.push_back(i); continue; }
                left = true;
                if (!injected) fail("C26", "not-trimmed", "%s left an empty slab of class %u accessible", shown.c_str(), ci.size);
            }
        (void)left;
        for (int i : rel) {
            c.slabs[i].st = S_RELEASED;
            c.cached -= ci.slab;
            any = true;
            u64 lo = c.base + i * ci.slab, hi = lo + ci.slab;
            m.poisoned.erase(std::remove_if(m.poisoned.begin(), m.poisoned.end(), [&](auto &x) { return x.first >= lo && x.first < hi; }), m.poisoned.end());
            int v = 0; bool seen = fsq <= 1;
            while (fsq > 1 && di < draws.size()) { auto &d = draws[di++]; if (d.bound == (u64)fsq) { v = (int)d.val; seen = true; break; } }
            if (rel.size() > 1 || !seen) c.fifo_exact = false;
            if (c.fifo_exact) enqueue(c, i, v);
        }
        if (!c.fifo_exact) { c.fifo.clear(); }
        // large slots waiting in quarantine may have been purged
        if (ci.size >= 20480) for (u64 p : c.rq) if (p) m.poisoned.erase(std::remove_if(m.poisoned.begin(), m.poisoned.end(), [&](auto &x) { return x.first == p; }), m.poisoned.end());
        if (ci.size >= 20480) for (u64 p : c.q) if (p) m.poisoned.erase(std::remove_if(m.poisoned.begin(), m.poisoned.end(), [&](auto &x) { return x.first == p; }), m.poisoned.end());
    }
    bool model_ok = true;
    for (auto &kv : m.cls) if (!kv.second.q_exact) model_ok = false;
    if (purge && ret != 1) fail("C26", "mallopt", "mallopt(M_PURGE) returned %d", ret);
    if (!purge && model_ok && (ret != 0) != any) fail("C26", "return-value", "%s although %s", shown.c_str(), any ? "empty slabs were released" : "nothing was released");
    check_state();
}

// a thread is given its arena, round-robin, by its first allocation
void Heap::enter_thread() {
    if (!m.arena_of.empty() && m.arena_of[m.thread] < 0) m.arena_of[m.thread] = m.started++ % n_arena;
}

void Heap::set_thread(int t) {
    size_t n; u8 *p = (u8 *)tls_ptr(&n);
    if (m.tls.empty()) { m.tls.push_back(std::vector<u8>(p, p + n)); if (m.arena_of.empty()) m.arena_of.push_back(0); m.started = 1; }
    m.tls[m.thread].assign(p, p + n);
    while ((int)m.tls.size() <= t) { m.tls.push_back(tls0); m.arena_of.push_back(-1); }
    m.thread = t;
    memcpy(p, m.tls[t].data(), n);
}

void Heap::check_state() {
    if (quiet) return;
    if (held_mutexes) { fail("C19", "lock-held", "%s returned with %d lock(s) held", shown.c_str(), held_mutexes); fail("*", "lock-held", "%s returned with %d lock(s) held", shown.c_str(), held_mutexes); }
    if (!left_open.empty()) { std::string w = left_open; left_open.clear(); fail("C29", "left-unsealed", "%s: %s returned with metadata access enabled", shown.c_str(), w.c_str()); }
    // accessible memory by category
    IvSet slab_rw, large_rw, meta_acc;
    for (auto &v : vmas) {
        if (v.prot == P_NONE) continue;
        u64 s = v.s, e = v.e;
        // reservations can touch: split at their borders
        while (s < e) {
            u64 n = e; int cat = 1;
            if (s >= slab_s && s < slab_e) { cat = 0; n = std::min(e, slab_e); }
            else {
                for (auto &x : meta) if (s >= x.s && s < x.e) { cat = 2; n = std::min(e, x.e); }
                if (cat == 1) {
                    if (slab_s > s) n = std::min(n, slab_s);
                    for (auto &x : meta) if (x.s > s) n = std::min(n, x.s);
                }
            }
            (cat == 0 ? slab_rw : cat == 1 ? large_rw : meta_acc).push_back({s, n});
            if (cat == 2 && cfg("CONFIG_SEAL_METADATA") && pkey_have >= 0 && v.pkey != (u32)pkey_have)
                fail("C29", "metadata-without-key", "metadata [%#lx,%#lx) is not protected by the key", s, n);
            s = n;
        }
    }
    slab_rw = iv_norm(slab_rw); large_rw = iv_norm(large_rw); meta_acc = iv_norm(meta_acc);
    IvSet es, el; bool exact = true;
    for (auto &kv : m.cls) {
        const ClassInfo &ci = classes[kv.first % 64];
        if (!kv.second.q_exact) exact = false;
        if (!ci.size) continue;
        for (size_t i = 0; i < kv.second.slabs.size(); i++)
            if (kv.second.slabs[i].st == S_ACTIVE || kv.second.slabs[i].st == S_CACHED) es.push_back({kv.second.base + i * ci.slab, kv.second.base + (i + 1) * (u64)ci.slab});
    }
    es = iv_norm(es);
    if (exact && !iv_eq(es, slab_rw)) {
        IvSet extra = iv_sub(slab_rw, es), miss = iv_sub(es, slab_rw);
        if (!extra.empty()) fail("C12", "slab-memory-accessible", "after %s: %s should be inaccessible", shown.c_str(), ivs(extra).c_str());
        if (!extra.empty()) fail("C26", "slab-memory-accessible", "after %s: %s should be inaccessible", shown.c_str(), ivs(extra).c_str());
        if (!miss.empty()) { fail("C12", "slab-memory-inaccessible", "after %s: %s should be accessible", shown.c_str(), ivs(miss).c_str()); fail("C01", "slab-memory-inaccessible", "after %s: %s should be accessible", shown.c_str(), ivs(miss).c_str()); }
    }
    for (auto &o : m.objs) if (o.kind == LARGE) el.push_back({o.a, o.a + o.span()});
    el = iv_norm(el);
    IvSet extra = iv_sub(iv_sub(large_rw, el), m.fenced_rw), miss = iv_sub(el, large_rw);
    if (!miss.empty()) {
        fail("C01", "large-inaccessible", "after %s: live memory %s is inaccessible", shown.c_str(), ivs(miss).c_str());
        fail("C13", "large-inaccessible", "after %s: live memory %s is inaccessible", shown.c_str(), ivs(miss).c_str());
        fail("C14", "large-inaccessible", "after %s: live memory %s is inaccessible", shown.c_str(), ivs(miss).c_str());
        fail("C17", "large-inaccessible", "after %s: live memory %s is inaccessible", shown.c_str(), ivs(miss).c_str());
        throw mc::Prune{};
    }
    for (auto &x : extra) {
        bool guard = false;
        for (auto &o : m.objs) if (o.kind == LARGE && x.s < o.a + o.span() + o.guard && o.a - o.guard < x.e) guard = true;
        bool owned = iv_has(expected_mapped(), x.s, x.s + PG);
        if (guard) fail("C13", "guard-accessible", "after %s: guard memory [%#lx,%#lx) is accessible", shown.c_str(), x.s, x.e);
        else if (owned && !injected) fail("C14", "quarantine-accessible", "after %s: quarantined memory [%#lx,%#lx) is accessible", shown.c_str(), x.s, x.e);
        else if (!owned && !injected) fail("C16", "stray-accessible", "after %s: memory [%#lx,%#lx) outside every block and the metadata is accessible", shown.c_str(), x.s, x.e);
        if (injected) { m.fenced_rw.push_back(x); m.fenced_rw = iv_norm(m.fenced_rw); }
    }
    if (want("C16")) {
        for (auto &x : meta) {
            if (!none_accessible(x.s, x.s + PG) || !none_accessible(x.e - PG, x.e)) fail("C16", "metadata-guard", "the metadata reservation's edges are accessible");
        }
        for (auto &g : so_ranges())
            for (u64 a = (g.first + 7) & ~7ull; a + 8 <= g.second; a += 8) {
                u64 v = *(u64 *)a;
                if (v >= WB && v < WE && !so_readonly(a) && mapped_range(pgdn(v), pgdn(v) + PG))
                    fail("C16", "writable-pointer", "a pointer to %#lx is kept in writable global data", v);
            }
        u64 rw = 0, lim = 0;
        for (auto &x : meta_acc) rw += x.e - x.s;
        u64 nl = 0;
        for (auto &o : m.objs) nl += o.kind == LARGE;
        for (auto &kv : m.cls) lim += pgup(std::max<u64>(1, kv.second.next) * 2 * 256) + PG;
        lim += 4 * PG + pgup(std::max<u64>(m.last, nl) * 24 * 4);
        if (meta_rw && rw > meta_rw + lim) fail("C16", "metadata-exposure", "%lu bytes of metadata accessible, %lu at start, growth of at most %lu justified", rw, meta_rw, lim);
        m.last = std::max(m.last, nl);
    }
    mapped_check(shown.c_str());
    if (want("C24")) {
        for (auto &o : m.objs) {
            u64 us = 0;
            Result r = env::run_([&] { us = T.malloc_usable_size((void *)o.a); });
            if (r.o != O_OK) fail("C24", "query-abort", "malloc_usable_size(%#lx) of a live block: %s", o.a, r.msg.c_str());
            if (us != o.us) fail("C24", "usable-size-changed", "malloc_usable_size(%#lx) changed from %lu to %lu", o.a, o.us, us);
        }
    }
    check_contents("C01");
    if (want("C17") && injected) check_contents("C17");
    if (want("C26") && shown.compare(0, 11, "malloc_trim") == 0) check_contents("C26");
    check_stats();
}

static u64 xml_num(const std::string &s, const char *tag, size_t from) {
    std::string t = std::string("<") + tag + ">";
    size_t p = s.find(t, from);
    return p == std::string::npos ? ~0ull : strtoull(s.c_str() + p + t.size(), nullptr, 10);
}
void Heap::check_android_stats(const std::vector<std::map<int, const ClassM *>> &bya, u64 large) {
    Result r = env::run_([&] {
        size_t na = T.mallinfo_narenas(), nb = T.mallinfo_nbins();
        if (na != (size_t)n_arena + 1) fail("C25", "narenas", "mallinfo_narenas() = %zu", na);
        if (nb != classes.size()) fail("C25", "nbins", "mallinfo_nbins() = %zu instead of %zu", nb, classes.size());
        for (size_t a = 0; a < na + 2; a++) {
            struct mallinfo2 i = T.mallinfo_arena_info(a == na + 1 ? ~0ull : a);
            u64 live = 0, slab = 0, big = a == na - 1 ? large : 0;
            for (size_t b = 0; b < nb + 2; b++) {
                struct mallinfo2 s = T.mallinfo_bin_info(a == na + 1 ? ~0ull : a, b == nb + 1 ? ~0ull : b);
                u64 e[3] = {0, 0, 0};
                if (a < na - 1 && bya[a].count(b)) {
                    const ClassM &c = *bya[a].at(b); const ClassInfo &ci = classes[b];
                    u64 l = 0, sl = 0;
                    for (auto &x : c.slabs) { l += x.live; sl += x.st == S_ACTIVE || x.st == S_CACHED; }
                    e[0] = l * (ci.size ? ci.size : 16); e[1] = c.nmalloc; e[2] = c.ndalloc;
                    live += e[0]; slab += sl * ci.slab;
                }
                if (s.ordblks != e[0] || s.uordblks != e[1] || s.fordblks != e[2])
                    fail("C25", "bin-info", "after %s: bin %zu of arena %zu: allocated %zu allocations %zu frees %zu instead of %lu %lu %lu", shown.c_str(), b, a, (size_t)s.ordblks, (size_t)s.uordblks, (size_t)s.fordblks, e[0], e[1], e[2]);
            }
            if (i.hblkhd != slab + big || i.fsmblks != live || i.uordblks != big)
                fail("C25", "arena-info", "after %s: arena %zu: mapped %zu small %zu large %zu instead of %lu %lu %lu", shown.c_str(), a, (size_t)i.hblkhd, (size_t)i.fsmblks, (size_t)i.uordblks, slab + big, live, big);
        }
    });
    need_ok(r, "Android's statistics");
}
void Heap::check_stats() {
    if (!want("C25")) return;
    struct mallinfo2 mi;
    Result r = env::run_([&] { mi = T.mallinfo2(); });
    need_ok(r, "mallinfo2");
    static char *xml; static size_t xmln; static FILE *fp;
    fp = open_memstream(&xml, &xmln);
    int rc = -1;
    r = env::run_([&] { rc = T.malloc_info(0, fp); });
    fclose(fp);
    std::string x(xml, xmln);
    free(xml);
    need_ok(r, "malloc_info");
    if (rc) fail("C25", "malloc-info", "malloc_info returned %d", rc);
    if (x.compare(0, 16, "<malloc version=") || x.size() < 9 || x.compare(x.size() - 9, 9, "</malloc>")) fail("C25", "malloc-info", "malformed: %s", x.c_str());
    if (!has_stats) {
        if (mi.hblkhd || mi.uordblks || mi.fordblks || mi.usmblks) fail("C25", "not-zero", "counters are not zero with statistics disabled");
        return;
    }
    u64 alloc = 0, slab = 0, large = 0;
    std::vector<std::map<int, const ClassM *>> bya(n_arena);
    for (auto &kv : m.cls) {
        const ClassInfo &ci = classes[kv.first % 64];
        u64 live = 0, sl = 0;
        for (auto &s : kv.second.slabs) { live += s.live; sl += s.st == S_ACTIVE || s.st == S_CACHED; }
        alloc += live * (ci.size ? ci.size : 16); slab += sl * ci.slab;
        if (kv.second.nmalloc) bya[kv.first / 64][kv.first % 64] = &kv.second;
    }
    for (auto &o : m.objs) if (o.kind == LARGE) large += o.us;
    if (mi.uordblks != alloc + large) fail("C25", "uordblks", "after %s: mallinfo reports %lu bytes in use, %lu are", shown.c_str(), (u64)mi.uordblks, alloc + large);
    if (mi.hblkhd != slab + large) fail("C25", "hblkhd", "after %s: mallinfo reports %lu bytes mapped for blocks, %lu are", shown.c_str(), (u64)mi.hblkhd, slab + large);
    if (mi.fordblks != mi.hblkhd - mi.uordblks) fail("C25", "fordblks", "fordblks %lu", (u64)mi.fordblks);
    if (mi.usmblks < mi.hblkhd) fail("C25", "usmblks", "usmblks %lu below hblkhd %lu", (u64)mi.usmblks, (u64)mi.hblkhd);
    if (android) { check_android_stats(bya, large); return; }
    size_t pos = 0;
    for (int a = 0; a < n_arena; a++) {
        std::string h = mc::fmt("<heap nr=\"%d\">", a);
        pos = x.find(h, pos);
        if (pos == std::string::npos) { fail("C25", "malloc-info", "no entry for arena %d", a); return; }
        size_t end = x.find("</heap>", pos);
        std::string heap = x.substr(pos, end - pos);
        size_t bins = 0;
        for (size_t q = heap.find("<bin "); q != std::string::npos; q = heap.find("<bin ", q + 1)) bins++;
        size_t expect_bins = 0;
        for (auto &kv : bya[a]) {
            const ClassInfo &ci = classes[kv.first];
            const ClassM &c = *kv.second;
            u64 live = 0, sl = 0;
            for (auto &s : c.slabs) { live += s.live; sl += s.st == S_ACTIVE || s.st == S_CACHED; }
            if (!(c.nmalloc || c.ndalloc || live || sl)) continue;
            expect_bins++;
            std::string b = mc::fmt("<bin nr=\"%d\" size=\"%u\">", kv.first, ci.size);
            size_t q = heap.find(b);
            if (q == std::string::npos) { fail("C25", "bin-missing", "after %s: no statistics for class %u of arena %d", shown.c_str(), ci.size, a); continue; }
            u64 v[4] = {xml_num(heap, "nmalloc", q), xml_num(heap, "ndalloc", q), xml_num(heap, "slab_allocated", q), xml_num(heap, "allocated", q)};
            u64 e[4] = {c.nmalloc, c.ndalloc, sl * ci.slab, live * (ci.size ? ci.size : 16)};
            static const char *nm[] = {"nmalloc", "ndalloc", "slab_allocated", "allocated"};
            for (int k = 0; k < 4; k++) if (v[k] != e[k]) fail("C25", nm[k], "after %s: class %u: %s is %lu, %lu expected", shown.c_str(), ci.size, nm[k], v[k], e[k]);
        }
        if (bins != expect_bins) fail("C25", "bins", "after %s: arena %d reports %zu classes, %zu were used", shown.c_str(), a, bins, expect_bins);
    }
    u64 al = xml_num(x, "allocated_large", pos);
    if (al != large) fail("C25", "allocated_large", "after %s: %lu bytes of large allocations reported, %lu live", shown.c_str(), al, large);
}

void Heap::scan_leftovers() {
    // every non-zero byte of accessible slab memory belongs to a live block or is a canary
    std::vector<u64> pg;
    touched_pages(pg);
    static std::vector<u8> okb;
    for (u64 a : pg) {
        if (a < slab_s || a >= slab_e) continue;
        int pr = prot_at(a);
        if (pr != P_RW && pr != P_R) continue;
        const ClassM *c = nullptr; int cls = 0;
        for (auto &kv : m.cls) {
            const ClassInfo &ci = classes[kv.first % 64];
            if (kv.second.base && a >= pgdn(kv.second.base) && a < kv.second.base + kv.second.slabs.size() * ci.slab) { c = &kv.second; cls = kv.first % 64; }
        }
        Result r = env::run_([&] {
            for (u64 w = a; w < a + PG; w += 8) {
                if (!*(u64 *)w) continue;
                bool ok = false;
                if (c) {
                    const ClassInfo &ci = classes[cls];
                    u64 off = (w - c->base) % ci.slab, slot = off / ci.size, in = off % ci.size;
                    if (slot < ci.slots) {
                        if (has_canary && in >= ci.size - 8) ok = true;      // canary position
                        else {
                            u64 st = w - in;
                            for (auto &o : m.objs) if (o.a == st && in < o.us) ok = true;
                            for (auto &x : m.poisoned) if (x.first == st) ok = true;
                            if (!zero_on_free) ok = true;
                        }
                    }
                }
                if (!ok) { static u64 bad; bad = w; escape(O_TRAP, "leftover", bad); }
            }
        });
        if (r.o != O_OK) {
            if (r.msg == "leftover") {
                fail("C10", "leftover", "after %s: heap byte at %#lx is non-zero but belongs to no live block", shown.c_str(), r.addr);
                fail("C16", "heap-bookkeeping", "after %s: heap byte at %#lx is non-zero but belongs to no live block", shown.c_str(), r.addr);
            } else need_ok(r, "scan");
        }
    }
}

std::vector<u64> Heap::free_slots(int) const { return {}; }

u64 Heap::hash() {
    u64 h = 0x1234567;
    auto mix = [&](u64 x) { h = mix64(h * 31 + x + 0x9e37); };
    for (auto &o : m.objs) { mix(o.a); mix(o.req); mix(o.us); mix(o.guard); mix(o.align); }
    for (auto &kv : m.cls) {
        mix(kv.first);
        const ClassM &c = kv.second;
        for (auto &s : c.slabs) mix(s.st | (u64)s.live << 8 | (u64)s.quar << 24);
        for (u64 x : c.rq) mix(x);
        for (u64 x : c.q) mix(x);
        mix(c.qi);
        for (int x : c.frand) mix(x);
        for (int x : c.fifo) mix(x);
        mix(c.next * 1000 + c.unguarded);
        mix(c.q_exact * 2 + c.fifo_exact);
        if (!c.q_exact) { mix(c.frees); for (auto &x : c.inexact) { mix(x.first); mix(x.second); } }
        if (has_stats && want("C25")) { mix(c.nmalloc); mix(c.ndalloc); }
    }
    for (auto &x : m.rrand) mix(x.s);
    for (auto &x : m.rq) mix(x.s);
    mix(m.rqi); mix(m.faults); mix(m.thread); mix(m.started); mix(m.pokes); mix(m.budget); mix(m.extra); mix(m.notag); mix(m.words); mix(m.stream_pos);
    if (m.focus >= 0) mix(m.focus + 77);
    for (auto &x : m.leaked) { mix(x.s); mix(x.e); }
    for (auto &x : m.fenced_rw) { mix(x.s); mix(x.e); }
    for (auto &x : m.poisoned) { mix(x.first); mix(x.second); }
    for (auto &t : m.tls) mix(hash_bytes(t.data(), t.size(), 3));
    for (auto &x : m.arena_of) mix(x);
    return h;
}
void Heap::load_tls() {}
} // namespace heap
