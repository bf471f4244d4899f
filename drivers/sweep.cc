// Every input of a call from a fixed heap state: sizes, alignments, claimed sizes, C++ operator forms and new-handlers.
#include "drivers.h"
#include "seq.h"
#include <algorithm>
#include <cerrno>
#include <new>
#include <set>
#include <unistd.h>

using namespace env;
using namespace heap;
using mc::fail;
using mc::want;

namespace {
struct Sweep : seq::Seq {
    Snap *S = nullptr; std::shared_ptr<void> M; u64 h0 = 0;
    void begin() { S = snapshot(); M = save(); }
    void back() { restore(S); load(M); }
};
Sweep W;

u64 pow2(u64 a) { return a && !(a & (a - 1)); }
void around(std::set<u64> &s, u64 x, int d = 2) { for (int i = -d; i <= d; i++) s.insert(x + i); }
// every size at which the treatment of a request can change, with its neighbours
std::vector<u64> sizes(bool wide, bool few = false) {
    std::set<u64> s;
    if (few) {
        for (u64 i = 0; i < 18; i++) s.insert(i);
        for (auto &c : classes) around(s, c.size - canary, 1);
        for (int k = 12; k < 64; k++) around(s, 1ull << k, 1);
        for (u64 b : {40000ul, 131065ul, 163840ul, 163841ul, 1000000ul, ~0ul, ~0ul - 4095, ~0ul - 4096, ~0ul - 8191}) s.insert(b);
        return std::vector<u64>(s.begin(), s.end());
    }
    for (u64 i = 0; i < (wide ? 600 : 40); i++) s.insert(i);
    for (auto &c : classes) { around(s, c.size); around(s, c.size - canary); around(s, c.size + canary); }
    for (int k = 12; k < 64; k++) for (int q = 0; q < 8; q++) {
        u64 b = (1ull << k) / 8 * (8 + q);
        if (k >= 44 && k < 61 && q % 4) continue;
        around(s, b); around(s, b - canary); around(s, b + PG); around(s, b - PG);
    }
    for (u64 d : {0ul, 1ul, 7ul, 8ul, 9ul, 16ul, 4095ul, 4096ul, 4097ul, 8191ul, 8192ul, 8193ul, 16384ul, 65536ul, 131072ul, 1ul << 20}) { s.insert(~0ull - d); s.insert((1ull << 63) - d); s.insert((1ull << 63) + d); s.insert((1ull << 61) * 7 + d); s.insert((1ull << 61) * 7 - d); }
    return std::vector<u64>(s.begin(), s.end());
}
std::vector<u64> alignments() {
    std::vector<u64> v;
    for (int k = 0; k < 64; k++) v.push_back(1ull << k);
    for (u64 a : {0ul, 3ul, 5ul, 6ul, 7ul, 12ul, 15ul, 17ul, 24ul, 31ul, 33ul, 48ul, 63ul, 65ul, 96ul, 1000ul, 4095ul, 4097ul, 6144ul, 12288ul, 65537ul, ~0ul, (1ul << 63) + 1, (1ul << 63) - 1, 3ul << 62}) v.push_back(a);
    return v;
}
const char *FN[] = {"malloc", "calloc", "aligned_alloc", "posix_memalign", "memalign", "valloc", "pvalloc"};

// one allocation request, judged, and given back
void one(int fn, u64 a, u64 b, bool release) {
    bool aligned = fn >= 2 && fn <= 4;
    mc::note_probe();
    bool bad_align = aligned && (!pow2(a) || (fn == 3 && a < sizeof(void *)));
    u64 req = fn == 1 ? a * b : aligned ? b : a;
    bool overflow = fn == 1 && (unsigned __int128)a * b > ~0ull;
    if (fn == 6 && a > ~0ull - 4095) overflow = true;
    u64 al = aligned ? a : fn >= 5 ? PG : 16;
    // more than the address space of the model holds
    if (!overflow && !bad_align && ((req > (1ull << 44) && req <= (1ull << 46)) || (al > (1ull << 44) && al <= (1ull << 46)))) return;   // depends on the layout
    bool impossible = overflow || req > (1ull << 46) || al > (1ull << 46);
    if (bad_align || impossible) {
        u64 p = 0; int rc = 0, err = 0; void *q = (void *)0x1234567;
        Result r = env::run_([&] {
            errno = 0x5a5a;
            switch (fn) {
            case 0: p = (u64)T.malloc(a); break;
            case 1: p = (u64)T.calloc(a, b); break;
            case 2: p = (u64)T.aligned_alloc(a, b); break;
            case 3: rc = T.posix_memalign(&q, a, b); break;
            case 4: p = (u64)T.memalign(a, b); break;
            case 5: p = (u64)T.valloc(a); break;
            case 6: p = (u64)T.pvalloc(a); break;
            }
            err = errno;
        });
        std::string what = mc::fmt("%s(%#lx, %#lx)", FN[fn], a, b);
        if (r.o != O_OK) { fail("C02", "crash", "%s: %s %s", what.c_str(), outcome_name[r.o], r.msg.c_str()); fail("*", "crash", "%s: %s %s", what.c_str(), outcome_name[r.o], r.msg.c_str()); }
        int code = fn == 3 ? rc : err;
        if (p || (fn == 3 && !rc)) {
            fail("C02", bad_align ? "bad-alignment-accepted" : "too-small", "%s succeeded", what.c_str());
        } else {
            if (code != (bad_align ? EINVAL : ENOMEM)) fail("C02", "errno", "%s fails with error %d instead of %s", what.c_str(), code, bad_align ? "EINVAL" : "ENOMEM");
        }
        if (held_mutexes) fail("*", "lock-held", "%s left a lock held", what.c_str());
        // nothing may be kept
        W.draws.clear();
        mc::note_oracle();
        W.back();
        return;
    }
    int i = W.do_alloc(fn, a, b);
    if (i >= 0) {
        Obj o = W.m.objs[i];
        if (want("C24")) {
            u64 v = 0, f = 0, f2 = 0;
            Result r = env::run_([&] { v = T.malloc_object_size((void *)o.a); f = T.malloc_object_size_fast((void *)o.a); f2 = o.us ? T.malloc_object_size((void *)(o.a + o.us - 1)) : 0; });
            if (r.o != O_OK) fail("C24", "object-size-abort", "size queries of a block of %lu: %s", req, r.msg.c_str());
            if (v != o.us) fail("C24", "object-size", "malloc_object_size of a block of usable size %lu is %lu", o.us, v);
            if (f < v) fail("C24", "object-size-fast", "malloc_object_size_fast of a block of usable size %lu is %lu", o.us, f);
            if (o.kind == SMALL && f2 != 1) fail("C24", "object-size", "malloc_object_size of the last byte of a block of usable size %lu is %lu", o.us, f2);
        }
        if (release) {
            // the size it was requested with is accepted, whatever rounding happened
            i = W.find(o.a);
            bool plain = al <= 16;
            W.do_free(i, plain && fn != 5 && fn != 6 ? 1 : 0, req);
        }
    }
    W.back();
}

// ---------------------------------------------------------------- C++ operators
typedef void *(*New)(size_t); typedef void *(*NewNT)(size_t, const std::nothrow_t &);
typedef void *(*NewAl)(size_t, std::align_val_t); typedef void *(*NewAlNT)(size_t, std::align_val_t, const std::nothrow_t &);
struct Form { const char *name, *sym; bool aligned, nothrow; void *f; };
Form NEWS[] = {{"operator new(n)", "_Znwm", false, false, 0}, {"operator new[](n)", "_Znam", false, false, 0},
               {"operator new(n, nothrow)", "_ZnwmRKSt9nothrow_t", false, true, 0}, {"operator new[](n, nothrow)", "_ZnamRKSt9nothrow_t", false, true, 0},
               {"operator new(n, align)", "_ZnwmSt11align_val_t", true, false, 0}, {"operator new[](n, align)", "_ZnamSt11align_val_t", true, false, 0},
               {"operator new(n, align, nothrow)", "_ZnwmSt11align_val_tRKSt9nothrow_t", true, true, 0}, {"operator new[](n, align, nothrow)", "_ZnamSt11align_val_tRKSt9nothrow_t", true, true, 0}};
struct DForm { const char *name, *sym; int kind; void *f; };   // 0 (p) 1 (p, nothrow) 2 (p, n) 3 (p, align) 4 (p, align, nothrow) 5 (p, n, align)
DForm DELS[] = {{"operator delete(p)", "_ZdlPv", 0, 0}, {"operator delete[](p)", "_ZdaPv", 0, 0}, {"operator delete(p, nothrow)", "_ZdlPvRKSt9nothrow_t", 1, 0},
                {"operator delete[](p, nothrow)", "_ZdaPvRKSt9nothrow_t", 1, 0}, {"operator delete(p, n)", "_ZdlPvm", 2, 0}, {"operator delete[](p, n)", "_ZdaPvm", 2, 0},
                {"operator delete(p, align)", "_ZdlPvSt11align_val_t", 3, 0}, {"operator delete[](p, align)", "_ZdaPvSt11align_val_t", 3, 0},
                {"operator delete(p, align, nothrow)", "_ZdlPvSt11align_val_tRKSt9nothrow_t", 4, 0}, {"operator delete[](p, align, nothrow)", "_ZdaPvSt11align_val_tRKSt9nothrow_t", 4, 0},
                {"operator delete(p, n, align)", "_ZdlPvmSt11align_val_t", 5, 0}, {"operator delete[](p, n, align)", "_ZdaPvmSt11align_val_t", 5, 0}};
void bind_cxx() {
    for (auto &f : NEWS) if (!(f.f = sym(f.sym))) { fprintf(stderr, "no %s\n", f.sym); exit(70); }
    for (auto &f : DELS) if (!(f.f = sym(f.sym))) { fprintf(stderr, "no %s\n", f.sym); exit(70); }
}
void *call_new(const Form &f, u64 n, u64 al) {
    auto a = std::align_val_t(al);
    return f.aligned ? f.nothrow ? ((NewAlNT)f.f)(n, a, std::nothrow) : ((NewAl)f.f)(n, a) : f.nothrow ? ((NewNT)f.f)(n, std::nothrow) : ((New)f.f)(n);
}
void call_delete(const DForm &d, void *p, u64 n, u64 al) {
    auto a = std::align_val_t(al);
    switch (d.kind) {
    case 0: ((void (*)(void *))d.f)(p); break;
    case 1: ((void (*)(void *, const std::nothrow_t &))d.f)(p, std::nothrow); break;
    case 2: ((void (*)(void *, size_t))d.f)(p, n); break;
    case 3: ((void (*)(void *, std::align_val_t))d.f)(p, a); break;
    case 4: ((void (*)(void *, std::align_val_t, const std::nothrow_t &))d.f)(p, a, std::nothrow); break;
    case 5: ((void (*)(void *, size_t, std::align_val_t))d.f)(p, n, a); break;
    }
}
struct Hnd { int calls, at; int what; bool avail, second; } hnd;   // what: 0 none 1 memory becomes available 2 removes itself 3 throws 4 installs another that makes memory available 5 throws a derived exception
struct Derived : std::bad_alloc {};
void second_handler() { hnd.second = true; hnd.calls++; hnd.avail = true; }
void handler() {
    hnd.calls++;
    if (hnd.calls > 200) escape(O_HANG, "the new-handler is called without end", 0);
    if (hnd.calls < hnd.at) return;
    switch (hnd.what) {
    case 1: hnd.avail = true; break;
    case 2: std::set_new_handler(nullptr); break;
    case 3: throw std::bad_alloc();
    case 4: std::set_new_handler(second_handler); break;
    case 5: throw Derived();
    }
}
struct NewCase { int form; u64 n, al; int what, at; bool exhaust; };
std::vector<NewCase> new_cases() {
    std::vector<NewCase> v;
    std::vector<u64> ns = {0, 1, 8, 24, 100, 1000, 4096, 16376, 16377, 30000, 131064, 131065, 200000, 1000000, 1ull << 40, 1ull << 46, 1ull << 62, ~0ull - 4096, ~0ull};
    for (int f = 0; f < 8; f++) for (u64 n : ns) for (u64 al : {1ul, 8ul, 16ul, 32ul, 64ul, 256ul, 4096ul, 8192ul, 65536ul, 1ul << 21}) {
        if (!NEWS[f].aligned && al != 16) continue;
        for (int ex = 0; ex < 2; ex++) for (int what = 0; what < 6; what++) for (int at = 1; at <= (what ? 4 : 1); at++) {
            if (what == 1 && n > (1ull << 45)) continue;                           // never becomes available
            if (what == 4 && n > (1ull << 45)) continue;
            v.push_back({f, n, al, what, at, ex == 1});
        }
    }
    return v;
}
void new_case(const NewCase &c) {
    const Form &f = NEWS[c.form];
    std::string w = mc::fmt("%s with n = %#lx, alignment %lu, handler %s (%d)%s", f.name, c.n, c.al,
        c.what == 0 ? "none" : c.what == 1 ? "freeing memory" : c.what == 2 ? "removing itself" : c.what == 3 ? "throwing bad_alloc" : c.what == 4 ? "installing another" : "throwing a derived exception", c.at, c.exhaust ? ", memory exhausted" : "");
    W.install();
    auto keep = fault;
    auto set_fault = [&] { fault = [](EvKind k, u64, u64, int) { return k == EV_PRCTL || k == EV_PKEY_ALLOC || k == EV_GETRANDOM || hnd.avail ? 0 : ENOMEM; }; };
    // does the first attempt fail?
    hnd = Hnd{0, c.at, c.what, !c.exhaust, false};
    set_fault();
    u64 q = 0;
    Result r = env::run_([&] { q = f.aligned ? (u64)T.aligned_alloc(c.al, c.n) : (u64)T.malloc(c.n); });
    if (r.o != O_OK) { fail("*", "crash", "%s: %s %s", w.c_str(), outcome_name[r.o], r.msg.c_str()); return; }
    bool fails = !q, ever = c.n <= (1ull << 45);
    restore(W.S);
    hnd = Hnd{0, c.at, c.what, !c.exhaust, false};
    set_fault();
    std::set_new_handler(c.what ? handler : nullptr);
    auto term = std::set_terminate([]() { escape(O_TRAP, "an exception left a function that must not throw", 0); });
    u64 p = 0; bool threw = false, threw_derived = false, threw_other = false;
    r = env::run_([&] {
        try { p = (u64)call_new(f, c.n, c.al); }
        catch (const Derived &) { threw = threw_derived = true; }
        catch (const std::bad_alloc &) { threw = true; }
        catch (...) { threw = threw_other = true; }
    });
    std::set_terminate(term);
    std::new_handler left = std::get_new_handler();
    std::set_new_handler(nullptr);
    fault = keep;
    mc::note_probe(); mc::note_oracle();
    if (r.o != O_OK) { fail("C27", "crash", "%s: %s %s", w.c_str(), outcome_name[r.o], r.msg.c_str()); fail("*", "crash", "%s: %s %s", w.c_str(), outcome_name[r.o], r.msg.c_str()); return; }
    bool success = !fails || ((c.what == 1 || c.what == 4) && ever);
    int calls = !fails || !c.what ? 0 : c.what == 4 ? c.at + 1 : c.at;
    if (!fails) mc::count("first_attempt_succeeds"); else mc::count(success ? "handler_frees_memory" : "failures");
    if (success && !p) fail("C27", threw ? "threw" : "null", "%s: no storage although the handler made memory available", w.c_str());
    if (!success && p) fail("C27", "impossible", "%s: returned %#lx", w.c_str(), p);
    if (!success) {
        if (f.nothrow && threw) fail("C27", "nothrow-throws", "%s: threw", w.c_str());
        if (!f.nothrow && !threw) fail("C27", "returned-null", "%s: returned null instead of throwing", w.c_str());
        if (threw_other) fail("C27", "wrong-exception", "%s: threw something else than bad_alloc", w.c_str());
    }
    if (hnd.calls != calls) fail("C27", "handler-calls", "%s: the handler was called %d times instead of %d", w.c_str(), hnd.calls, calls);
    if (c.what == 1 && left != handler) fail("C27", "handler-changed", "%s: the installed handler was replaced", w.c_str());
    if (held_mutexes) fail("*", "lock-held", "%s: a lock is held", w.c_str());
    if (p) {
        u64 us = 0;
        r = env::run_([&] { us = T.malloc_usable_size((void *)p); });
        if (r.o != O_OK || us < c.n) fail("C27", "too-small", "%s: usable size %lu", w.c_str(), us);
        if (p % std::max<u64>(16, f.aligned ? c.al : 16)) fail("C27", "misaligned", "%s: %#lx", w.c_str(), p);
    }
    restore(W.S);
}
// every delete form on storage from every matching new form; and null
struct DelCase { int nf, df; u64 n, al; bool null; };
std::vector<DelCase> del_cases() {
    std::vector<DelCase> v;
    std::vector<u64> ns = sizes(false, args.num("few", 0));
    for (int d = 0; d < 12; d++) { v.push_back({0, d, 0, 16, true}); v.push_back({0, d, 100, 64, true}); v.push_back({0, d, ~0ull, 1ull << 63, true}); }
    for (int f = 0; f < 8; f++) for (int d = 0; d < 12; d++) {
        bool da = DELS[d].kind >= 3;
        if (da != NEWS[f].aligned) continue;
        for (u64 n : ns) {
            if (n > (1ull << 41)) continue;
            if (f % 2 && n > 20000) continue;                  // array forms share the scalar forms' sizes
            for (u64 al : {1ul, 8ul, 16ul, 32ul, 64ul, 128ul, 512ul, 1024ul, 2048ul, 4096ul, 8192ul, 65536ul}) {
                if (!da && al != 16) continue;
                if (n > 300000 && al > 64) continue;
                v.push_back({f, d, n, al, false});
            }
        }
    }
    return v;
}
void del_case(const DelCase &c) {
    const DForm &d = DELS[c.df];
    W.install();
    mc::note_probe(); mc::note_oracle();
    if (c.null) {
        u64 h = state_hash();
        Result r = env::run_([&] { errno = 77; call_delete(d, nullptr, c.n, c.al); if (errno != 77) escape(O_TRAP, "errno changed"); });
        if (r.o != O_OK) fail("C27", "delete-null", "%s of null: %s %s", d.name, outcome_name[r.o], r.msg.c_str());
        if (state_hash() != h) fail("C27", "delete-null", "%s of null changed the heap", d.name);
        restore(W.S);
        return;
    }
    const Form &f = NEWS[c.nf];
    std::string w = mc::fmt("%s of storage from %s with n = %lu, alignment %lu", d.name, f.name, c.n, c.al);
    u64 p = 0;
    Result r = env::run_([&] { try { p = (u64)call_new(f, c.n, c.al); } catch (...) { p = 0; } if (p && c.n) { *(u8 *)p = 1; ((u8 *)p)[c.n - 1] = 1; } });
    if (r.o != O_OK) { fail("C27", "crash", "%s: %s", f.name, r.msg.c_str()); fail("*", "crash", "%s: %s", f.name, r.msg.c_str()); restore(W.S); return; }
    if (!p) { fail("C27", "null", "%s: %s with n = %lu, alignment %lu gave nothing", d.name, f.name, c.n, c.al); fail("*", "refused", "%s: n = %lu, alignment %lu refused", f.name, c.n, c.al); restore(W.S); return; }
    r = env::run_([&] { call_delete(d, (void *)p, c.n, c.al); });
    if (r.o != O_OK) {
        if (d.kind == 2 || d.kind == 5) fail("C06", "matching-size-rejected", "%s: %s %s", w.c_str(), outcome_name[r.o], r.msg.c_str());
        fail("C27", "crash", "%s: %s %s", w.c_str(), outcome_name[r.o], r.msg.c_str());
        fail("*", "crash", "%s: %s %s", w.c_str(), outcome_name[r.o], r.msg.c_str());
    } else {
        u64 us = 0;
        r = env::run_([&] { us = T.malloc_usable_size((void *)p); });
        if (r.o == O_OK) fail("C27", "not-released", "%s: the storage is still live", w.c_str());
    }
    restore(W.S);
}

// ---------------------------------------------------------------- C06: claimed sizes
struct Alloc { u64 req, al; u64 key; };     // key: what a matching claim must map to
u64 key_of(u64 n, u64 al) {
    u64 adj = adjust(n);
    int k = al > 16 && al <= PG && adj <= max_small ? class_of_aligned(adj, al) : al <= PG ? class_of(adj) : -1;
    if (k >= 0) return k;
    u64 ls = large_size(adj);
    return ls ? ls | 1 : ~0ull;
}
std::vector<Alloc> allocs6; std::vector<u64> claims;
void claim_case(u64 i, bool cxx) {
    // one allocated block, all claims against it
    const Alloc &a = allocs6[i];
    W.install();
    u64 p = 0;
    Result r = env::run_([&] { p = a.al > 16 ? (u64)T.aligned_alloc(a.al, a.req) : (u64)T.malloc(a.req); });
    if (r.o != O_OK || !p) { fail("*", "crash", "allocating %lu: %s", a.req, r.msg.c_str()); return; }
    Snap *s = snapshot();
    bool small = p >= W.slab_s && p < W.slab_e;
    for (u64 claim : claims) {
        for (u64 al : cxx ? std::vector<u64>{16, 32, 64, 256, 1024, 4096, 8192} : std::vector<u64>{16}) {
            u64 k = key_of(claim, al);
            bool match = k == a.key;
            // a small size claimed for a large block that exists for its alignment: rounded as a large size, or told apart
            bool either = (!small && k < 1024 && (large_size(adjust(claim)) | 1) == a.key) || (small && al > PG);   // nor is a wrong alignment judged, only a wrong size
            mc::note_probe();
            r = env::run_([&] { if (!cxx) T.free_sized((void *)p, claim); else call_delete(DELS[10], (void *)p, claim, al); });
            if (either) { restore(s); continue; }
            if (match && r.o != O_OK) fail("C06", "matching-size-rejected", "block of %lu bytes (alignment %lu) released with size %lu, alignment %lu, of the same class: %s %s", a.req, a.al, claim, al, outcome_name[r.o], r.msg.c_str());
            if (!match && r.o == O_OK) fail("C06", "mismatch-accepted", "block of %lu bytes (alignment %lu) released with size %#lx, alignment %lu, of another class", a.req, a.al, claim, al);
            if (!match && r.o != O_FATAL) fail("C06", "mismatch-not-fatal", "block of %lu bytes released with size %#lx: %s at %#lx", a.req, claim, outcome_name[r.o], r.addr);
            mc::count(match ? "matching_claims" : "mismatching_claims");
            restore(s);
        }
    }
    free_snap(s);
    mc::note_oracle(claims.size());
    restore(W.S);
}
}

int run_sweep() {
    setup_seq(W);
    W.light_fill = args.num("light", 1);
    W.start();
    W.begin();
    std::string what = args.str("what");
    double wall = atof(args.str("wall", "60").c_str());
    mc::LoopResult r;
    if (what == "sizes") {       // every size up to a bound, then every boundary
        u64 top = args.num("top", 270000); int fn = args.num("fn", 0);
        std::vector<u64> rest; for (u64 x : sizes(true)) if (x >= top) rest.push_back(x);
        r = run_loop(top + rest.size(), 128, [&](u64 i) { u64 n = i < top ? i : rest[i - top]; fn == 1 ? one(1, 1, n, true) : one(fn, n, 0, true); }, wall);
    } else if (what == "aligned") {
        std::vector<u64> al = alignments(), sz = sizes(false, true);
        u64 n = al.size() * sz.size() * 3;
        r = run_loop(n, 64, [&](u64 i) { int fn = 2 + i % 3; i /= 3; one(fn, al[i % al.size()], sz[i / al.size()], true); }, wall);
    } else if (what == "aligned-all") {   // every small size at every alignment up to the page size and a bit beyond
        u64 top = args.num("top", 20000);
        std::vector<u64> al = {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384};
        r = run_loop(top * al.size(), 64, [&](u64 i) { one(2, al[i % al.size()], i / al.size(), true); }, wall);
    } else if (what == "calloc") {
        std::set<u64> f;
        for (u64 x : {0ul, 1ul, 2ul, 3ul, 5ul, 7ul, 8ul, 15ul, 16ul, 17ul, 24ul, 63ul, 100ul, 255ul, 256ul, 257ul, 1000ul, 4095ul, 4096ul, 4097ul, 16376ul, 16384ul, 65535ul, 65536ul, 65537ul, 131072ul, 1000003ul}) f.insert(x);
        for (int k = 20; k < 64; k++) around(f, 1ull << k, 1);
        for (u64 d = 1; d < 20; d++) { f.insert(~0ull / d); f.insert(~0ull / d + 1); }
        f.insert(~0ull);
        std::vector<u64> v(f.begin(), f.end());
        r = run_loop(v.size() * v.size(), 64, [&](u64 i) { one(1, v[i % v.size()], v[i / v.size()], true); }, wall);
    } else if (what == "page") {  // valloc and pvalloc
        std::vector<u64> v; for (u64 x : sizes(true)) if (x) v.push_back(x);
        r = run_loop(v.size() * 2, 32, [&](u64 i) { one(5 + i % 2, v[i / 2], 0, true); }, wall);
    } else if (what == "new" || what == "delete") {
        bind_cxx();
        // the operators themselves must not have run yet on this heap except for start-up
        auto nc = new_cases(); auto dc = del_cases();
        if (what == "new") r = run_loop(nc.size(), 32, [&](u64 i) { new_case(nc[i]); }, wall);
        else r = run_loop(dc.size(), 32, [&](u64 i) { del_case(dc[i]); }, wall);
    } else if (what == "claims") {
        bool cxx = args.num("cxx", 0);
        if (cxx) bind_cxx();
        std::set<u64> reqs, cl;
        for (auto &c : classes) { if (c.size) { reqs.insert(c.size - canary); } }
        reqs.insert(0); reqs.insert(1);
        for (u64 x : {131065ul, 140000ul, 163840ul, 163841ul, 200000ul, 1000000ul, 5000000ul, 16377ul, 20481ul, 33000ul, 40960ul}) reqs.insert(x);
        for (u64 n : reqs) {
            if (!cxx) { allocs6.push_back({n, 16, key_of(n, 16)}); continue; }
            for (u64 al : {16ul, 64ul, 1024ul, 4096ul, 65536ul}) { if (al > PG && n < 16) continue; allocs6.push_back({n, al, key_of(n, al)}); }
        }
        u64 dense = args.num("dense", 4200);
        for (u64 i = 0; i < dense; i++) cl.insert(i);
        for (u64 x : sizes(true)) cl.insert(x);
        for (u64 d = 0; d < 300; d++) { cl.insert(~0ull - d); cl.insert(0x100000000ull + d); cl.insert(0x10000ull + d); cl.insert((1ull << 63) + d); }
        for (auto &c : classes) for (u64 hi : {1ull << 16, 1ull << 32, 1ull << 48, 1ull << 63}) around(cl, hi + c.size, 1), around(cl, hi + c.size - canary, 1);
        if (args.num("every", 0)) for (u64 i = 0; i < (u64)args.num("every", 0); i++) cl.insert(i);
        claims.assign(cl.begin(), cl.end());
        r = run_loop(allocs6.size(), 1, [&](u64 i) { claim_case(i, cxx); }, wall);
    } else { fprintf(stderr, "sweep: what?\n"); return 70; }
    emit_loop(r, "", r.probes);
    return 0;
}
