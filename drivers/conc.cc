// Concurrent programs under every schedule up to a preemption bound, with forks.
#include "drivers.h"
#include "seq.h"
#include "../engine/sched.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <exception>
#include <unistd.h>

using namespace env;
using namespace heap;
using mc::fail;
using mc::want;
namespace env { extern int atfork_calls; }

namespace {
struct Tok { char k; u64 a = 0, b = 0; std::string s; };
struct Blk {
    u64 a = 0, us = 0, unit = 0; bool live = false;
    u64 t_ac = 0, t_ar = 0, t_fc = ~0ull, t_fr = ~0ull;   // logical times of the calls and returns that made and freed it
};
typedef std::vector<Tok> Prog;

struct Conc : Heap {
    std::vector<std::vector<Prog>> roots; std::vector<Prog> prog;
    int nt = 2, pb = 2, policy = 0;
    bool uninit = false; int own0 = 0; u64 own_size = 16376; u64 cap_size = 16376; bool check_cap = true; u64 flush = 0; int nflush = 0;
    u64 shared_size = 16376; bool need_shared = false, need_double = false;
    // state of one execution
    std::vector<Blk> blk; std::vector<std::vector<int>> own, mail; std::vector<sched::VC> mailvc; std::vector<int> mail_sent, mail_done;
    u64 clk = 0; int shared = -1, dbl = -1; int d_started = 0, d_returned = 0, d_total = 0;
    std::vector<u64> ndraw; u64 nword = 0;
    std::string log;
    // base
    std::vector<Blk> blk0; std::vector<std::vector<int>> own_0; int shared0 = -1, dbl0 = -1;
    std::vector<u64> cap0; u64 mapped0 = 0, rw0 = 0, alloc0 = 0; bool noq = false;
    int forks = 0;

    void init() override {}
    void ops(std::vector<mc::Op> &) override {}

    u64 draw(u64 b) {
        if (b <= 1) return 0;
        int t = sched::cur < 0 ? (int)ndraw.size() - 1 : sched::cur;
        u64 n = ndraw[t]++;
        switch (policy) {
        case 0: return 0;
        case 1: return b - 1;
        default: return mix64(policy * 1000003ull + t * 977 + n) % b;
        }
    }
    void hooks() {
        install();
        fault = [this](EvKind k, u64 a, u64, int) { if (k == EV_PRCTL && a == 1) sched::release(atforkvc); return 0; };
        rnd_uniform = [this](int, u64 b) { return draw(b); };
        rnd_word = [this](int) -> u64 { return 0xc3a5c85c97cb3127ull + (++nword % 5) * 0x0101010101010101ull; };
        place = nullptr;
        // every large region's address hashes to (nearly) the same table entry: 128 pages apart
        if (args.num("clash", 0)) place = [](u64 len) -> u64 {
            u64 st = 128 * PG, a = (WB + PG * 16 + st - 1) / st * st;
            for (auto &v : vmas) { if (v.s >= a + len + 8 * PG) break; if (v.e > a) a = (v.e + st - 1) / st * st; }
            return a + len <= WE ? a : 0;
        };
    }
    static void offs(u64 us, std::vector<u64> &v) {
        v.clear();
        if (us <= 256) { for (u64 i = 0; i + 8 <= us; i += 8) v.push_back(i); return; }
        for (u64 i = 0; i < 32; i += 8) v.push_back(i);
        for (u64 i = 1024; i + 32 < us; i += us > 1000000 ? us / 24 & ~7ull : us > 100000 ? 16384 : 2048) v.push_back(i);
        for (u64 i = 32; i >= 8; i -= 8) v.push_back((us - i) & ~7ull);
    }
    void put(const Blk &b) { std::vector<u64> o; offs(b.us, o); for (u64 x : o) *(u64 *)(b.a + x) = pattern(b.a + x); sched::user_access(b.a, b.us, true); }
    void verify(const Blk &b, u64 upto, u64 from, const char *what) {
        std::vector<u64> o; offs(b.us, o);
        for (u64 x : o) if (x + 8 <= upto && *(u64 *)(b.a + x) != pattern(from + x)) bad("contents", "%s: byte %#lx of block %#lx changed", what, x, b.a);
        sched::user_access(b.a, std::min(upto, b.us), false);
    }
    const char *pp = "C19";
    void bad(const char *clause, const char *f, ...) __attribute__((format(printf, 3, 4))) {
        char b[900];
        va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
        if (sched::in_solo()) fail("C20", clause, "in the child of a fork: %s", b);
        fail(pp, clause, "%s", b); fail("*", clause, "%s", b);
    }
    void note(const std::string &s) { log += mc::fmt("%s  thread %d: ", sched::in_solo() ? "  child" : "", sched::cur) + s + "\n"; }

    int born(u64 p, u64 us, u64 req, u64 al, u64 t0, bool zeroed, const char *what) {
        Blk b; b.a = p; b.us = us; b.live = true; b.t_ac = t0; b.t_ar = ++clk;
        u64 adj = adjust(req);
        bool in_slab = p >= slab_s && p < slab_e;
        int k = al > 16 && al <= PG && adj <= max_small ? class_of_aligned(adj, al) : al <= PG ? class_of(adj) : -1;
        if ((uninit && !slab_s) ? false : in_slab != (k >= 0)) bad("placement", "%s = %#lx is in the wrong kind of memory", what, p);
        u64 want_us = k >= 0 ? (classes[k].size ? classes[k].size - canary : 0) : al <= PG ? large_size(req) : us;
        if (us != want_us) bad("usable-size", "%s = %#lx has usable size %lu instead of %lu", what, p, us, want_us);
        b.unit = k >= 0 ? (classes[k].size ? classes[k].size : 16) : us;
        if (p % al) bad("misaligned", "%s = %#lx", what, p);
        if (us && !all_prot(pgdn(p), pgup(p + us), P_RW)) bad("inaccessible", "%s = %#lx is not accessible memory", what, p);
        u64 e = p + std::max<u64>(us, 1);
        for (auto &o : blk) if (o.live && p < o.a + std::max<u64>(o.us, 1) && o.a < e) bad("overlap", "%s = %#lx overlaps the live block %#lx of %lu bytes", what, p, o.a, o.us);
        if (zeroed && us) {
            std::vector<u64> of; offs(us, of);
            for (u64 x : of) if (*(u64 *)(p + x)) bad("not-zero", "%s = %#lx: byte %#lx is not zero", what, p, x);
        }
        put(b);
        blk.push_back(b);
        return blk.size() - 1;
    }
    void dies(int i) { verify(blk[i], blk[i].us, blk[i].a, "before free"); blk[i].live = false; blk[i].t_fc = ++clk; }

    int alloc(const char *what, u64 req, u64 al, bool must_zero, const std::function<void *()> &f) {
        u64 t0 = ++clk;
        // reserve an entry so that statistics read meanwhile can count it
        int slot = blk.size();
        Blk ph; ph.t_ac = t0; ph.t_ar = ~0ull; ph.live = false;
        { u64 adj = adjust(req); int k = al > 16 && al <= PG && adj <= max_small ? class_of_aligned(adj, al) : al <= PG ? class_of(adj) : -1;
          ph.unit = k >= 0 ? (classes[k].size ? classes[k].size : 16) : large_size(req); }
        blk.push_back(ph);
        void *p = f();
        if (!p) bad("refused", "%s returned NULL", what);
        u64 us = T.malloc_usable_size(p);
        int n = born((u64)p, us, req, al, t0, must_zero, what);
        Blk b = blk[n]; blk.pop_back();
        if ((int)blk.size() != slot + 1) { // other threads allocated meanwhile
        }
        blk[slot] = b;
        note(mc::fmt("%s = %#lx", what, (u64)p));
        return slot;
    }
    void check_stat(u64 v, u64 t0, const char *what) {
        if (!has_stats) { if (v) bad("statistics", "%s reports %lu with statistics disabled", what, v); return; }
        u64 t1 = clk, lo = fill_units, hi = fill_units;
        for (auto &b : blk) {
            if (!b.unit) continue;
            if (b.t_ar <= t0 && b.t_fc > t1) lo += b.unit;
            if (b.t_ac < t1 && b.t_fr > t0) hi += b.unit;
        }
        if (v < lo || v > hi) bad("statistics", "%s reports %lu bytes in use; between %lu and %lu were", what, v, lo, hi);
    }
    void step(const Tok &t, int me) {
        std::string what = t.s;
        sched::doing[me] = what;
        switch (t.k) {
        case 'x': {
            int from = (me + nt - 1) % nt;
            sched::wait_until([&] { return (size_t)mail_done[me] < mail[me].size() || prog_done[from]; });
            if ((size_t)mail_done[me] >= mail[me].size()) return;
            break;
        }
        default: sched::op_point();
        }
        auto &mine = own[me];
        u64 began = ++clk;
        mc::count((std::string("op_") + t.k).c_str());
        switch (t.k) {
        case 'm': mine.push_back(alloc(what.c_str(), t.a, 16, zero_on_free, [&] { return T.malloc(t.a); })); break;
        case 'c': mine.push_back(alloc(what.c_str(), t.a, 16, true, [&] { return T.calloc(1, t.a); })); break;
        case 'a': mine.push_back(alloc(what.c_str(), t.b, t.a, zero_on_free, [&] { return T.aligned_alloc(t.a, t.b); })); break;
        case 'h': {
            int i = alloc(what.c_str(), t.a, 16, zero_on_free, [&] { return T.malloc(t.a); });
            int to = (me + 1) % nt;
            sched::release(mailvc[to]);
            mail[to].push_back(i);
            break;
        }
        case 'x': {
            int i = mail[me][mail_done[me]++];
            sched::acquire(mailvc[me]);
            dies(i);
            T.free((void *)blk[i].a);
            blk[i].t_fr = ++clk;
            note(mc::fmt("free(%#lx), allocated by another thread", blk[i].a));
            break;
        }
        case 'f': case 'b': {
            int i = t.k == 'f' ? mine.front() : mine.back();
            if (t.k == 'f') mine.erase(mine.begin()); else mine.pop_back();
            dies(i);
            T.free((void *)blk[i].a);
            blk[i].t_fr = ++clk;
            note(mc::fmt("free(%#lx)", blk[i].a));
            break;
        }
        case 'z': {
            int i = mine.back(); mine.pop_back();
            dies(i);
            T.free_sized((void *)blk[i].a, blk[i].us);
            blk[i].t_fr = ++clk;
            note(mc::fmt("free_sized(%#lx)", blk[i].a));
            break;
        }
        case 'r': {
            int i = mine.back(); mine.pop_back();
            Blk old = blk[i];
            dies(i);
            u64 oa = old.a;
            u64 t0 = ++clk;
            int slot = blk.size(); Blk ph; ph.t_ac = t0; ph.t_ar = ~0ull;
            { u64 adj = adjust(t.a); int k = class_of(adj); ph.unit = k >= 0 ? (classes[k].size ? classes[k].size : 16) : large_size(t.a); }
            blk.push_back(ph);
            void *p = T.realloc((void *)oa, t.a);
            if (!p) bad("refused", "%s returned NULL", what.c_str());
            u64 us = T.malloc_usable_size(p);
            // the old contents
            Blk tmp; tmp.a = (u64)p; tmp.us = us;
            u64 keep = std::min(std::min(old.us, us), std::max<u64>(t.a, 0));
            std::vector<u64> of; offs(old.us, of);
            for (u64 x : of) if (x + 8 <= keep && *(u64 *)((u64)p + x) != pattern(oa + x)) bad("contents", "%s of %#lx = %#lx: byte %#lx lost", what.c_str(), oa, (u64)p, x);
            blk[i].t_fr = ++clk;
            int n = born((u64)p, us, t.a, 16, t0, false, what.c_str());
            Blk b = blk[n]; blk.pop_back(); blk[slot] = b;
            mine.push_back(slot);
            note(mc::fmt("%s of %#lx = %#lx", what.c_str(), oa, (u64)p));
            break;
        }
        case 'u': {
            for (int i : {shared, mine.empty() ? -1 : mine.back()}) {
                if (i < 0) continue;
                u64 v = T.malloc_usable_size((void *)blk[i].a);
                if (v != blk[i].us) bad("usable-size", "malloc_usable_size(%#lx) = %lu instead of %lu", blk[i].a, v, blk[i].us);
            }
            note("malloc_usable_size");
            break;
        }
        case 'o': {
            for (int i : {shared, mine.empty() ? -1 : mine.back()}) {
                if (i < 0) continue;
                u64 v = T.malloc_object_size((void *)blk[i].a);
                if (v != blk[i].us) bad("object-size", "malloc_object_size(%#lx) = %lu instead of %lu", blk[i].a, v, blk[i].us);
                v = T.malloc_object_size_fast((void *)blk[i].a);
                if (v < blk[i].us) bad("object-size", "malloc_object_size_fast(%#lx) = %lu below %lu", blk[i].a, v, blk[i].us);
            }
            note("malloc_object_size");
            break;
        }
        case 't': { int v = T.malloc_trim(0); note(mc::fmt("malloc_trim = %d", v)); break; }
        case 'i': { u64 t0 = ++clk; struct mallinfo2 mi = T.mallinfo2(); ++clk; check_stat(mi.uordblks, t0, "mallinfo"); note("mallinfo"); break; }
        case 'I': {
            char *xml = nullptr; size_t n = 0; FILE *fp = open_memstream(&xml, &n);
            int v = T.malloc_info(0, fp);
            fclose(fp); free(xml);
            if (v) bad("malloc-info", "malloc_info returned %d", v);
            note("malloc_info");
            break;
        }
        case 'n': T.free(nullptr); if (T.malloc_usable_size(nullptr)) bad("usable-size", "malloc_usable_size(NULL)"); break;
        case 'q': {   // queries that are legal before initialisation
            static u64 foreign;
            if (T.malloc_object_size(&foreign) != ~0ull) bad("object-size", "malloc_object_size of a foreign address");
            if (T.malloc_object_size_fast(&foreign) != ~0ull) bad("object-size", "malloc_object_size_fast of a foreign address");
            break;
        }
        case 'd': {
            d_started++;
            if (blk[dbl].live) dies(dbl);
            T.free((void *)blk[dbl].a);
            d_returned++;
            blk[dbl].t_fr = ++clk;
            note(mc::fmt("free(%#lx), the shared block", blk[dbl].a));
            if (d_returned > 1) bad("double-free-undetected", "two threads freed %#lx and neither was stopped", blk[dbl].a);
            break;
        }
        case 'D': {   // realloc of the shared block to another class, racing with its free
            d_started++;
            if (blk[dbl].live) dies(dbl);
            void *p = T.realloc((void *)blk[dbl].a, t.a);
            d_returned++;
            (void)p;
            note(mc::fmt("realloc(%#lx, %lu), the shared block", blk[dbl].a, t.a));
            if (d_returned > 1) bad("double-free-undetected", "two threads released %#lx and neither was stopped", blk[dbl].a);
            break;
        }
        case 'F': do_fork(me); break;
        case 'L': do_disable(me, t.a); break;
        }
        if (strchr("mcahxfbztiI", t.k)) while_disabled(began, what.c_str());
        if (!left_open.empty()) { std::string w = left_open; left_open.clear(); fail("C29", "left-unsealed", "%s: %s returned with metadata access enabled", what.c_str(), w.c_str()); fail("*", "left-unsealed", "%s", w.c_str()); }
        mc::note_oracle();
    }
    std::vector<char> prog_done;

    // malloc_disable ... malloc_enable: no other thread gets anything done in between
    int disabled_by = -1; u64 disabled_at = 0; std::vector<std::pair<u64, u64>> meta;
    u64 meta_hash() {
        u64 h = 1;
        for (auto &r : meta) for (u64 a = r.first; a < r.second; a += PG) if (prot_at(a) >= P_R) h = mix64(h * 31 + hash_bytes((void *)a, PG, a));
        return h;
    }
    void do_disable(int me, bool wait) {
        T.malloc_disable();
        if (disabled_by >= 0) bad("disable", "malloc_disable returned in thread %d while thread %d had the allocator disabled", me, disabled_by);
        disabled_by = me; disabled_at = ++clk;
        note("malloc_disable");
        u64 h = meta_hash();
        if (wait) sched::wait_until([&] { return sched::others_stuck(me); });
        else sched::op_point();
        if (meta_hash() != h) bad("disable", "the allocator's metadata changed while thread %d had it disabled", me);
        disabled_by = -1;
        note("malloc_enable");
        T.malloc_enable();
        mc::count("disabled_periods");
    }
    // a call which needs the allocator's state, begun and finished while another thread has it disabled
    void while_disabled(u64 t0, const char *what) { if (disabled_by >= 0 && t0 > disabled_at) bad("disable", "%s completed while thread %d had the allocator disabled", what, disabled_by); }

    void do_fork(int me) {
        forks++;
        sched::acquire(atforkvc);
        if (atfork_prepare) { atfork_prepare(); }
        int err = errno;
        // the child
        Snap *S = snapshot();
        auto blk_ = blk; auto own_ = own; auto clk_ = clk; auto nd = ndraw; auto nw = nword; auto log_ = log;
        int held_ = held_mutexes, pk = pkru_access;
        // blocks other threads are just obtaining or releasing belong to nobody the child knows
        sched::solo(true);
        sched::doing[me] = "fork (child)";
        log += mc::fmt("  thread %d: fork\n", me);
        if (atfork_child) atfork_child();
        child(me);
        sched::solo(false);
        restore(S); free_snap(S);
        blk = blk_; own = own_; clk = clk_; ndraw = nd; nword = nw; log = log_;
        held_mutexes = held_; pkru_access = pk;
        sched::doing[me] = "fork (parent)";
        errno = err;
        if (atfork_parent) atfork_parent();
        note("fork");
        mc::count("forks");
    }
    void child(int me) {
        for (auto &b : blk) if (b.live) { verify(b, b.us, b.a, "after fork"); u64 v = T.malloc_usable_size((void *)b.a); if (v != b.us) bad("usable-size", "malloc_usable_size(%#lx) = %lu instead of %lu", b.a, v, b.us); }
        std::vector<int> got;
        int was = policy;
        for (u64 s : {cap_size, (u64)40000, (u64)100, (u64)0}) got.push_back(alloc("malloc", s, 16, zero_on_free, [&] { return T.malloc(s); }));
        for (size_t i = 0; i < blk.size(); i++) if (blk[i].live) { dies(i); T.free((void *)blk[i].a); blk[i].t_fr = ++clk; }
        int a = alloc("malloc", cap_size, 16, zero_on_free, [&] { return T.malloc(cap_size); });
        own[me].push_back(a);
        step(Tok{'r', 50000, 0, "realloc(50000)"}, me);
        step(Tok{'a', 65536, 40000, "aligned_alloc(65536, 40000)"}, me);
        step(Tok{'b', 0, 0, "free"}, me);
        T.malloc_trim(0);
        (void)T.mallinfo2();
        step(Tok{'b', 0, 0, "free"}, me);
        // a second generation
        if (atfork_prepare) { atfork_prepare(); if (held_mutexes == 0) bad("fork-handlers", "the prepare handler took no lock"); atfork_parent(); }
        policy = was;
    }
    u64 capacity(const char *what) {
        std::vector<u64> p;
        for (;;) {
            u64 q = (u64)T.malloc(cap_size);
            if (!q) break;
            if (*(u64 *)q && zero_on_free) bad("not-zero", "%s: malloc(%lu) = %#lx is not zero", what, cap_size, q);
            p.push_back(q);
            if (p.size() > 100000) break;
        }
        u64 n = p.size();
        std::sort(p.begin(), p.end());
        for (size_t i = 0; i + 1 < p.size(); i++) if (p[i] + cap_size > p[i + 1]) bad("overlap", "%s: blocks %#lx and %#lx overlap", what, p[i], p[i + 1]);
        for (auto &b : blk) if (b.live) for (u64 q : p) if (q < b.a + b.us && b.a < q + cap_size) bad("overlap", "%s: block %#lx overlaps the live block %#lx", what, q, b.a);
        for (u64 q : p) T.free((void *)q);
        return n;
    }
    void final_checks() {
        log += "  all threads finished\n";
        if (held_mutexes) bad("lock-held", "%d locks are held after all threads finished", held_mutexes);
        auto on = [&](int t, const std::function<void()> &f) { sched::as_thread(t, f); };
        std::vector<int> live;
        for (size_t i = 0; i < blk.size(); i++) if (blk[i].live) { verify(blk[i], blk[i].us, blk[i].a, "at the end"); live.push_back(i); }
        on(0, [&] {
            for (int i : live) { u64 v = T.malloc_usable_size((void *)blk[i].a); if (v != blk[i].us) bad("usable-size", "malloc_usable_size(%#lx) = %lu instead of %lu", blk[i].a, v, blk[i].us); }
            if (has_stats) {
                u64 t0 = ++clk; struct mallinfo2 mi = T.mallinfo2(); ++clk;
                check_stat(mi.uordblks, t0, "mallinfo after all threads finished");
                char *xml = nullptr; size_t n = 0; FILE *fp = open_memstream(&xml, &n);
                T.malloc_info(0, fp); fclose(fp);
                std::string x(xml, n); free(xml);
                u64 sum = 0;
                for (const char *key : {"<allocated>", "<allocated_large>"}) for (size_t q = x.find(key); q != std::string::npos; q = x.find(key, q + 1)) sum += strtoull(x.c_str() + q + strlen(key), nullptr, 10);
                if (sum != mi.uordblks) bad("statistics", "malloc_info reports %lu bytes in use, mallinfo %lu", sum, (u64)mi.uordblks);
            }
            for (int i : live) { dies(i); T.free((void *)blk[i].a); blk[i].t_fr = ++clk; }
            if (has_stats) { u64 v = T.mallinfo2().uordblks; if (v != fill_units) bad("statistics", "%lu bytes in use with no live block", v - fill_units); }
        });
        if (flush) on(0, [&] { for (int i = 0; i < nflush; i++) { void *p = T.malloc(flush); if (!p) bad("refused", "malloc(%lu) at the end", flush); T.free(p); } });
        std::vector<u64> caps;
        if (check_cap) for (int t = 0; t < nt; t++) on(t, [&] {
            for (int i = 0; i < nflush; i++) { void *p = T.malloc(cap_size); if (!p) bad("refused", "malloc(%lu) at the end", cap_size); T.free(p); }
            if (n_arena > 1) capacity("at the end");     // fills the random queue of released slabs
            u64 c = capacity("at the end");
            caps.push_back(c);
        });
        if (check_cap) {   // threads may have got each other's arena
            std::sort(caps.begin(), caps.end());
            for (size_t i = 0; i < caps.size() && i < cap0.size(); i++) if (caps[i] != cap0[i])
                bad("slots-lost", "%lu blocks of %lu bytes can be allocated at the end instead of %lu", caps[i], cap_size, cap0[i]);
            cap_seen = caps;
        }
        on(0, [&] {
            T.malloc_trim(0);
            if (T.malloc_trim(0)) bad("trim", "a second malloc_trim found more");
        });
        u64 mb = mapped_bytes(), rw = slab_s ? slab_rw() : 0;
        if (flush && mapped0 && mb != mapped0) bad("address-space-leak", "%lu bytes are mapped at the end instead of %lu", mb, mapped0);
        if (noq && rw0 != ~0ull && slab_s && rw != rw0) bad("memory-leak", "%lu bytes of slabs are accessible at the end instead of %lu", rw, rw0);
        mapped_seen = mb; rw_seen = rw;
        if (atfork_calls > 1) { fail("C21", "fork-handlers", "fork handlers registered %d times", atfork_calls); }
        if (uninit && !check_cap && !flush) on(0, [&] { void *p = T.malloc(100); if (!p) bad("refused", "malloc(100) at the end"); T.free(p); });
        if (uninit && atfork_calls != 1) fail("C21", "fork-handlers", "fork handlers registered %d times", atfork_calls);
        if (held_mutexes) bad("lock-held", "%d locks are held", held_mutexes);
    }
    std::vector<u64> cap_seen; u64 fill_units = 0, mapped_seen = 0, rw_seen = 0;
    u64 slab_rw() { u64 n = 0; for (auto &v : vmas) if (v.prot == P_RW && v.s >= slab_s && v.e <= slab_e) n += v.e - v.s; return n; }

    void run(const mc::Op &op) override {
        prog = roots[op.x];
        shown = "";
        for (int t = 0; t < nt; t++) { shown += mc::fmt("%sthread %d:", t ? " || " : "", t); for (auto &k : prog[t]) shown += " " + k.s + ";"; }
        std::string title = shown;
        if (root_cached != op.x + 1 && !uninit) {
            // which locks do two threads share in this program?
            root_cached = op.x + 1;
            sched::lock_filter = false; sched::shared_locks.clear();
            int opb = pb; quiet_run = true;
            for (int mode = 0; mode < nt + 2; mode++) {
                Snap *S = snapshot();
                pb = mode < nt ? 0 : 1000000;
                int calls = 0;
                sched::chooser = [&](int n) -> int {
                    if (mode < nt) return calls++ == 0 ? mode : 0;
                    if (mode == nt) return n - 1;
                    return ++calls % 3 == 0 ? n - 1 : 0;
                };
                try { execute(); } catch (mc::Violation &) {}
                restore(S); free_snap(S);
            }
            sched::chooser = nullptr; pb = opb; quiet_run = false;
            sched::hot_locks = sched::shared_locks;
        }
        int nd = 0; for (auto &p : prog) for (auto &k : p) nd += k.k == 'd' || k.k == 'D';
        sched::lock_filter = args.num("filter", 1) && !uninit && nd < 2;
        sched::late_locks = 0;
        shown = title;
        execute();
        if (sched::late_locks) mc::count("locks_found_shared_late", sched::late_locks);
        shown = title + "\n" + log;
    }
    sched::VC atforkvc;
    u64 root_cached = 0; bool quiet_run = false;
    void execute() {
        blk = blk0; own = own_0; shared = shared0; dbl = dbl0;
        if (own.empty()) own.resize(nt);
        mail.assign(nt, {}); mailvc.assign(nt, sched::VC()); mail_done.assign(nt, 0); prog_done.assign(nt, 0);
        atforkvc = sched::VC(); disabled_by = -1;
        clk = 1; d_started = d_returned = d_total = 0; ndraw.assign(nt + 1, 0); nword = 0; forks = 0; log.clear();
        atfork_calls = 0;
        for (auto &p : prog) for (auto &k : p) d_total += k.k == 'd' || k.k == 'D';
        sched::preemptions = pb;
        sched::atomic_points = uninit;
        std::vector<std::function<void()>> bodies;
        for (int t = 0; t < nt; t++) bodies.push_back([this, t] { for (auto &k : prog[t]) step(k, t); prog_done[t] = 1; sched::doing[t] = "end"; });
        std::exception_ptr ep;
        std::string title = shown;
        Result r = env::run_([&] {
            try {
                sched::run(bodies);
                if (d_total < 2) final_checks();
            } catch (...) { ep = std::current_exception(); }
        });
        shown = title + "\n" + log;
        if (!quiet_run) mc::count("scheduling_points", sched::n_points);
        if (ep) { sched::abandon(); std::rethrow_exception(ep); }
        if (r.o != O_OK) {
            std::string w = sched::where();
            bool in_child = sched::in_solo();
            sched::abandon();
            if (r.o == O_FATAL && d_total > 1 && d_started > 1 && !in_child) { mc::count("double_frees_detected"); return; }
            if (r.o == O_SEGV && d_total > 1 && d_started > 1 && !in_child) { mc::count("double_frees_faulted"); return; }
            const char *cl = r.o == O_FATAL ? "spurious-abort" : "crash";
            if (in_child) fail("C20", cl, "in the child of a fork: %s %s (%#lx): %s", outcome_name[r.o], r.msg.c_str(), r.addr, w.c_str());
            fail(pp, cl, "%s %s (%#lx): %s", outcome_name[r.o], r.msg.c_str(), r.addr, w.c_str());
            fail("*", cl, "%s %s (%#lx): %s", outcome_name[r.o], r.msg.c_str(), r.addr, w.c_str());
        }
    }
    void start();
};

Tok parse(const std::string &x) {
    Tok t; t.k = x[0];
    const char *p = x.c_str() + 1; char *e;
    t.a = strtoull(p, &e, 0);
    if (*e == '/') t.b = strtoull(e + 1, nullptr, 0);
    switch (t.k) {
    case 'm': t.s = mc::fmt("malloc(%lu)", t.a); break;
    case 'c': t.s = mc::fmt("calloc(1, %lu)", t.a); break;
    case 'a': t.s = mc::fmt("aligned_alloc(%lu, %lu)", t.a, t.b); break;
    case 'h': t.s = mc::fmt("malloc(%lu) for the next thread", t.a); break;
    case 'x': t.s = "free of a block received"; break;
    case 'f': t.s = "free(oldest)"; break;
    case 'b': t.s = "free(newest)"; break;
    case 'z': t.s = "free_sized(newest)"; break;
    case 'r': t.s = mc::fmt("realloc(newest, %lu)", t.a); break;
    case 'u': t.s = "malloc_usable_size"; break;
    case 'o': t.s = "malloc_object_size"; break;
    case 't': t.s = "malloc_trim"; break;
    case 'i': t.s = "mallinfo"; break;
    case 'I': t.s = "malloc_info"; break;
    case 'n': t.s = "free(NULL)"; break;
    case 'q': t.s = "early queries"; break;
    case 'd': t.s = "free(shared)"; break;
    case 'D': t.s = mc::fmt("realloc(shared, %lu)", t.a); break;
    case 'F': t.s = "fork"; break;
    case 'L': t.s = t.a ? "malloc_disable; until nobody can go on; malloc_enable" : "malloc_disable; malloc_enable"; break;
    default: fprintf(stderr, "bad token %s\n", x.c_str()); exit(70);
    }
    return t;
}

void Conc::start() {
    load_window();
    load_config();
    rnd.reps = {0.0};
    noq = !sq_rand && !sq_queue;
    pb = args.num("pb", 2); nt = args.num("threads", 2); policy = args.num("policy", 0);
    uninit = args.num("uninit", 0); own0 = args.num("own", 0);
    if (args.has("ownsize")) own_size = args.num("ownsize", 0);
    cap_size = args.num("cap", 16376); check_cap = args.num("checkcap", 1);
    flush = args.num("flush", 0); nflush = args.num("nflush", 4);
    env::pkey_have = args.num("pkey", -1);
    pp = mc::prop == "C33" ? "C33" : mc::prop == "C20" ? "C20" : mc::prop == "C21" ? "C21" : "C19";
    sched::race_prop = pp;
    sched::deadlock_is(pp);
    sched::all_syscalls = args.num("allsys", 0);
    auto menu = args.list("menu");
    for (auto &x : menu) { if (x[0] == 'd' || x[0] == 'D') need_double = true; }
    size_t n; u8 *t = (u8 *)tls_ptr(&n);
    sched::thread_tls.assign(t, t + n);
    ndraw.assign(nt + 1, 0);
    hooks();
    u64 base_alloc = 0;
    if (!uninit) {
        int f = m.faults; m.faults = 0;
        install();
        boot();
        m.faults = f;
        hooks();
        own_0.resize(nt);
        Result r = env::run_([&] {
            auto mk = [&](u64 size) {
                Blk b; b.a = (u64)T.malloc(size); b.us = T.malloc_usable_size((void *)b.a); b.live = true;
                int k = class_of(adjust(size)); b.unit = k >= 0 ? (classes[k].size ? classes[k].size : 16) : b.us;
                put(b); base_alloc += b.unit;
                blk0.push_back(b);
                return (int)blk0.size() - 1;
            };
            shared0 = mk(args.num("sharedsize", 16376));
            if (need_double) dbl0 = mk(args.num("dsize", 16376));
            for (auto &x : args.list("prefix")) {   // history: allocate n blocks, free them
                u64 size = strtoull(x.c_str(), nullptr, 0), cnt = 1;
                size_t q = x.find(':'); if (q != std::string::npos) cnt = strtoull(x.c_str() + q + 1, nullptr, 0);
                std::vector<void *> v;
                for (u64 i = 0; i < cnt; i++) v.push_back(T.malloc(size));
                for (void *p : v) T.free(p);
            }
            if (check_cap) { std::vector<void *> v; while (void *p = T.malloc(cap_size)) v.push_back(p); for (void *p : v) T.free(p); }   // released slabs now fill their random queue
            for (long i = 0; i < args.num("fill", 0); i++) if (!T.malloc(cap_size)) escape(O_TRAP, "cannot fill");
            for (int i = 0; i < own0; i++) for (int th = 0; th < nt; th++) own_0[th].push_back(mk(own_size));
            if (check_cap) for (int i = 0; i < nflush; i++) T.free(T.malloc(cap_size));
        });
        need_ok(r, "preparation");
    }
    fill_units = args.num("fill", 0) * (cap_size + canary);
    (void)base_alloc;
    finish_base();
    if (!uninit) for (auto &v : vmas) {
        if (v.prot != P_RW || (v.s >= slab_s && v.s < slab_e)) continue;
        bool block = false;
        for (auto &b : blk0) block |= b.a < v.e && v.s < b.a + b.us;
        if (!block) meta.push_back({v.s, v.e});
    }
    // what the final checks expect: an execution in which every thread does nothing but a small allocation
    Snap *S = snapshot();
    cap0.clear(); mapped0 = 0; rw0 = ~0ull;
    prog.assign(nt, Prog{parse("m100"), parse("b")});
    int opb = pb; pb = 0;
    execute();
    cap0 = cap_seen; mapped0 = mapped_seen; rw0 = rw_seen;
    pb = opb;
    restore(S); free_snap(S);
    if (check_cap && cap0[0] > 5000) { fprintf(stderr, "capacity %lu: choose a smaller region\n", cap0[0]); exit(70); }

    // the programs: every combination of token sequences of the given length per thread (threads are interchangeable)
    int len = args.num("len", 2);
    std::vector<Prog> seqs{{}};
    for (int i = 0; i < len; i++) {
        std::vector<Prog> nx;
        for (auto &s : seqs) for (auto &x : menu) { Prog p = s; p.push_back(parse(x)); nx.push_back(p); }
        seqs = nx;
    }
    auto ok1 = [&](const Prog &p) {
        int k = own0;
        for (auto &t : p) {
            if (strchr("mca", t.k)) k++;
            if (strchr("fbz", t.k)) { if (!k) return false; k--; }
            if (t.k == 'r' && !k) return false;
        }
        return true;
    };
    std::vector<Prog> good;
    for (auto &p : seqs) if (ok1(p)) good.push_back(p);
    std::string must = args.str("must"); int maxheavy = args.num("heavy", 1);
    std::vector<size_t> ix(nt, 0);
    for (;;) {
        bool sorted = true;
        for (int i = 0; i + 1 < nt; i++) sorted &= ix[i] <= ix[i + 1];
        if (sorted) {
            std::vector<Prog> ps; for (size_t i : ix) ps.push_back(good[i]);
            bool ok = true; int nd = 0, heavy = 0;
            for (int i = 0; i < nt; i++) {
                int h = 0, x = 0;
                for (auto &k : ps[(i + nt - 1) % nt]) h += k.k == 'h';
                for (auto &k : ps[i]) { x += k.k == 'x'; heavy += strchr("tiIF", k.k) != nullptr; nd += k.k == 'd' || k.k == 'D'; }
                if (x > h) ok = false;
            }
            if (heavy > maxheavy) ok = false;
            // threads that would wait for each other's blocks for ever are not programs of interest
            std::vector<size_t> pc(nt, 0); std::vector<int> in(nt, 0);
            for (bool go = true; go;) {
                go = false;
                for (int i = 0; i < nt; i++) while (pc[i] < ps[i].size()) {
                    char k = ps[i][pc[i]].k;
                    if (k == 'x' && !in[i]) break;
                    if (k == 'x') in[i]--;
                    if (k == 'h') in[(i + 1) % nt]++;
                    pc[i]++; go = true;
                }
            }
            for (int i = 0; i < nt; i++) ok &= pc[i] == ps[i].size();
            if (uninit) for (auto &p : ps) for (auto &k : p) ok &= k.k != 'F';
            for (char c : must) { bool has = false; for (auto &p : ps) for (auto &k : p) has |= k.k == c; ok &= has; }
            if (need_double && nd > 2) ok = false;
            if (ok) roots.push_back(ps);
        }
        int i = nt - 1;
        while (i >= 0 && ++ix[i] == good.size()) ix[i--] = 0;
        if (i < 0) break;
    }
}
}

int run_conc() {
    static Conc w;
    w.start();
    std::vector<mc::Op> roots;
    for (size_t i = 0; i < w.roots.size(); i++) roots.push_back({0, 0, i, 0});
    mc::Limits l = limits();
    if (args.has("replay")) { run_world(w, l); return 0; }
    mc::Stats s = mc::enumerate(w, roots, l);
    s.cov["programs"] = roots.size();
    s.cov["schedules"] = s.execs;
    s.states = s.cov["scheduling_points"] ? s.cov["scheduling_points"] : s.states;
    emit(s);
    return 0;
}
