#include "seq.h"
#include <algorithm>
#include <cerrno>

using namespace env;
using namespace heap;
using mc::fail;
using mc::want;

namespace seq {

static std::string op_text;

void Seq::start() {
    load_window();
    if (notag == 2) {
        Result r = env::run_([&] { T.malloc_disable_memory_tagging(); });
        need_ok(r, "malloc_disable_memory_tagging before the first allocation");
        m.notag = 1;
    }
    boot();
    for (auto &b : prefix) run_bulk(b);
    m.budget = 0; m.extra = 0;
    finish_base();
}

void Seq::ops(std::vector<Op> &out) {
    int live = m.objs.size();
    if (focus && m.focus < 0) {
        for (size_t i = 0; i < classes.size(); i += focus) out.push_back({K_FOCUS, (u32)i, 0, 0});
        return;
    }
    if (live < max_live) {
        if (focus) out.push_back({K_ALLOC, 0, 1, 0});
        for (size_t i = 0; i < allocs.size(); i++) out.push_back({K_ALLOC, (u32)i, 0, 0});
        if (rnull) out.push_back({K_REALLOC_NULL, 0, allocs[0].fn == 0 ? allocs[0].a : 1, 0});
    }
    auto each = [&](std::function<void(u32)> f) {
        for (int i = 0; i < live; i++) {
            if (live > 2 * free_window && i >= free_window && i < live - free_window) continue;
            f(i);
        }
    };
    if (frees) each([&](u32 i) { out.push_back({K_FREE, i, 0, 0}); });
    if (fsized) each([&](u32 i) { if (m.objs[i].align <= 16) out.push_back({K_FSIZED, i, 0, 0}); });
    if (m.extra < max_resize) each([&](u32 i) {
        for (u64 n : resizes) if (n != m.objs[i].req) out.push_back({K_REALLOC, i, n, 0});
    });
    if (trim && m.budget % 100 < max_trim) out.push_back({K_TRIM, 0, 0, 0});
    if (notag == 1 && !m.notag) out.push_back({K_NOTAG, 0, 0, 0});
    for (int t = 0; t < threads; t++) if (threads > 1 && t != m.thread) out.push_back({K_THREAD, (u32)t, 0, 0});
    if (m.budget / 100 < max_bulk) for (size_t i = 0; i < bulks.size(); i++) out.push_back({K_BULK, (u32)i, 0, 0});
    if (m.pokes < max_pokes) {
        std::vector<std::pair<u64, u64>> t;
        poke_targets(t);
        for (auto &x : t) out.push_back({K_POKE, 0, x.first, x.second});
    }
}

void Seq::run_bulk(const Bulk &b0) {
    Bulk b = b0;
    if (focus && !b.size) {                       // in quarters of a slab of the class of this branch
        b.size = focus_size();
        b.n = std::max<u64>(1, b.n * classes[m.focus].slots / 4);
    }
    quiet = true; fixed_stream = b.stream;
    struct Reset { Seq *s; ~Reset() { s->quiet = false; s->fixed_stream = -1; s->refuse_release = false; } } reset{this};
    auto pick = [&](bool high) -> int {
        int r = -1;
        for (size_t i = 0; i < m.objs.size(); i++) if (m.objs[i].req == b.size && (r < 0 || high)) { r = i; if (!high) break; }
        return r;
    };
    auto al = [&]() -> int { int fn = 0; return do_alloc(fn, b.size, 0); };
    u64 done = 0;
    switch (b.kind) {
    case 0: for (u64 i = 0; i < b.n; i++) { if (al() < 0) break; done++; } break;
    case 1: case 2:
        for (u64 i = 0; i < b.n; i++) { int k = pick(b.kind == 2); if (k < 0) break; do_free(k); done++; }
        break;
    case 3: for (u64 i = 0; i < b.n; i++) { int k = al(); if (k < 0) break; do_free(k); done++; } break;
    case 4: {
        std::vector<u64> v; bool odd = false;
        for (auto &o : m.objs) if (o.req == b.size) { if (odd) v.push_back(o.a); odd = !odd; }
        for (u64 a : v) { do_free(find(a)); done++; }
        break;
    }
    case 5:
        for (u64 i = 0; i < b.n; i++) {
            int k = al(); if (k < 0) break;
            u64 a = m.objs[k].a;
            if (al() < 0) break;
            do_free(find(a));
            done++;
        }
        break;
    case 8: refuse_release = true; [[fallthrough]];
    case 6: for (;;) { int k = pick(false); if (k < 0) break; do_free(k); done++; } break;
    case 7: {  // grow by realloc chains
        int k = al();
        if (k < 0) break;
        u64 n = b.size;
        for (u64 i = 0; i < b.n; i++) { n += n / 2 + 16; k = do_realloc(k, n); done++; if (n > (1 << 22)) break; }
        do_free(k);
        break;
    }
    }
    quiet = false;
    static const char *nm[] = {"allocate", "free lowest", "free highest", "allocate and free", "free every other", "allocate 2, free 1", "free all", "realloc chain", "free all, the kernel refusing to take slabs back, of"};
    shown = mc::fmt("[%lu x %s blocks of %lu bytes, draws from stream %d]", done, nm[b.kind], b.size, b.stream);
    check_state();
    mc::count("bulk_steps", done);
}

void Seq::run(const Op &op) {
    mc::note_oracle();
    switch (op.k) {
    case K_FOCUS: m.focus = op.a; shown = mc::fmt("(the class of %u bytes)", classes[op.a].size); return;
    case K_ALLOC: if (op.x) { mc::count("op_alloc"); do_alloc(0, focus_size(), 0); break; } else { auto &a = allocs[op.a]; mc::count("op_alloc"); do_alloc(a.fn, a.a, a.b); break; }
    case K_REALLOC_NULL: mc::count("op_realloc_null"); do_realloc(-1, op.x); break;
    case K_FREE: mc::count("op_free"); do_free(op.a); break;
    case K_FSIZED: mc::count("op_free_sized"); do_free(op.a, 1, m.objs[op.a].req); break;
    case K_REALLOC: mc::count("op_realloc"); m.extra++; do_realloc(op.a, op.x); break;
    case K_TRIM: mc::count("op_trim"); m.budget++; do_trim(); break;
    case K_THREAD: set_thread(op.a); shown = mc::fmt("switch to thread %u (arena %d)", op.a, m.arena_of[op.a]); break;
    case K_NOTAG: {
        mc::count("op_notag");
        Result r = call([&] { T.malloc_disable_memory_tagging(); });
        shown = "malloc_disable_memory_tagging" + (r.o == O_OK ? "" : " : " + r.msg);
        m.notag = 1;
        if (r.o == O_FATAL && injected) throw mc::Prune{};
        need_ok(r, "malloc_disable_memory_tagging");
        check_state();
        break;
    }
    case K_BULK: m.budget += 100; run_bulk(bulks[op.a]); break;
    case K_POKE: {
        m.pokes++;
        *(u8 *)(op.x + op.y) ^= 0x41;
        shown = mc::fmt("use after free: change byte %lu of freed slot %#lx", op.y, op.x);
        m.poisoned.push_back({op.x, op.y});
        break;
    }
    }
    if (p_leftover) scan_leftovers();
    m.faults = std::max(0, m.faults);
}

// freed slots in accessible slabs with byte positions worth changing
void Seq::poke_targets(std::vector<std::pair<u64, u64>> &out) {
    for (auto &kv : m.cls) {
        const ClassInfo &ci = classes[kv.first % 64];
        if (!ci.size) continue;
        for (size_t i = 0; i < kv.second.slabs.size(); i++) {
            auto &s = kv.second.slabs[i];
            if (s.st != S_ACTIVE && s.st != S_CACHED) continue;
            for (u32 k = 0; k < ci.slots; k++) {
                u64 a = kv.second.base + i * ci.slab + (u64)k * ci.size;
                if (find(a) >= 0) continue;
                out.push_back({a, 0});
                out.push_back({a, ci.size - canary - 1});
            }
        }
    }
}

std::vector<u64> Seq::bad_addresses() {
    std::vector<u64> r;
    auto add = [&](u64 a) { if (a) r.push_back(a); };
    bool th = mc::thorough;
    u64 region = cfg("CONFIG_CLASS_REGION_SIZE");
    if (p_freed && !p_bad) {                      // only the pointers freed last
        for (u64 a : m.freed) if (find(a) < 0) r.push_back(a);
        std::sort(r.begin(), r.end());
        r.erase(std::unique(r.begin(), r.end()), r.end());
        return r;
    }
    if (every) {                                  // every byte of the slabs of the class of this branch and of one on each side
        for (auto &kv : m.cls) {
            if (!kv.second.base || kv.first % 64 != m.focus) continue;
            const ClassInfo &ci = classes[m.focus];
            u64 s = kv.second.base - ci.slab, e = kv.second.base + (kv.second.slabs.size() + 1) * (u64)ci.slab;
            for (u64 a = s; a < e; a++) if ((a % every == 0 || a % PG < 2 || a % PG == PG - 1) && find(a) < 0) r.push_back(a);
        }
        return r;
    }
    for (auto &kv : m.cls) {
        const ClassM &c = kv.second;
        const ClassInfo &ci = classes[kv.first % 64];
        u64 size = ci.size ? ci.size : 16;
        if (!c.base) continue;
        size_t ns = c.slabs.size();
        for (size_t i = 0; i < ns + 2; i++) {
            u64 s = c.base + i * (u64)ci.slab;
            if (i > 6 && i + 3 < ns) continue;
            u32 lim = ci.slots;
            for (u32 k = 0; k <= lim; k++) {
                u64 a = s + k * size;
                if (a >= s + ci.slab) break;
                // with many slots: the neighbourhood of live blocks, the ends, and bitmap word boundaries
                if (lim > 16 && !th) {
                    bool near = k < 2 || k + 2 > lim || k % 64 < 1 || k % 64 > 62;
                    for (auto &o : m.objs) if (o.a + 2 * size >= a && o.a <= a + 2 * size) near = true;
                    for (u64 q : c.q) near |= q == a;
                    for (u64 q : c.rq) near |= q == a;
                    if (!near) continue;
                }
                add(a);
            }
            if (i < 2 || i + 2 >= ns) { add(s + 1); add(s + 8); add(s + ci.slab - 1); add(s + ci.slab - 16); }
        }
        add(c.base - 16); add(c.base - size); add(c.base - PG); add(c.base - ci.slab);
        add(c.base + region); add(c.base + region - size); add(c.base + region + ci.slab); add(c.base + 2 * region - 16);
    }
    size_t oi = 0;
    for (auto &o : m.objs) {
        oi++;
        if (m.objs.size() > 48 && oi > 6 && oi + 6 < m.objs.size()) continue;
        u64 sz = o.kind == SMALL ? classes[o.cls].size : o.kind == ZERO ? 16 : o.us;
        for (u64 d : {1ul, 2ul, 4ul, 8ul, 16ul, 24ul, 32ul, 48ul, 64ul, 128ul, 256ul, 1024ul, 4096ul, 8192ul}) if (d < sz) add(o.a + d);
        add(o.a + sz / 2); add(o.a + sz - 1); add(o.a - 1); add(o.a - 8); add(o.a + o.us);
        if (o.kind == LARGE) {
            for (u64 x = o.a - o.guard; x < o.a + o.us + o.guard && x < o.a - o.guard + 24 * PG; x += PG) add(x);
            add(o.a - o.guard - PG); add(o.a + o.us + o.guard); add(o.a + o.us - PG);
            // an address whose table position collides
            for (u64 x = 1; x <= 4; x++) add(o.a + x * 512 * PG);
        }
    }
    for (auto &v : {m.rrand, m.rq, m.leaked}) for (auto &x : v) if (x.s)
        for (u64 a = x.s, lim = m.rq.size() > 48 ? 2 : 8; a < x.e && a < x.s + lim * PG; a += PG) add(a);
    for (u64 a : m.freed) add(a);
    add(slab_s); add(slab_s + 16); add(slab_s - 16); add(slab_e); add(slab_e - 16); add((slab_s + slab_e) / 2);
    for (auto &x : meta) { add(x.s); add((x.s + x.e) / 2 & ~15ull); add(x.e); }
    static u64 dummy[4];
    add((u64)dummy); add((u64)&dummy[1]); add((u64)&r); add(1); add(8); add(16); add(4096); add(~0ull); add(~0ull - 15); add(0x8000000000000000ull);
    for (auto &g : so_ranges()) add(g.first & ~15ull);
    std::sort(r.begin(), r.end());
    r.erase(std::unique(r.begin(), r.end()), r.end());
    std::vector<u64> out;
    for (u64 a : r) if (find(a) < 0) out.push_back(a);
    return out;
}

void Seq::probe_bad() {
    auto bad = bad_addresses();
    Snap *S = snapshot();
    auto M = save();
    for (u64 a : bad) {
        u64 csz = 0; bool in = a >= slab_s && a < slab_e;
        if (in) for (auto &kv : m.cls) if (kv.second.base && a >= kv.second.base - (1ul << 18) && a < kv.second.base + cfg("CONFIG_CLASS_REGION_SIZE")) csz = classes[kv.first % 64].size;
        u64 req = csz > 16 ? csz - canary : csz;
        // a realloc within the same class returns its argument unchecked; two sizes of different classes are tried,
        // and at least one of them moves the block
        u64 sizes2[2] = {40, 3000};
        for (int f = 0; f < 4; f++) {
            mc::note_probe();
            void *q = nullptr; u64 us = 0;
            Result r; bool det = false;
            for (int w = 0; w < (f == 3 ? 2 : 1) && !det; w++) {
                r = env::run_([&] {
                    switch (f) {
                    case 0: T.free((void *)a); break;
                    case 1: us = T.malloc_usable_size((void *)a); break;
                    case 2: T.free_sized((void *)a, in ? req : 40); break;
                    case 3: q = T.realloc((void *)a, sizes2[w]); break;
                    }
                });
                det = r.o == O_FATAL || r.o == O_SEGV || r.o == O_TRAP;
                restore(S); load(M);
            }
            if (!det) {
                static const char *fn[] = {"free", "malloc_usable_size", "free_sized", "realloc"};
                const char *where = "address space outside the allocator";
                std::string w;
                if (in) w = mc::fmt("the small-object region (class size %lu)", csz); else w = where;
                for (auto &o : m.objs) if (a > o.a && a < o.a + std::max<u64>(o.us, 16)) w = mc::fmt("the middle of live block %#lx+%lu", o.a, o.us);
                for (auto &kv : m.cls) { for (u64 x : kv.second.rq) if (x == a) w = "the random quarantine"; for (u64 x : kv.second.q) if (x == a) w = "the quarantine queue"; }
                for (auto &v : {m.rrand, m.rq}) for (auto &x : v) if (x.s && a >= x.s && a < x.e) w = "the large-block quarantine";
                fail("C05", p_freed && !p_bad ? "double-free-undetected" : "undetected-invalid-pointer", "%s(%#lx) of an invalid pointer in %s: %s %s", fn[f], a, w.c_str(), r.o == O_OK ? "returned normally" : outcome_name[r.o], r.msg.c_str());
            }
            mc::count(r.o == O_FATAL ? "bad_pointer_aborts" : "bad_pointer_faults");
            (void)q; (void)us;
        }
    }
    Result r = env::run_([&] { T.free(nullptr); T.free_sized(nullptr, 100); if (T.malloc_usable_size(nullptr)) escape(O_TRAP, "malloc_usable_size(NULL) is not 0"); });
    if (r.o != O_OK) fail("C05", "free-null", "free(NULL): %s", r.msg.c_str());
    restore(S); load(M);
    free_snap(S);
}

void Seq::probe_canary() {
    if (!has_canary) return;
    Snap *S = snapshot();
    auto M = save();
    std::vector<Obj> objs = m.objs;
    for (auto &o : objs) {
        if (o.kind != SMALL) continue;
        u64 can = o.a + classes[o.cls].size - canary;
        if (o.us != classes[o.cls].size - canary) fail("C08", "canary-position", "block %#lx of class %u has usable size %lu: no room for a canary of 8 bytes", o.a, classes[o.cls].size, o.us);
        if (*(u8 *)can) fail("C08", "leading-byte", "first canary byte of block %#lx (class %u) is %#x, not zero", o.a, classes[o.cls].size, *(u8 *)can);
        u64 other = class_of(adjust(40)) == (int)o.cls ? 3000 : 40;
        for (int b = 0; b < 8; b++)
            for (int x : {0x01, 0x80, 0xff}) {
                for (int f = 0; f < 3 + (mc::thorough ? 1 : 0); f++) {
                    mc::note_probe();
                    *(u8 *)(can + b) ^= x;
                    Result r = env::run_([&] {
                        switch (f) {
                        case 0: T.free((void *)o.a); break;
                        case 1: T.malloc_usable_size((void *)o.a); break;
                        case 2: T.realloc((void *)o.a, other); break;
                        case 3: T.free_sized((void *)o.a, o.req); break;
                        }
                    });
                    restore(S); load(M);
                    static const char *fn[] = {"free", "malloc_usable_size", "realloc", "free_sized"};
                    if (r.o != O_FATAL) fail("C08", "undetected-overflow", "canary byte %d of block %#lx (class %u) changed by xor %#x; %s: %s", b, o.a, classes[o.cls].size, x, fn[f], r.o == O_OK ? "returned normally" : r.msg.c_str());
                    mc::count("canary_changes_detected");
                }
            }
    }
    free_snap(S);
}

static u64 uniform_draws(const std::vector<Draw> &d) { return d.size(); }

void Seq::probe_cover() {
    Snap *S = snapshot();
    auto M = save();
    bool oq = quiet; quiet = true;
    // (1) slot choice and guard sizes
    for (auto &al : allocs) {
        if (al.fn != 0) continue;
        std::set<u64> got, guards; u64 bound = 0; bool vis = true; int slab_idx = -1, key = -1;
        for (u64 v = 0; v == 0 || v < bound; v++) {
            mc::note_probe();
            forced.assign(1, v); force_pos = 0;
            int i = -1;
            try { i = do_alloc(al.fn, al.a, al.b); } catch (mc::Prune &) {} catch (...) { force_pos = -1; quiet = oq; restore(S); load(M); free_snap(S); throw; }
            force_pos = -1;
            u64 nd = uniform_draws(draws);
            if (i < 0) { vis = false; restore(S); load(M); break; }
            Obj o = m.objs[i];
            if (v == 0) { bound = nd ? draws[0].bound : 0; }
            if (o.kind == LARGE) guards.insert(o.guard);
            else { got.insert(o.a); key = o.arena * 64 + o.cls; slab_idx = (o.a - m.cls[key].base) / classes[o.cls].slab; }
            restore(S); load(M);
            if (!nd) { vis = false; break; }
        }
        if (!vis) { mc::count("choices_not_observable"); continue; }
        if (key >= 0 && slot_rand) {
            const ClassInfo &ci = classes[key % 64];
            u64 size = ci.size ? ci.size : 16;
            // the class may not exist in the model before this allocation: then every slot is free
            bool known = m.cls.count(key) && m.cls[key].base;
            u64 base;
            if (known) base = m.cls[key].base + (u64)slab_idx * ci.slab;
            else base = *got.begin() / PG * PG;
            if (!known) { // first slab: all slots
                u64 lo = *got.begin(); base = lo;
            }
            for (u32 k = 0; k < ci.slots; k++) {
                u64 a = base + k * size;
                bool used = find(a) >= 0;
                if (known) { for (u64 q : m.cls[key].q) used |= q == a; for (u64 q : m.cls[key].rq) used |= q == a; }
                if (!used && !got.count(a)) fail("C31", "slot-never-chosen", "malloc(%lu): no random choice selects free slot %u (%#lx) of the slab; %zu slots are reachable", al.a, k, a, got.size());
            }
            mc::count("slot_choices_covered", got.size());
        }
        if (!guards.empty()) {
            u64 us = large_size(al.a), max = std::max<u64>(1, us / PG / guard_div);
            for (u64 g = 1; g <= max; g++) if (!guards.count(g * PG)) fail("C31", "guard-never-chosen", "malloc(%lu): no random choice gives guards of %lu pages (1..%lu configured)", al.a, g, max);
            mc::count("guard_choices_covered", guards.size());
        }
    }
    // (2) positions of the quarantines: each position must be reachable, i.e. give a different state
    for (size_t oi = 0; oi < m.objs.size() && oi < 4; oi++) {
        Obj o = m.objs[oi];
        std::vector<u64> want_bounds;
        do_free(oi);
        std::vector<Draw> ds = draws;
        restore(S); load(M);
        for (size_t p = 0; p < ds.size(); p++) {
            if (ds[p].bound < 2 || ds[p].bound > 2048) continue;
            std::set<u64> hs;
            for (u64 v = 0; v < ds[p].bound; v++) {
                mc::note_probe();
                forced.clear();
                for (size_t k = 0; k < ds.size(); k++) forced.push_back(k == p ? v : ds[k].val);
                force_pos = 0;
                Result r = call([&] { T.free((void *)o.a); });
                force_pos = -1;
                need_ok(r, "free");
                hs.insert(state_hash());
                restore(S); load(M);
            }
            if (hs.size() != ds[p].bound) fail("C31", "position-never-chosen", "free(%#lx): %lu random values lead to only %zu different quarantine states", o.a, ds[p].bound, hs.size());
            mc::count("quarantine_positions_covered", hs.size());
        }
        u64 expect = 0;
        if (o.kind == LARGE) expect = (rq_rand > 1 && o.us < rq_skip) ? rq_rand : 0;
        else { ClassM &c = cm(o.arena, o.cls); expect = c.rq.size() > 1 ? c.rq.size() : 0; }
        if (expect && !ds.empty()) {
            bool seen = false;
            for (auto &d : ds) seen |= d.bound == expect;
            if (!seen) fail("C31", "quarantine-range", "free(%#lx): quarantine position drawn from %lu values, %lu configured", o.a, ds[0].bound, expect);
        }
    }
    quiet = oq;
    free_snap(S);
}

void Seq::probe_sizes() {
    Snap *S = snapshot();
    auto M = save();
    u64 h0 = state_hash();
    auto size_at = [&](u64 a, const char *what) -> u64 {
        u64 v = 0;
        mc::note_probe();
        Result r = env::run_([&] { v = T.malloc_object_size((void *)a); });
        if (r.o != O_OK) { fail("C24", "object-size-abort", "malloc_object_size(%#lx) (%s): %s %s", a, what, outcome_name[r.o], r.msg.c_str()); }
        return v;
    };
    auto fast_at = [&](u64 a) -> u64 {
        u64 v = 0;
        mc::note_probe();
        Result r = env::run_([&] { v = T.malloc_object_size_fast((void *)a); });
        if (r.o != O_OK) fail("C24", "object-size-fast-abort", "malloc_object_size_fast(%#lx): %s %s", a, outcome_name[r.o], r.msg.c_str());
        return v;
    };
    for (auto &o : m.objs) {
        std::vector<u64> offs;
        u64 lim = o.kind == ZERO ? 16 : o.us;
        for (u64 x : {0ul, 1ul, 7ul, 8ul, 15ul, 16ul, 17ul, 31ul, 63ul, 64ul, 4095ul, 4096ul, 4097ul}) offs.push_back(x);
        offs.push_back(lim / 2); offs.push_back(lim - 1);
        if (o.kind == SMALL) offs.push_back(lim);
        if (every && o.kind != LARGE) for (u64 x = 0; x < lim; x += every) offs.push_back(x);
        for (u64 off : offs) {
            if (off > lim || (off == lim && o.kind != SMALL)) continue;
            if (off == lim && !canary) continue;
            u64 v = size_at(o.a + off, o.kind == ZERO ? "inside a zero-size block" : "inside a live block"), f = fast_at(o.a + off);
            u64 e = o.kind == SMALL ? o.us - off : o.kind == ZERO ? 0 : off == 0 ? o.us : ~0ull;
            if (v != e) fail("C24", "object-size", "malloc_object_size(%#lx + %lu) of a live block of usable size %lu is %lu, expected %lu", o.a, off, o.us, v, e);
            if (f < v) fail("C24", "object-size-fast", "malloc_object_size_fast(%#lx + %lu) is %lu, below the true %lu", o.a, off, f, v);
            if (o.kind != LARGE && f != o.us) fail("C24", "object-size-fast", "malloc_object_size_fast(%#lx + %lu) is %lu, expected %lu", o.a, off, f, o.us);
        }
    }
    u64 x = 0;
    for (u64 a : {(u64)&x, 1ul, ~0ul, slab_e, slab_s - 1})
        if (size_at(a, "foreign address") != ~0ull) fail("C24", "object-size", "malloc_object_size(%#lx) of a foreign address is not unknown", a);
    if (size_at(0, "NULL") || fast_at(0)) fail("C24", "object-size", "object size of NULL is not 0");
    if (held_mutexes) fail("C24", "query-holds-lock", "a size query left %d lock(s) held", held_mutexes);
    if (state_hash() != h0) fail("C24", "query-changed-heap", "size queries changed the heap");
    restore(S); load(M);
    free_snap(S);
}

// for every slot that could be handed out next: change each byte position, the allocation must abort
void Seq::probe_pokes() {
    if (!waf_check) return;
    Snap *S = snapshot();
    auto M = save();
    for (auto &al : allocs) {
        if (al.fn != 0 || adjust(al.a) > max_small || al.a == 0) continue;
        u64 bound = 1;
        std::set<u64> seen;
        for (u64 v = 0; v < bound; v++) {
            forced.assign(1, v); force_pos = 0;
            draws.clear();
            u64 p = 0;
            Result r = call([&] { p = (u64)T.malloc(al.a); });
            force_pos = -1;
            if (v == 0 && !draws.empty()) bound = draws[0].bound;
            if (r.o != O_OK) need_ok(r, "malloc");
            restore(S); load(M);
            if (!p || !seen.insert(p).second) continue;
            // only slots whose memory is accessible now can have been changed by the program
            if (prot_at(p) != P_RW) continue;
            u64 n = classes[class_of(adjust(al.a))].size - canary;
            std::vector<u64> offs;
            if (n <= 64 || mc::thorough) { if (n <= 1024) for (u64 o = 0; o < n; o++) offs.push_back(o); }
            if (offs.empty()) {
                for (u64 o : {(u64)0, (u64)1, (u64)7, (u64)8, (u64)15, (u64)16, n / 2, n - 9, n - 8, n - 7, n - 1}) if (o < n) offs.push_back(o);
                for (u64 o = 4095; o < n; o += 4096) { offs.push_back(o); if (o + 1 < n) offs.push_back(o + 1); }
            }
            for (u64 o : offs) for (int x : {0x01, 0x80}) {
                mc::note_probe();
                *(u8 *)(p + o) ^= x;
                forced.assign(1, v); force_pos = 0;
                u64 q = 0;
                Result r2 = call([&] { q = (u64)T.malloc(al.a); });
                force_pos = -1;
                restore(S); load(M);
                if (r2.o != O_FATAL) {
                    if (r2.o == O_OK && q != p) { mc::count("poke_choice_moved"); continue; }
                    fail("C09", "undetected", "byte %lu of free slot %#lx (class %u) changed by xor %#x; malloc(%lu) %s", o, p, classes[class_of(adjust(al.a))].size, x, al.a, r2.o == O_OK ? "returned it" : r2.msg.c_str());
                }
                mc::count("pokes_detected");
            }
        }
    }
    free_snap(S);
}

// malloc_info on a stream which itself allocates and frees
static ssize_t cookie_write(void *, const char *, size_t n) {
    void *p = T.malloc(100), *q = T.malloc(300000);
    T.free(q); T.free(p);
    return n;
}

void Seq::probe_stats() {
    Snap *S = snapshot();
    auto M = save();
    cookie_io_functions_t io = {};
    io.write = cookie_write;
    for (int buffered = 0; buffered < 2; buffered++) {
        FILE *fp = fopencookie(nullptr, "w", io);
        static char buf[64];
        setvbuf(fp, buf, buffered ? _IOFBF : _IONBF, buffered ? sizeof buf : 0);
        mc::note_probe();
        int rc = -1;
        Result r = env::run_([&] { rc = T.malloc_info(0, fp); fflush(fp); });
        bool open = !left_open.empty(); left_open.clear(); int held = held_mutexes;
        restore(S); load(M);
        if (r.o != O_OK) {
            fail("C29", "malloc-info-fault", "malloc_info on a stream that allocates: %s %s", outcome_name[r.o], r.msg.c_str());
            fail("C25", "malloc-info-fault", "malloc_info on a stream that allocates: %s %s", outcome_name[r.o], r.msg.c_str());
            free_snap(S);
            throw mc::Prune{};   // the stream is lost
        }
        fclose(fp);
        restore(S); load(M);
        if (rc) fail("C25", "malloc-info", "malloc_info returned %d", rc);
        if (open) fail("C29", "left-unsealed", "malloc_info returned with metadata access enabled");
        if (held) fail("*", "lock-held", "malloc_info returned with a lock held");
    }
    free_snap(S);
}

void Seq::probe() {
    if (probe_every > 1 && (env::state_hash() ^ hash()) % probe_every) return;
    if (p_bad || p_freed) probe_bad();
    if (p_canary) probe_canary();
    if (p_cover) probe_cover();
    if (p_sizes) probe_sizes();
    if (p_poke) probe_pokes();
    if (p_stats) probe_stats();
}
} // namespace seq
