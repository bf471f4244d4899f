// Memory tagging: the sequence search on a target built with memory tagging, whose tagging instructions are answered
// here.  Programs see tagged pointers; the reference model works with untagged addresses.
#include "drivers.h"
#include "seq.h"
#include <algorithm>
#include <cerrno>

using namespace env;
using namespace heap;
using mc::fail;
using mc::want;

namespace {
constexpr u64 AMASK = ~0ull >> 8;
u64 untag(u64 p) { return p & AMASK; }
u8 tag_of(u64 p) { return p >> 56 & 0xf; }

struct Tags {
    std::map<u64, std::pair<u64, u8>> mem;     // start -> (end, tag), tag 0 not stored
    IvSet on;                                  // mappings with tag checking
    std::map<u64, u8> ptr;                     // block -> tag of the pointer the program holds
    std::map<u64, u8> last;                    // slot -> latest tag
};
struct Mte : seq::Seq {
    struct Saved { std::shared_ptr<void> m; Tags t; };
    Tags t;
    int ntags = 2;
    Target real;
    std::vector<std::pair<u64, u8>> fresh;     // handed out by this operation
    bool tag_fault = false;

    void clear(u64 s, u64 e) {
        auto it = t.mem.upper_bound(s);
        if (it != t.mem.begin()) --it;
        while (it != t.mem.end() && it->first < e) {
            u64 a = it->first, b = it->second.first; u8 g = it->second.second;
            if (b <= s) { ++it; continue; }
            it = t.mem.erase(it);
            if (a < s) t.mem[a] = {s, g};
            if (b > e) { t.mem[e] = {b, g}; break; }
        }
    }
    void store(u64 s, u64 e, u8 g) { clear(s, e); if (g) t.mem[s] = {e, g}; }
    // is every granule of [s, e) tagged g?
    bool all_tagged(u64 s, u64 e, u8 g) const {
        u64 a = s;
        while (a < e) {
            auto it = t.mem.upper_bound(a);
            u8 here = 0; u64 end = it == t.mem.end() ? e : it->first;
            if (it != t.mem.begin()) { auto p = std::prev(it); if (p->second.first > a) { here = p->second.second; end = p->second.first; } }
            if (here != g) return false;
            a = end;
        }
        return true;
    }
    bool checked(u64 s, u64 e) const { return iv_has(t.on, s, e); }
    bool overlaps(u64 s, u64 e) const { for (auto &x : t.on) if (x.s < e && s < x.e) return true; return false; }
    void access(u64 p, u64 n, const char *what) {
        u64 a = untag(p);
        if (m.notag) return;                    // the process runs without tag checks from here on
        if (!n || !in_window(a) || !overlaps(a, a + n)) return;
        if (!all_tagged(a & ~15ull, (a + n + 15) & ~15ull, tag_of(p)))
            escape(O_SEGV, mc::fmt("the allocator's %s of %lu bytes through a pointer tagged %u faults: memory tag mismatch at %#lx", what, n, tag_of(p), a), a);
    }
    u64 in_any(u64 a) {                        // an address within the block whose pointer the program holds
        auto it = t.ptr.upper_bound(a);
        if (!a || it == t.ptr.begin()) return a;
        --it;
        int i = find(it->first);
        return i >= 0 && a < it->first + std::max<u64>(16, m.objs[i].us + canary) ? a | (u64)it->second << 56 : a;
    }
    u64 in(u64 a) { auto it = t.ptr.find(a); return it == t.ptr.end() ? a : a | (u64)it->second << 56; }
    void *out(void *p) {
        u64 a = untag((u64)p);
        if (!p) return p;
        if ((u64)p >> 60) escape(O_TRAP, mc::fmt("pointer %p has bits beyond the tag", p), (u64)p);
        t.ptr[a] = tag_of((u64)p);
        fresh.push_back({a, tag_of((u64)p)});
        return (void *)a;
    }
    void gone(u64 a) { t.ptr.erase(a); }
    void bind();
    void after();
    void run(const Op &op) override { fresh.clear(); seq::Seq::run(op); after(); }
    u64 hash() override {
        u64 h = seq::Seq::hash();
        auto mix = [&](u64 x) { h = mix64(h * 31 + x + 0x9e37); };
        for (auto &x : t.mem) { mix(x.first); mix(x.second.first); mix(x.second.second); }
        for (auto &x : t.ptr) { mix(x.first); mix(x.second); }
        for (auto &x : t.last) { mix(x.first); mix(x.second); }
        for (auto &x : t.on) { mix(x.s); mix(x.e); }
        return h;
    }
    std::shared_ptr<void> save() override { auto s = std::make_shared<Saved>(); s->m = seq::Seq::save(); s->t = t; return s; }
    void load(const std::shared_ptr<void> &p) override { auto *s = (Saved *)p.get(); seq::Seq::load(s->m); t = s->t; }
};
Mte W;

void Mte::bind() {
    real = T;
    T.malloc = [](size_t n) { return W.out(W.real.malloc(n)); };
    T.calloc = [](size_t a, size_t b) { return W.out(W.real.calloc(a, b)); };
    T.aligned_alloc = [](size_t a, size_t b) { return W.out(W.real.aligned_alloc(a, b)); };
    T.memalign = [](size_t a, size_t b) { return W.out(W.real.memalign(a, b)); };
    T.valloc = [](size_t a) { return W.out(W.real.valloc(a)); };
    T.pvalloc = [](size_t a) { return W.out(W.real.pvalloc(a)); };
    T.posix_memalign = [](void **p, size_t a, size_t n) { int r = W.real.posix_memalign(p, a, n); if (!r) *p = W.out(*p); return r; };
    T.free = [](void *p) { u64 q = W.in((u64)p); W.real.free((void *)q); W.gone((u64)p); };
    T.cfree = [](void *p) { u64 q = W.in((u64)p); W.real.cfree((void *)q); W.gone((u64)p); };
    T.free_sized = [](void *p, size_t n) { u64 q = W.in((u64)p); W.real.free_sized((void *)q, n); W.gone((u64)p); };
    T.realloc = [](void *p, size_t n) -> void * {
        u64 q = W.in((u64)p);
        void *r = W.real.realloc((void *)q, n);
        if (!r) return r;
        if ((u64)r == q) return p;
        // the same address with another tag is a new generation of the slot
        W.gone((u64)p);
        return W.out(r);
    };
    T.malloc_usable_size = [](void *p) { return W.real.malloc_usable_size((void *)W.in((u64)p)); };
    T.malloc_object_size = [](const void *p) { return W.real.malloc_object_size((void *)W.in_any((u64)p)); };
    T.malloc_object_size_fast = [](const void *p) { return W.real.malloc_object_size_fast((void *)W.in_any((u64)p)); };
    mte_irg = [this](void *p, u64 excl) -> void * {
        u64 a = untag((u64)p);
        if (m.notag) fail("C30", "tagged-while-disabled", "%s: a tag is drawn for %#lx after tagging was disabled", shown.c_str(), a);
        std::vector<int> c;
        for (int i = 0; i < 16; i++) if (!(excl >> i & 1)) c.push_back(i);
        int g = 0;
        if (c.empty()) g = 0;
        else if (quiet || force_pos >= 0 || !in_op) g = c[(m.stream_pos * 7 + a / 16 % 13) % c.size()];
        else {
            int n = std::min<int>(ntags, c.size()), k = mc::choose(n);
            g = k == n - 1 && n > 1 ? c.back() : c[k];
        }
        return (void *)(a | (u64)g << 56);
    };
    mte_store = [this](void *p, u64 n) {
        u64 a = untag((u64)p);
        if (a % 16 || n % 16) escape(O_TRAP, mc::fmt("tag store to %#lx + %lu is not aligned", a, n), a);
        if (!n) return;
        store(a, a + n, tag_of((u64)p));
        ::memset((void *)a, 0, n);
    };
    memset_hook = [this](void *p, int c, size_t n) { access((u64)p, n, "memset"); ::memset((void *)untag((u64)p), c, n); return p; };
    memcpy_hook = [this](void *d, const void *s, size_t n) {
        access((u64)s, n, "copy from"); access((u64)d, n, "copy to");
        ::memcpy((void *)untag((u64)d), (void *)untag((u64)s), n);
        return d;
    };
    mte_discard = [this](u64 s, u64 e) { clear(s, e); };
    mte_map = [this](u64 s, u64 e, bool on) {
        IvSet n = iv_sub(t.on, IvSet{{s, e}});
        if (on) n.push_back({s, e});
        t.on = iv_norm(n);
    };
}

void Mte::after() {
    // the slot at an address and its neighbours in the slab
    u64 region = cfg("CONFIG_CLASS_REGION_SIZE");
    auto slot = [&](u64 a, u64 &left, u64 &right) {
        for (auto &kv : m.cls) {
            const ClassInfo &ci = classes[kv.first % 64];
            u64 base = kv.second.base;
            if (!ci.size || !base || a < base || a >= base + region) continue;
            u64 i = (a - base) / ci.slab, k = (a - base - i * ci.slab) / ci.size;
            left = k ? a - ci.size : 0;
            right = k + 1 < ci.slots ? a + ci.size : 0;
            return true;
        }
        return false;
    };
    if (m.notag) {
        for (auto &f : fresh) if (f.second) fail("C30", "tagged-while-disabled", "block %#lx, allocated after tagging was disabled, has pointer tag %u", f.first, f.second);
        return;
    }
    auto lt = [&](u64 a) -> int { auto it = t.last.find(a); return a && it != t.last.end() ? it->second : -1; };
    for (auto &f : fresh) {
        u64 l, r;
        mc::note_oracle();
        if (!slot(f.first, l, r)) {
            if (f.second) fail("C30", "untagged-memory", "block %#lx, whose memory is not tagged, has pointer tag %u", f.first, f.second);
            continue;
        }
        if (!f.second) fail("C30", "reserved-tag", "block %#lx has the reserved tag 0", f.first);
        if (lt(f.first) == f.second) fail("C30", "same-generation-tag", "block %#lx has tag %u, as the slot's previous block had", f.first, f.second);
        if (lt(l) == f.second) fail("C30", "neighbour-tag", "block %#lx has tag %u, the latest tag of the slot to its left", f.first, f.second);
        if (lt(r) == f.second) fail("C30", "neighbour-tag", "block %#lx has tag %u, the latest tag of the slot to its right", f.first, f.second);
        t.last[f.first] = f.second;
        mc::count("tagged_blocks");
    }
    for (auto &o : m.objs) {
        if (o.kind != SMALL) continue;
        u64 sz = classes[o.cls].size;
        u8 g = t.ptr[o.a];
        if (!g) fail("C30", "reserved-tag", "block %#lx of %lu bytes has the reserved tag 0", o.a, o.req);
        if (!checked(o.a, o.a + sz)) fail("C30", "tagging-off", "memory of live block %#lx (class %lu) is mapped without tag checking", o.a, sz);
        if (!all_tagged(o.a, o.a + sz, g)) fail("C30", "memory-tag", "memory of live block %#lx (class %lu) does not carry the tag %u of its pointer throughout", o.a, sz, g);
    }
    for (auto &kv : m.cls) {
        const ClassInfo &ci = classes[kv.first % 64];
        if (!ci.size) continue;
        for (size_t i = 0; i < kv.second.slabs.size(); i++) {
            if (kv.second.slabs[i].st == S_NEVER) continue;
            for (u32 k = 0; k < ci.slots; k++) {
                u64 a = kv.second.base + i * ci.slab + (u64)k * ci.size;
                if (find(a) >= 0) continue;
                if (!all_tagged(a, a + ci.size, 0)) fail("C30", "stale-tag", "freed or unused slot %#lx (class %u) does not carry the reserved tag: stale pointers still match", a, ci.size);
            }
        }
    }
}
} // namespace

int run_mte() {
    int faults = args.num("faults", 0);
    setup_seq(W);
    W.m.faults = 0;
    W.ntags = args.num("tags", 2);
    W.bind();
    W.start();
    W.after();
    W.m.faults = faults;
    run_world(W, limits());
    return 0;
}
