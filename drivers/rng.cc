// The random number generator by itself (bounded draws, keystream, seeding), and the randomness of a whole allocator
// across classes, arenas, forks and processes.
#include "drivers.h"
#include "../engine/heap.h"
#include <algorithm>
#include <cerrno>
#include <set>
#include <unistd.h>

using namespace env;
using namespace heap;
using mc::fail;
using mc::want;

namespace {
typedef unsigned __int128 u128;
struct Api {
    size_t size;
    void (*init)(void *); void (*derive)(void *, void *); void (*bytes)(void *, void *, size_t);
    u16 (*w16)(void *); u64 (*w64)(void *); u16 (*u16u)(void *, u16); u64 (*u64u)(void *, u64);
} R;
template <class F> void bind(F &f, const char *n) {
    f = (F)sym(n);
    if (!f) { fprintf(stderr, "the random number generator has no function %s\n", n); exit(70); }
}
void bind_all() {
    size_t (*sz)();
    bind(sz, "hmc_rng_size"); R.size = sz();
    bind(R.init, "random_state_init"); bind(R.derive, "random_state_init_from_random_state"); bind(R.bytes, "get_random_bytes");
    bind(R.w16, "get_random_u16"); bind(R.w64, "get_random_u64"); bind(R.u16u, "get_random_u16_uniform"); bind(R.u64u, "get_random_u64_uniform");
}
void need(const Result &r, const char *p, const char *what) {
    if (r.o == O_OK) return;
    fail(p, r.o == O_HANG ? "endless" : "crash", "%s: %s %s", what, outcome_name[r.o], r.msg.c_str());
    fail("*", "crash", "%s: %s %s", what, outcome_name[r.o], r.msg.c_str());
}

// ---------------------------------------------------------------- an independent ChaCha8
struct Ref {
    u32 in[16];
    std::vector<u8> ks;
    void seed(const u8 *s) {
        static const char c[] = "expand 32-byte k";
        memcpy(in, c, 16); memcpy(in + 4, s, 32); in[12] = in[13] = 0; memcpy(in + 14, s + 32, 8);
        ks.clear();
    }
    static u32 rot(u32 x, int n) { return x << n | x >> (32 - n); }
    void block() {
        u32 x[16]; memcpy(x, in, 64);
        static const int q[8][4] = {{0, 4, 8, 12}, {1, 5, 9, 13}, {2, 6, 10, 14}, {3, 7, 11, 15}, {0, 5, 10, 15}, {1, 6, 11, 12}, {2, 7, 8, 13}, {3, 4, 9, 14}};
        for (int r = 0; r < 4; r++) for (auto &k : q) {
            u32 &a = x[k[0]], &b = x[k[1]], &c = x[k[2]], &d = x[k[3]];
            a += b; d = rot(d ^ a, 16); c += d; b = rot(b ^ c, 12); a += b; d = rot(d ^ a, 8); c += d; b = rot(b ^ c, 7);
        }
        for (int i = 0; i < 16; i++) x[i] += in[i];
        if (!++in[12]) ++in[13];
        size_t n = ks.size(); ks.resize(n + 64); memcpy(&ks[n], x, 64);
    }
    const u8 *at(size_t pos, size_t n) { while (ks.size() < pos + n) block(); return &ks[pos]; }
    bool match(size_t pos, const u8 *o, size_t n) { return !memcmp(at(pos, n), o, n); }
};

// ---------------------------------------------------------------- C22
void uniform16(u64 bound) {
    static u32 hist[65536];
    memset(hist, 0, sizeof hist);
    std::vector<u8> st(R.size);
    u32 pos = 0; bool init = true, fed = false;
    keystream_fn = [&](u8 *o, u32 n) {
        if (init) return 0;
        fed = true;
        if (pos >= 65536) escape(O_TRAP, "", 0);
        for (u32 i = 0; i + 1 < n; i += 2, pos++) { o[i] = pos & 255; o[i + 1] = pos >> 8; }
        return 1;
    };
    u32 out = 0;
    Result r = env::run_([&] {
        R.init(st.data());
        init = false;
        for (;;) {
            u16 v = R.u16u(st.data(), bound);
            if (v >= std::max<u64>(bound, 1) && !out) out = v + 1;
            hist[v]++;
        }
    });
    keystream_fn = nullptr;
    if (r.o != O_TRAP) need(r, "C22", mc::fmt("get_random_u16_uniform(%lu)", bound).c_str());
    if (!fed) { fprintf(stderr, "the generator does not ask for keystream bytes\n"); _exit(70); }
    if (out) fail("C22", "out-of-range", "get_random_u16_uniform(%lu) returned %u", bound, out - 1);
    u32 m = std::max<u64>(bound, 1);
    for (u32 v = 0; v < m; v++) if (hist[v] != hist[0] || !hist[v])
        fail("C22", "not-uniform", "get_random_u16_uniform(%lu): of all 65536 input words, %u give 0 and %u give %u", bound, hist[0], hist[v], v);
    mc::note_probe(65536); mc::count("draws", 65536); mc::note_oracle(m);
}
std::vector<u64> bounds64() {
    std::set<u64> s;
    for (u64 i = 0; i <= 4096; i++) s.insert(i);
    for (int k = 0; k < 64; k++) for (u64 m : {1ull, 3ull, 5ull, 7ull, 255ull}) for (int d = -2; d <= 2; d++) s.insert((m << k) + d);
    for (u64 d = 0; d < 64; d++) s.insert(~0ull - d);
    for (u64 d = 1; d <= 64; d++) { s.insert(~0ull / d); s.insert(~0ull / d + 1); s.insert(~0ull / d - 1); }
    return std::vector<u64>(s.begin(), s.end());
}
void uniform64(u64 b) {
    // the words at which the answer or the acceptance changes, and structured others
    std::vector<u64> ws;
    for (int k = 0; k < 64; k++) for (int d = -1; d <= 1; d++) ws.push_back((1ull << k) + d);
    for (u64 d = 0; d < 16; d++) ws.push_back(~0ull - d);
    if (b) for (u64 v : {(u64)0, (u64)1, (u64)2, b / 3, b / 2, b - 2, b - 1}) {
        u64 w = (u64)((((u128)v << 64) + b - 1) / b);
        for (int d = -4; d <= 4; d++) ws.push_back(w + d);
        u64 thr = b ? (-b) % b : 0;
        u64 t = (u64)((((u128)v << 64) + thr + b - 1) / b);      // first word whose low half reaches the threshold
        for (int d = -4; d <= 4; d++) ws.push_back(t + d);
    }
    u64 threshold = b ? (-b) % b : 0;
    std::vector<u8> st(R.size);
    for (u64 w : ws) for (int second = 0; second < 2; second++) {
        // words in order: w, another rejected one (if any), an accepted one
        std::vector<u64> feed{w};
        if (second) feed.push_back(0);
        feed.push_back(0x8000000000000001ull); feed.push_back(0xdeadbeefcafef00dull); feed.push_back(0x123456789abcdef1ull);
        for (int i = 0; i < 40; i++) feed.push_back(0x9e3779b97f4a7c15ull * (i + 3));
        size_t used = 0; u64 expect = 0;
        for (;;) {
            u128 p = (u128)feed[used++] * b;
            if ((u64)p >= threshold || used == feed.size()) { expect = (u64)(p >> 64); break; }
        }
        bool init = true; size_t at = 0;
        keystream_fn = [&](u8 *o, u32 n) {
            if (init) return 0;
            for (u32 i = 0; i + 7 < n; i += 8, at++) { u64 x = at < feed.size() ? feed[at] : at * 0x9e3779b97f4a7c15ull; memcpy(o + i, &x, 8); }
            return 1;
        };
        u64 v = 0, next = 0;
        Result r = env::run_([&] { R.init(st.data()); init = false; v = R.u64u(st.data(), b); next = R.w64(st.data()); });
        keystream_fn = nullptr;
        need(r, "C22", mc::fmt("get_random_u64_uniform(%lu)", b).c_str());
        if (b ? v >= b : v != 0) fail("C22", "out-of-range", "get_random_u64_uniform(%lu) returned %lu", b, v);
        if (v != expect) fail("C22", "not-uniform", "get_random_u64_uniform(%lu) returned %lu instead of %lu for the input word %#lx", b, v, expect, w);
        if (next != feed[used]) fail("C22", "words-reused", "get_random_u64_uniform(%lu) did not consume exactly %zu words", b, used);
        mc::note_probe(); mc::note_oracle();
    }
    mc::count("bounds64");
}

// ---------------------------------------------------------------- C23
struct Seeds {
    std::vector<u8> log; u64 ctr = 0;
    u8 next() { u8 b = (u8)(mix64(0xabcd + ++ctr) >> 13); log.push_back(b); return b; }
};
struct Stream {
    Ref ref; size_t cur = 0, high = 0; u64 given = 0;
    std::vector<u8> used;
};
constexpr size_t SEED = 40, BOUND = 256 * 1024;
struct Checker {
    Seeds seeds; Stream s; size_t seen = 0;
    std::string hist;
    void start(const u8 *seed) { s = Stream(); s.ref.seed(seed); }
    void mark(Stream &t, size_t pos, size_t n) {
        if (t.used.size() < pos + n) t.used.resize(pos + n + 4096);
        for (size_t i = pos; i < pos + n; i++) {
            if (t.used[i]) fail("C23", "reused", "keystream byte %zu is used twice: %s", i, hist.c_str());
            t.used[i] = 1;
        }
        t.high = std::max(t.high, pos + n); t.given += n;
    }
    // o[0..n) must come next from the stream
    bool take(Stream &t, const u8 *o, size_t n, bool word) {
        if (!n) return true;
        size_t gap = word ? 8 : 1;
        for (size_t g = 0; g < gap; g++) if (t.ref.match(t.cur + g, o, n)) { mark(t, t.cur + g, n); t.cur += g + n; return true; }
        for (int pass = 0; pass < 2; pass++) for (size_t g = 0; g < 320; g++) if (t.high + g != t.cur && ((t.high + g) % 64 == 0) == !pass && t.ref.match(t.high + g, o, n)) {
            size_t p = t.high + g;
            mark(t, p, n);
            if (n <= 128) t.cur = p + n;
            return true;
        }
        // the rest of the cached bytes, then bytes after those handed out directly
        if (!word) for (size_t k = n - 1; k; k--) if (t.ref.match(t.cur, o, k)) for (int pass = 0; pass < 2; pass++) for (size_t g = 0; g < 320; g++) if (t.high + g >= t.cur + k && ((t.high + g) % 64 == 0) == !pass && t.ref.match(t.high + g, o + k, n - k)) {
            size_t p = t.high + g;
            mark(t, t.cur, k); mark(t, p, n - k);
            t.cur = p + n - k;
            return true;
        }
        return false;
    }
    void got(const u8 *o, size_t n, bool word) {
        size_t had = seeds.log.size();
        if (had > seen) {     // reseeded during this request
            if (had - seen < SEED) fail("C23", "short-seed", "only %zu bytes of seed were obtained: %s", had - seen, hist.c_str());
            Stream nx; nx.ref.seed(&seeds.log[seen]);
            for (size_t k = word ? 0 : n;; k--) {   // the last k bytes of the old stream first
                Stream a = s, b = nx;
                if (take(a, o, k, false) && take(b, o + k, n - k, word)) { s = b; seen = had; mc::count("reseeds_observed"); return; }
                if (!k) break;
            }
            fail("C23", "not-keystream", "the output after reseeding is not the ChaCha8 stream of the new seed: %s", hist.c_str());
            seen = had;
            return;
        }
        if (!take(s, o, n, word)) fail("C23", "not-keystream", "%zu bytes returned are not the next unused part of the ChaCha8 stream: %s", n, hist.c_str());
        if (s.cur > BOUND + 512) fail("C23", "no-reseed", "%zu bytes were produced from one seed: %s", s.cur, hist.c_str());
        mc::note_oracle();
    }
};
struct ReqOp { char k; size_t n; const char *name; };
const ReqOp OPS[] = {{'w', 2, "get_random_u16"}, {'w', 8, "get_random_u64"}, {'b', 1, "get_random_bytes(1)"}, {'b', 7, "get_random_bytes(7)"}, {'b', 40, "get_random_bytes(40)"},
                     {'b', 127, "get_random_bytes(127)"}, {'b', 128, "get_random_bytes(128)"}, {'d', 40, "random_state_init_from_random_state"},
                     {'b', 129, "get_random_bytes(129)"}, {'b', 256, "get_random_bytes(256)"}, {'b', 600, "get_random_bytes(600)"}};
constexpr int N_SMALL = 8, N_OPS = 11;

// one request sequence from a given amount of earlier output
struct StreamJob {
    int depth, menu; bool late; std::vector<size_t> starts;
    u64 total() const { u64 n = starts.size(); for (int i = 0; i < depth; i++) n *= menu; return n; }
    // prepared states: after `start` bytes of output
    std::map<size_t, std::pair<std::vector<u8>, Checker>> prep;
    void request(std::vector<u8> &st, Checker &c, const ReqOp &op) {
        u8 buf[1024];
        c.hist += std::string(op.name) + "; ";
        if (op.k == 'd') {
            std::vector<u8> d(R.size);
            memset(d.data(), 0xa5, d.size());
            u8 seed[SEED];
            {   // what the next 40 bytes of the parent are, asked of a copy of it
                Checker cc = c; std::vector<u8> t = st;
                use(cc);
                Result r = env::run_([&] { R.bytes(t.data(), seed, SEED); });
                need(r, "C23", op.name);
                use(c);
            }
            Result r = env::run_([&] { R.derive(d.data(), st.data()); });
            need(r, "C23", op.name);
            {
                std::vector<u8> t = d; u8 o[16]; Ref dr; dr.seed(seed);
                Result r2 = env::run_([&] { R.bytes(t.data(), o, 16); });
                need(r2, "C23", op.name);
                if (!dr.match(0, o, 16)) fail("C23", "derived-seed", "a generator derived from another is not keyed by the next 40 bytes of its stream: %s", c.hist.c_str());
            }
            c.got(seed, SEED, false);
            // the derived one, for a while
            Checker dc; dc.start(seed); dc.seeds = c.seeds; dc.seen = c.seeds.log.size(); dc.hist = c.hist + "derived: ";
            std::vector<u8> t = d;
            for (int i = 0; i < 3; i++) { u8 o[300]; size_t n = i == 1 ? 100 : 8; Result r3 = env::run_([&] { R.bytes(t.data(), o, n); }); need(r3, "C23", op.name); dc.got(o, n, false); }
            return;
        }
        if (op.k == 'w') {
            u64 v = 0;
            Result r = env::run_([&] { v = op.n == 2 ? R.w16(st.data()) : R.w64(st.data()); });
            need(r, "C23", op.name);
            memcpy(buf, &v, 8);
            c.got(buf, op.n, true);
        } else {
            memset(buf, 0, sizeof buf);
            Result r = env::run_([&] { R.bytes(st.data(), buf, op.n); });
            need(r, "C23", op.name);
            c.got(buf, op.n, false);
            for (size_t i = op.n; i < sizeof buf; i++) if (buf[i]) fail("C23", "overrun", "byte %zu after the requested %zu was written", i, op.n);
        }
    }
    void use(Checker &c) { getrandom_fn = [&c](u8 *b, size_t n) { for (size_t i = 0; i < n; i++) b[i] = c.seeds.next(); return (int)n; }; }
    void prepare(size_t start) {
        std::vector<u8> st(R.size); Checker c;
        memset(st.data(), 0x5a, st.size());
        use(c);
        Result r = env::run_([&] { R.init(st.data()); });
        need(r, "C23", "random_state_init");
        if (c.seeds.log.size() < SEED) fail("C23", "short-seed", "random_state_init obtained only %zu bytes of seed", c.seeds.log.size());
        c.start(c.seeds.log.data()); c.seen = c.seeds.log.size();
        ReqOp b128{'b', 128, ""}, b1{'b', 1, ""};
        size_t left = start;
        while (left >= 128) { request(st, c, b128); left -= 128; }
        while (left) { request(st, c, b1); left--; }
        c.hist = mc::fmt("after %zu bytes: ", start);
        c.seeds.log.shrink_to_fit();
        prep[start] = {st, c};
    }
    void body(u64 i) {
        size_t start = starts[i % starts.size()]; i /= starts.size();
        if (!prep.count(start)) { if (prep.size() > 40) prep.clear(); prepare(start); }
        auto p = prep[start];
        use(p.second);
        for (int k = 0; k < depth; k++) { request(p.first, p.second, OPS[i % menu]); i /= menu; }
        // and then plain words until well past the next block
        static const ReqOp w{'w', 8, "get_random_u64"};
        for (int k = 0; k < 36; k++) { request(p.first, p.second, w); if (k == 0) p.second.hist += "..."; }
        getrandom_fn = nullptr;
        mc::note_probe();
    }
};

// the block counter's carry: a generator whose keystream position was moved to just before 2^32 blocks (where the
// counter lies in the state is found by looking: the cipher's constant, then the block number and the nonce)
void carry(u64 i) {
    std::vector<u8> st(R.size), seed;
    memset(st.data(), 0x5a, st.size());
    u64 at = 0;
    getrandom_fn = [&](u8 *b, size_t n) { for (size_t k = 0; k < n; k++) { b[k] = (u8)(mix64(0x77 + at++) >> 9); seed.push_back(b[k]); } return (int)n; };
    u8 o[512];
    Result r = env::run_([&] { R.init(st.data()); R.bytes(st.data(), o, 256); });
    getrandom_fn = nullptr;
    need(r, "C23", "random_state_init");
    static const char c[] = "expand 32-byte k";
    size_t off = R.size;
    for (size_t k = 0; k + 64 <= R.size; k += 4) if (!memcmp(&st[k], c, 16)) off = k;
    u32 ctr[2];
    if (off == R.size || (memcpy(ctr, &st[off + 48], 8), ctr[0] != 4 || ctr[1]) || memcmp(&st[off + 16], seed.data(), 32) || memcmp(&st[off + 56], seed.data() + 32, 8)) { mc::count("counter_not_found"); return; }
    static const u32 lo[] = {0xffffffff, 0xfffffffe, 0xfffffffd, 0xfffffffb}, hi[] = {0, 1, 41};
    ctr[0] = lo[i % 4]; ctr[1] = hi[i / 4 % 3];
    memcpy(&st[off + 48], ctr, 8);
    Ref ref; ref.seed(seed.data()); ref.in[12] = ctr[0]; ref.in[13] = ctr[1];
    size_t pos = 0;
    auto take = [&](size_t n) {
        Result q = env::run_([&] { R.bytes(st.data(), o, n); });
        need(q, "C23", "get_random_bytes");
        if (!ref.match(pos, o, n)) fail("C23", "not-keystream", "bytes %zu to %zu after block %#x:%x are not the ChaCha8 stream", pos, pos + n, ctr[1], ctr[0]);
        pos += n;
    };
    if (i / 12 == 0) { for (int k = 0; k < 64; k++) take(8); }
    else if (i / 12 == 1) { take(512); take(300); }
    else { take(256); take(256); for (int k = 0; k < 64; k++) take(8); }
    mc::note_probe(); mc::note_oracle();
}

// every pattern of short and interrupted reads of the system's random source
void short_reads(u64 idx, bool reseed) {
    int pat[3]; u64 i = idx;
    for (int &x : pat) { x = i % 43; i /= 43; }   // 0: EINTR, 1..40: that many bytes, 41: returns 0, 42: EIO
    bool must_die = false;
    { size_t have = 0; for (int x : pat) { if (have >= SEED) break; if (x > 40) { must_die = true; break; } have += x; } }
    Seeds seeds; int call = 0;
    bool on = !reseed;
    getrandom_fn = [&](u8 *b, size_t n) -> int {
        size_t k = n;
        if (on) {
            int x = call < 3 ? pat[call] : 99; call++;
            if (x == 0) { errno = EINTR; return -1; }
            if (x == 41) return 0;
            if (x == 42) { errno = EIO; return -1; }
            k = std::min<size_t>(n, x);
        }
        for (size_t j = 0; j < k; j++) b[j] = seeds.next();
        return k;
    };
    std::vector<u8> st(R.size); memset(st.data(), 0x5a, st.size());
    std::string what = mc::fmt("system random source answering %d, %d, %d (0: interrupted, 41: nothing, 42: error)%s", pat[0], pat[1], pat[2], reseed ? " when reseeding" : "");
    u64 v[3] = {0};
    static std::vector<u8> spent;      // a generator at the end of its seed, made once
    Result r;
    if (reseed) {
        if (spent.empty()) {
            spent.assign(R.size, 0);
            r = env::run_([&] { R.init(spent.data()); for (size_t n = 0; n < BOUND; n += 8) R.w64(spent.data()); });
            need(r, "C23", "producing 256 KiB");
        }
        st = spent;
        seeds.log.clear(); on = true;
    }
    r = env::run_([&] { if (!reseed) R.init(st.data()); for (u64 &x : v) x = R.w64(st.data()); });
    getrandom_fn = nullptr;
    if (must_die) {
        if (r.o != O_FATAL) { fail("C23", "seed-error-ignored", "%s: %s", what.c_str(), outcome_name[r.o]); fail("C18", "seed-error-ignored", "%s: %s", what.c_str(), outcome_name[r.o]); }
        return;
    }
    need(r, "C23", what.c_str());
    if (seeds.log.size() < SEED) fail("C23", "short-seed", "%s: only %zu bytes of seed were obtained", what.c_str(), seeds.log.size());
    Ref ref; ref.seed(seeds.log.data());
    if (!ref.match(0, (u8 *)v, sizeof v)) fail("C23", "not-keystream", "%s: the output is not the ChaCha8 stream of the bytes obtained", what.c_str());
    mc::note_oracle(); mc::note_probe();
}

// ---------------------------------------------------------------- randomness of a whole allocator
struct Div : Heap {
    void init() override {}
    void ops(std::vector<mc::Op> &) override {}
    void run(const mc::Op &) override {}
};
Div H;
u64 salt = 0, grctr = 0;
void source() {
    grctr = 0;
    getrandom_fn = [](u8 *b, size_t n) { for (size_t i = 0; i < n; i++) b[i] = (u8)(mix64(salt * 0x1000003 + ++grctr) >> 17); return (int)n; };
}
struct Trace { std::vector<std::string> name; std::vector<std::vector<u64>> slots, canaries; };
// allocation behaviour of every class (and of large allocations) from the current state
Trace observe(int count, bool freeing) {
    Trace t;
    Result r = env::run_([&] {
        for (size_t k = 1; k < classes.size(); k++) {
            std::vector<u64> s, c;
            int n = classes[k].slots <= 4 ? count : count;
            std::vector<void *> v;
            for (int i = 0; i < n; i++) {
                u8 *p = (u8 *)T.malloc(classes[k].size - canary);
                if (!p) escape(O_TRAP, "malloc failed");
                s.push_back((u64)p);
                u64 cv = 0; if (canary) memcpy(&cv, p + classes[k].size - canary, 8);
                c.push_back(cv);
                v.push_back(p);
                if (freeing && i % 3 == 2) { T.free(v[i / 2]); v[i / 2] = nullptr; v.push_back(nullptr); }
            }
            t.name.push_back(mc::fmt("class %u", classes[k].size)); t.slots.push_back(s); t.canaries.push_back(c);
        }
        std::vector<u64> s;
        for (int i = 0; i < count; i++) s.push_back((u64)T.malloc(3000000));
        t.name.push_back("large"); t.slots.push_back(s); t.canaries.push_back({});
    });
    if (r.o != O_OK) { fail("*", "crash", "allocating: %s %s (%#lx)", outcome_name[r.o], r.msg.c_str(), r.addr); }
    return t;
}
// every observed decision must differ somewhere among the runs
template <class... A> void fails(const char *ps, const char *clause, const char *f, A... a) {
    std::string t;
    for (const char *q = ps;; q++) { if (*q && *q != ' ') { t += *q; continue; } fail(t.c_str(), clause, f, a...); t.clear(); if (!*q) return; }
}
void diverge(const char *p, const char *clause, const std::vector<Trace> &ts, const std::string &who, bool forked, u64 history) {
    for (size_t k = 0; k < ts[0].name.size(); k++) {
        for (int canaries = 0; canaries < 2; canaries++) {
            auto get = [&](const Trace &t) -> const std::vector<u64> & { return canaries ? t.canaries[k] : t.slots[k]; };
            bool single = k + 1 < classes.size() && classes[k + 1].slots == 1;
            if (canaries ? !canary || get(ts[0]).empty() : !slot_rand && k + 1 < ts[0].name.size()) continue;
            if (canaries && forked && classes[k + 1].slots > 4) continue;      // these blocks may all be in slabs older than the fork
            if (!canaries && single) continue;      // no choice of slot; the quarantine position is covered by the sequence below
            for (size_t i = 0; i < get(ts[0]).size(); i++) {
                // the first large block and canaries of slabs activated before the split need not differ
                bool all = true;
                for (auto &t : ts) all &= get(t)[i] == get(ts[0])[i];
                // slots and canaries already determined when only one choice was left
                if (!all) continue;
                bool forced = canaries ? true : k + 1 < ts[0].name.size() && history + i + 9 > classes[k + 1].slots;
                if (forced) continue;
                fails(p, clause, "%s: %s number %zu of %s is the same (%#lx) in all %zu runs", who.c_str(), canaries ? "canary" : "block", i, ts[0].name[k].c_str(), get(ts[0])[i], ts.size());
            }
            // and no two runs may agree altogether
            for (size_t a = 0; a < ts.size(); a++) for (size_t b = 0; b < a; b++) if (get(ts[a]) == get(ts[b]))
                fails(p, clause, "%s: runs %zu and %zu get the same %s in %s", who.c_str(), b, a, canaries ? "canaries" : "blocks", ts[0].name[k].c_str());
        }
        mc::note_oracle();
    }
}
// children of one parent, and the parent itself: history = calls made by the parent before forking
void fork_diverge(u64 history) {
    Snap *S0 = snapshot();
    salt = 1; source();
    u64 before = history;
    size_t tn; u8 *tls = (u8 *)tls_ptr(&tn);
    std::vector<u8> fresh(tls, tls + tn);
    std::vector<std::vector<u8>> arena;      // the thread-local data of a thread of each arena
    Result r{};
    for (int a = 0; a < n_arena; a++) {
        memcpy(tls, fresh.data(), tn);
        r = env::run_([&] {
            T.free(T.malloc(1));
            for (u64 i = 0; i < before; i++) { for (size_t k = 1; k < classes.size(); k++) T.free(T.malloc(classes[k].size - canary)); T.free(T.malloc(3000000)); }
        });
        if (r.o != O_OK) { fail("*", "crash", "allocating: %s %s", outcome_name[r.o], r.msg.c_str()); return; }
        arena.emplace_back(tls, tls + tn);
    }
    memcpy(tls, arena[0].data(), tn);
    if (!atfork_prepare || !atfork_child) { fail("C20", "fork-handlers", "no fork handlers are registered"); return; }
    std::vector<std::vector<Trace>> ts(n_arena);
    Snap *S1 = snapshot();
    int K = args.num("children", 12), n = args.num("count", 24);
    for (int c = 0; c <= K; c++) {
        Result q = env::run_([&] { atfork_prepare(); });
        salt = 100 + c; source();
        if (q.o == O_OK) q = env::run_([&] { c < K ? atfork_child() : atfork_parent(); });
        if (q.o != O_OK) { fail("C20", "crash", "fork handlers: %s %s", outcome_name[q.o], q.msg.c_str()); fail("*", "crash", "fork handlers: %s %s", outcome_name[q.o], q.msg.c_str()); }
        for (int a = 0; a < n_arena; a++) { memcpy(tls, arena[a].data(), tn); ts[a].push_back(observe(n, true)); }
        restore(S1);
    }
    free_snap(S1);
    for (int a = 0; a < n_arena; a++) diverge("C20 C23", "same-random-choices", ts[a], mc::fmt("children of one parent after %lu rounds of calls, and the parent (arena %d)", before, a), true, before);
    restore(S0); free_snap(S0);
    mc::count("fork_histories");
}
// processes with different seeds; classes and arenas of one process
void process_diverge() {
    Snap *S0 = snapshot();
    std::vector<Trace> ts;
    for (int c = 0; c < 12; c++) {
        salt = 200 + c; source();
        ts.push_back(observe(24, true));
        restore(S0);
    }
    diverge("C31 C23", "same-random-choices", ts, "processes with different seeds", false, 0);
    // classes with the same number of slots in one process: order of slots within the slab
    salt = 300; source();
    Trace t = observe(24, false);
    auto norm = [&](size_t k) { std::vector<u64> v; u64 slab = env::pgup((u64)classes[k + 1].slots * classes[k + 1].size); for (u64 a : t.slots[k]) v.push_back((a % slab) / classes[k + 1].size); return v; };
    if (slot_rand) for (size_t a = 0; a + 1 < t.name.size(); a++) for (size_t b = 0; b < a; b++)
        if (classes[a + 1].slots == classes[b + 1].slots && classes[a + 1].slots > 4 && norm(a) == norm(b))
            fails("C31 C23", "classes-share-random-choices", "%s and %s choose the same slots", t.name[a].c_str(), t.name[b].c_str());
    if (canary) for (size_t a = 0; a + 1 < t.name.size(); a++) for (size_t b = 0; b < a; b++)
        if (t.canaries[a][0] == t.canaries[b][0]) fails("C31 C23", "classes-share-random-choices", "%s and %s have the same canary", t.name[a].c_str(), t.name[b].c_str());
    restore(S0);
    // arenas
    if (n_arena > 1) {
        size_t tn; u8 *tls = (u8 *)tls_ptr(&tn);
        std::vector<u8> fresh(tls, tls + tn);
        salt = 400; source();
        std::vector<Trace> as;
        for (int a = 0; a < n_arena; a++) { memcpy(tls, fresh.data(), tn); as.push_back(observe(24, false)); }
        for (int a = 0; a < n_arena; a++) for (int b = 0; b < a; b++) for (size_t k = 0; k + 1 < as[0].name.size(); k++) {
            auto nrm = [&](const std::vector<u64> &s) { std::vector<u64> v; u64 slab = env::pgup((u64)classes[k + 1].slots * classes[k + 1].size); for (u64 x : s) v.push_back((x % slab) / classes[k + 1].size); return v; };
            if (slot_rand && classes[k + 1].slots > 4 && nrm(as[a].slots[k]) == nrm(as[b].slots[k])) fails("C31 C23", "arenas-share-random-choices", "arenas %d and %d choose the same slots in %s", b, a, as[0].name[k].c_str());
            if (canary && as[a].canaries[k][0] == as[b].canaries[k][0]) fails("C31 C23", "arenas-share-random-choices", "arenas %d and %d have the same canary in %s", b, a, as[0].name[k].c_str());
        }
        restore(S0);
    }
    free_snap(S0);
}
}

int run_rng() {
    bind_all();
    std::string what = args.str("what");
    double wall = atof(args.str("wall", "60").c_str());
    load_window();
    if (what == "u16") {
        if (args.num("first", 0)) {}
        u64 step = args.num("step", 1);
        auto r = run_loop(65536 / step, 64, [&](u64 i) { uniform16(i * step); }, wall);
        emit_loop(r, "", r.done * 65536);
    } else if (what == "u64") {
        auto b = bounds64();
        auto r = run_loop(b.size(), 16, [&](u64 i) { uniform64(b[i]); }, wall);
        emit_loop(r, "", r.probes);
    } else if (what == "stream") {
        StreamJob j; j.depth = args.num("depth", 3); j.late = args.num("late", 0); j.menu = j.late ? N_SMALL : N_OPS;
        size_t base = j.late ? BOUND - 256 : 0, n = args.num("starts", 257), st = args.num("step", 1);
        for (size_t i = 0; i < n; i += st) j.starts.push_back(base + i);
        auto r = run_loop(j.total(), 64, [&](u64 i) { j.body(i); }, wall);
        emit_loop(r);
    } else if (what == "seed") {
        u64 n = 43 * 43 * 43;
        auto r = run_loop(2 * n, 256, [&](u64 i) { short_reads(i % n, i >= n); }, wall);
        emit_loop(r);
    } else if (what == "carry") {
        auto r = run_loop(36, 4, [&](u64 i) { carry(i); }, wall);
        emit_loop(r);
    } else if (what == "fork") {
        load_config();
        auto r = run_loop(args.num("histories", 40), 1, [&](u64 i) { fork_diverge(i); }, wall);
        emit_loop(r);
    } else if (what == "process") {
        load_config();
        auto r = run_loop(1, 1, [&](u64) { process_diverge(); }, wall);
        emit_loop(r);
    } else if (what == "divide") {
        // slot number: every offset in a slab (and beyond); slab number: the offsets around every slab boundary of a class region
        load_config();
        u64 (*d32)(u32, u64, u64); u64 (*d64)(u64, u64, u64, u64, u64);
        d32 = (decltype(d32))sym("hmc_div32"); d64 = (decltype(d64))sym("hmc_div64");
        struct Item { bool slab; u64 d, from, to; };
        std::vector<Item> items;
        u64 region = cfg("CONFIG_CLASS_REGION_SIZE");
        if (d32 && d64) for (auto &c : classes) {
            u64 sz = c.size ? c.size : 16;
            for (u64 i = 0; i < 16; i++) items.push_back({false, sz, i << 18, (i + 1) << 18});
            u64 part = region / 64 / c.slab * c.slab + c.slab;
            for (u64 i = 0; i * part < region; i++) items.push_back({true, c.slab, i * part, std::min(region, (i + 1) * part)});
        }
        auto r = run_loop(items.size(), 4, [&](u64 i) {
            Item &t = items[i]; u64 bad;
            bad = t.slab ? d64(t.d, t.from, t.to, t.d, 2) : d32(t.d, t.from, t.to);
            mc::note_probe(t.slab ? (t.to - t.from) / t.d * 5 : t.to - t.from); mc::note_oracle();
            if (bad != ~0ull) fail("C05", "division", "offset %lu is assigned to the wrong %s of %lu bytes", bad, t.slab ? "slab" : "slot", t.d);
        }, wall);
        emit_loop(r, "", r.probes);
    } else { fprintf(stderr, "rng: what?\n"); return 70; }
    return 0;
}
