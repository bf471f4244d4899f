#include "sched.h"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>

using namespace env;
using mc::fail;

namespace sched {
int preemptions;
bool atomic_points, all_syscalls;
std::vector<u8> thread_tls;
int n_threads, cur = -1;
u64 n_points, n_switches;
std::vector<std::string> doing;
std::function<int(int)> chooser;
bool lock_filter; std::set<u64> hot_locks, shared_locks; u64 late_locks;
static std::unordered_map<u64, int> lock_user; static std::set<u64> late;
static int pick_one(int n) { return chooser ? chooser(n) : mc::choose(n); }

// ---------------------------------------------------------------- coroutines
extern "C" void hmc_switch(void **from_sp, void *to_sp);
asm(R"(
.text
.globl hmc_switch
.type hmc_switch,@function
hmc_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size hmc_switch,.-hmc_switch
.section .note.GNU-stack,"",@progbits
.text
)");

struct Co {
    void *sp = nullptr; u8 *stack = nullptr;
    const std::function<void()> *body = nullptr;
    bool done = true;
    u64 blocked_on = 0; const std::function<bool()> *pred = nullptr;
    std::vector<u8> tls; int err = 0; int pkru = 0;
    VC vc; int held = 0;
};
static Co co[MAXT];
static void *main_sp;
static std::exception_ptr pending;
static bool solo_on, running;
static constexpr size_t STK = 512 * 1024;
static const char *dl_prop = "C19";
void deadlock_is(const char *p) { dl_prop = p; }

static void save_thread(Co &c) { size_t n; u8 *t = (u8 *)tls_ptr(&n); if (n) memcpy(c.tls.data(), t, n); c.err = errno; c.pkru = pkru_access; }
static void load_thread(Co &c) { size_t n; u8 *t = (u8 *)tls_ptr(&n); if (n) memcpy(t, c.tls.data(), n); errno = c.err; pkru_access = c.pkru; }

static void to(int n) {    // n == -1: the main context
    int o = cur;
    if (n == o) return;
    n_switches++;
    if (o >= 0) save_thread(co[o]);
    void **from = o >= 0 ? &co[o].sp : &main_sp;
    cur = n;
    cur_tid = n < 0 ? 0 : n;
    if (n >= 0) load_thread(co[n]);
    hmc_switch(from, n >= 0 ? co[n].sp : main_sp);
}
static bool enabled(int i) {
    Co &c = co[i];
    if (c.done) return false;
    if (solo_on && i != cur) return false;
    if (c.blocked_on) return *(int *)c.blocked_on == 0;
    if (c.pred) return (*c.pred)();
    return true;
}
std::string where() {
    std::string s;
    for (int i = 0; i < n_threads; i++) {
        s += mc::fmt("%sthread %d: %s", i ? "; " : "", i, i < (int)doing.size() ? doing[i].c_str() : "");
        if (co[i].done) s += " (finished)";
        else if (co[i].blocked_on && *(int *)co[i].blocked_on) s += mc::fmt(" (waits for a lock held by thread %d)", *(int *)co[i].blocked_on - 1);
    }
    return s;
}
// the next thread to run; may_stay: the current thread counts as running
static void pick() {
    if (++n_points > 200000) fail("*", "livelock", "no end after 200000 scheduling points: %s", where().c_str());
    int list[MAXT], n = 0;
    bool me = cur >= 0 && enabled(cur);
    if (me) list[n++] = cur;
    if (!me || preemptions > 0)
        for (int i = 0; i < n_threads; i++) if (i != cur && enabled(i)) list[n++] = i;
    if (!n) {
        bool all = true;
        for (int i = 0; i < n_threads; i++) all &= co[i].done;
        if (all) { to(-1); return; }
        if (solo_on) { fail("C20", "fork-deadlock", "the child of a fork waits for a lock nobody will release: %s", where().c_str()); }
        fail(dl_prop, "deadlock", "%s", where().c_str()); fail("*", "deadlock", "%s", where().c_str());
    }
    int k = n > 1 ? pick_one(n) : 0;
    if (me && k) preemptions--;
    to(list[k]);
}
static void entry() {
    Co &c = co[cur];
    try { (*c.body)(); }
    catch (...) { pending = std::current_exception(); to(-1); abort(); }
    c.done = true;
    try { pick(); }
    catch (...) { pending = std::current_exception(); }
    to(-1);
    abort();
}
static void point() { if (cur >= 0 && running && !solo_on) pick(); }
void op_point() { point(); }
void wait_until(const std::function<bool()> &p) {
    if (p()) return;
    Co &c = co[cur];
    c.pred = &p;
    pick();
    c.pred = nullptr;
}
bool others_stuck(int me) { for (int i = 0; i < n_threads; i++) if (i != me && enabled(i)) return false; return true; }
void solo(bool on) { solo_on = on; }
bool in_solo() { return solo_on; }

// ---------------------------------------------------------------- happens-before
struct Cell { u64 key = 0; u32 gen = 0; u32 wclk = 0, rclk[MAXT] = {0}; u8 wtid = 0, wmask = 0, wat = 0, wuser = 0, rmask[MAXT] = {0}, rat[MAXT] = {0}; };
static constexpr u32 NC = 1 << 15;
static Cell *cells; static u32 gen;
static std::unordered_map<u64, VC> syncs;
static std::vector<std::pair<u64, u64>> so;
std::string race_prop = "C19";

static void race(u64 a, bool w, int other, bool ow) {
    if (solo_on) {
        std::string s = mc::fmt("the child of a fork %s %#lx (%s), written by thread %d (%s) in a critical section the fork did not wait for", w ? "writes" : "reads", a,
                                in_window(a) ? "allocator memory" : "allocator data", other, doing[other].c_str());
        fail("C20", "fork-race", "%s", s.c_str()); fail("*", "fork-race", "%s", s.c_str());
    }
    std::string s = mc::fmt("%s of %#lx (%s) by thread %d (%s) is not ordered with the %s by thread %d (%s)", w ? "write" : "read", a,
                            in_window(a) ? "allocator memory" : "allocator data", cur, doing[cur].c_str(), ow ? "write" : "read", other, doing[other].c_str());
    fail(race_prop.c_str(), "data-race", "%s", s.c_str());
}
static inline void access(u64 a, unsigned n, bool w, bool at, bool user = false) {
    if (cur < 0 || !running) return;
    bool win = in_window(a);
    if (!win) {
        bool mine = false;
        for (auto &s : so) if (a >= s.first && a < s.second) mine = true;
        if (!mine) return;
    } else if (pkey_have >= 0 && pkru_access) {
        for (auto &v : vmas) if (a >= v.s && a < v.e && v.pkey) fail("C29", "sealed-access", "thread %d (%s) touches sealed metadata at %#lx", cur, doing[cur].c_str(), a);
    }
    VC &vc = co[cur].vc;
    for (u64 g = a >> 3; g <= (a + n - 1) >> 3; g++) {
        unsigned lo = g == a >> 3 ? a & 7 : 0, hi = std::min<u64>(8, a + n - (g << 3));
        u8 m = (u8)((0xff << lo) & (0xff >> (8 - hi)));
        u32 i = (u32)mix64(g) & (NC - 1);
        for (u32 tries = 0;; tries++) {
            if (tries > NC / 2) { fprintf(stderr, "hmc internal error: shadow table full\n"); _exit(70); }
            if (cells[i].gen != gen && solo_on) break;
            if (cells[i].gen != gen) { cells[i] = Cell(); cells[i].gen = gen; cells[i].key = g; break; }
            if (cells[i].key == g) break;
            i = (i + 1) & (NC - 1);
        }
        Cell &c = cells[i];
        if (c.gen != gen) continue;
        if (c.wmask & m && c.wtid != cur && c.wclk > vc.c[c.wtid] && !(at && c.wat) && !(solo_on && c.wuser)) race(a, w, c.wtid, true);
        if (solo_on) continue;    // the child of a fork only finds what others wrote without its having waited for them
        if (w) {
            for (int t = 0; t < n_threads; t++)
                if (t != cur && c.rmask[t] & m && c.rclk[t] > vc.c[t] && !(at && c.rat[t])) race(a, w, t, false);
            c.wclk = vc.c[cur]; c.wtid = cur; c.wmask = m; c.wat = at; c.wuser = user;
        } else {
            if (c.rclk[cur] == vc.c[cur]) { c.rmask[cur] |= m; c.rat[cur] &= at; }
            else { c.rclk[cur] = vc.c[cur]; c.rmask[cur] = m; c.rat[cur] = at; }
        }
    }
}
void release(VC &v) { if (cur >= 0) { v.join(co[cur].vc); co[cur].vc.c[cur]++; } }
void acquire(const VC &v) { if (cur >= 0) co[cur].vc.join(v); }
void user_access(u64 a, u64 n, bool w) {
    if (!n || solo_on) return;
    u64 k = std::min<u64>(n, 32);
    access(a, k, w, false, true);
    if (n > k) access(a + n - k, k, w, false, true);
}

// ---------------------------------------------------------------- hooks
static int on_mutex(int kind, void *m) {
    int *st = (int *)m;
    if (kind == SY_INIT) {
        if (cur >= 0 && !solo_on) access((u64)m, 8, true, false);
        memset(m, 0, sizeof(pthread_mutex_t));
        return 0;
    }
    int me = cur + 1;
    if (cur < 0) me = 100;
    if (kind == SY_LOCK) {
        if (cur < 0 || !running) {
            if (*st) escape(O_DEADLOCK, "locking a mutex that is held", (u64)m);
            *st = me; held_mutexes++;
            return 0;
        }
        if (solo_on) {
            if (*st) { fail("C20", "fork-deadlock", "the child of a fork waits for a lock that was held at the fork: %s", where().c_str()); fail("*", "fork-deadlock", "%s", where().c_str()); }
            *st = me; held_mutexes++;
            return 0;
        }
        Co &c = co[cur];
        if (*st == me) { fail(dl_prop, "deadlock", "a thread locks a mutex it already holds: %s", where().c_str()); fail("*", "self-deadlock", "%s", where().c_str()); }
        bool hot = !lock_filter || hot_locks.count((u64)m) || late.count((u64)m);
        auto it = lock_user.find((u64)m);
        if (it == lock_user.end()) lock_user[(u64)m] = cur;
        else if (it->second != cur) { shared_locks.insert((u64)m); if (!hot) { late_locks++; late.insert((u64)m); } }
        if (hot || *st) {
            c.blocked_on = (u64)m;
            pick();
            c.blocked_on = 0;
        }
        access((u64)m, 8, true, true);
        *st = me; c.held++; held_mutexes++;
        acquire(syncs[(u64)m]);
        return 0;
    }
    if (*st != me) {
        std::string s = mc::fmt("a mutex %s is unlocked: %s", *st ? "held by another thread" : "that is not held", where().c_str());
        if (cur < 0) escape(O_DEADLOCK, s, (u64)m);
        fail("C19", "bad-unlock", "%s", s.c_str()); fail("*", "bad-unlock", "%s", s.c_str());
    }
    if (cur >= 0 && running && !solo_on) { access((u64)m, 8, true, true); release(syncs[(u64)m]); co[cur].held--; }
    *st = 0; held_mutexes--;
    return 0;
}
static void on_sync(int, u64) {
    if (cur < 0 || !running || solo_on) return;
    if (all_syscalls || !co[cur].held) point();
}

void run(const std::vector<std::function<void()>> &bodies) {
    if (!cells) {
        cells = (Cell *)::mmap(nullptr, sizeof(Cell) * NC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        so = so_ranges();
    }
    if (++gen == 0) { memset((void *)cells, 0, sizeof(Cell) * NC); gen = 1; }
    syncs.clear(); lock_user.clear(); late.clear();
    n_threads = bodies.size();
    n_points = n_switches = 0;
    solo_on = false; pending = nullptr;
    doing.assign(n_threads, "");
    for (int i = 0; i < n_threads; i++) {
        Co &c = co[i];
        if (!c.stack) c.stack = (u8 *)::mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        c.body = &bodies[i];
        c.done = false; c.blocked_on = 0; c.pred = nullptr; c.err = 0; c.held = 0; c.pkru = pkru_access;
        c.tls = thread_tls;
        c.vc = VC(); c.vc.c[i] = 1;
        u64 *sp = (u64 *)(c.stack + STK);
        *--sp = 0;
        *--sp = (u64)&entry;          // return address of hmc_switch; leaves the stack aligned as after a call
        for (int k = 0; k < 6; k++) *--sp = 0;
        c.sp = sp;
    }
    Co mainco; size_t tn; tls_ptr(&tn); mainco.tls.resize(tn);
    save_thread(mainco);
    mutex_hook = on_mutex; sync_hook = on_sync; rnd_state = [](u64 a) { access(a, 8, true, false); };
    running = true; cur = -1;
    // the first thread to run is a free choice
    int first = pick_one(n_threads);
    to(first);
    cur = -1; cur_tid = 0;
    running = false; solo_on = false;
    load_thread(mainco);
    if (pending) { auto p = pending; pending = nullptr; std::rethrow_exception(p); }
}
void as_thread(int t, const std::function<void()> &f) {
    Co keep; size_t tn; tls_ptr(&tn); keep.tls.resize(tn);
    save_thread(keep);
    load_thread(co[t]);
    f();
    save_thread(co[t]);
    load_thread(keep);
}
// leave after an escape (fatal error, fault): the coroutines are abandoned
void abandon() { cur = -1; cur_tid = 0; running = false; solo_on = false; }
static void on_atomic(bool write) { if (cur >= 0 && running && !solo_on && (atomic_points || write)) point(); }
} // namespace sched

// ---------------------------------------------------------------- instrumentation runtime
using namespace sched;
typedef unsigned __int128 u128;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define RW(n) \
    void __tsan_read##n(void *p) { access((u64)p, n, false, false); } \
    void __tsan_write##n(void *p) { access((u64)p, n, true, false); } \
    void __tsan_unaligned_read##n(void *p) { access((u64)p, n, false, false); } \
    void __tsan_unaligned_write##n(void *p) { access((u64)p, n, true, false); } \
    void __tsan_volatile_read##n(void *p) { access((u64)p, n, false, false); } \
    void __tsan_volatile_write##n(void *p) { access((u64)p, n, true, false); } \
    void __tsan_read_write##n(void *p) { access((u64)p, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
static void range(u64 a, u64 n, bool w) { if (!n) return; u64 k = std::min<u64>(n, 64); access(a, k, w, false); if (n > k) access(a + n - k, k, w, false); }
void __tsan_read_range(void *p, size_t n) { range((u64)p, n, false); }
void __tsan_write_range(void *p, size_t n) { range((u64)p, n, true); }
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}

static bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void at_load(volatile void *p, unsigned n, int mo) {
    on_atomic(false); access((u64)p, n, false, true);
    if (cur >= 0 && !solo_on && acq(mo)) acquire(syncs[(u64)p]);
}
static void at_store(volatile void *p, unsigned n, int mo) {
    on_atomic(true); access((u64)p, n, true, true);
    if (cur >= 0 && !solo_on) { if (rel(mo)) { syncs[(u64)p] = VC(); release(syncs[(u64)p]); } else syncs[(u64)p] = VC(); }
}
static void at_rmw(volatile void *p, unsigned n, int mo) {
    on_atomic(true); access((u64)p, n, true, true);
    if (cur >= 0 && !solo_on) { if (acq(mo)) acquire(syncs[(u64)p]); if (rel(mo)) release(syncs[(u64)p]); }
}
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *p, int mo) { at_load((volatile void *)p, bits / 8, mo); return *p; } \
    void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) { at_store(p, bits / 8, mo); *p = v; } \
    T __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo) { at_rmw(p, bits / 8, mo); T o = *p; *p = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int mo) { at_rmw(p, bits / 8, mo); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int mo) { at_rmw(p, bits / 8, mo); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int mo) { at_rmw(p, bits / 8, mo); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int mo) { at_rmw(p, bits / 8, mo); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int mo) { at_rmw(p, bits / 8, mo); T o = *p; *p = o ^ v; return o; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int mo) { at_rmw(p, bits / 8, mo); T o = *p; *p = ~(o & v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int) { \
        at_rmw(p, bits / 8, mo); T o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int) { \
        at_rmw(p, bits / 8, mo); T o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int mo, int) { \
        at_rmw(p, bits / 8, mo); T o = *p; if (o == e) *p = v; return o; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
