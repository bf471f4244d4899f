#include "env.h"
#include <algorithm>
#include <cassert>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <dlfcn.h>
#include <elf.h>
#include <link.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>

namespace env {

const char *outcome_name[] = {"ok", "fatal", "segv", "hang", "deadlock", "foreign-memory", "trap"};
Target T;
std::vector<Vma> vmas;
std::function<int(EvKind, u64, u64, int)> fault;
std::function<u64(u64)> place;
std::function<ssize_t(int, const void *, size_t)> write_hook;
int android_restored;
std::function<u64(int, u64)> rnd_uniform;
std::function<u64(int)> rnd_word;
std::function<void(u64)> rnd_state;
std::function<int(u8 *, size_t)> getrandom_fn;
std::function<int(u8 *, u32)> keystream_fn;
std::function<void(int, u64)> sync_hook;
std::function<int(int, void *)> mutex_hook;
std::function<void *(void *, int, size_t)> memset_hook;
std::function<void *(void *, const void *, size_t)> memcpy_hook;
std::function<void *(void *, u64)> mte_irg;
std::function<void(void *, u64)> mte_store;
std::function<void(u64 s, u64 e)> mte_discard;
std::function<void(u64 s, u64 e, bool)> mte_map;
std::function<void(Outcome, const std::string &, u64)> escape_hook;
bool log_events;
std::vector<Event> events;
u64 n_events;
void (*atfork_prepare)(void), (*atfork_parent)(void), (*atfork_child)(void);
int foreign_ops;
std::string foreign_desc;
bool foreign_fatal = true;
int held_mutexes;
int cur_tid;
u64 getrandom_bytes_total, getrandom_calls;
long sysconf_pagesize = 4096;
int pkru_access = 1;                  // the kernel's default denies every key but 0
int pkey_have = -1;
bool sealed_real;
sigjmp_buf *guard;
Result *guard_result;
u64 run_serial;
int atfork_calls;
static u64 grand_ctr;
static std::string errcap;

u64 hash_bytes(const void *p_, size_t n, u64 seed) {
    const u8 *p = (const u8 *)p_;
    const u64 K = 0x9fb21c651e98df25ull;
    u64 a = seed ^ 0x243f6a8885a308d3ull, b = 0x13198a2e03707344ull + n, c = 0xa4093822299f31d0ull, d = 0x082efa98ec4e6c89ull;
    while (n >= 32) {
        u64 w[4];
        memcpy(w, p, 32);
        a = (a ^ w[0]) * K; b = (b ^ w[1]) * K; c = (c ^ w[2]) * K; d = (d ^ w[3]) * K;
        a ^= a >> 29; b ^= b >> 31; c ^= c >> 30; d ^= d >> 28;
        p += 32; n -= 32;
    }
    u64 t[4] = {0, 0, 0, 0};
    memcpy(t, p, n);
    a ^= t[0]; b ^= t[1]; c ^= t[2]; d ^= t[3];
    return mix64(mix64(a) + mix64(b ^ 0x1111) * 3 + mix64(c ^ 0x2222) * 5 + mix64(d ^ 0x3333) * 7);
}

// ---------------------------------------------------------------- pages
struct Page { u64 a; u8 rp, hot, nz; u64 bh; u8 *bc; };
constexpr u32 MAXP = 1u << 20;
static Page *pages;
static u32 npages;
static u32 *pidx;  // hash: address -> index+1
constexpr u32 PH = 1u << 22;
static std::vector<u32> sorted;  // page indices by address
static std::vector<u32> hotv;    // hot page indices (unsorted)
static u8 zeropage[PG] __attribute__((aligned(4096)));
static u64 zhash;

static u32 *pslot(u64 a) {
    u32 h = (u32)(mix64(a >> 12)) & (PH - 1);
    while (pidx[h] && pages[pidx[h] - 1].a != a) h = (h + 1) & (PH - 1);
    return &pidx[h];
}
static Page *pfind(u64 a) { u32 *s = pslot(a); return *s ? &pages[*s - 1] : nullptr; }

static void die(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    fprintf(stderr, "hmc internal error: "); vfprintf(stderr, fmt, ap); fputc('\n', stderr); fflush(stderr);
    _exit(70);
}

static void real_prot(u64 s, u64 len, int prot) {
    int p = prot == P_RW ? PROT_READ | PROT_WRITE : prot == P_R ? PROT_READ : PROT_NONE;
    if (::mprotect((void *)s, len, p)) die("mprotect %lx %lx: %s", s, len, strerror(errno));
}

static Page *padd(u64 a) {
    if (npages == MAXP) die("too many pages");
    u32 *s = pslot(a);
    Page *p = &pages[npages];
    *p = Page{a, 0, 0, 0, zhash, nullptr};
    *s = ++npages;
    u32 idx = npages - 1;
    auto it = std::lower_bound(sorted.begin(), sorted.end(), a, [](u32 i, u64 v) { return pages[i].a < v; });
    sorted.insert(it, idx);
    return p;
}
static void make_hot(Page *p) {
    if (!p->hot) { p->hot = 1; hotv.push_back((u32)(p - pages)); }
}
static std::pair<size_t, size_t> prange(u64 s, u64 e) {
    auto lo = std::lower_bound(sorted.begin(), sorted.end(), s, [](u32 i, u64 v) { return pages[i].a < v; });
    auto hi = std::lower_bound(lo, sorted.end(), e, [](u32 i, u64 v) { return pages[i].a < v; });
    return {(size_t)(lo - sorted.begin()), (size_t)(hi - sorted.begin())};
}

// ---------------------------------------------------------------- vma table
static size_t vfind(u64 a) {  // first vma with e > a
    return std::upper_bound(vmas.begin(), vmas.end(), a, [](u64 v, const Vma &m) { return v < m.e; }) - vmas.begin();
}
static const Vma *vat(u64 a) {
    size_t i = vfind(a);
    return i < vmas.size() && vmas[i].s <= a ? &vmas[i] : nullptr;
}
int prot_at(u64 a) { const Vma *v = vat(a); return v ? (int)v->prot : -1; }
static int eff(const Vma *v) {
    if (!v) return P_NONE;
    if (sealed_real && v->pkey && pkru_access) return P_NONE;
    return v->prot;
}
bool mapped_range(u64 s, u64 e) {
    for (size_t i = vfind(s); s < e; i++) {
        if (i >= vmas.size() || vmas[i].s > s) return false;
        s = vmas[i].e;
    }
    return true;
}
bool all_prot(u64 s, u64 e, int prot) {
    for (size_t i = vfind(s); s < e; i++) {
        if (i >= vmas.size() || vmas[i].s > s || (int)vmas[i].prot != prot) return false;
        s = vmas[i].e;
    }
    return true;
}
bool none_accessible(u64 s, u64 e) {
    for (size_t i = vfind(s); i < vmas.size() && vmas[i].s < e; i++)
        if (vmas[i].prot != P_NONE) return false;
    return true;
}
u64 mapped_bytes() { u64 n = 0; for (auto &v : vmas) n += v.e - v.s; return n; }
u64 rw_bytes() { u64 n = 0; for (auto &v : vmas) if (v.prot == P_RW) n += v.e - v.s; return n; }
bool in_window(u64 a) { return a >= WB && a < WE; }
u64 run_start(u64 a) { const Vma *v = vat(a); return v ? v->s : 0; }
u64 run_end(u64 a) { const Vma *v = vat(a); return v ? v->e : 0; }

static void vclear(u64 s, u64 e) {
    size_t i = vfind(s);
    if (i < vmas.size() && vmas[i].s < s) {
        Vma l = vmas[i];
        if (l.e > e) {
            Vma r = l; r.s = e;
            vmas[i].e = s;
            vmas.insert(vmas.begin() + i + 1, r);
            return;
        }
        vmas[i].e = s;
        i++;
    }
    size_t j = i;
    while (j < vmas.size() && vmas[j].e <= e) j++;
    if (j < vmas.size() && vmas[j].s < e) vmas[j].s = e;
    vmas.erase(vmas.begin() + i, vmas.begin() + j);
}
static void vset(u64 s, u64 e, u32 prot, u32 pkey) {
    vclear(s, e);
    size_t i = vfind(s);
    bool ml = i > 0 && vmas[i - 1].e == s && vmas[i - 1].prot == prot && vmas[i - 1].pkey == pkey;
    bool mr = i < vmas.size() && vmas[i].s == e && vmas[i].prot == prot && vmas[i].pkey == pkey;
    if (ml && mr) { vmas[i - 1].e = vmas[i].e; vmas.erase(vmas.begin() + i); }
    else if (ml) vmas[i - 1].e = e;
    else if (mr) vmas[i].s = s;
    else vmas.insert(vmas.begin() + i, Vma{s, e, prot, pkey});
}

// fix the real protection of every touched page of [s,e); hot pages get the table's protection
static void fix_prots(u64 s, u64 e) {
    auto r = prange(s, e);
    u64 rs = 0, re = 0; int rp = -1;
    for (size_t k = r.first; k < r.second; k++) {
        Page *p = &pages[sorted[k]];
        make_hot(p);
        int want = eff(vat(p->a));
        if (prot_at(p->a) == P_RW) p->nz = 1;
        if (p->rp == want) continue;
        p->rp = want;
        if (rp == want && re == p->a) { re += PG; continue; }
        if (re > rs) real_prot(rs, re - rs, rp);
        rs = p->a; re = rs + PG; rp = want;
    }
    if (re > rs) real_prot(rs, re - rs, rp);
}
static void discard(u64 s, u64 e) {
    if (mte_discard) mte_discard(s, e);
    auto r = prange(s, e);
    for (size_t k = r.first; k < r.second; k++) {
        Page *p = &pages[sorted[k]];
        make_hot(p);
        if (p->nz || p->bc) {
            if (p->rp != P_RW) { real_prot(p->a, PG, P_RW); p->rp = P_RW; }
            memset((void *)p->a, 0, PG);
        }
        p->nz = 0;
    }
}

void apply_pkey() {
    for (auto v : vmas) if (v.pkey) fix_prots(v.s, v.e);
}

// ---------------------------------------------------------------- target segments
struct Seg { u64 s, e; };
static std::vector<Seg> sosegs;
static std::vector<Seg> sohash;       // parts of sosegs that belong to the target proper
static std::vector<Seg> soro;         // write-protected parts
extern "C" void *__tls_get_addr(void *);
static u8 *tlsp; static size_t tlsn;
static u64 so_text_s, so_text_e;
static std::string target_path;

void *tls_ptr(size_t *n) { *n = tlsn; return tlsp; }
static int phcb(struct dl_phdr_info *i, size_t, void *);
static bool starting_itself;
std::string self_start;
bool owned_so(u64 a, u64 len) {
    if (starting_itself && sosegs.empty()) dl_iterate_phdr(phcb, nullptr);
    for (auto &s : sosegs) if (a >= s.s && a + len <= s.e) return true;
    return false;
}

static int phcb(struct dl_phdr_info *i, size_t, void *) {
    if (!i->dlpi_name || target_path != i->dlpi_name) return 0;
    u64 rs = 0, re = 0;
    for (int k = 0; k < i->dlpi_phnum; k++) {
        const ElfW(Phdr) &p = i->dlpi_phdr[k];
        if (p.p_type == PT_GNU_RELRO) { rs = i->dlpi_addr + p.p_vaddr; re = pgdn(rs + p.p_memsz); }
    }
    for (int k = 0; k < i->dlpi_phnum; k++) {
        const ElfW(Phdr) &p = i->dlpi_phdr[k];
        if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) {
            u64 s = i->dlpi_addr + p.p_vaddr, e = s + p.p_memsz;
            if (rs >= s && rs < e && re > s) s = re < e ? re : e;
            if (s < e) sosegs.push_back({s, pgup(e)});
            if (s < e) sohash.push_back({s, e});
        }
        if (p.p_type == PT_LOAD && (p.p_flags & PF_X)) { so_text_s = i->dlpi_addr + p.p_vaddr; so_text_e = so_text_s + p.p_memsz; }
    }
    if (i->dlpi_tls_modid) {
        // the static TLS block of the target in this thread
        struct { unsigned long mod, off; } idx = {i->dlpi_tls_modid, 0};
        for (int k = 0; k < i->dlpi_phnum; k++)
            if (i->dlpi_phdr[k].p_type == PT_TLS) { tlsp = (u8 *)__tls_get_addr(&idx); tlsn = i->dlpi_phdr[k].p_memsz; }
    }
    return 0;
}

struct CfgEnt { const char *n; long v; };
long cfg(const char *name) {
    static CfgEnt *tab = (CfgEnt *)dlsym(T.dl, "hmc_cfg");
    if (!tab) die("no hmc_cfg in target");
    for (CfgEnt *c = tab; c->n; c++) if (!strcmp(c->n, name)) return c->v;
    die("no configuration value %s", name);
    return 0;
}
void *sym(const char *name) { return dlsym(T.dl, name); }

// every call of the allocator through the target table: what holds whenever a call returns
std::string left_open;
template <auto M> struct Entry;
template <class R, class... A, R (*Target::*M)(A...)> struct Entry<M> {
    static inline R (*real)(A...);
    static inline const char *name;
    static void after() {
        if (pkey_have >= 0 && pkru_access != 1 && left_open.empty()) left_open = name;
    }
    static R wrap(A... a) {
        if constexpr (std::is_void_v<R>) { real(a...); after(); }
        else { R r = real(a...); after(); return r; }
    }
    static void set(const char *n) { real = T.*M; name = n; if (real) T.*M = wrap; }
};
static void watch_returns() {
#define E(n) Entry<&Target::n>::set(#n);
    E(malloc) E(calloc) E(realloc) E(aligned_alloc) E(memalign) E(valloc) E(pvalloc) E(posix_memalign) E(free)
    E(cfree) E(free_sized) E(malloc_usable_size) E(malloc_object_size) E(malloc_object_size_fast) E(malloc_trim)
    E(malloc_info) E(mallinfo2) E(mallinfo) E(mallopt) E(malloc_stats) E(malloc_get_state) E(malloc_set_state)
#undef E
}

bool android;
// as bionic does: from the counters of each arena
static int android_malloc_info(int options, FILE *fp) {
    if (options) { errno = EINVAL; return -1; }
    fputs("<malloc version=\"android\">", fp);
    for (size_t i = 0; i < T.mallinfo_narenas(); i++) {
        struct mallinfo2 a = T.mallinfo_arena_info(i);
        fprintf(fp, "<heap nr=\"%zu\"><allocated>%zu</allocated><allocated_large>%zu</allocated_large></heap>", i, (size_t)a.fsmblks, (size_t)a.uordblks);
        for (size_t b = 0; b < T.mallinfo_nbins(); b++) T.mallinfo_bin_info(i, b);
    }
    fputs("</malloc>", fp);
    return 0;
}

void load_target(const char *so, bool self) {
    char *rp = realpath(so, nullptr);
    if (!rp) die("no target %s", so);
    target_path = rp;
    if (self) {
        // starts itself while it is being loaded
        load_window();
        starting_itself = true;
        T.dl = nullptr;
        Result r = run_([&] { T.dl = dlopen(rp, RTLD_NOW | RTLD_LOCAL); });
        if (r.o != O_OK) self_start = std::string(outcome_name[r.o]) + " " + r.msg;
        starting_itself = false;
        if (!self_start.empty()) return;
    } else T.dl = dlopen(rp, RTLD_NOW | RTLD_LOCAL);
    if (!T.dl) die("dlopen: %s", dlerror());
#define B(n) *(void **)&T.n = dlsym(T.dl, "h_" #n)
    B(malloc); B(calloc); B(realloc); B(aligned_alloc); B(memalign); B(valloc); B(pvalloc); B(posix_memalign); B(free);
    B(cfree); B(free_sized); B(malloc_usable_size); B(malloc_object_size); B(malloc_object_size_fast); B(malloc_trim);
    B(malloc_info); B(mallinfo2); B(mallinfo); B(mallopt); B(malloc_stats); B(malloc_get_state); B(malloc_set_state);
    B(mallinfo_narenas); B(mallinfo_nbins); B(mallinfo_arena_info); B(mallinfo_bin_info); B(malloc_disable); B(malloc_enable); B(malloc_disable_memory_tagging);
    B(malloc_iterate);
#undef B
    android = cfg("ANDROID");
    if (android) {
        *(void **)&T.mallinfo2 = (void *)T.mallinfo;     // bionic's struct mallinfo has the layout of mallinfo2
        T.mallinfo = nullptr;
        T.malloc_info = android_malloc_info;
    }
    if (cfg("CONFIG_SEAL_METADATA")) watch_returns();
    // touch the TLS block so that it exists
    if (sosegs.empty()) dl_iterate_phdr(phcb, nullptr);
    if (sosegs.empty()) die("no data segment found in %s", rp);
}

// ---------------------------------------------------------------- faults
void escape(Outcome o, const std::string &msg, u64 addr) {
    if (escape_hook) { escape_hook(o, msg, addr); }
    if (!guard) die("%s outside guarded code: %s (%lx)", outcome_name[o], msg.c_str(), addr);
    guard_result->o = o; guard_result->msg = msg; guard_result->addr = addr;
    siglongjmp(*guard, 1);
}

static void on_segv(int sig, siginfo_t *si, void *uc_) {
    ucontext_t *uc = (ucontext_t *)uc_;
    u64 a = (u64)si->si_addr;
    bool wr = uc->uc_mcontext.gregs[REG_ERR] & 2;
    int se = errno;
    if (sig == SIGSEGV && in_window(a) && (si->si_code == SEGV_ACCERR || si->si_code == SEGV_MAPERR)) {
        u64 pa = pgdn(a);
        const Vma *v = vat(pa);
        int pr = eff(v);
        if (pr == P_RW || (pr == P_R && !wr)) {
            Page *p = pfind(pa);
            if (!p) p = padd(pa);
            make_hot(p);
            p->rp = pr;
            if (pr == P_RW) p->nz = 1;
            real_prot(pa, PG, pr);
            errno = se;
            return;
        }
        char b[128];
        snprintf(b, sizeof b, "%s of %s memory", wr ? "write" : "read",
                 !v ? "unmapped" : v->prot == P_NONE ? "inaccessible" : pr == P_NONE ? "sealed" : "read-only");
        escape(O_SEGV, b, a);
    }
    char b[128];
    snprintf(b, sizeof b, "%s at code %#llx", sig == SIGSEGV ? (wr ? "write fault" : "read fault") : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : "SIGILL",
             (unsigned long long)(uc->uc_mcontext.gregs[REG_RIP] - (so_text_s ? so_text_s : 0)));
    if (!guard && !escape_hook) die("fault outside guarded code: %s addr %lx rip %llx", b, a, (unsigned long long)uc->uc_mcontext.gregs[REG_RIP]);
    escape(sig == SIGSEGV ? O_SEGV : O_TRAP, b, a);
}

static u64 last_serial; static int same_ticks;
static void on_tick(int) {
    if (!guard && !escape_hook) return;
    if (run_serial == last_serial) {
        if (++same_ticks >= 10) { same_ticks = 0; escape(O_HANG, "no progress for 10 s of CPU time", 0); }
    } else { last_serial = run_serial; same_ticks = 0; }
}

static u8 altstack[64 * 1024];
void load_window() {
    static bool done; if (done) return; done = true;
    void *w = ::mmap((void *)WB, WE - WB, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (w != (void *)WB) die("cannot reserve the address window: %s", strerror(errno));
    pages = (Page *)::mmap(nullptr, sizeof(Page) * MAXP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pidx = (u32 *)::mmap(nullptr, 4ul * PH, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    zhash = hash_bytes(zeropage, PG, 0);
    (void)altstack;
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_segv;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE}) sigaction(s, &sa, nullptr);
    struct sigaction st;
    memset(&st, 0, sizeof st);
    st.sa_handler = on_tick;
    st.sa_flags = SA_NODEFER | SA_RESTART;
    sigaction(SIGVTALRM, &st, nullptr);
}
void hot_all() {
    for (u32 i = 0; i < npages; i++) make_hot(&pages[i]);
    struct itimerval tv = {{1, 0}, {1, 0}};
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);
}

Result run_(std::function<void()> f) {
    static bool armed_pid = false; static pid_t pid;
    if (!armed_pid || pid != getpid()) {
        armed_pid = true; pid = getpid();
        struct itimerval tv = {{1, 0}, {1, 0}};
        setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    }
    sigjmp_buf jb; Result r{O_OK, "", 0};
    sigjmp_buf *og = guard; Result *ogr = guard_result;
    run_serial++;
    errcap.clear();
    guard_result = &r;
    if (sigsetjmp(jb, 0) == 0) {
        guard = &jb;
        f();
    }
    guard = og; guard_result = ogr;
    run_serial++;
    return r;
}

// ---------------------------------------------------------------- snapshots
struct Snap {
    std::vector<Vma> vmas;
    std::vector<std::pair<u32, u8 *>> pg;
    u8 *mem = nullptr;
    std::vector<u8> so; std::vector<u8> tls; std::vector<Seg> soro;
    u64 grand_ctr; int held; int pkru; u64 grb, grc;
    void (*fp)(void), (*fa)(void), (*fc)(void);
};
static Snap *baseline;
const Snap *base() { return baseline; }

struct Unseal {
    int old;
    Unseal() : old(pkru_access) { if (sealed_real && old) { pkru_access = 0; apply_pkey(); } }
    ~Unseal() { if (sealed_real && old) { pkru_access = old; apply_pkey(); } }
};
static void mk_readable(Page *p) {
    if (p->rp == P_NONE) { real_prot(p->a, PG, P_R); p->rp = P_R; }
}

Snap *snapshot() {
    Unseal u;
    Snap *s = new Snap;
    s->vmas = vmas; s->soro = soro; s->grand_ctr = grand_ctr; s->held = held_mutexes; s->pkru = u.old;
    s->grb = getrandom_bytes_total; s->grc = getrandom_calls;
    s->fp = atfork_prepare; s->fa = atfork_parent; s->fc = atfork_child;
    size_t n = 0;
    for (u32 i : hotv) if (pages[i].nz) n++;
    s->mem = (u8 *)malloc(n * PG + 1);
    u8 *m = s->mem;
    s->pg.reserve(hotv.size());
    for (u32 i : hotv) {
        Page *p = &pages[i];
        if (p->nz) {
            u8 orp = p->rp;
            mk_readable(p);
            bool z = !memcmp((void *)p->a, zeropage, PG);
            if (!z) memcpy(m, (void *)p->a, PG);
            if (orp == P_NONE) { real_prot(p->a, PG, P_NONE); p->rp = P_NONE; }
            if (z) s->pg.push_back({i, nullptr});
            else { s->pg.push_back({i, m}); m += PG; }
        } else s->pg.push_back({i, nullptr});
    }
    for (auto &g : sosegs) s->so.insert(s->so.end(), (u8 *)g.s, (u8 *)g.e);
    s->tls.assign(tlsp, tlsp + tlsn);
    return s;
}
void free_snap(Snap *s) { if (s) { free(s->mem); delete s; } }

static void restore_so(const Snap *s) {
    bool same = soro.size() == s->soro.size();
    for (size_t i = 0; same && i < soro.size(); i++) same = soro[i].s == s->soro[i].s && soro[i].e == s->soro[i].e;
    size_t off = 0;
    if (!same) {
        for (auto &r : soro) ::mprotect((void *)r.s, r.e - r.s, PROT_READ | PROT_WRITE);
        soro.clear();
    }
    for (auto &g : sosegs) {
        // copy page-wise where different, skipping write-protected pages (their content cannot differ)
        for (u64 a = g.s; a < g.e;) {
            u64 e = std::min(g.e, pgdn(a) + PG);
            const u8 *src = s->so.data() + off + (a - g.s);
            if (memcmp((void *)a, src, e - a)) {
                bool prot = false;
                for (auto &r : soro) if (a >= r.s && a < r.e) prot = true;
                if (prot) ::mprotect((void *)pgdn(a), PG, PROT_READ | PROT_WRITE);
                memcpy((void *)a, src, e - a);
                if (prot) ::mprotect((void *)pgdn(a), PG, PROT_READ);
            }
            a = e;
        }
        off += g.e - g.s;
    }
    if (!same) {
        soro = s->soro;
        for (auto &r : soro) ::mprotect((void *)r.s, r.e - r.s, PROT_READ);
    }
    if (tlsn) memcpy(tlsp, s->tls.data(), tlsn);
}

static std::vector<const u8 *> want;
static std::vector<u32> hs;
static bool hot_sorted_dirty_n;
static void sort_hot() {
    static size_t last = 0;
    if (last != hotv.size() || hot_sorted_dirty_n) {
        std::sort(hotv.begin(), hotv.end(), [](u32 a, u32 b) { return pages[a].a < pages[b].a; });
        last = hotv.size();
        hot_sorted_dirty_n = false;
    }
}

void restore(const Snap *s) {
    if (sealed_real && pkru_access) { pkru_access = 0; apply_pkey(); }
    restore_so(s);
    grand_ctr = s->grand_ctr; held_mutexes = s->held;
    getrandom_bytes_total = s->grb; getrandom_calls = s->grc;
    atfork_prepare = s->fp; atfork_parent = s->fa; atfork_child = s->fc;
    vmas = s->vmas;
    sort_hot();
    if (want.size() < npages) want.resize(npages + 1024);
    for (u32 i : hotv) want[i] = pages[i].bc;
    for (auto &x : s->pg) want[x.first] = x.second;
    // 1: make writable where contents must change
    u64 rs = 0, re = 0;
    for (u32 i : hotv) {
        Page *p = &pages[i];
        if ((p->nz || want[i]) && p->rp != P_RW) {
            p->rp = P_RW;
            if (re == p->a && re > rs) { re += PG; continue; }
            if (re > rs) real_prot(rs, re - rs, P_RW);
            rs = p->a; re = rs + PG;
        }
    }
    if (re > rs) real_prot(rs, re - rs, P_RW);
    for (u32 i : hotv) {
        Page *p = &pages[i];
        if (want[i]) memcpy((void *)p->a, want[i], PG);
        else if (p->nz) memset((void *)p->a, 0, PG);
    }
    // 2: protections
    rs = re = 0; int rp = -1;
    size_t vi = 0;
    for (u32 i : hotv) {
        Page *p = &pages[i];
        while (vi < vmas.size() && vmas[vi].e <= p->a) vi++;
        int w = vi < vmas.size() && vmas[vi].s <= p->a ? (int)vmas[vi].prot : P_NONE;
        p->nz = want[i] != nullptr || w == P_RW;
        if (p->rp == w) continue;
        p->rp = w;
        if (rp == w && re == p->a) { re += PG; continue; }
        if (re > rs) real_prot(rs, re - rs, rp);
        rs = p->a; re = rs + PG; rp = w;
    }
    if (re > rs) real_prot(rs, re - rs, rp);
    if (sealed_real) { pkru_access = s->pkru; if (pkru_access) apply_pkey(); }
    else pkru_access = s->pkru;
}

void rebase() {
    Unseal u;
    free_snap(baseline);
    for (u32 i = 0; i < npages; i++) {
        Page *p = &pages[i];
        free(p->bc); p->bc = nullptr; p->bh = zhash;
        if (p->nz) {
            mk_readable(p);
            if (memcmp((void *)p->a, zeropage, PG)) {
                p->bc = (u8 *)malloc(PG);
                memcpy(p->bc, (void *)p->a, PG);
                p->bh = hash_bytes(p->bc, PG, 0);
            }
        }
        p->hot = 0;
        int w = prot_at(p->a);
        int want_real = w == P_RW ? (sealed_real ? P_RW : P_R) : w == P_R ? P_R : P_NONE;
        if (p->rp != want_real) { p->rp = want_real; real_prot(p->a, PG, want_real); }
        p->nz = p->bc != nullptr;
    }
    hotv.clear(); hot_sorted_dirty_n = true;
    if (sealed_real) for (u32 i = 0; i < npages; i++) make_hot(&pages[i]);
    baseline = snapshot();
    baseline->pkru = u.old;
    if (!sealed_real) baseline->pg.clear();
}

u64 state_hash() {
    Unseal u;
    u64 h = 0;
    for (u32 i : hotv) {
        Page *p = &pages[i];
        u64 ch = zhash;
        if (p->nz) {
            u8 orp = p->rp;
            mk_readable(p);
            ch = hash_bytes((void *)p->a, PG, 0);
            if (orp == P_NONE) { real_prot(p->a, PG, P_NONE); p->rp = P_NONE; }
        }
        if (ch != p->bh) h += mix64(p->a ^ mix64(ch)) - mix64(p->a ^ mix64(p->bh));
    }
    for (auto &v : vmas) h += mix64(mix64(v.s) + v.e * 31 + v.prot * 7 + v.pkey);
    for (auto &g : sohash) h += hash_bytes((void *)g.s, g.e - g.s, g.s & 4095);
    if (tlsn) h += hash_bytes(tlsp, tlsn, 77);
    return h;
}

u64 touched_pages(std::vector<u64> &out) {
    out.clear();
    for (u32 i : sorted) out.push_back(pages[i].a);
    return out.size();
}
u64 nz_rw_bytes(u64 s, u64 e) {
    u64 n = 0;
    auto r = prange(pgdn(s), e);
    for (size_t k = r.first; k < r.second; k++) {
        Page *p = &pages[sorted[k]];
        int pr = prot_at(p->a);
        if (pr != P_RW && pr != P_R) continue;
        if (p->rp == P_NONE) continue;
        u64 a = std::max(s, p->a), b = std::min(e, p->a + PG);
        for (; a < b; a++) n += *(u8 *)a != 0;
    }
    return n;
}

std::vector<std::pair<u64, u64>> so_ranges() {
    std::vector<std::pair<u64, u64>> r;
    for (auto &g : sohash) r.push_back({g.s, g.e});
    return r;
}
bool so_readonly(u64 a) {
    for (auto &r : soro) if (a >= r.s && a < r.e) return true;
    return false;
}

// ---------------------------------------------------------------- wrapped calls
static void ev(EvKind k, u64 a, u64 l, u64 a2, u64 l2, int prot, int err) {
    n_events++;
    if (log_events) events.push_back(Event{k, a, l, a2, l2, prot, err});
}
static void foreign(const char *what, u64 a, u64 l) {
    char b[160];
    snprintf(b, sizeof b, "%s of [%#lx,+%#lx) which the allocator does not own", what, (long)a, (long)l);
    foreign_ops++;
    foreign_desc = b;
    if (foreign_fatal) escape(O_FOREIGN, b, a);
}
static int sprot(int prot) { return prot & PROT_WRITE ? P_RW : prot & (PROT_READ | PROT_EXEC) ? P_R : P_NONE; }
static bool vma_order(u64 s, u64 e) { return s < e; }

// the fork handlers return to the program as well
static void (*real_handler[3])(void);
template <int I> static void handler() {
    static const char *names[] = {"the prepare handler of fork", "the parent handler of fork", "the child handler of fork"};
    real_handler[I]();
    if (pkey_have >= 0 && pkru_access != 1 && left_open.empty()) left_open = names[I];
}
extern "C" {

void *__wrap_mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) {
    (void)fd; (void)off;
    if (sync_hook) sync_hook(SY_SYSCALL, 0);
    bool fixed = flags & MAP_FIXED;
    int e = fault ? fault(fixed ? EV_MMAP_FIXED : EV_MMAP, (u64)addr, len, prot) : 0;
    if (!e && (len == 0 || (fixed && ((u64)addr & (PG - 1))))) e = EINVAL;
    u64 l = pgup(len);
    if (!e && l < len) e = ENOMEM;
    if (e) { ev(fixed ? EV_MMAP_FIXED : EV_MMAP, (u64)addr, len, 0, 0, prot, e); errno = e; return MAP_FAILED; }
    if (fixed) {
        u64 a = (u64)addr;
        if (!mapped_range(a, a + l)) foreign("MAP_FIXED mmap", a, l);
        if (!in_window(a) || !in_window(a + l - 1)) { errno = ENOMEM; return MAP_FAILED; }
        discard(a, a + l);
        vset(a, a + l, sprot(prot), 0);
        if (mte_map) mte_map(a, a + l, prot & 0x20);
        fix_prots(a, a + l);
        ev(EV_MMAP_FIXED, a, len, 0, 0, prot, 0);
        return addr;
    }
    u64 a = place ? place(l) : 0;
    if (!a) {
        a = WB + PG * 16;
        for (auto &v : vmas) {
            if (v.s >= a && v.s - a >= l) break;
            a = std::max(a, v.e);
        }
    }
    if (l > WE - WB || a + l > WE) { ev(EV_MMAP, 0, len, 0, 0, prot, ENOMEM); errno = ENOMEM; return MAP_FAILED; }
    discard(a, a + l);
    vset(a, a + l, sprot(prot), 0);
    if (mte_map) mte_map(a, a + l, prot & 0x20);
    fix_prots(a, a + l);
    ev(EV_MMAP, a, len, 0, 0, prot, 0);
    return (void *)a;
}
void *__wrap_mmap64(void *addr, size_t len, int prot, int flags, int fd, off_t off) {
    return __wrap_mmap(addr, len, prot, flags, fd, off);
}

int __wrap_munmap(void *addr, size_t len) {
    if (sync_hook) sync_hook(SY_SYSCALL, 0);
    int e = fault ? fault(EV_MUNMAP, (u64)addr, len, 0) : 0;
    u64 a = (u64)addr, l = pgup(len);
    if (!e && (len == 0 || (a & (PG - 1)) || l < len)) e = EINVAL;
    ev(EV_MUNMAP, a, len, 0, 0, 0, e);
    if (e) { errno = e; return -1; }
    if (!mapped_range(a, a + l)) { foreign("munmap", a, l); }
    if (!in_window(a) || !in_window(a + l - 1)) { errno = EINVAL; return -1; }
    discard(a, a + l);
    vclear(a, a + l);
    fix_prots(a, a + l);
    return 0;
}

static int do_mprotect(void *addr, size_t len, int prot, int pkey) {
    if (sync_hook) sync_hook(SY_SYSCALL, 0);
    int e = fault ? fault(EV_MPROTECT, (u64)addr, len, prot) : 0;
    u64 a = (u64)addr, l = pgup(len);
    if (!e && ((a & (PG - 1)))) e = EINVAL;
    ev(EV_MPROTECT, a, len, 0, 0, prot, e);
    if (e) { errno = e; return -1; }
    if (!l) return 0;
    if (owned_so(a, l)) {
        if (sprot(prot) != P_RW) soro.push_back({a, a + l});
        else soro.erase(std::remove_if(soro.begin(), soro.end(), [&](const Seg &g) { return g.s >= a && g.e <= a + l; }), soro.end());
        return ::mprotect(addr, l, prot);
    }
    if (!in_window(a) || !in_window(a + l - 1) || !mapped_range(a, a + l)) {
        foreign("mprotect", a, l);
        errno = ENOMEM;
        return -1;
    }
    // pieces keep their pkey unless one is given (plain mprotect: default key stays as it was for the range)
    if (pkey < 0) {
        std::vector<Vma> parts;
        for (size_t i = vfind(a); i < vmas.size() && vmas[i].s < a + l; i++)
            parts.push_back(Vma{std::max(a, vmas[i].s), std::min(a + l, vmas[i].e), 0, vmas[i].pkey});
        for (auto &p : parts) if (vma_order(p.s, p.e)) vset(p.s, p.e, sprot(prot), p.pkey);
    } else vset(a, a + l, sprot(prot), pkey);
    fix_prots(a, a + l);
    return 0;
}
int __wrap_mprotect(void *addr, size_t len, int prot) { return do_mprotect(addr, len, prot, -1); }
int __wrap_pkey_mprotect(void *addr, size_t len, int prot, int pkey) { return do_mprotect(addr, len, prot, pkey); }
int __wrap_pkey_alloc(unsigned, unsigned rights) {
    ev(EV_PKEY_ALLOC, 0, 0, 0, 0, 0, pkey_have < 0);
    if (pkey_have < 0) { errno = ENOSPC; return -1; }
    pkru_access = rights;
    return pkey_have;
}
int __wrap_pkey_set(int key, unsigned rights) {
    (void)key;
    if (pkru_access != (int)rights) { pkru_access = rights; if (sealed_real) apply_pkey(); }
    return 0;
}
int __wrap_pkey_get(int) { return pkru_access; }

void *__wrap_mremap(void *old, size_t olen, size_t nlen, int flags, ...) {
    if (sync_hook) sync_hook(SY_SYSCALL, 0);
    void *nw = nullptr;
    if (flags & MREMAP_FIXED) { va_list ap; va_start(ap, flags); nw = va_arg(ap, void *); va_end(ap); }
    int e = fault ? fault(EV_MREMAP, (u64)old, olen, 0) : 0;
    u64 o = (u64)old, ol = pgup(olen), n = (u64)nw, nl = pgup(nlen);
    if (!e && ((o & (PG - 1)) || (n & (PG - 1)) || !nl)) e = EINVAL;
    if (!e && !in_window(o)) { foreign("mremap", o, ol); e = EFAULT; }
    const Vma *v = e ? nullptr : vat(o);
    if (!e && (!v || v->e < o + ol)) { foreign("mremap across mappings", o, ol); e = EFAULT; }
    if (!e && (flags & MREMAP_FIXED) && !(n + nl <= o || o + ol <= n)) e = EINVAL;
    ev(EV_MREMAP, o, olen, n, nlen, 0, e);
    if (e) { errno = e; return MAP_FAILED; }
    u32 prot = v->prot, pk = v->pkey;
    if (!(flags & MREMAP_FIXED)) {
        if (nl <= ol) {
            if (nl < ol) { discard(o + nl, o + ol); vclear(o + nl, o + ol); fix_prots(o + nl, o + ol); }
            return old;
        }
        size_t i = vfind(o + ol);
        bool room = (v->e == o + ol) && (i >= vmas.size() || vmas[i].s >= o + nl) && o + nl <= WE;
        if (!room && !(flags & MREMAP_MAYMOVE)) { errno = ENOMEM; return MAP_FAILED; }
        if (room) { vset(o + ol, o + nl, prot, pk); fix_prots(o + ol, o + nl); return old; }
        n = 0;
        u64 a = WB + PG * 16;
        for (auto &w : vmas) { if (w.s >= a && w.s - a >= nl) break; a = std::max(a, w.e); }
        n = a;
    } else {
        if (!mapped_range(n, n + nl)) foreign("MREMAP_FIXED target", n, nl);
        discard(n, n + nl);
        vclear(n, n + nl);
    }
    vset(n, n + nl, prot, pk);
    fix_prots(n, n + nl);
    u64 cp = std::min(ol, nl);
    auto r = prange(o, o + cp);
    std::vector<u64> src;
    for (size_t k = r.first; k < r.second; k++) if (pages[sorted[k]].nz) src.push_back(pages[sorted[k]].a);
    for (u64 sa : src) {
        Page *sp = pfind(sa);
        mk_readable(sp);
        u64 da = n + (sa - o);
        Page *dp = pfind(da);
        if (!dp) dp = padd(da);
        make_hot(dp);
        if (dp->rp != P_RW) { real_prot(da, PG, P_RW); dp->rp = P_RW; }
        memcpy((void *)da, (void *)sa, PG);
        dp->nz = 1;
    }
    discard(o, o + ol);
    vclear(o, o + ol);
    fix_prots(o, o + ol);
    fix_prots(n, n + nl);
    return (void *)n;
}

int __wrap_madvise(void *addr, size_t len, int advice) {
    if (sync_hook) sync_hook(SY_SYSCALL, 0);
    int e = fault ? fault(EV_MADVISE, (u64)addr, len, advice) : 0;
    u64 a = (u64)addr, l = pgup(len);
    if (!e && (a & (PG - 1))) e = EINVAL;
    ev(EV_MADVISE, a, len, 0, 0, advice, e);
    if (e) { errno = e; return -1; }
    if (!mapped_range(a, a + l)) { foreign("madvise", a, l); errno = ENOMEM; return -1; }
    if (advice == MADV_DONTNEED) { discard(a, a + l); fix_prots(a, a + l); }
    return 0;
}
int __wrap_posix_madvise(void *addr, size_t len, int advice) {
    return __wrap_madvise(addr, len, advice) ? errno : 0;
}
int __wrap_mallopt(int param, int) { if (param == -1003) android_restored++; return 1; }   // called on the way to a fatal error only
int __wrap_prctl(int op, ...) {
    if (op == 0x53564d41) {   // PR_SET_VMA: a name for a range
        va_list ap; va_start(ap, op);
        unsigned long what = va_arg(ap, unsigned long); u64 a = va_arg(ap, u64), l = va_arg(ap, u64); const char *name = va_arg(ap, const char *);
        va_end(ap);
        if (sync_hook) sync_hook(SY_SYSCALL, 0);
        if ((int)what != 0 || a % PG || !name || !*name) { char b[120]; snprintf(b, sizeof b, "prctl(PR_SET_VMA, %d, %#lx, %lu, %p)", (int)what, a, l, (const void *)name); escape(O_TRAP, b, a); }
        if (l && !owned_so(a, l) && !mapped_range(a, a + pgup(l))) foreign("naming", a, l);
    }
    ev(EV_PRCTL, 0, 0, 0, 0, 0, 0);
    return 0;
}

ssize_t __wrap_getrandom(void *buf, size_t len, unsigned flags) {
    (void)flags;
    if (sync_hook) sync_hook(SY_SYSCALL, 0);
    ev(EV_GETRANDOM, (u64)buf, len, 0, 0, 0, 0);
    getrandom_calls++;
    if (getrandom_fn) { int r = getrandom_fn((u8 *)buf, len); if (r > 0) getrandom_bytes_total += r; return r; }
    u8 *b = (u8 *)buf;
    for (size_t i = 0; i < len; i++) {
        u64 x = mix64(0x5eed + ++grand_ctr);
        b[i] = (u8)(x >> 24);
    }
    getrandom_bytes_total += len;
    return len;
}

long __wrap_sysconf(int name) { return name == _SC_PAGESIZE ? sysconf_pagesize : ::sysconf(name); }
int __wrap_getpagesize(void) { return sysconf_pagesize; }

int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) {
    if (mutex_hook) return mutex_hook(SY_INIT, m);
    if (*(int *)m) held_mutexes--;
    memset(m, 0, sizeof *m);
    return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (mutex_hook) return mutex_hook(SY_LOCK, m);
    if (*(int *)m) escape(O_DEADLOCK, "locking a mutex that is already held", (u64)m);
    *(int *)m = 1; held_mutexes++;
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
    if (mutex_hook) { if (*(int *)m) return EBUSY; return mutex_hook(SY_LOCK, m); }
    if (*(int *)m) return EBUSY;
    *(int *)m = 1; held_mutexes++;
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    if (mutex_hook) return mutex_hook(SY_UNLOCK, m);
    if (!*(int *)m) escape(O_DEADLOCK, "unlocking a mutex that is not held", (u64)m);
    *(int *)m = 0; held_mutexes--;
    return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int __wrap_pthread_atfork(void (*a)(void), void (*b)(void), void (*c)(void)) {
    atfork_calls++;
    real_handler[0] = a; real_handler[1] = b; real_handler[2] = c;
    atfork_prepare = a ? handler<0> : nullptr; atfork_parent = b ? handler<1> : nullptr; atfork_child = c ? handler<2> : nullptr;
    if (fault) return fault(EV_PRCTL, 1, 0, 0);
    return 0;
}

ssize_t __wrap_write(int fd, const void *buf, size_t n) {
    if (write_hook) { ssize_t r = write_hook(fd, buf, n); if (r > 0) errcap.append((const char *)buf, r); return r; }
    if (fd == 2) { errcap.append((const char *)buf, n); return n; }
    return ::write(fd, buf, n);
}
void __wrap_abort(void) {
    std::string m = errcap;
    while (!m.empty() && m.back() == '\n') m.pop_back();
    escape(O_FATAL, m, 0);
}
void *__wrap_memcpy(void *d, const void *s, size_t n) { return memcpy_hook ? memcpy_hook(d, s, n) : ::memcpy(d, s, n); }
void *hmc_mte_irg(void *p, u64 excl) { return mte_irg ? mte_irg(p, excl) : p; }
void hmc_mte_store(void *p, size_t n) { if (mte_store) mte_store(p, n); }
void *__wrap_memset(void *p, int c, size_t n) { return memset_hook ? memset_hook(p, c, n) : ::memset(p, c, n); }

// called from the shim inside the target
void hmc_rnd_state(void *s) { if (rnd_state) rnd_state((u64)s); }
int hmc_rnd_uniform(int width, u64 bound, u64 *out) {
    if (!rnd_uniform) return 0;
    *out = rnd_uniform(width, bound);
    return 1;
}
int hmc_keystream(u8 *out, u32 n) { return keystream_fn ? keystream_fn(out, n) : 0; }
int hmc_rnd_word(int width, u64 *out) {
    if (!rnd_word) return 0;
    *out = rnd_word(width);
    return 1;
}
}
} // namespace env
