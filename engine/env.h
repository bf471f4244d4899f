// Simulated execution environment for the allocator under test.
//
// The target (libhardened_malloc built from /repo's working tree with H_MALLOC_PREFIX) is a shared object whose
// references to mmap/munmap/mprotect/mremap/madvise/getrandom/pthread_mutex_*/... are redirected (ld --wrap) to the
// functions here.  All memory it maps lives in one fixed window; the kernel's view of that window (mappings,
// protections, contents) is a table owned by this file, so it can be snapshotted, restored, hashed and judged.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include <setjmp.h>
#include <malloc.h>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;

namespace env {

constexpr u64 WB = 0x100000000000ull, WE = 0x500000000000ull;
constexpr u64 PG = 4096;
inline u64 pgdn(u64 x) { return x & ~(PG - 1); }
inline u64 pgup(u64 x) { return (x + PG - 1) & ~(PG - 1); }

enum { P_NONE = 0, P_R = 1, P_RW = 3 };

struct Vma { u64 s, e; u32 prot; u32 pkey; };

enum EvKind { EV_MMAP, EV_MMAP_FIXED, EV_MUNMAP, EV_MPROTECT, EV_MREMAP, EV_MADVISE, EV_GETRANDOM, EV_PRCTL,
              EV_PKEY_ALLOC, EV_LOCK, EV_UNLOCK };
struct Event { EvKind k; u64 addr, len; u64 a2, l2; int prot; int err; };

enum Outcome { O_OK, O_FATAL, O_SEGV, O_HANG, O_DEADLOCK, O_FOREIGN, O_TRAP };
extern const char *outcome_name[];
struct Result { Outcome o; std::string msg; u64 addr; };

// target API
struct Target {
    void *(*malloc)(size_t); void *(*calloc)(size_t, size_t); void *(*realloc)(void *, size_t);
    void *(*aligned_alloc)(size_t, size_t); void *(*memalign)(size_t, size_t);
    void *(*valloc)(size_t); void *(*pvalloc)(size_t);
    int (*posix_memalign)(void **, size_t, size_t);
    void (*free)(void *); void (*cfree)(void *); void (*free_sized)(void *, size_t);
    size_t (*malloc_usable_size)(void *); size_t (*malloc_object_size)(const void *);
    size_t (*malloc_object_size_fast)(const void *);
    int (*malloc_trim)(size_t); int (*malloc_info)(int, FILE *);
    struct mallinfo2 (*mallinfo2)(void); struct mallinfo (*mallinfo)(void);
    int (*mallopt)(int, int);
    size_t (*mallinfo_narenas)(void); size_t (*mallinfo_nbins)(void);      // Android's interface from here
    struct mallinfo2 (*mallinfo_arena_info)(size_t); struct mallinfo2 (*mallinfo_bin_info)(size_t, size_t);
    void (*malloc_disable)(void); void (*malloc_enable)(void); void (*malloc_disable_memory_tagging)(void);
    int (*malloc_iterate)(uintptr_t, size_t, void (*)(uintptr_t, size_t, void *), void *);
    void (*malloc_stats)(void); void *(*malloc_get_state)(void); int (*malloc_set_state)(void *);
    void *dl;
};
extern Target T;
extern bool android;                  // built with Android's interface
long cfg(const char *name);           // value of a build-time configuration constant
void load_target(const char *so, bool self = false);    // dlopen + bind
extern std::string self_start;        // why starting itself while being loaded failed
void *sym(const char *name);          // optional symbol of the target

// memory view
extern std::vector<Vma> vmas;
int prot_at(u64 a);                   // -1 if not mapped
bool mapped_range(u64 s, u64 e);
bool all_prot(u64 s, u64 e, int prot);          // every page mapped with exactly prot
bool none_accessible(u64 s, u64 e);             // every page unmapped or PROT_NONE
u64 mapped_bytes(); u64 rw_bytes();
bool in_window(u64 a);
bool owned_so(u64 a, u64 len);        // inside the target's own writable data
u64 run_start(u64 a), run_end(u64 a); // maximal run of same-protection mapping around a
u64 touched_pages(std::vector<u64> &out);  // addresses of pages ever touched (content may be non-zero)
u64 nz_rw_bytes(u64 s, u64 e);        // count of non-zero bytes in [s,e) that are readable

// snapshot / restore / hash
struct Snap;
Snap *snapshot();                     // of the current state
void restore(const Snap *);
void free_snap(Snap *);
void rebase();                        // make the current state the baseline
const Snap *base();
u64 state_hash();                     // allocator memory + mapping table + target data/TLS

// environment answers
extern std::function<int(EvKind, u64 addr, u64 len, int prot)> fault;   // errno to inject, 0 for none
extern std::function<ssize_t(int fd, const void *, size_t)> write_hook; // answer of write; null: everything is taken
extern int android_restored;                                 // times the default SIGABRT handler was restored
extern std::function<u64(u64 len)> place;                    // address for mmap(NULL), 0 for first fit
extern std::function<u64(int width, u64 bound)> rnd_uniform; // answer of get_random_uN_uniform; null: real code
extern std::function<u64(int width)> rnd_word;               // answer of get_random_u16/u64; null: real code
extern std::function<void(u64 state)> rnd_state;             // the generator a draw uses
extern std::function<int(u8 *buf, size_t len)> getrandom_fn; // answer of getrandom; null: deterministic counter bytes
extern std::function<int(u8 *buf, u32 n)> keystream_fn;      // rng targets: answer of chacha_keystream_bytes; null or 0: real code
extern std::function<void(int kind, u64 addr)> sync_hook;    // scheduling point
enum { SY_LOCK = 1, SY_UNLOCK, SY_SYSCALL, SY_ATOMIC, SY_INIT };
extern std::function<int(int kind, void *m)> mutex_hook;     // if set, replaces mutex behaviour
extern std::function<void *(void *, int, size_t)> memset_hook;  // MTE build only
extern std::function<void *(void *, const void *, size_t)> memcpy_hook;
extern std::function<void *(void *, u64)> mte_irg;           // IRG
extern std::function<void(void *, u64)> mte_store;           // STZG over a range
extern std::function<void(u64 s, u64 e)> mte_discard;        // contents (and tags) of these pages dropped
extern std::function<void(u64 s, u64 e, bool)> mte_map;      // a new mapping with or without PROT_MTE
extern bool log_events;
extern std::vector<Event> events;
extern u64 n_events;
extern void (*atfork_prepare)(void), (*atfork_parent)(void), (*atfork_child)(void);
extern int foreign_ops;               // operations on memory the allocator does not own (since last clear)
extern std::string foreign_desc;
extern bool foreign_fatal;            // stop execution at the first one (default)
extern int held_mutexes;
extern int cur_tid;
extern u64 getrandom_bytes_total, getrandom_calls;
extern long sysconf_pagesize;
extern int pkru_access;               // emulated: 0 = metadata accessible
extern int pkey_have;                 // answer of pkey_alloc (-1: unsupported)
extern std::string left_open;         // a call that returned without sealing the metadata again
extern bool sealed_real;              // enforce the emulated pkey with real protections
void apply_pkey();

void load_window();                   // reserve the window and install fault handlers (before load_target)
void hot_all();

// guarded execution of target code
Result run_(std::function<void()> f);
template <class F> Result run(F &&f) { return run_(std::function<void()>(std::forward<F>(f))); }
[[noreturn]] void escape(Outcome o, const std::string &msg, u64 addr = 0);
extern sigjmp_buf *guard;             // current guard (switched per coroutine)
extern Result *guard_result;
extern u64 run_serial;
extern std::function<void(Outcome, const std::string &, u64)> escape_hook; // coroutine mode

std::vector<std::pair<u64, u64>> so_ranges();   // the target's own writable data (start, end)
bool so_readonly(u64 a);              // page write-protected by the target

u64 hash_bytes(const void *p, size_t n, u64 seed);
inline u64 mix64(u64 x) {
    x ^= x >> 32; x *= 0xd6e8feb86659fd93ull; x ^= x >> 32; x *= 0xd6e8feb86659fd93ull; x ^= x >> 32; return x;
}
void *tls_ptr(size_t *n);             // the target's TLS block of this thread
} // namespace env
