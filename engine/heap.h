// Reference model of the allocator's observable behaviour, driven in lock step with the real code.
#pragma once
#include "mc.h"
#include <deque>

namespace heap {
using mc::Op;

struct ClassInfo { u32 size, slots, slab; };   // documented size-class table (README)
extern std::vector<ClassInfo> classes;
extern u64 max_small, max_empty;
extern bool ext_classes, large_classes, zero_on_free, waf_check, has_canary, slot_rand, has_stats;
extern u64 canary;
extern int sq_rand, sq_queue, rq_rand, rq_queue, fsq, n_arena, guard_interval, guard_div;
extern u64 rq_skip;
void load_config();
int class_of(u64 adjusted);            // smallest class holding a size, -1 if none
int class_of_aligned(u64 adjusted, u64 align);
u64 adjust(u64 req);
u64 large_size(u64 size);              // documented rounding of large sizes, 0 on overflow
u64 pattern(u64 addr);

enum Kind { SMALL, ZERO, LARGE };
enum SlabState { S_NEVER, S_ACTIVE, S_CACHED, S_RELEASED };
struct Obj {
    u64 a, us, req; u8 kind; u8 arena; u16 cls; u64 guard; u64 align;
    u64 span() const { return kind == LARGE ? env::pgup(us) : us; }   // the kernel works in pages
};
struct Slab { u8 st = 0; u16 live = 0, quar = 0; };
struct ClassM {
    u64 base = 0, lo = ~0ull, hi = 0, cached = 0;
    std::vector<Slab> slabs;
    std::vector<u64> rq, q; u32 qi = 0;
    std::vector<int> frand; std::deque<int> fifo;
    u32 next = 0, unguarded = 0;
    bool q_exact = true, fifo_exact = true;
    u64 nmalloc = 0, ndalloc = 0, frees = 0;
    std::vector<std::pair<u64, u64>> inexact;  // (slot, frees when it was freed) when draws are invisible
};
struct Iv { u64 s, e; };
typedef std::vector<Iv> IvSet;
IvSet iv_norm(IvSet v);
IvSet iv_sub(const IvSet &a, const IvSet &b);
bool iv_has(const IvSet &a, u64 s, u64 e);
IvSet mapped_set();
struct Draw { int width; u64 bound, val; };

struct Model {
    std::vector<Obj> objs;                      // sorted by address
    std::map<int, ClassM> cls;                  // arena * 64 + class
    std::vector<Iv> rrand, rq; u32 rqi = 0;     // region quarantine (s == 0: empty)
    bool r_exact = true; IvSet r_loose;
    IvSet leaked;                               // ranges the kernel refused to unmap
    IvSet fenced_rw;                            // quarantined ranges still accessible because the kernel refused
    int faults = 0;                             // injected failures still allowed
    int thread = 0; std::vector<std::vector<u8>> tls; std::vector<int> arena_of; int started = 0;
    std::vector<std::pair<u64, u64>> poisoned;  // freed slots with a byte changed (slot, offset)
    int pokes = 0, budget = 0, extra = 0, notag = 0;   // notag: memory tagging was disabled
    std::vector<u64> freed;                     // the latest freed addresses (targets for probes, not part of the state)
    u32 words = 0, stream_pos = 0;
    int focus = -1;                             // the size class this branch is about
    u64 last = 0;
};

struct Rnd {                                    // how random draws are answered
    int full16 = 0;                             // enumerate every value of 16-bit draws up to this bound
    int full64 = 0;
    std::vector<double> reps;                   // otherwise these fractions of the range (1.0: the last value), if any
    int word_cycle = 1;
    bool real = false;                          // leave to the real generator
    u64 slot_limit = ~0ull;
};

struct Heap : mc::World {
    Model m;
    Rnd rnd;
    u64 slab_s = 0, slab_e = 0; IvSet meta;     // reservations made at initialisation
    u64 n_init_maps = 0;
    std::vector<u8> tls0;
    std::vector<Draw> draws;                    // of the current operation
    bool in_op = false; int injected = 0; bool injected_unmap = false; int op_calls = 0;
    bool refuse_release = false;                // the kernel refuses to take back any slab
    int force_pos = -1; std::vector<u64> forced; // probe: forced draw values
    int light_fill = 0;                    // touch only edges of small blocks too
    bool full_content = true;
    u64 meta_rw = 0;
    int place_mode = 0;
    bool purge = false;                        // Android: malloc_trim under the name mallopt(M_PURGE)
    int fixed_stream = -1;                      // bulk operations: draws follow a fixed stream instead of branching
    bool quiet = false;                         // bulk operations: check the state only at the end
    std::function<void(const Op &)> extra_run;
    std::string shown;

    bool hard = false; std::vector<int> hard_codes;   // errors other than ENOMEM are injected too
    int hard_injected = 0; std::string hard_call;
    bool starting = false;                      // during initialisation a refusal may be fatal
    void learn(u64 p);
    void boot();                                // initialise the allocator under test
    void install();                             // environment callbacks
    void finish_base();                         // make the current state the base

    // guarded call; anything but a normal return is reported under "*" unless the caller allows it
    env::Result call(const std::function<void()> &f);
    void need_ok(const env::Result &r, const char *what);

    // operations with all step checks; return index of the object or -1
    int do_alloc(int fn, u64 a, u64 b);         // fn: 0 malloc 1 calloc(a,b) 2 aligned_alloc(a,b) 3 posix_memalign(a,b) 4 memalign 5 valloc 6 pvalloc
    void do_free(int i, int fn = 0, u64 sz = 0);       // fn: 0 free 1 free_sized 2 cfree
    int do_realloc(int i, u64 n);
    void do_trim();
    void set_thread(int t); void enter_thread();
    void check_state();                         // invariants
    void check_contents(const char *p);
    void check_stats();
    void check_android_stats(const std::vector<std::map<int, const ClassM *>> &, u64 large);
    void scan_leftovers();                      // C10/C16: every non-zero heap byte is accounted for

    int find(u64 a) const;
    void fill(const Obj &o); bool intact(const Obj &o, u64 *bad) const;
    int add(u64 a, u64 us, u64 req, u64 align, const char *what, bool zeroed, u64 zero_len);
    ClassM &cm(int arena, int cls);
    void slot_left_quarantine(ClassM &c, int cls, u64 p, size_t &di);
    void small_freed(const Obj &o);
    void small_alloced(const Obj &o);
    void large_freed(const Iv &whole, u64 us, const IvSet &before, bool quarantinable);
    u64 draw_value(int width, u64 bound);
    bool poke_ok(const ClassM &c, u64 p) const;
    IvSet expected_mapped() const;
    void mapped_check(const char *what);
    std::vector<u64> free_slots(int key) const;

    u64 hash() override;
    std::shared_ptr<void> save() override { return std::make_shared<Model>(m); }
    void load(const std::shared_ptr<void> &p) override { m = *(Model *)p.get(); load_tls(); }
    void load_tls();
    std::string show(const Op &) override { return shown; }
};

// errno as the target sees it
extern int last_errno;
} // namespace heap
