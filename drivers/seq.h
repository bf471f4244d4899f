// Sequence search: every sequence of API operations (from a menu) x every random choice, state-matched.
#pragma once
#include "../engine/heap.h"

namespace seq {
using mc::Op;
using heap::Heap;

struct AllocOp { int fn; u64 a, b; };
// bulk operations are fixed programs of API calls; draws follow a fixed stream
struct Bulk { int kind; u64 n, size; int stream; };  // 0 allocate n, 1 free n oldest (lowest address) of that size,
                                                     // 2 free n highest, 3 n times allocate+free, 4 free every other,
                                                     // 5 n times (allocate two, free the first), 6 free all of that size
enum { K_ALLOC = 0, K_FREE, K_REALLOC, K_TRIM, K_THREAD, K_POKE, K_BULK, K_FSIZED, K_REALLOC_NULL, K_FREE_NULL, K_FOCUS, K_NOTAG };

struct Seq : Heap {
    std::vector<AllocOp> allocs; std::vector<u64> resizes; std::vector<Bulk> bulks, prefix;
    int max_live = 4, threads = 1, max_pokes = 0, max_bulk = 0, max_trim = 99, max_resize = 99;
    bool frees = true, trim = false, fsized = false, rnull = false;
    bool p_bad = false, p_freed = false, p_canary = false, p_cover = false, p_sizes = false, p_poke = false, p_stats = false, p_leftover = false;
    u64 probe_every = 1; u64 nprobe = 0;
    int free_window = 8;                         // with many live blocks: only this many from each end
    int poke_menu = 0;
    int notag = 0;                               // Android: memory tagging disabled 1: at any time, 2: before the first allocation
    int focus = 0;                               // first choose a size class (every focus-th of the table); size 0 in bulks means that class
    u64 focus_size() const { u64 s = heap::classes[m.focus].size; return s ? s - heap::canary : 0; }
    u64 every = 0;                               // bad-pointer probes: every byte offset of the class of this branch

    void start();                                // boot + prefix + finish_base
    void init() override {}
    void ops(std::vector<Op> &out) override;
    void run(const Op &op) override;
    void probe() override;
    void run_bulk(const Bulk &b);
    std::vector<u64> bad_addresses();

    void probe_bad(); void probe_canary(); void probe_cover(); void probe_sizes(); void probe_pokes(); void probe_stats();
    void poke_targets(std::vector<std::pair<u64, u64>> &out);
    std::string params() override { return ""; }
};
} // namespace seq
