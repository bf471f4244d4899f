#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
H = "h_malloc.c"
p("C01", "Live allocations never overlap and keep their contents",
  "At every moment, the usable ranges of all live allocations (small, zero-size, large, aligned) are pairwise disjoint, lie in readable and writable memory, and every byte the program wrote to a live allocation keeps its value until the program overwrites, reallocates or frees it. This holds after any history of allocation, resizing, freeing and trimming calls, for every random choice the allocator makes.",
  ["histories", "inputs", "configurations"], "every sequence of API calls, every outcome of the allocator's random choices, each build configuration",
  "The tests run a few fixed call sequences with one random stream; overlap arises from particular combinations of slot bitmaps, slab lists, quarantines and region-table layouts.",
  [H, "pages.c", "memory.c"], [("slot bitmaps", "h_malloc.c:get_free_slot/set_used_slot"), ("slab lists", "h_malloc.c:allocate_small/deallocate_small"), ("region hash table", "h_malloc.c:regions_insert/regions_delete/regions_grow")],
  ["returned pointers", "malloc_usable_size", "memory contents"])
p("C02", "Every request is met with enough size and alignment, or refused cleanly",
  "A successful allocation call returns memory of at least the requested size, aligned to at least 16 bytes and to the requested alignment (page size for valloc and pvalloc), all of it readable and writable for non-zero sizes. Alignments that are not powers of two (or, for posix_memalign, smaller than a pointer) give EINVAL, and sizes or products that overflow or cannot be satisfied give NULL with errno ENOMEM (or the ENOMEM return code of posix_memalign), never a smaller block.",
  ["inputs", "configurations"], "every request size, every alignment, each allocating entry point",
  "The tests try a handful of sizes; size-class rounding, canary adjustment, aligned class search and overflow handling are arithmetic over the whole 64-bit range.",
  [H, "util.h", "pages.c"], [("size classes", "h_malloc.c:get_size_info/get_size_info_align/get_large_size_class"), ("canary adjustment", "h_malloc.c:adjust_size_for_canary"), ("aligned mapping", "pages.c:allocate_pages_aligned")],
  ["return value", "errno", "malloc_usable_size"])
p("C03", "Newly allocated memory reads as zero",
  "With zero-on-free enabled (the default), every byte of a newly returned allocation up to its usable size reads as zero regardless of what earlier owners of that memory wrote, including slots coming out of quarantine, cached slabs, purged slabs and reused address space. calloc returns zeroed requested bytes in every configuration.",
  ["histories", "configurations"], "every call history and random choice, with previous owners filling their whole usable range",
  "Tests check one reuse pattern; stale bytes survive only on particular reuse paths (cached slab, failed remap then purge, realloc paths, large-to-quarantine).",
  [H], [("wipe on free", "h_malloc.c:deallocate_small"), ("fresh mappings", "pages.c, memory.c:memory_map_fixed"), ("calloc", "h_malloc.c:h_calloc")], ["contents of returned memory"])
p("C04", "realloc preserves contents and never loses the block on failure",
  "A successful realloc returns a block whose first min(old usable, new requested) bytes equal the old contents (in-place shrink and growth, copy and remap paths alike), the old block is released exactly once if it moved, and realloc(NULL, n) behaves as malloc(n). If realloc fails it returns NULL and the original block stays live, unmoved, with unchanged contents and size.",
  ["histories", "inputs", "fault_sequences"], "every pair of old/new sizes across small, zero and large kinds, and every failing system call on the way",
  "The tests reallocate a few sizes; each of the several resize paths (same class, shrink in place, copy, mremap move, fallback) has its own size and guard arithmetic and failure exits.",
  [H, "memory.c"], [("realloc paths", "h_malloc.c:h_realloc"), ("remap", "memory.c:memory_remap_fixed")], ["returned pointer", "contents", "memory map"])
p("C05", "Invalid and double frees are always detected",
  "Passing free, malloc_usable_size or a realloc that changes the block's size class any non-NULL pointer that is not the exact start of a live allocation (already freed whether still quarantined or not, interior or unaligned, in an unused, guard, cached or purged slab, past the last slot of a slab, large address inside, before or after a region, or anything before the allocator is initialised) aborts the process with a fatal error or faults, and never returns normally. Freeing NULL does nothing.",
  ["histories", "inputs"], "in every reachable heap state, every candidate bad address (all slot starts, all in-slab offsets, slab and class boundaries, region edges)",
  "The tests cover about fifteen fixed invalid frees in one heap state; detection depends on quarantine and bitmap state that only specific histories create.",
  [H], [("checks at deallocation", "h_malloc.c:deallocate_small/get_metadata"), ("region lookup", "h_malloc.c:deallocate_large/regions_find"), ("uninitialised use", "h_malloc.c:enforce_init")], ["abort message", "process outcome"])
p("C06", "Sized deallocation accepts exactly the matching sizes",
  "Deallocating with a size (free_sized, C++ sized and aligned sized delete) succeeds whenever the size (and alignment) given is the one used to allocate, and aborts when the given size belongs to a different size class, for small, zero-size and large allocations, for every 64-bit size including huge ones.",
  ["inputs", "configurations"], "every (allocated size, alignment, claimed size) combination, class boundaries included",
  "The tests try one mismatch per kind; the check is arithmetic over all sizes and alignments.",
  [H, "new.cc"], [("sized check", "h_malloc.c:h_free_sized/deallocate_small/deallocate_large"), ("C++ operators", "new.cc")], ["abort message", "process outcome"])
p("C07", "Freed slots pass through the full quarantine before reuse",
  "With slab quarantines configured, a freed small slot is not handed out again, nor its slab released, until it has been displaced from the random quarantine by a later free of the same class and arena choosing its position and then waited in the queue for the whole queue length of further displacements; each freed slot leaves the quarantine exactly once. The quarantine lengths scale with the size class: configured length for the largest class, doubling for each halving of size.",
  ["histories", "configurations"], "every free/allocate history and every random quarantine index, for each size class",
  "Tests never observe reuse delay; the order depends on random indices and on wrap-around of per-class circular queues after many frees.",
  [H], [("random + FIFO quarantine", "h_malloc.c:deallocate_small"), ("quarantine bitmap", "h_malloc.c:set_quarantine_slot/clear_quarantine_slot")], ["addresses returned after frees"])
p("C08", "Overflows into a slot's canary are detected",
  "With canaries enabled, changing any of the canary bytes that follow the usable range of a non-zero-size small allocation is detected, with an abort, when the allocation is freed, reallocated to a different class, or queried with malloc_usable_size; an untouched canary never raises an alarm. Each slab's canary has a zero leading byte (so that unterminated strings stop) and is otherwise freshly random for each new use of a slab.",
  ["inputs", "histories"], "every size class, every canary byte position and value, every slab life-cycle path",
  "Tests overwrite with one pattern at one size; missing canary writes occur only on particular slab paths (cached, purged, fresh).",
  [H], [("canary", "h_malloc.c:set_canary/check_canary/set_slab_canary_value")], ["abort message", "bytes after the usable range"])
p("C09", "Writes to freed small memory are detected at reuse",
  "With the write-after-free check enabled, if any byte of a freed small slot's usable range is changed while it is free (quarantined, in a partial slab or in a cached empty slab that was not purged), the allocation that would hand the slot out again aborts instead of returning it. Without such a write the check never raises an alarm.",
  ["histories", "inputs"], "every byte position of a slot, every reuse path, every history between free and reuse",
  "Tests corrupt one byte on one path with thousands of reallocations; each reuse path has its own check.",
  [H], [("check on allocation", "h_malloc.c:write_after_free_check/allocate_small")], ["abort message"])
p("C10", "Freed data is erased",
  "Once free (or a moving or shrinking realloc) returns, no byte of the released small allocation's old contents remains readable anywhere in the allocator's memory when zero-on-free is on, and the contents of released large allocations and of purged slabs are gone from physical memory (replaced mapping, unmapped or purged) whether or not the kernel accepts each request.",
  ["histories", "fault_sequences"], "every history and every failing system call",
  "Tests read back one freed block; failure paths and slab-release paths are never exercised.",
  [H, "memory.c"], [("wipe", "h_malloc.c:deallocate_small"), ("release", "h_malloc.c:regions_quarantine_deallocate_pages"), ("purge fallback", "memory.c:memory_purge")], ["contents of all mapped memory"])
p("C11", "Zero-size allocations are distinct and inaccessible",
  "malloc(0) and friends return non-NULL pointers, distinct from every other live allocation, 16-byte aligned, with usable size 0, and any read or write through them faults; they can be freed and resized, and are never placed in the address range of non-zero sizes.",
  ["histories"], "every history mixing zero-size and other allocations, including slab exhaustion and release",
  "Tests read and write a single zero-size block; slab exhaustion, release and reuse of zero-size slabs are not reached.",
  [H], [("zero size class", "h_malloc.c:allocate_small/deallocate_small")], ["page protections", "pointer values"])
p("C12", "Unused, guard and released slab memory is inaccessible",
  "Inside the reserved small-object address space, only pages of slabs currently holding slots (allocated, quarantined, free in a partial slab, or in the bounded cache of empty slabs) are accessible: guard slabs at the configured interval, random gaps around each class region, never-used slabs, slabs of the zero-size class and released slabs all fault on access. Empty slabs beyond the per-class cache limit are always released, and released slabs wait in a randomised then first-in-first-out order before reuse.",
  ["histories", "configurations"], "every history, random choice and guard interval",
  "Tests probe one guard; protections depend on slab life-cycle history.",
  [H, "memory.c"], [("slab metadata growth and guard slabs", "h_malloc.c:alloc_metadata"), ("slab release", "h_malloc.c:deallocate_small/enqueue_free_slab"), ("class gaps", "h_malloc.c:init_slow_path")], ["page protections"])
p("C13", "Large allocations always sit between inaccessible guards",
  "Every live large allocation has at least one inaccessible guard page owned by the allocator directly before and after it, of equal random size between one page and the configured fraction of its size, at allocation and after any in-place or moving realloc, for plain and over-aligned requests. The accessible range is exactly the usable size.",
  ["histories", "inputs", "configurations"], "every size, alignment and guard-size choice, and every resize sequence",
  "Tests check one guard access per side right after allocation; resize and alignment trimming recompute the guards.",
  [H, "pages.c"], [("guarded mapping", "pages.c:allocate_pages/allocate_pages_aligned"), ("shrink in place", "h_malloc.c:h_realloc")], ["page protections"])
p("C14", "Freed large memory is fenced off, quarantined and released exactly once",
  "When a large allocation is freed or shrunk, the released range becomes inaccessible at once (unless the kernel refuses for lack of memory); below the skip threshold its address range (guards included) stays reserved until displaced through the random and queue stages of the region quarantine, and is then unmapped exactly once in full; at or above the threshold it is unmapped immediately with its guards. The allocator never unmaps, remaps or changes protection of address space it does not own.",
  ["histories", "fault_sequences"], "every history, random quarantine index, neighbouring foreign mapping and failing system call",
  "Tests free one region; double release or touching a neighbour's mapping is invisible unless address space is tracked exactly.",
  [H, "pages.c", "memory.c"], [("region quarantine", "h_malloc.c:regions_quarantine_deallocate_pages"), ("unmapping with guards", "pages.c:deallocate_pages"), ("alignment trimming", "pages.c:allocate_pages_aligned")], ["sequence of memory-map changes", "page protections"])
p("C15", "Address space is partitioned by size class and arena",
  "Each small size class of each arena owns a fixed address range for the life of the process: no address is ever handed out for two different size classes or two arenas, zero-size and large allocations are never placed in another class's range, and threads are assigned to arenas round-robin and keep their arena; an allocation freed by a different thread returns to the arena it came from.",
  ["histories", "schedules"], "every history and random choice, any number of threads up to beyond the arena count",
  "Tests check relative order of two classes; arena indexing and class range arithmetic are not observed over reuse.",
  [H], [("region layout", "h_malloc.c:init_slow_path/slab_size_class"), ("arena choice", "h_malloc.c:init")], ["returned addresses"])
p("C16", "Allocator metadata is kept away from user memory and locked down",
  "No allocator bookkeeping is ever stored inside user-accessible heap pages except canaries: metadata lives in a separate reservation bracketed by guard pages of random size, only the part in use is accessible, and superseded region tables become inaccessible. After initialisation the allocator's global pointers are read-only.",
  ["histories", "configurations"], "every history up to metadata growth of slabs and of the region table",
  "Tests do not look at page protections; table growth needs long histories.",
  [H, "pages.c", "memory.c"], [("metadata reservation", "h_malloc.c:init_slow_path"), ("table growth", "h_malloc.c:regions_grow/alloc_metadata"), ("read-only globals", "h_malloc.c:init_slow_path")], ["page protections", "heap page contents"])
p("C17", "Running out of memory at any point is survivable",
  "If any memory-mapping system call fails for lack of memory at any point of any operation after initialisation, allocation and resize calls either succeed or return NULL with errno ENOMEM (posix_memalign: ENOMEM), free and trim still succeed, no live allocation is damaged, nothing is leaked twice or released twice, and the allocator keeps meeting all its guarantees when memory is available again. Refusals because internal tables or class regions are full behave the same way.",
  ["fault_sequences", "histories"], "every operation x every failing call (and pairs of failures), followed by further use",
  "No test injects failures; each error exit is a separate code path.",
  [H, "pages.c", "memory.c"], [("error exits", "h_malloc.c:allocate_small/alloc_metadata/allocate_large/regions_grow/h_realloc"), ("mapping helpers", "pages.c")], ["return values", "errno", "page protections", "later behaviour"])
p("C18", "Unexpected system-call errors are fatal",
  "If a memory-management or protection system call fails with an error other than out-of-memory, or the random source fails, the process aborts with a fatal error instead of continuing with unprotected, unmapped-twice or non-random state; initialisation aborts if the page size differs, or its memory cannot be set up.",
  ["fault_sequences"], "every system call of every operation x representative error codes",
  "No test injects failures.",
  ["memory.c", "random.c", "pages.c", H], [("error policy", "memory.c:memory_map/memory_unmap/memory_protect_*"), ("entropy", "random.c:get_random_seed"), ("initialisation checks", "h_malloc.c:init_slow_path")], ["abort message"])
p("C19", "Concurrent use by threads behaves as some sequential use",
  "Under every interleaving of threads calling the API (including freeing each other's blocks, querying sizes, trimming and reading statistics), each result is one a sequential execution could give: no two threads ever own overlapping memory, contents are stable, no deadlock occurs, racing double frees are detected, and the allocator's shared state is free of data races.",
  ["schedules"], "all interleavings of 2-3 threads up to a preemption bound over lock, system-call and atomic operations",
  "Tests are essentially single-threaded; races need a specific interleaving between lock-protected sections.",
  [H, "mutex.h"], [("per-class and region locks", "h_malloc.c"), ("lock-free reads", "h_malloc.c:get_slab_region_end")], ["returned pointers", "contents", "deadlock", "data races"])
p("C20", "fork leaves a usable allocator in parent and child",
  "Once the allocator is initialised (which the library does when it is loaded), if one thread forks while others are in the middle of any allocator call, the child (with only the forking thread) and the parent can both allocate, free, resize and query without deadlock or corruption, all blocks live at the fork stay valid in both, and the child's future random choices are independent of the parent's.",
  ["schedules"], "every point of another thread's operation at which fork can happen",
  "Test suites fork only when quiescent, if at all.",
  [H], [("fork handlers", "h_malloc.c:full_lock/full_unlock/post_fork_child"), ("reseeding in the child", "random.c:random_state_init")], ["deadlock", "returned pointers", "random choices"])
p("C21", "Initialisation happens exactly once",
  "However many threads make their first allocator calls concurrently, and whichever call comes first, the allocator is initialised exactly once, every thread sees it fully initialised, and fork handlers are registered once; queries before initialisation give their documented answers (object size unknown, trim false, usable size of NULL zero).",
  ["schedules", "histories"], "all interleavings of first calls of 2-3 threads; every API call as first call",
  "Initialisation has already happened, single-threaded, before a test starts.",
  [H], [("double-checked initialisation", "h_malloc.c:init_slow_path/init/is_init")], ["number of reservations", "results"])
p("C22", "Bounded random numbers are uniform and in range",
  "The bounded random number generators return values in [0, bound) with every value equally likely given uniform input words, for all bounds used, consuming fresh words when rejecting; bound 0 and 1 return 0.",
  ["inputs"], "every 16-bit bound and every 16-bit input word; 64-bit bounds at structured values",
  "No test inspects the random generator; bias is invisible to functional tests.",
  ["random.c"], [("rejection sampling", "random.c:get_random_u16_uniform/get_random_u64_uniform")], ["generator output"])
p("C23", "Random stream is a correctly keyed, never repeated ChaCha8 stream",
  "Random words are successive, non-overlapping parts of the ChaCha8 keystream for the seeded key and nonce, each keystream byte is used at most once, a new seed is drawn from the system after a bounded amount of output (256 KiB) and after fork, and short or interrupted reads of the system source never leave seed bytes unset.",
  ["histories", "inputs", "fault_sequences"], "every alignment of buffer position, request width and reseed point; every short-read pattern",
  "No test inspects the random stream.",
  ["random.c", "chacha.c"], [("buffering and reseed", "random.c:refill/get_random_bytes/get_random_u16/get_random_u64"), ("cipher", "chacha.c")], ["generator output", "system source calls"])
p("C24", "Size queries are truthful",
  "For a live allocation malloc_usable_size returns a constant between the requested size and the memory really reserved for it (0 for zero-size blocks and NULL); malloc_object_size of any address within a live small allocation returns the bytes remaining to the end of its usable range (for large allocations: the size at the start address, unknown elsewhere), 0 within zero-size blocks, and unknown (maximum) for foreign addresses; the fast variant gives an upper bound without touching the heap. Querying never changes the heap or aborts for such addresses.",
  ["inputs", "histories"], "every size, every interior offset, every slab position",
  "Tests query a few offsets at one size and slab.",
  [H], [("queries", "h_malloc.c:h_malloc_usable_size/h_malloc_object_size/h_malloc_object_size_fast")], ["return values"])
p("C25", "Statistics are exact",
  "With statistics enabled, mallinfo and malloc_info report exactly the bytes (in size-class units) and counts of live small allocations per class and arena, the bytes of slabs in use or cached, and the bytes of live large allocations, after every history including aligned, resized, trimmed and failed operations; with statistics disabled all counters are zero and malloc_info stays well-formed. Non-zero malloc_info options give EINVAL. The Android interface (mallinfo_narenas, mallinfo_nbins, mallinfo_arena_info, mallinfo_bin_info) reports the same figures.",
  ["histories", "configurations"], "every history over all allocation kinds",
  "Statistics are compiled out in the tested configuration.",
  [H], [("counters", "h_malloc.c:stats_small_allocate/stats_slab_allocate/stats_large_allocate"), ("reports", "h_malloc.c:h_mallinfo2/h_malloc_info")], ["mallinfo2", "malloc_info"])
p("C26", "malloc_trim releases all cached empty slabs and nothing else",
  "malloc_trim returns true exactly when it released at least one cached empty slab; afterwards no empty slab of a non-zero class remains accessible (unless the kernel refused for lack of memory), live and quarantined memory is untouched (apart from purging the contents of large quarantined slots), and repeated trims change nothing further. On Android mallopt(M_PURGE) does the same and always reports success.",
  ["histories", "fault_sequences"], "every heap state, every failure point while trimming",
  "No test calls malloc_trim in interesting states.",
  [H], [("trim", "h_malloc.c:h_malloc_trim")], ["return value", "page protections", "contents"])
p("C27", "C++ operators follow the standard contract",
  "All forms of operator new return suitably aligned storage or, on failure, call the installed new-handler repeatedly until it succeeds, is removed or throws, then throw std::bad_alloc (plain forms) or return null (nothrow forms, which never throw); all forms of operator delete release the storage and accept null.",
  ["inputs", "fault_sequences"], "every operator form x size x alignment x handler behaviour (none, succeeds after k failures, removes itself, throws)",
  "The tests exercise sized delete only.",
  ["new.cc", H], [("operators", "new.cc")], ["return value", "exceptions", "handler calls"])
p("C28", "free preserves errno",
  "free leaves errno unchanged for NULL, small, zero-size and large pointers, on every internal path, including those on which system calls fail with out-of-memory.",
  ["histories", "fault_sequences"], "every heap state x every freed block x every failing system call",
  "Tests do not look at errno around free.",
  [H], [("errno saving", "h_malloc.c:h_free/deallocate_small")], ["errno"])
p("C29", "Sealed metadata is inaccessible outside allocator calls",
  "With metadata sealing enabled, all allocator metadata is protected by one protection key, every API call leaves access to it disabled for the calling thread whatever path or error it takes, never touches it while disabled, and everything works unchanged when the key is unavailable.",
  ["histories", "configurations", "fault_sequences"], "every API call in every heap state, every error path",
  "Sealing is off in the tested configuration.",
  [H, "memory.c"], [("seal/unseal", "h_malloc.c:thread_seal_metadata/thread_unseal_metadata"), ("keyed protection", "memory.c:memory_protect_rw_metadata")], ["protection-key state after each call", "faults"])
p("C30", "Memory tags separate neighbours and generations",
  "With memory tagging, each small allocation gets a non-reserved tag different from the current or last tags of its neighbouring slots in the slab and from its slot's previous tag, the pointer and all of the slot's memory carry the tag, the memory is zero and stays mapped with tag checking through every release and reuse of its slab, and freeing retags the slot with the reserved tag so that stale pointers fault. Once tagging has been switched off for the process (malloc_disable_memory_tagging), no further tags are given and every operation on old and new allocations keeps working.",
  ["histories"], "every slot, allocation history and tag choice",
  "Needs ARM hardware; the tests never build it.",
  [H, "memtag.h", "arm_mte.h"], [("tagging", "h_malloc.c:tag_and_clear_slab_slot/deallocate_small"), ("tag array", "util.h:u4_arr_get/u4_arr_set")], ["pointer tags", "memory tags"])
p("C31", "Random choices cover their whole range",
  "Every randomised decision can take every value of its intended range: any free slot of a slab can be chosen when slot randomisation is on, any position of the random quarantines can be displaced, guard sizes span one page to the configured fraction, class regions and metadata start at any page offset within their gap, and these choices differ per class region, fork and process.",
  ["inputs", "histories"], "every bitmap state and every random word, every class",
  "Tests run with one random stream and do not look at distributions.",
  [H, "random.c"], [("slot choice", "h_malloc.c:get_free_slot"), ("quarantine index", "h_malloc.c:deallocate_small/regions_quarantine_deallocate_pages/enqueue_free_slab"), ("gaps and guards", "h_malloc.c:init_slow_path/get_guard_size")], ["addresses returned"])
p("C32", "Address space and metadata are not leaked",
  "Returning to the same set of live allocations returns the allocator to bounded resource use: repeated allocate/free, resize and trim cycles, including failed ones, do not grow mapped memory, accessible memory or metadata beyond what quarantines and caches are configured to hold, and slots, slabs and large regions are reused once they leave quarantine.",
  ["histories", "fault_sequences"], "every cycle of operations found in the state space, including failing ones",
  "Tests do not measure retained memory; leaks hide on error paths, on slab-list transitions and in table deletion.",
  [H, "pages.c"], [("slab lists", "h_malloc.c:deallocate_small/enqueue_free_slab"), ("region table", "h_malloc.c:regions_delete"), ("unmapping", "pages.c:deallocate_pages")], ["mapped and accessible bytes"])
p("C33", "malloc_disable stops every other thread until malloc_enable",
  "On Android, from the return of malloc_disable to the call of malloc_enable no other thread changes the heap in any way, for every size class, arena and large allocations, so the caller sees a still heap; malloc_enable lets all of them go on, and each then completes as if it had only been delayed, with no deadlock in any interleaving, also when it is the first allocator call of the process.",
  ["schedules", "histories"], "every interleaving of a disabling thread with threads inside or about to enter each operation",
  "The Android interface is never built or called by the tests.",
  [H], [("stop", "h_malloc.c:h_malloc_disable/full_lock"), ("resume", "h_malloc.c:h_malloc_enable/full_unlock")], ["progress of the other threads", "return values", "deadlock"])
p("C34", "Fatal errors end the process whatever happens to their report",
  "Whenever the allocator detects an error it aborts the process, whatever standard error does with the report: the message, with its prefix and final newline, is written completely, in order and exactly once however the writes are split or interrupted by signals, and when a write fails only the rest of the report is given up. On Android the default SIGABRT handling is restored before the report is made.",
  ["inputs", "fault_sequences"], "every kind of error x every pattern of short, interrupted and failing writes",
  "Tests read the message from a pipe which takes everything in one write.",
  ["util.c"], [("report", "util.c:fatal_error"), ("complete writes", "util.c:write_full")], ["text written to standard error", "termination"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
