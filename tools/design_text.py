MISSED=set()
HEAD='''# Model checking hardened_malloc

(Written by tools/gen_design.py from tools/design_text.py, properties.jsonl and seeded/.)

## 1. Approach

Every property is decided by *bounded exhaustive exploration of the real code*.  There is no abstract model whose
binding would have to be argued: the C sources of /repo's working tree are compiled, unmodified, into a shared object
(with `H_MALLOC_PREFIX`, so that the harness keeps its own malloc) whose references to system calls, mutexes, abort and
bounded random draws are redirected at link time (`ld --wrap`) into a controlled environment.  What is explored are the
states and schedules of that code; what judges them is a small reference model written from the documented guarantees.

    hmc.py            builds targets (content-addressed cache in build/) and the explorer, runs the jobs of one property
    checks.py         which explorations decide which property: menu, depth, configuration, probes
    engine/env.*      the environment: kernel model of one address window, snapshots, hashing, fault injection
    engine/mc.*       explicit-state search: worlds, choices, breadth-first frontier over 8 worker processes, replay
    engine/heap.*     the reference model of the heap and its oracles
    engine/sched.*    controlled scheduler for threads, vector clocks, data race detection
    engine/shim.c     the seam for random numbers inside the target;  shim/: stand-ins used by RNG and tagging targets
    drivers/*.cc      the drivers: seq (operation sequences), init (first calls and start-up), conc (threads, forks), rng (random
                      number generator, divisions), sweep (argument enumeration), mte (memory tagging), fatal (error reports)

### Environment (engine/env.cc)

All memory the target maps lives in one window `[0x100000000000, 0x500000000000)`.  The environment owns the mapping
table (start, end, protection, protection key, PROT_MTE), and the page contents; real pages are materialised on demand
by a SIGSEGV handler which answers exactly as the modelled protections say (an access the kernel would refuse ends the
call with outcome SEGV and the address).  A state (mapping table, contents, the target's own data and TLS, mutexes,
protection-key rights) can be snapshotted, restored and hashed.  Calls on memory the allocator does not own (munmap or
mprotect outside its mappings, MAP_FIXED over foreign memory) end the execution with outcome FOREIGN, so nothing a
broken allocator does can reach the sandbox.  abort, fatal_error and "infinite" loops end the call with an outcome.

Choices are branches of the search: values of bounded random draws, faults of system calls, placement of mappings,
tags, schedules.  A run is a sequence of choices, so every violation is replayable: `hmc.py replay FILE`.

### Explicit-state search (engine/mc.cc, drivers/seq.cc)

A job gives a menu of operations (API calls with arguments, "bulk" macros of many calls), a depth, a limit on live
blocks, a configuration and the values offered for each random draw.  The search is breadth-first; from every state
every operation and every combination of choices inside it is executed on the real code; two paths are merged when the
hash of allocator memory + mapping table + data + reference model agree.  Large histories are reached by prefixes and
bulk operations (hundreds to thousands of calls), which is how table growth, metadata growth, quarantine wrap-around,
release of cached slabs and region exhaustion in the *shipped* configurations become part of the explored space;
otherwise small configurations ("tiny": 1 MiB class regions, quarantines of length 1) make all states of the slab and
region life cycle reachable within a depth of 6-15.  In each state the oracles of the property run, and for some properties probes: experiments on a snapshot (all bad addresses, all byte positions, ...) after which the
state is restored.

`covered()`: in addition, one small menu runs under each of 22 configurations forming a pairwise covering array of
twelve build options (zeroing/write-after-free check, canaries, slot randomization, statistics, sealing, size class
families, slab and region quarantine kinds, guard interval, released-slab randomization, guard divisor, arenas).

### Reference model (engine/heap.cc)

The model knows: live blocks (address, usable size, requested size, alignment, kind, arena, guard), quarantined slots
and regions in the order required by the configuration, for each class region the state of every slab (fresh, in use,
cached, released, guard), the set of mappings that must exist, and statistics.  It never reads the allocator's own
structures; it is driven by the observable results (addresses, protections, contents, usable sizes, errno, system calls)
and checks them against the guarantees.  Random draws are known by their answers, which lets it predict displacement
from the random quarantines.

### Threads (engine/sched.cc, drivers/conc.cc)

Threads are coroutines of one OS thread; control moves only at lock operations, system calls outside locks (or all),
atomic updates and operation starts, and each move is a branch.  All schedules with at most `pb` preemptions are
executed.  Memory accesses are instrumented (`-fsanitize=thread` with our own runtime) and checked for data races with
vector clocks: a race is reported in whatever schedule it is latent in, which is what makes switching only at
synchronisation operations sufficient.  A draw counts as a write of its generator's state.  fork runs the registered
handlers, then the child *alone* from the forked image through an exercise of every kind of call while still checking its
accesses against other threads' unfinished critical sections, then the parent goes on.

### What is assumed

* Linux x86-64 with 4 KiB pages; gcc -O2; no LTO (the seam is at symbol level).
* The environment's kernel model: mmap (anonymous, MAP_FIXED), munmap, mprotect, mremap, madvise(MADV_DONTNEED),
  pkey calls, getrandom, prctl (PR_SET_VMA naming of ranges the allocator does not own is FOREIGN); mutexes; sysconf.
  The Android builds use stand-in headers (shim/android) and Linux system calls.
* Bounds: each job's menu, depth, live blocks and listed draw values.  Nothing is claimed beyond; the evidence files
  list for every job its bounds, the states and transitions covered and whether the bounds were exhausted.
* CONFIG_SELF_INIT is off in the targets, so that the first call is itself explored.

### Quick and thorough

quick explores what is listed here in 5-80 s per property; thorough raises depth, preemption bounds and
dense ranges (10-60 minutes per property).  A job whose wall budget runs out is reported in the evidence as not complete
within its bounds (deepest level cut).

### Families of jobs shared by many properties

* `covered`: the configuration covering array (above).
* `wide`: the shipped configurations driven to their limits by bulk operations: growth of the region table, also in the middle of
  an in-place-impossible realloc (mremap path), growth of class metadata, full region table, full class, long quarantines, faults.
* `each_class`: every size class in turn (49 or 37), long programs of bulk steps, so that class-specific arithmetic (slot counts
  that are not powers of two, 1- and 4-word bitmaps, slab sizes) is exercised on real slabs; also invalid pointers at every byte of a slab.
* `colliding`: placements for concurrent programs that make region addresses hash to the same table entries.
* `android` / `untagged`: builds with `__ANDROID__`, LABEL_MEMORY, mallinfo_* and M_PURGE; tagging off before or during the history.

## 2. Properties

'''
body={}
body['C01']='''Search over the general state spaces (`core`), arenas with three threads' worth of thread-local arena choice,
long quarantine wraps, the covering array, and tagging.  Oracle: each new block's usable range is disjoint from every live
block's, is entirely accessible, and every live block is filled with an address-dependent pattern that is re-verified
after every operation that could touch it and before each free.  Why beyond tests: overlap arises only for particular
slot bitmaps, slab life cycles and region reuse; all of them within the bounds are visited.'''
body['C02']='''Argument enumeration (every size 0..270000 for malloc, calloc products around overflow, every alignment x structured
sizes and all sizes for aligned forms, page forms) in nine configurations, plus sequences with refused system calls and
full classes.  Oracle: usable size and alignment against independent size-class arithmetic, refusal only when memory is
truly unavailable, errno/return code, memptr untouched on error.'''
body['C03']='''All blocks are dirtied completely by the harness (including usable size) before being freed; each newly returned block is read
in full (samples for >1 MB).  calloc is judged also without ZERO_ON_FREE; grown parts of realloc; refused purges and
releases (faults) must not leave stale bytes; the covering array includes builds without canaries or quarantine.'''
body['C04']='''All (old size, new size) pairs over all classes and structured sizes, mremap range (>= 32 MiB), every placement of refused
system calls.  Oracle: the common prefix is preserved; on failure the old block is intact, still live, errno ENOMEM; on
success exactly the old block is released (model of quarantine and mappings); crash is a violation.'''
body['C05']='''In every reached state, every bad pointer of a systematic set (all addresses of interest in each slab: every slot start, interior and
misaligned addresses, unused slots, quarantined slots, released/cached/guard/beyond-end slabs, interior and guard pages of large
blocks, quarantined regions, foreign pointers) is given to free, realloc, free_sized and malloc_usable_size on a
snapshot; the call must end in an abort (or a fault), never return.  Also every freed block of the history is freed again.
The divisions by which addresses become slab and slot numbers are compared with `/` for every offset of a slab and around every slab
boundary of a 32 GiB class region, for every class (driver rng, what=divide).'''
body['C06']='''For blocks of every class and alignment, every claimed size 0..N (dense) and structured sizes up to SIZE_MAX through free_sized
and sized/aligned delete: accepted iff it has the block's size class (or page-rounded large size); acceptance leaves the heap as free does.'''
body['C07']='''Exact model of random + queue quarantine with all values of the displacement draw: a slot must not become available before
its predecessors displaced it, and must become available when it should (C31/C32 view).  Lengths 1,2,8,32 and the shipped ones, all classes.'''
body['C08']='''Every canary byte x every value class in every reached state: free / realloc to another class / usable_size must abort; untouched must not.
First canary byte zero.  Freshness by differential execution: whenever a call takes inaccessible slab memory into use, the same
call is re-executed from the same state with other random words (complementary ones first); every bit of the other seven bytes must vary.'''
body['C09']='''In every state, every freed small slot x structured byte positions is changed; the search then continues: if a changed slot is
handed out without an abort that is a violation; an abort without a changed slot is a false alarm.'''
body['C10']='''After every operation: released large memory holds nothing, freed small slots are all zero over their usable range (probe "leftover"
scans all accessible slab memory), also when munmap/mmap/mprotect are refused (then at least MADV_DONTNEED).
Every empty slab whose replacement was refused must read as zero, also without zero-on-free: every class with more empty slabs than are cached ("refused-classes").'''
body['C11']='''Zero-size requests through every API, single and by thousands: distinct addresses, inaccessible memory, usable size 0, slabs of the zero class
never accessible also after 20+ slabs went through the cache and the released list, exhaustion of the class refused cleanly.'''
body['C12']='''The set of accessible slab pages is computed after every operation from the mapping table and must equal: slabs with live or
quarantined slots and cached ones within the cache limit; guard slabs and released slabs never.  Order of reuse of released slabs is modelled.'''
body['C13']='''Every large block's leading and trailing guard: inaccessible, equal, non-zero, at most usable/divisor (all guard draws enumerated for small
ranges), after allocation, aligned allocation, in-place shrink, growth, mremap and under faults, with adversarial placement of mappings.'''
body['C14']='''Model of region quarantine (all displacement draws): a freed region stays inaccessible, is released exactly when displaced, completely
(including guards) and exactly once; double unmaps and unmaps of memory not owned end with FOREIGN; mremap/skip-threshold paths.'''
body['C15']='''Every small block lies in the region of its class and of its thread's arena, at a slot boundary; regions of different (class, arena) are disjoint
(layout drivers compare all class regions); threads are assigned arenas round robin and keep them.'''
body['C16']='''Metadata ranges are discovered from system calls at start-up and growth; they must be inside the reserved metadata space with guards, accessible only where
in use, read-only state page locked after initialisation, region tables replaced and unmapped when grown, never overlapping user memory.'''
body['C17']='''The searches re-run with every subset (up to 2-3 per history) of the memory system calls of every operation refused with ENOMEM, every oracle of every property active ("also=all"):
calls return failure with ENOMEM or succeed, no leak, no damage, and later operations behave.'''
body['C18']='''As C17 with error codes EINVAL, EACCES, EAGAIN, EPERM: any of them must end the process in that call.  Start-up calls and
reseeding of random state included.'''
body['C19']='''See Threads.  27 program families + covering array; oracles: contents, overlap, zeroing, usable sizes, statistics within the
linearizability window, no deadlock, no held locks, no data race, and at the end capacity, reserved memory and accessible memory equal to a sequential execution.'''
body['C20']='''Every program contains forks; see Threads.  Random streams: parent and child must diverge and neither may replay (rng driver "fork").'''
body['C21']='''First calls of 2-3 threads from an uninitialised process, scheduling points at every atomic access; start-up sequences for every first API call; one set
of mappings, one reading of the random source, ro state locked.'''
body['C22']='''Whole input space: all 2^16 bounds x all 2^16 words of the 16-bit generator on the real code (counts per result exactly equal, rejection loop re-draws);
64-bit generator at structured bounds around each change of answer.'''
body['C23']='''All request sequences up to a depth from every buffer position, across block and reseed boundaries, against an independent ChaCha8; all answer
patterns of the system random source (short, interrupted, failing); the carry of the block counter; after a fork and in each of several processes the streams are independent.'''
body['C24']='''For each live block all addresses around it and inside it: malloc_usable_size exact and stable; object_size = remaining bytes; fast variant an upper bound; unknown addresses SIZE_MAX;
also before initialisation and with tagging.'''
body['C25']='''Statistics build: mallinfo/mallinfo2/malloc_info (Android: also mallinfo_arena_info/mallinfo_bin_info/narenas/nbins) equal the model's sums per arena and class after every operation, on failure paths, too; in threads within the linearizability window (C19 stats jobs).'''
body['C26']='''malloc_trim(0) after every history: returns 1 iff something was released; afterwards no cached empty slab remains accessible; live, quarantined and released slabs unaffected; failing releases.'''
body['C27']='''operator new/delete forms x sizes x alignments x handler behaviours (none, freeing memory, throwing, returning): result, exception type, handler calls counted; every delete form on every matching new form.'''
body['C28']='''errno is preset and must be unchanged after every free/free_sized, in all states and with every placement of failing system calls.'''
body['C29']='''Every API call and every fork handler must return with the rights disabled again.
Sealing build with emulated protection keys, enforced with real page protections (any access of metadata with rights disabled faults): every API entry point
must return with access disabled (checked at each call's return), queries, faults, start-up; threads: sealed metadata touched by a thread whose rights are disabled.'''
body['C30']='''h_malloc.c and memory tagging headers built with HAS_ARM_MTE against stand-ins for the tagging instructions: tags are branches; after every
call: pointer tag equals memory tag, neighbours and the previous generation differ, freed memory does not carry the old tag, reserved tag for freed slots, PROT_MTE mappings.'''
body['C31']='''Probe "cover": in every reached state all answers of each draw of the next operation are executed and the set of outcomes (slots, displaced quarantine entries, guard sizes,
arena/region offsets) must be the whole admissible set; bounds passed to draws must match; class keys per process differ.'''
body['C32']='''Long cycles (hundreds of alloc/free of each kind): mapped bytes, accessible bytes and metadata reach a fixed point; after failing calls nothing remains reserved.'''
body['C33']='''Android build; conc driver with tokens `L0` (malloc_disable, malloc_enable) and `L1` (malloc_disable, let the other threads run until every one of
them is stuck, malloc_enable), against every other token, at all placements within the preemption bound; must not deadlock, and while disabled
no call that needs the heap may begin and finish in another thread, and the hash of the allocator's metadata before malloc_enable must equal that after malloc_disable.
First call of the process included; disabled sequentially from every start-up state by the init driver.'''
body['C34']='''Driver fatal: for each of 18 kinds of error (misuse, corruption, refused system calls, start-up) every answer pattern of write(2)
with up to 2 deviations (any shorter length, one failure, failure of all further writes) or 2-3 interruptions, enumerated on the real code. Oracle: abort is reached; the text taken
equals the message of the undisturbed run (a prefix of it after a failure); bounded number of writes. Android: default SIGABRT handling restored once, before.'''
TAIL='''## 3. Defects found and repaired

Seventeen "fix:" commits in /repo; see known_findings.json (all entries are `fixed`; none suppresses anything).

%s

## 4. False alarms met and corrected

* realloc on failure with a full class or full region table was called a refusal: the model now knows class and table capacity.
* memory inside a canary counted as object memory: malloc_object_size inside the canary is not judged.
* pvalloc(0) and aligned deletes with a wrong alignment are not judged (caller error / unspecified).
* munmap refused with ENOMEM legitimately leaves purged but accessible memory: fenced set in the model.
* child of a fork reading another thread's *user* data was reported as a race: user writes are now marked.
* capacity at the end of concurrent programs depends on quarantine contents: only compared without slab quarantine.
* an abort "write after free" is accepted whenever a poisoned slot could have been chosen.

## 5. Limits

* The tagging instructions themselves are replaced by stand-ins; bionic headers are stand-ins, too.
* Weak memory effects below data races are not explored: race freedom (checked) makes sequential consistency sufficient.
* Draws larger than the listed values are represented by end and middle values except where `full16/full64` enumerates.
''' % "\n".join("* `%s` (%s): %s" % (f['commit'], f['property'], f['what']) for f in json.load(open('/verif/known_findings.json'))['findings'])
