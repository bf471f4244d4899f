"""Which explorations decide which property."""
from hmc import variant

ASSUMPTIONS = [
    "Linux x86-64, 4 KiB pages, gcc; the allocator is compiled unmodified from /repo with H_MALLOC_PREFIX, without LTO",
    "system calls, mutexes and (where a search branches on them) bounded random draws are answered by engine/env.cc, which models mappings, protections and contents of one address window at page granularity",
]
TINY = dict(CONFIG_EXTENDED_SIZE_CLASSES=False, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=1, REGION_QUARANTINE_RANDOM_LENGTH=1,
            REGION_QUARANTINE_QUEUE_LENGTH=1, REGION_QUARANTINE_SKIP_THRESHOLD=131072, CONFIG_CLASS_REGION_SIZE=1048576, N_ARENA=1)


# every pair of settings of these build options occurs together in some row of the covering array
FACTORS = [
    [dict(ZERO_ON_FREE=True, WRITE_AFTER_FREE_CHECK=True), dict(ZERO_ON_FREE=True, WRITE_AFTER_FREE_CHECK=False), dict(ZERO_ON_FREE=False, WRITE_AFTER_FREE_CHECK=False)],
    [dict(SLAB_CANARY=True), dict(SLAB_CANARY=False)],
    [dict(SLOT_RANDOMIZE=True), dict(SLOT_RANDOMIZE=False)],
    [dict(CONFIG_STATS=False), dict(CONFIG_STATS=True)],
    [dict(CONFIG_SEAL_METADATA=False), dict(CONFIG_SEAL_METADATA=True)],
    [dict(CONFIG_EXTENDED_SIZE_CLASSES=e, CONFIG_LARGE_SIZE_CLASSES=l) for e, l in ((False, True), (True, True), (False, False))],
    [dict(SLAB_QUARANTINE_RANDOM_LENGTH=r, SLAB_QUARANTINE_QUEUE_LENGTH=q) for r, q in ((0, 0), (1, 1), (2, 0), (0, 2))],
    [dict(REGION_QUARANTINE_RANDOM_LENGTH=r, REGION_QUARANTINE_QUEUE_LENGTH=q) for r, q in ((1, 1), (0, 0), (0, 2), (2, 0))],
    [dict(GUARD_SLABS_INTERVAL=i) for i in (1, 2, 8)],
    [dict(FREE_SLABS_QUARANTINE_RANDOM_LENGTH=i) for i in (1, 0, 2)],
    [dict(GUARD_SIZE_DIVISOR=i) for i in (2, 8)],
    [dict(N_ARENA=i) for i in (1, 2)],
]


def covering():
    n = len(FACTORS)
    todo = {(i, a, j, b) for i in range(n) for j in range(i + 1, n) for a in range(len(FACTORS[i])) for b in range(len(FACTORS[j]))}
    rows = []
    while todo:
        best = None
        for s in range(60):
            # a row built greedily from a deterministic start
            row = [None] * n
            order = sorted(range(n), key=lambda i: (i * 7 + s * 5 + i * s) % 13)
            for i in order:
                gain = []
                for a in range(len(FACTORS[i])):
                    g = 0
                    for j in range(n):
                        if j == i:
                            continue
                        for b in ([row[j]] if row[j] is not None else range(len(FACTORS[j]))):
                            k = (i, a, j, b) if i < j else (j, b, i, a)
                            if k in todo:
                                g += 100 if row[j] is not None else 1
                    gain.append((g, (a + s) % len(FACTORS[i]), a))
                row[i] = max(gain)[2]
            new = {(i, row[i], j, row[j]) for i in range(n) for j in range(i + 1, n)} & todo
            if best is None or len(new) > len(best[0]):
                best = (new, row)
        todo -= best[0]
        rows.append(best[1])
    return rows


ROWS = covering()


def V(name):
    t = dict(TINY)
    if name.startswith("cov"):
        for f, a in zip(FACTORS, ROWS[int(name[3:])]):
            t.update(f[a])
        return variant("default", **t)
    if name in ("default", "light"):
        return variant(name)
    parts = name.split("+")
    if parts[0] in ("default", "light"):
        base, t = parts[0], {}
    else:
        base = "default"
        assert parts[0] == "tiny", name
    for p in parts[1:]:
        t.update({
            "two": dict(SLAB_QUARANTINE_RANDOM_LENGTH=2, SLAB_QUARANTINE_QUEUE_LENGTH=2, REGION_QUARANTINE_RANDOM_LENGTH=2,
                        REGION_QUARANTINE_QUEUE_LENGTH=2, FREE_SLABS_QUARANTINE_RANDOM_LENGTH=2, GUARD_SLABS_INTERVAL=2),
            "fsq0": dict(FREE_SLABS_QUARANTINE_RANDOM_LENGTH=0),
            "fsq2": dict(FREE_SLABS_QUARANTINE_RANDOM_LENGTH=2),
            "fsq3": dict(FREE_SLABS_QUARANTINE_RANDOM_LENGTH=3),
            "int3": dict(GUARD_SLABS_INTERVAL=3),
            "noq": dict(SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, REGION_QUARANTINE_RANDOM_LENGTH=0, REGION_QUARANTINE_QUEUE_LENGTH=0),
            "nosq": dict(SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0),
            "qr": dict(SLAB_QUARANTINE_RANDOM_LENGTH=2, SLAB_QUARANTINE_QUEUE_LENGTH=0, REGION_QUARANTINE_RANDOM_LENGTH=2, REGION_QUARANTINE_QUEUE_LENGTH=0),
            "qq": dict(SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=2, REGION_QUARANTINE_RANDOM_LENGTH=0, REGION_QUARANTINE_QUEUE_LENGTH=2),
            "rq22": dict(REGION_QUARANTINE_RANDOM_LENGTH=2, REGION_QUARANTINE_QUEUE_LENGTH=2),
            "rq13": dict(REGION_QUARANTINE_RANDOM_LENGTH=1, REGION_QUARANTINE_QUEUE_LENGTH=3),
            "sq32": dict(SLAB_QUARANTINE_RANDOM_LENGTH=32, SLAB_QUARANTINE_QUEUE_LENGTH=1),
            "sq8": dict(SLAB_QUARANTINE_RANDOM_LENGTH=8, SLAB_QUARANTINE_QUEUE_LENGTH=8),
            "norand": dict(SLOT_RANDOMIZE=False),
            "nocan": dict(SLAB_CANARY=False),
            "nozero": dict(ZERO_ON_FREE=False, WRITE_AFTER_FREE_CHECK=False),
            "nowaf": dict(WRITE_AFTER_FREE_CHECK=False),
            "ext": dict(CONFIG_EXTENDED_SIZE_CLASSES=True),
            "nolc": dict(CONFIG_EXTENDED_SIZE_CLASSES=False, CONFIG_LARGE_SIZE_CLASSES=False),
            "stats": dict(CONFIG_STATS=True),
            "android": dict(ANDROID=True),
            "self": dict(CONFIG_SELF_INIT=True),
            "seal": dict(CONFIG_SEAL_METADATA=True),
            "ar2": dict(N_ARENA=2), "ar3": dict(N_ARENA=3), "ar1": dict(N_ARENA=1),
            "lite": dict(SLAB_QUARANTINE_RANDOM_LENGTH=0, SLAB_QUARANTINE_QUEUE_LENGTH=0, WRITE_AFTER_FREE_CHECK=False, SLOT_RANDOMIZE=False, GUARD_SLABS_INTERVAL=8),
            "div8": dict(GUARD_SIZE_DIVISOR=8),
        }[p])
    return variant(base, **t)


def job(name, cname, kind="seq", mode="plain", **args):
    return dict(name=name, cname=cname, cfg=V(cname), kind=kind, mode=mode, args=args)


B = "malloc:16376"     # the largest class without extended classes: 4 slots of 16 KiB per slab, one cached empty slab


def core(thorough, **x):
    """the general state spaces; x adds probes or parameters to all of them"""
    d = 1 if thorough else 0
    W = 600 if thorough else 20
    J = lambda n, c, **a: job(n, c, **{**dict(wall=W), **a, **x})
    r = [
        # one class, all slot choices: slab life cycle (full, partial, empty, cached, released, reused)
        J("slab-cycle", "tiny", alloc=[B], live=6, depth=14 + 4 * d, trim=1),
        J("slab-cycle-random", "tiny+fsq2", alloc=[B], live=5, depth=8 + d, full16=4, trim=1),
        J("slab-cycle-two", "tiny+two", alloc=[B], live=6, depth=11 + 2 * d, full16=2, trim=1),
        J("slab-cycle-noq", "tiny+noq", alloc=[B], live=9, depth=15 + 3 * d, trim=1),
        J("slab-cycle-lite", "tiny+lite", alloc=["malloc:16384", "malloc:12000"], live=6, depth=8 + d, trim=1),
        # all kinds together
        J("mixed", "tiny", alloc=[B, "malloc:0", "malloc:24", "malloc:40000", "malloc:140000"], resize=[0, 24, 16376, 40000, 50000, 140000], live=3, depth=5 + d, trim=1, rnull=1, fsized=1),
        J("mixed-calls", "tiny+two", alloc=["calloc:3:100", "aligned_alloc:64:100", "posix_memalign:4096:5000", "memalign:16384:70000", "valloc:1", "pvalloc:5000"], resize=[300], live=3, depth=4 + d, full16=2, full64=2),
        J("large", "tiny+rq22", alloc=["malloc:40000", "malloc:300000", "aligned_alloc:65536:40000"], resize=[33000, 41000, 90000, 300000, 500000], live=3, depth=4 + d, full64=2, reps=[0, 1], place=1),
        J("extended", "tiny+ext", alloc=["malloc:131064", "malloc:100000", "malloc:20000"], resize=[65000, 140000], live=3, depth=6 + d, trim=1),
        # the shipped configurations, with long histories
        J("default-small", "default", alloc=["malloc:16376", "malloc:8"], bulk=["0:60:16376:2", "0:300:8:3", "3:40:16376:5", "6:1:16376:4", "4:1:16376:1", "5:200:8:6"], live=800, window=2, depth=3 + d, maxbulk=3 + d, maxtrim=1, trim=1),
        J("default-metadata", "default", prefix=["0:200:16376:2"], alloc=["malloc:16376"], bulk=["6:1:16376:3", "4:1:16376:2", "0:120:16376:5", "0:200:40:7"], live=800, window=1, depth=2 + d, maxbulk=2 + d, trim=1, maxtrim=1),
        J("default-regions", "default", prefix=["0:94:140000:2"], alloc=["malloc:140000"], resize=[200000], bulk=["0:30:140000:3", "4:1:140000:0", "6:1:140000:5", "3:60:140000:6", "0:110:150000:4"], live=800, window=2, depth=3 + d, maxbulk=2 + d),
        J("light-bulk", "light", alloc=["malloc:16376", "malloc:60", "malloc:200000"], bulk=["0:80:16376:2", "0:200:60:3", "6:1:16376:4", "6:1:60:0", "4:1:60:2"], live=800, window=2, depth=3 + d, maxbulk=3, trim=1, maxtrim=1),
        J("tiny-full", "tiny", prefix=["0:32:16376:0"], alloc=[B, "malloc:200"], bulk=["2:8:16376:0", "1:6:16376:0", "0:6:16376:0"], live=40, window=2, depth=4 + d, maxbulk=2, trim=1),
    ]
    return r


def covered(t, name="configuration", **x):
    """the same small menu under every row of the covering array of configurations"""
    r = []
    for i, row in enumerate(ROWS):
        seal, ar = row[4] == 1, row[11] == 1
        a = dict(alloc=[B, "malloc:24", "calloc:2:20000", "malloc:0"], resize=[16000, 50000], live=4, depth=4 + t, trim=1, maxtrim=1, reps=[0, 1], wall=20 + 100 * t)
        if seal:
            a.update(pkey=1)
        if ar:
            a.update(threads=2)
        a.update(x)
        r.append(job("%s-%d" % (name, i), "cov%d" % i, **a))
    return r


def covered_cycle(t, **x):
    """one class with long histories under every row"""
    return covered(t, "cycle", **{**dict(alloc=["malloc:12000"], resize=[], live=9, depth=6 + 2 * t, window=2, threads=1, bulk=["0:4:12000:0", "6:1:12000:0"], maxbulk=3), **x})


def wide(t, cfg="", only=(), **x):
    """the rarely reached parts: huge blocks moved by mremap, growing and full tables, refused system calls"""
    J = lambda n, c, **a: job("wide-" + n, c + cfg, **{**dict(wall=15 + 400 * t), **a, **x})
    A = [B, "malloc:0", "malloc:40000", "aligned_alloc:65536:40000"]
    r = [
        J("mremap", "default", alloc=["malloc:33554432", "malloc:41943040", "malloc:100000"], resize=[33554432, 41943040, 50331648, 140000], live=2, depth=3 + t, light=1),
        J("mremap-faults", "default", alloc=["malloc:33554432"], resize=[41943040, 50331648, 140000], live=2, depth=3, faults=2, light=1),
        J("growth", "default", prefix=["0:96:140000:2"], alloc=["malloc:140000", "aligned_alloc:65536:140000"], resize=[200000, 300000], bulk=["0:110:150000:3", "4:1:140000:0", "6:1:140000:5"], live=800, window=2, depth=3 + t, maxbulk=2),
        J("growth-released", "default+noq", prefix=["0:96:200000:2"], alloc=["malloc:200000", "aligned_alloc:65536:140000"], resize=[140000, 300000], bulk=["0:110:200000:3", "6:1:200000:5"], live=800, window=1, depth=3 + t, maxbulk=2, light=2),
        J("growth-faults", "default", prefix=["0:96:140000:2"], alloc=["malloc:140000"], resize=[200000], bulk=["0:110:150000:3"], live=800, window=1, depth=3, maxbulk=1, faults=1, light=2),
        J("growth-mremap", "default", prefix=["0:96:140000:2"], alloc=["malloc:33554432", "malloc:140000"], resize=[41943040, 140000], live=800, window=1, depth=2 + t, faults=1, light=2),
        J("metadata", "default", prefix=["0:162:16376:2"], alloc=["malloc:16376"], bulk=["0:120:16376:3", "6:1:16376:4", "4:1:16376:2"], live=800, window=1, depth=3 + t, maxbulk=2, faults=1, trim=1),
        J("full", "tiny", prefix=["0:32:16376:0", "0:95:40000:0"], alloc=[B, "malloc:40000", "aligned_alloc:65536:40000"], resize=[40000, 50000, 24], live=140, window=1, depth=3 + t, trim=1),
        J("faults", "tiny", alloc=A, resize=[0, 16376, 33000, 50000, 140000], live=2, depth=4 + t, faults=1, trim=1),
        J("faults-noq", "tiny+noq", alloc=[B], live=7, depth=9 + t, faults=1 + t, trim=1),
    ]
    return [j for j in r if not only or j["name"][5:] in only]


def each_class(t, cfgs=("default", "tiny+ext+noq"), **x):
    """every size class in turn: filling several slabs, freeing and reusing them, by programs of bulk steps"""
    return [job("each-class-" + c.replace("+", "-"), c, **{**dict(focus=1, bulk=["0:9:0:2", "0:4:0:5", "4:1:0:0", "6:1:0:3", "2:2:0:0", "3:8:0:3"], live=100000, window=1, depth=4 + t,
            maxbulk=3 + t, trim=1, maxtrim=1, light=1, wall=20 + 300 * t), **x}) for c in cfgs]


def refused_classes(t, cfgs, **x):
    """every size class in turn with more empty slabs than are cached, all of which the kernel refuses to take back"""
    return [job("refused-classes-" + c.replace("+", "-"), c, **{**dict(focus=1, bulk=["0:160:0:2", "8:1:0:0", "6:1:0:0"], live=100000, window=1, depth=4 + t, maxbulk=3 + t, trim=1, maxtrim=1, light=1,
            wall=20 + 300 * t), **x}) for c in cfgs]


META = {}
JOBS = {}


NA = {}
NOTE = ("Exhaustive within the stated bounds (operation menu, depth, live blocks, configuration, listed values of random draws); beyond the bounds nothing is "
        "claimed. Runs the real code compiled from /repo; trusts the kernel/mutex model in engine/env.cc and the reference model in engine/heap.cc.")


def prop(p, level="model_checking", rule=None, assumptions=(), technique=None, note=None):
    META[p] = dict(level=level, rule=rule or SEQRULE, assumptions=list(assumptions), technique=technique, note=note)

    def deco(f):
        JOBS[p] = f
        return f
    return deco


SEQRULE = ("every sequence of API calls from the menu up to the depth bound x every listed random choice, executed on the real allocator in lock step "
           "with a reference model; states are matched on allocator memory, mappings and the model; a state counts when its hash is new")


def jobs(p, tier):
    return JOBS[p](tier == "thorough")


def pick(js, *names):
    return [j for j in js if j["name"] in names]



# ---------------------------------------------------------------- size menus
CLS = [16, 32, 48, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384, 448, 512, 640, 768, 896, 1024, 1280, 1536, 1792, 2048, 2560, 3072,
       3584, 4096, 5120, 6144, 7168, 8192, 10240, 12288, 14336, 16384]
EXT = [20480, 24576, 28672, 32768, 40960, 49152, 57344, 65536, 81920, 98304, 114688, 131072]


@prop("C01")
def c01(t):
    return core(t) + [
        job("arenas", "tiny+ar2", alloc=[B, "malloc:24"], live=4, depth=7 + t, threads=3, wall=20 + 500 * t),
        job("queue-wrap", "default", alloc=["malloc:200"], bulk=["3:700:200:2", "0:300:200:3", "4:1:200:1", "6:1:200:4", "5:400:200:6"], live=2000, window=1, depth=3 + t, maxbulk=3 + t, wall=20 + 500 * t)]


@prop("C03")
def c03(t):
    W = 20 + 500 * t
    return core(t) + [
        job("calloc-nozero", "tiny+nozero", alloc=["calloc:16376:1", "calloc:1:0", "calloc:5000:8", "malloc:16376", "malloc:40000"], live=4, depth=6 + t, trim=1, wall=W),
        job("calloc-arguments", "tiny+nozero+noq", alloc=["malloc:12280", "calloc:3:4001", "calloc:4001:3", "calloc:12280:1", "calloc:1:12280", "calloc:2:6140", "calloc:7:1751", "calloc:1:10233"], live=5, depth=4 + t, wall=W),
        job("calloc-arguments-small", "tiny+nozero+noq+norand", alloc=["malloc:40", "calloc:1:25", "calloc:3:13", "calloc:13:3", "calloc:33:1", "calloc:40:1", "calloc:5:8"], live=4, depth=4 + t, wall=W),
        job("calloc-arguments-nocanary", "tiny+nozero+nocan+norand", alloc=["malloc:48", "calloc:1:33", "calloc:3:13", "calloc:13:3", "calloc:47:1", "calloc:48:1", "calloc:5:9"], live=4, depth=4 + t, wall=W),
        job("calloc-lite", "tiny+lite", alloc=["calloc:2047:8", "malloc:12000", "calloc:10:14000"], resize=[12000, 16376, 40000], live=4, depth=5 + t, trim=1, wall=W),
        job("faults", "tiny+noq", alloc=[B, "malloc:40000"], resize=[16376, 36000, 60000], live=6, depth=8 + t, trim=1, faults=2, maxresize=2, wall=W),
    ]


HUGE = [0x7fffffffffffffff, 0x8000000000000000, 0xfffffffffffff000, 0xfffffffffffffff0, 0xffffffffffffffff, 0xfffffffffffeffff, 0xe000000000000000, 0xe000000000000001, 0xc000000000000001, 1 << 46, 1 << 40]
RS = [0, 1, 8, 9, 24, 25, 100, 1000, 1016, 1017, 4088, 4096, 8184, 8185, 16376, 16377, 16384, 20000, 40960, 40961, 131064, 131065, 131072, 131073, 160000, 200000, 262144, 262145, 1000000]


@prop("C04")
def c04(t):
    W = 25 + 500 * t
    big = [33554432, 33554433, 41943040, 50331648, 67108864]
    al = lambda l: ["malloc:%d" % x for x in l]
    return [
        job("pairs-default", "default", alloc=al(RS), resize=RS, live=1, depth=3, wall=W),
        job("pairs-all-classes", "default", alloc=al([x - 8 for x in CLS + EXT]), resize=[x - 8 for x in CLS + EXT] + [x - 7 for x in CLS + EXT] + [0, 140000], live=1, depth=2, wall=W),
        job("pairs-nolarge", "tiny+nolc", alloc=al([0, 24, 16376, 16377, 20000, 36864, 40960, 40961]), resize=[0, 24, 16376, 16377, 20000, 36864, 40960, 40961, 45057, 100000], live=1, depth=3, wall=W),
        job("pairs-nocanary", "default+nocan", alloc=al([0, 1, 16, 17, 131072, 131073]), resize=[0, 1, 16, 17, 24, 131072, 131073, 160000], live=1, depth=3, wall=W),
        job("huge", "default", alloc=al([0, 100, 131064, 140000, 33554432]), resize=HUGE + [200, 200000], live=2, depth=3, wall=W, rnull=1, light=1),
        job("huge-nolarge", "tiny+nolc", alloc=al([0, 100, 16376, 20000, 33554432]) + ["aligned_alloc:65536:100"], resize=HUGE + [200, 200000], live=2, depth=3, wall=W, rnull=1, light=1),
        job("over-aligned", "default", alloc=["aligned_alloc:%d:%d" % (a, n) for a, n in ((8192, 1), (65536, 4089), (65536, 8185), (1048576, 131065), (131072, 20000))] + ["malloc:140000"], resize=[0, 8, 4081, 4088, 4089, 8184, 8185, 20480, 20481, 131064, 131065, 131073, 140000], live=2, depth=3, wall=W),
        job("over-aligned-nolarge", "tiny+nolc", alloc=["aligned_alloc:%d:%d" % (a, n) for a, n in ((8192, 1), (65536, 4089), (65536, 8185))] + ["malloc:16000"], resize=[0, 8, 4081, 4088, 4089, 8184, 8185, 16376, 16377, 20000], live=2, depth=3, wall=W),
        job("over-aligned-nocanary", "default+nocan", alloc=["aligned_alloc:%d:%d" % (a, n) for a, n in ((8192, 1), (65536, 4097), (1048576, 131072))], resize=[0, 8, 4088, 4096, 4097, 8192, 131072, 131073], live=2, depth=3, wall=W),
        job("mremap", "default", alloc=al(big), resize=big + [100, 140000], live=2, depth=3 + t, reps=[0, 1], wall=W, light=1),
        job("mremap-faults", "default", alloc=al(big[:3]), resize=big[:4] + [140000], live=1, depth=3, faults=2, wall=W, light=1),
        job("faults", "tiny+rq22", alloc=[B, "malloc:0", "malloc:40000", "malloc:140000", "aligned_alloc:65536:100000"], resize=[0, 16376, 8000, 33000, 40000, 50000, 131000, 140000, 200000], live=2, depth=4 + t, faults=2 + t, wall=W),
    ] + pick(core(t), "mixed", "large", "extended")


@prop("C05")
def c05(t):
    W = 30 + 800 * t
    P = "bad"
    return [
        job("slab-cycle", "tiny", alloc=[B], live=6, depth=8 + 2 * t, probe=P, wall=W, trim=1),
        job("slab-cycle-two", "tiny+two", alloc=[B], live=6, depth=9 + t, probe=P, wall=W),
        job("noq", "tiny+noq", alloc=[B, "malloc:0"], live=6, depth=7 + t, probe=P, wall=W),
        job("zero", "tiny", alloc=["malloc:0", "malloc:8000"], live=4, depth=5 + t, probe=P, wall=W),
        job("small-classes", "tiny", alloc=["malloc:%d" % x for x in (1, 24, 40, 1000, 2000, 9000, 12000)], live=3, depth=3 + t, probe=P, wall=W),
        job("large", "tiny+rq22", alloc=["malloc:40000", "malloc:300000", "aligned_alloc:65536:40000", "malloc:16"], resize=[33000, 90000], live=3, depth=4 + t, full64=2, probe=P, wall=W),
        job("default", "default", alloc=["malloc:%d" % x for x in (0, 8, 100, 16376, 100000, 140000)], live=3, depth=3 + t, probe=P, wall=W),
        job("default-regions", "default", prefix=["0:97:140000:2", "4:1:140000:0"], alloc=["malloc:140000"], live=800, window=2, depth=2, probe=P, wall=W),
        job("default-metadata", "default", prefix=["0:200:16376:2", "4:1:16376:3"], alloc=["malloc:16376"], live=800, window=2, depth=2, probe=P, wall=W),
        job("guarded-interval", "tiny+lite", prefix=["0:6:16376:0"], alloc=["malloc:16376"], live=12, depth=4 + t, probe=P, wall=W),
        job("arenas", "tiny+ar2", alloc=["malloc:16376", "malloc:0"], threads=2, live=3, depth=5 + t, probe=P, wall=W),
        job("freed-noq", "tiny+noq", alloc=[B, "malloc:40000"], resize=[16000, 50000], live=6, depth=9 + t, probe="freed", trim=1, wall=W),
        job("freed-regions", "default", prefix=["0:97:140000:2"], alloc=["malloc:140000"], bulk=["0:250:140000:3", "6:1:140000:4", "4:1:140000:2"], live=2000, window=1, depth=4 + t, maxbulk=3, probe="freed", light=2, wall=W),
        job("freed-bulk", "default", alloc=["malloc:16376", "malloc:24"], bulk=["0:60:16376:2", "6:1:16376:4", "3:300:24:3", "0:300:24:5", "6:1:24:2"], live=2000, window=1, depth=4 + t, maxbulk=3, probe="freed", trim=1, maxtrim=1, wall=W),
        job("uninitialised", "default", "init", what="queries", wall=W),
        job("uninitialised-seal", "tiny+seal", "init", what="queries", pkey=1, sealed=1, wall=W),
    ]


@prop("C07")
def c07(t):
    W = 20 + 500 * t
    return pick(core(t), "slab-cycle", "slab-cycle-random", "slab-cycle-two", "mixed", "default-small", "extended") + [
        job("random-only", "tiny+qr", alloc=["malloc:8000", B], live=4, depth=7 + t, full16=4, wall=W),
        job("queue-only", "tiny+qq", alloc=["malloc:8000", B], live=5, depth=8 + t, full16=2, wall=W),
        job("four", "tiny+two", alloc=["malloc:8184"], live=4, depth=7 + t, full16=4, wall=W),
        job("ext-full", "default", alloc=["malloc:65000", "malloc:131064"], live=4, depth=8 + t, full16=4, reps=[0], wall=W),
        job("classes", "default", alloc=["malloc:%d" % (x - 8) for x in CLS + EXT], live=1, depth=2, reps=[0, 1], wall=W),
        job("classes-full-1", "default", alloc=["malloc:120"], bulk=["0:600:120:2", "3:1500:120:3", "3:4500:120:4", "6:1:120:5"], live=3000, window=1, depth=4, maxbulk=4, reps=[0, 1], wall=W),
        job("classes-full-2", "tiny+two", alloc=["malloc:2000"], bulk=["3:30:2000:3", "3:80:2000:2", "0:20:2000:5", "6:1:2000:4"], live=100, window=1, depth=5, maxbulk=4, reps=[0, 1], wall=W),
        job("long-queue", "tiny+sq8", alloc=[B], bulk=["0:12:16376:2", "6:1:16376:3", "3:20:16376:4"], live=30, window=3, depth=4 + t, maxbulk=3, reps=[0, 0.5, 1], wall=W),
        job("arenas", "tiny+ar2+two", alloc=[B], live=4, depth=8 + t, threads=2, full16=2, wall=W),
    ]


@prop("C08")
def c08(t):
    W = 20 + 500 * t
    P = "canary"
    return [
        job("all-classes", "default", alloc=["malloc:%d" % (x - 8) for x in CLS + EXT], live=1, depth=1, probe=P, words=5, wall=W),
        job("all-classes-light", "light", alloc=["malloc:%d" % (x - 8) for x in CLS + EXT], live=1, depth=1, probe=P, words=5, wall=W),
        job("all-requests", "tiny", alloc=["malloc:%d" % x for x in (1, 7, 8, 9, 23, 24, 25, 39, 40, 100, 104, 105, 1015, 1016, 16375, 16376)], live=1, depth=3, probe=P, words=5, wall=W),
        job("slab-cycle", "tiny", alloc=[B], live=6, depth=9 + t, trim=1, probe=P, words=3, wall=W),
        job("slab-cycle-noq", "tiny+noq", alloc=[B, "aligned_alloc:4096:8000"], live=6, depth=7 + t, trim=1, probe=P, words=3, wall=W),
        job("lite", "tiny+lite", alloc=[B, "calloc:1000:12"], live=6, depth=6 + t, trim=1, probe=P, words=3, wall=W),
        job("ext", "tiny+ext", alloc=["malloc:131064", "malloc:100000"], live=3, depth=6 + t, trim=1, probe=P, words=3, wall=W),
        job("resized", "tiny", alloc=[B, "malloc:24"], resize=[9, 24, 16370, 16376, 13000], live=3, depth=5 + t, probe=P, wall=W),
        job("faults", "tiny+noq", alloc=[B], live=8, depth=9 + t, faults=2, probe=P, words=3, wall=W),
        job("no-false-alarm", "default", alloc=["malloc:8", "malloc:104"], bulk=["0:300:104:2", "3:300:8:3", "6:1:104:4"], live=800, window=2, depth=3 + t, maxbulk=3, wall=W),
    ]


@prop("C09")
def c09(t):
    W = 20 + 500 * t
    P = "poke"
    return [
        job("slab-cycle", "tiny", alloc=[B], live=6, depth=8 + 2 * t, trim=1, full16=0, probe=P, wall=W),
        job("slab-cycle-noq", "tiny+noq", alloc=[B], live=6, depth=8 + 2 * t, trim=1, probe=P, wall=W),
        job("all-classes", "tiny+noq", alloc=["malloc:%d" % (x - 8) for x in CLS], live=1, depth=3, probe=P, wall=W),
        job("all-classes-default", "default", alloc=["malloc:%d" % (x - 8) for x in CLS + EXT], live=1, depth=1, probe=P, wall=W),
        job("calls", "tiny+noq", alloc=["malloc:24", "calloc:2:100", "aligned_alloc:64:60"], resize=[24, 200], live=2, depth=4 + t, probe=P, wall=W),
        job("ext", "tiny+ext+nosq", alloc=["malloc:131064", "malloc:100000"], live=3, depth=5 + t, trim=1, probe=P, wall=W),
        job("history", "tiny", alloc=[B], live=6, depth=10 + t, pokes=1, trim=1, wall=W),
        job("history-two", "tiny+two", alloc=[B], live=4, depth=9 + t, pokes=1, wall=W),
        job("history-noq", "tiny+noq", alloc=[B], live=6, depth=9 + t, pokes=1, trim=1, wall=W),
        job("history-resize", "tiny", alloc=["malloc:8000", B], resize=[8000, 16376], live=3, depth=6 + t, pokes=1, wall=W),
        job("nocanary", "tiny+nocan+noq", alloc=["malloc:16384", "malloc:48"], live=4, depth=5 + t, probe=P, wall=W),
        job("no-false-alarm", "default", alloc=["malloc:8", "malloc:16376"], bulk=["0:60:16376:2", "3:3000:8:3", "6:1:16376:4", "0:300:8:5", "6:1:8:6"], live=800, window=2, depth=3 + t, maxbulk=3, trim=1, maxtrim=1, wall=W),
    ]


@prop("C10")
def c10(t):
    W = 20 + 500 * t
    return core(t, probe="leftover") + [
        job("faults", "tiny", alloc=[B, "malloc:40000", "malloc:140000"], resize=[16376, 33000, 60000], live=4, depth=6 + t, faults=2, trim=1, probe="leftover", wall=W),
        job("faults-noq", "tiny+noq", alloc=[B, "malloc:300000"], resize=[100000], live=8, depth=8 + 2 * t, faults=2, trim=1, probe="leftover", wall=W),
        job("mremap-faults", "default", alloc=["malloc:33554432", "malloc:41943040"], resize=[33554432, 41943040, 50331648, 35000000], live=1, depth=3, faults=2, wall=W, light=1),
        job("faults-ext", "tiny+ext+noq", alloc=["malloc:131064", "malloc:20000"], live=5, depth=7 + t, faults=2, trim=1, probe="leftover", wall=W),
        job("faults-no-zero", "tiny+noq+nozero", alloc=[B, "malloc:24"], live=8, depth=8 + 2 * t, faults=2, trim=1, wall=W),
        *refused_classes(t, ("tiny+noq+nozero", "light+nozero", "tiny+noq", "tiny+ext+nozero")),
        job("faults-no-zero-ext", "tiny+ext+noq+nozero", alloc=["malloc:131064", "malloc:20000"], live=5, depth=7 + t, faults=2, wall=W),
        job("nowaf", "tiny+nowaf", alloc=[B, "malloc:24"], resize=[100], live=4, depth=6 + t, trim=1, probe="leftover", wall=W),
    ]


@prop("C11")
def c11(t):
    W = 20 + 500 * t
    return [
        job("zero", "tiny", alloc=["malloc:0", "calloc:0:5", "malloc:8"], resize=[0, 1, 40000], live=4, depth=6 + t, wall=W, fsized=1, rnull=1),
        job("zero-calls", "tiny+two", alloc=["malloc:0", "aligned_alloc:16:0", "posix_memalign:8:0", "memalign:1:0"], resize=[0, 24], live=3, depth=5 + t, full16=2, wall=W),
        job("zero-slabs", "tiny", alloc=["malloc:0"], prefix=["0:512:0:2"], bulk=["0:300:0:3", "6:1:0:4", "4:1:0:0", "3:500:0:5"], live=3000, window=3, depth=3 + t, maxbulk=3, wall=W),
        job("zero-noq", "tiny+noq+fsq2", alloc=["malloc:0"], prefix=["0:510:0:0"], bulk=["0:270:0:1", "6:1:0:4", "1:256:0:0", "2:257:0:0"], live=3000, window=3, depth=4 + t, maxbulk=4, wall=W),
        job("zero-default", "default", alloc=["malloc:0", "malloc:1"], bulk=["0:600:0:2", "6:1:0:0", "3:9000:0:3", "3:40000:0:4"], live=3000, window=2, depth=3, maxbulk=3, wall=W),
        job("zero-light", "light", alloc=["malloc:0", "malloc:1"], bulk=["0:3000:0:2", "6:1:0:0", "4:1:0:1", "1:700:0:0"], live=5000, window=2, depth=4, maxbulk=4, wall=W),
        job("zero-released", "tiny+noq+fsq2", alloc=["malloc:0"], prefix=["0:5900:0:0", "6:1:0:0"], bulk=["6:1:0:0", "0:4100:0:1", "1:512:0:0"], live=9000, window=1, depth=4 + t, maxbulk=4, reps=[0], full16=1, wall=W),
        job("zero-released-default", "light", alloc=["malloc:0", "malloc:8"], prefix=["0:14000:0:0", "6:1:0:0"], bulk=["6:1:0:0", "0:4100:0:1", "1:512:0:0"], live=20000, window=1, depth=3 + t, maxbulk=3, reps=[0], full16=1, wall=W),
        job("zero-exhausted", "tiny", prefix=["0:32768:0:0"], alloc=["malloc:0", "malloc:1"], bulk=["1:600:0:0"], live=40000, window=1, depth=3, maxbulk=1, wall=W),
    ]


@prop("C12")
def c12(t):
    W = 20 + 500 * t
    return pick(core(t), "slab-cycle", "slab-cycle-random", "slab-cycle-two", "slab-cycle-noq", "slab-cycle-lite", "extended", "default-small", "default-metadata", "light-bulk", "tiny-full") + [
        job("released-order", "tiny+noq+fsq3", alloc=[B], prefix=["0:28:16376:0"], bulk=["1:4:16376:0", "2:4:16376:0"], live=40, window=1, depth=6 + t, maxbulk=5, full16=3, wall=W),
        job("no-released-random", "tiny+noq+fsq0", alloc=[B], prefix=["0:28:16376:0"], bulk=["1:4:16376:0", "2:4:16376:0"], live=40, window=1, depth=7 + t, maxbulk=5, wall=W),
        job("interval3", "tiny+int3+noq", alloc=[B, "malloc:0"], live=20, bulk=["0:4:16376:0", "1:4:16376:0"], window=2, depth=8 + t, maxbulk=6, wall=W),
        job("faults", "tiny+noq", alloc=[B], live=8, depth=10 + t, faults=2, trim=1, wall=W),
        job("all-classes", "default", alloc=["malloc:%d" % (x - 8) for x in CLS + EXT], live=2, depth=2, wall=W),
        job("layout", "default", "init", what="layout", wall=W),
        job("layout-tiny", "tiny+ar3", "init", what="layout", wall=W),
        job("layout-light", "light", "init", what="layout", wall=W),
        job("layout-seal", "tiny+seal", "init", what="layout", pkey=1, sealed=1, wall=W),
        job("class-cycles", "tiny+noq", alloc=["malloc:24"], bulk=["0:300:4000:0", "6:1:4000:1", "0:200:1000:2", "6:1:1000:3", "0:40:10000:4", "6:1:10000:0"], live=800, window=1, depth=4 + t, maxbulk=4 + t, trim=1, wall=W),
        job("class-cycles-small", "tiny+noq", alloc=["malloc:24"], bulk=["0:2400:24:0", "6:1:24:1", "0:700:120:2", "6:1:120:3", "0:6000:8:0", "6:1:8:2"], live=9000, window=1, depth=3 + t, maxbulk=3 + t, trim=1, wall=W),
    ]


AL = ["aligned_alloc:%d:%d" % (a, s) for a in (32, 4096, 8192, 65536, 1048576) for s in (1, 5000, 33000, 140000)]


@prop("C13")
def c13(t):
    W = 20 + 500 * t
    S = [131073, 140000, 163840, 163841, 200000, 262144, 300000, 500000, 1000000]
    return pick(core(t), "large", "mixed", "default-regions") + [
        job("guard-range", "default", alloc=["malloc:%d" % s for s in S], live=1, depth=1, full64=128, wall=W),
        job("guard-range-div8", "tiny+div8", alloc=["malloc:%d" % s for s in (16385, 20000, 40000, 140000, 300000)], resize=[30000, 100000, 290000], live=2, depth=3, full64=8, reps=[0, 1], wall=W),
        job("aligned", "default", alloc=AL, resize=[100, 140000, 170000, 300000], live=2, depth=2 + t, reps=[0, 0.5, 1], place=1, wall=W),
        job("aligned-tiny", "tiny", alloc=["aligned_alloc:8192:1", "aligned_alloc:65536:33000", "posix_memalign:32768:20000"], resize=[16377, 40000, 100000], live=3, depth=4 + t, reps=[0, 1], place=1, wall=W),
        job("sizes", "default", alloc=["malloc:%d" % s for s in range(131073, 2000000, 4096 * 7)], live=1, depth=1, reps=[0, 0.25, 0.5, 0.75, 1], wall=W),
        job("sizes-nolarge", "tiny+nolc", alloc=["malloc:%d" % s for s in list(range(16377, 200000, 4096)) + list(range(16384, 200000, 4096))], resize=[17000, 30000, 50000], live=1, depth=2, reps=[0, 1], wall=W),
        job("mremap", "default", alloc=["malloc:33554432", "malloc:41943040"], resize=[33554432, 41943040, 50331648, 140000], live=2, depth=3, reps=[0, 1], wall=W, light=1),
        job("faults", "tiny", alloc=["malloc:40000", "aligned_alloc:65536:40000"], resize=[33000, 50000, 200000], live=2, depth=4, faults=2, wall=W, reps=[0, 1]),
    ]


@prop("C14")
def c14(t):
    W = 20 + 500 * t
    A = ["malloc:40000", "malloc:60000", "malloc:140000"]
    return pick(core(t), "large", "mixed", "default-regions", "light-bulk") + [
        job("quarantine-1-1", "tiny", alloc=A, resize=[33000, 70000], live=3, depth=6 + t, reps=[0], wall=W),
        job("quarantine-2-2", "tiny+rq22", alloc=A[:2], resize=[33000], live=3, depth=7 + t, full64=2, reps=[0], wall=W),
        job("quarantine-1-3", "tiny+rq13", alloc=A[:2], resize=[33000], live=3, depth=9 + t, reps=[0], wall=W),
        job("quarantine-random", "tiny+qr", alloc=A[:2], live=3, depth=8 + t, full64=2, reps=[0], wall=W),
        job("quarantine-queue", "tiny+qq", alloc=A[:2], live=3, depth=8 + t, reps=[0], wall=W),
        job("no-quarantine", "tiny+noq", alloc=A + ["aligned_alloc:65536:33000"], resize=[33000, 50000], live=3, depth=4 + t, reps=[0, 1], place=1, wall=W),
        job("neighbours", "tiny", alloc=["malloc:40000", "aligned_alloc:65536:33000", "aligned_alloc:8192:100"], resize=[34000, 60000], live=3, depth=4 + t, reps=[0, 1], place=1, wall=W),
        job("skip-threshold", "default", alloc=["malloc:%d" % x for x in (25165824, 29360128, 29360129, 33554432, 41943040)], resize=[140000, 29360128, 33554432, 41943040], live=2, depth=3 + t, wall=W, light=1),
        job("default-wrap", "default", alloc=["malloc:140000"], bulk=["3:300:140000:2", "3:1400:140000:3", "0:40:140000:4", "6:1:140000:5"], live=200, window=1, depth=3 + t, maxbulk=3, wall=W),
        job("faults", "tiny", alloc=["malloc:40000", "aligned_alloc:65536:40000", "malloc:140000"], resize=[33000, 50000, 131100], live=2, depth=5, faults=2, wall=W, reps=[0]),
        job("faults-mremap", "default", alloc=["malloc:33554432"], resize=[41943040, 50331648], live=1, depth=3, faults=2, wall=W, light=1),
    ]


@prop("C15")
def c15(t):
    W = 20 + 500 * t
    return [
        job("classes", "default", alloc=["malloc:%d" % x for x in (0, 8, 24, 1000, 16376, 100000, 131064, 140000)], live=3, depth=3 + t, reps=[0, 1], wall=W),
        job("all-classes", "default", alloc=["malloc:%d" % (x - 8) for x in CLS + EXT] + ["malloc:0", "malloc:140000"], live=2, depth=2, wall=W),
        job("arenas-2", "tiny+ar2", alloc=[B, "malloc:24"], live=4, depth=7 + t, threads=3, wall=W),
        job("arenas-3", "tiny+ar3", alloc=[B, "malloc:0"], resize=[24], live=3, depth=6 + t, threads=4, wall=W),
        job("arenas-4", "default", alloc=["malloc:16376", "malloc:8"], resize=[131064], live=3, depth=5 + t, threads=5, wall=W),
        job("arenas-6", "default", alloc=["malloc:100"], live=7, depth=9 + t, threads=6, wall=W),
        job("layout", "default", "init", what="layout", wall=W),
        job("layout-tiny", "tiny+ar3", "init", what="layout", wall=W),
        job("layout-light", "light", "init", what="layout", wall=W),
        job("layout-seal", "tiny+seal", "init", what="layout", pkey=1, sealed=1, wall=W),
        job("arenas-calls", "tiny+ar3", alloc=["calloc:100:50", "aligned_alloc:64:5000", "posix_memalign:4096:9000", "aligned_alloc:16:24", "valloc:1"], resize=[24, 16000], live=2, depth=4 + t, threads=3, rnull=1, wall=W),
        job("arenas-full", "tiny+ar2", prefix=["0:32:16376:0"], alloc=[B, "malloc:12000"], live=40, window=1, threads=2, depth=5 + t, bulk=["0:34:16376:0", "6:1:16376:0"], maxbulk=3, wall=W),
        job("one-class-full", "tiny", prefix=["0:32:16376:0", "0:40:12000:0", "0:40:14000:0"], alloc=[B, "malloc:12000", "malloc:14000", "malloc:20000"], live=200, window=1, depth=3 + t, wall=W),
    ]


@prop("C16")
def c16(t):
    W = 20 + 500 * t
    return core(t, probe="leftover") + [
        job("nozero", "tiny+nozero", alloc=[B, "malloc:24"], live=5, depth=6 + t, trim=1, probe="leftover", wall=W),
        job("regions", "default", alloc=["malloc:140000"], bulk=["0:97:140000:2", "0:100:140000:3", "0:250:140000:4", "6:1:140000:5"], live=2000, window=1, depth=4, maxbulk=4, wall=W),
        job("regions-full", "tiny", alloc=["malloc:40000"], bulk=["0:8:40000:2", "6:1:40000:5"], live=60, window=1, depth=5, maxbulk=5, wall=W),
        job("layout", "default", "init", what="layout", wall=W),
        job("layout-tiny", "tiny+ar3", "init", what="layout", wall=W),
        job("layout-light", "light", "init", what="layout", wall=W),
        job("layout-seal", "tiny+seal", "init", what="layout", pkey=1, sealed=1, wall=W),
        job("faults", "default", alloc=["malloc:140000", "malloc:16376"], prefix=["0:96:140000:2", "0:160:16376:3"], live=800, window=1, depth=3, faults=2, wall=W),
        job("start-up-faults", "default", "init", what="first", faults=2, wall=W), job("start-up-faults-seal", "tiny+seal", "init", what="first", faults=2, pkey=1, sealed=1, wall=W),
    ]


@prop("C24")
def c24(t):
    W = 20 + 500 * t
    P = "sizes"
    return core(t) + [
        job("all-classes", "default", alloc=["malloc:%d" % (x - d) for x in CLS + EXT for d in (8, 9)] + ["malloc:0"], live=1, depth=1, probe=P, wall=W),
        job("all-classes-nocanary", "default+nocan", alloc=["malloc:%d" % x for x in CLS + EXT] + ["malloc:0"], live=1, depth=1, probe=P, wall=W),
        job("slots", "tiny", alloc=["malloc:%d" % x for x in (0, 1, 24, 1000, 3000, 16376)], live=4, depth=3 + t, full16=4, reps=[0, 0.4, 1], probe=P, wall=W),
        job("slab-cycle-sizes", "tiny", alloc=[B, "malloc:40000"], resize=[16000, 50000], live=4, depth=6 + t, trim=1, probe=P, wall=W),
        job("slabs", "default", prefix=["0:60:16376:2", "4:1:16376:3", "0:300:0:2"], alloc=["malloc:16376", "malloc:0"], live=800, window=2, depth=2, probe=P, wall=W),
        job("arenas", "tiny+ar3", alloc=[B, "malloc:0"], threads=3, live=3, depth=5 + t, probe=P, wall=W),
        job("uninitialised", "default", "init", what="queries", wall=W),
        job("regions", "default", prefix=["0:90:140000:2", "4:1:140000:3"], alloc=["malloc:140000"], live=800, window=2, depth=2, probe=P, wall=W),
    ]


@prop("C25")
def c25(t):
    W = 20 + 500 * t
    A = ["malloc:16376", "malloc:0", "malloc:40000", "aligned_alloc:64:100", "aligned_alloc:65536:40000"]
    R = [0, 24, 16376, 33000, 50000, 140000]
    return [
        job("mixed", "tiny+stats", alloc=A, resize=R, live=3, depth=4 + t, trim=1, wall=W),
        job("slab-cycle", "tiny+stats", alloc=[B], live=6, depth=10 + t, trim=1, wall=W),
        job("slab-cycle-noq", "tiny+stats+noq", alloc=[B, "malloc:12000"], live=6, depth=8 + t, trim=1, wall=W),
        job("ext", "tiny+stats+ext", alloc=["malloc:131064", "malloc:100000"], live=3, depth=6 + t, trim=1, wall=W),
        job("zero-slabs", "tiny+stats+noq", alloc=["malloc:0"], prefix=["0:510:0:0"], bulk=["0:270:0:1", "6:1:0:4", "1:256:0:0"], live=3000, window=2, depth=4, maxbulk=3, wall=W),
        job("mremap", "default+stats", alloc=["malloc:33554432", "aligned_alloc:65536:33554432"], resize=[33554432, 41943040, 50331648, 140000], live=2, depth=3, wall=W, light=1),
        job("faults", "tiny+stats", alloc=A, resize=[16376, 33000, 50000, 140000], live=3, depth=4 + t, faults=2, trim=1, wall=W),
        job("faults-noq", "tiny+stats+noq", alloc=[B], live=8, depth=9 + t, faults=2, trim=1, wall=W),
        job("faults-mremap", "default+stats", alloc=["malloc:33554432"], resize=[41943040, 50331648, 140000], live=1, depth=3, faults=2, wall=W, light=1),
        job("arenas", "tiny+stats+ar3", alloc=[B, "malloc:40000"], threads=3, live=4, depth=6 + t, trim=1, wall=W),
        job("full", "tiny+stats", prefix=["0:32:16376:0", "0:95:40000:0"], alloc=[B, "malloc:40000", "aligned_alloc:65536:40000"], resize=[40000], live=140, window=1, depth=3 + t, wall=W),
        job("disabled", "tiny", alloc=A, resize=[24, 50000], live=3, depth=3 + t, trim=1, wall=W),
        job("uninitialised", "tiny+stats", "init", what="queries", wall=W),
        job("bulk", "default+stats", alloc=["malloc:100"], bulk=["0:300:100:2", "6:1:100:3", "0:100:16376:4", "6:1:16376:5"], live=800, window=1, depth=4, maxbulk=4, trim=1, maxtrim=2, wall=W),
    ]


@prop("C26")
def c26(t):
    W = 20 + 500 * t
    return [
        job("slab-cycle", "tiny", alloc=[B], live=6, depth=12 + t, trim=1, maxtrim=3, wall=W),
        job("two-classes", "tiny+noq", alloc=[B, "malloc:12000", "malloc:40000"], live=5, depth=7 + t, trim=1, maxtrim=3, wall=W),
        job("several", "tiny+noq", alloc=["malloc:8000", "malloc:2000"], bulk=["0:24:8000:0", "6:1:8000:0", "0:40:2000:0", "6:1:2000:0", "4:1:2000:0"], live=100, window=1, depth=6 + t, maxbulk=5, trim=1, maxtrim=3, wall=W),
        job("ext", "tiny+ext", alloc=["malloc:131064", "malloc:60000", "malloc:20000"], live=4, depth=7 + t, trim=1, maxtrim=3, wall=W),
        job("ext-noq", "tiny+ext+noq", alloc=["malloc:131064", "malloc:60000", "malloc:20000"], live=4, depth=7 + t, trim=1, maxtrim=3, wall=W),
        job("ext-content", "tiny+ext+two", alloc=["malloc:65000", "malloc:24"], live=5, depth=7 + t, full16=4, trim=1, maxtrim=2, wall=W),
        job("faults", "tiny+noq", alloc=["malloc:8000", B], bulk=["0:24:8000:0", "6:1:8000:0"], live=40, window=2, depth=6 + t, maxbulk=2, trim=1, maxtrim=3, faults=2, wall=W),
        job("faults-ext", "tiny+ext+noq", alloc=["malloc:20000", "malloc:60000"], live=4, depth=8 + t, trim=1, maxtrim=3, faults=2, wall=W),
        job("arenas", "tiny+ar2+noq", alloc=[B], threads=2, live=5, depth=9 + t, trim=1, maxtrim=2, wall=W),
        job("default", "default", alloc=["malloc:16376", "malloc:100"], bulk=["0:80:16376:2", "6:1:16376:3", "0:300:100:3", "6:1:100:4", "0:30:30000:5", "6:1:30000:0"], live=800, window=1, depth=5, maxbulk=4, trim=1, maxtrim=2, wall=W),
    ]


@prop("C28")
def c28(t):
    W = 20 + 500 * t
    return pick(core(t), "slab-cycle", "slab-cycle-noq", "mixed", "large", "extended", "default-small", "default-regions") + [
        job("faults", "tiny", alloc=[B, "malloc:0", "malloc:40000", "malloc:140000"], resize=[33000], live=3, depth=5 + t, faults=2, wall=W),
        job("faults-noq", "tiny+noq", alloc=[B, "malloc:40000", "aligned_alloc:65536:40000"], live=8, depth=8 + t, faults=2, wall=W),
        job("faults-ext", "tiny+ext+noq", alloc=["malloc:131064", "malloc:60000"], live=4, depth=7 + t, faults=2, wall=W),
        job("faults-regions", "default", prefix=["3:1290:140000:2"], alloc=["malloc:140000", "malloc:33554432"], live=3, depth=4, faults=2, wall=W, light=1),
    ]


@prop("C29")
def c29(t):
    W = 20 + 500 * t
    A = ["malloc:16376", "malloc:0", "calloc:2:20", "malloc:40000", "aligned_alloc:65536:40000", "posix_memalign:64:100"]
    R = [0, 24, 16376, 33000, 50000, 140000]
    x = dict(pkey=1, sealed=1, wall=W)
    return [
        job("mixed", "tiny+seal", alloc=A, resize=R, live=2, depth=4 + t, trim=1, rnull=1, fsized=1, **x),
        job("slab-cycle", "tiny+seal", alloc=[B], live=6, depth=9 + t, trim=1, **x),
        job("queries", "tiny+seal", alloc=["malloc:16376", "malloc:0", "malloc:40000"], live=2, depth=3 + t, trim=1, probe="sizes", **x),
        job("bad", "tiny+seal", alloc=["malloc:16376", "malloc:0", "malloc:40000"], live=2, depth=3 + t, probe="bad", **x),
        job("faults", "tiny+seal", alloc=A[:1] + A[3:5], resize=[24, 33000, 50000], live=2, depth=3 + 2 * t, faults=2, trim=1, **x),
        job("faults-noq", "tiny+seal+noq", alloc=[B], live=6, depth=7 + t, faults=2, trim=1, **x),
        job("mremap", "default+seal", alloc=["malloc:33554432", "malloc:100"], resize=[33554432, 41943040, 50331648, 140000], live=2, depth=3, light=1, faults=1, **x),
        job("stats", "tiny+seal+stats", alloc=[B, "malloc:40000"], resize=[50000], live=3, depth=4 + t, trim=1, probe="stats", **x),
        job("growth", "default+seal", prefix=["0:160:16376:2", "0:96:140000:2"], alloc=["malloc:16376", "malloc:140000"], live=800, window=1, depth=3, **x),
        job("no-key", "tiny+seal", alloc=A, resize=R, live=2, depth=4 + t, trim=1, pkey=-1, wall=W),
        job("start-up", "tiny+seal", "init", what="first,queries", faults=1, **x),
        job("no-key-faults", "tiny+seal", alloc=[B, "malloc:40000"], resize=[33000, 50000], live=3, depth=4 + t, faults=2, trim=1, pkey=-1, wall=W),
    ]


@prop("C31")
def c31(t):
    W = 20 + 500 * t
    P = "cover"
    return [
        job("slots", "tiny", alloc=["malloc:%d" % (x - 8) for x in CLS] + ["malloc:0"], live=1, depth=3, probe=P, wall=W),
        job("slots-ext", "default", alloc=["malloc:%d" % (x - 8) for x in CLS + EXT] + ["malloc:0"], live=1, depth=1, probe=P, wall=W),
        job("slots-fill", "tiny", alloc=["malloc:8"], bulk=["0:63:8:2", "0:64:8:0", "0:190:8:3", "0:40:8:1", "4:1:8:0", "0:250:8:4"], live=400, window=1, depth=4, maxbulk=3, probe=P, wall=W),
        job("slots-fill-85", "tiny+noq", alloc=["malloc:40"], bulk=["0:63:40:2", "0:20:40:0", "0:40:40:1", "4:1:40:0", "1:20:40:0", "2:30:40:4"], live=400, window=1, depth=4, maxbulk=3, probe=P, wall=W),
        job("slots-fill-64", "tiny+noq", alloc=["malloc:56"], bulk=["0:63:56:2", "0:20:56:0", "0:40:56:1", "4:1:56:0", "1:20:56:0"], live=400, window=1, depth=4, maxbulk=3, probe=P, wall=W),
        job("slots-fill-128", "tiny+noq", alloc=["malloc:120"], bulk=["0:127:24:2", "0:20:24:0", "0:65:24:1", "4:1:24:0", "1:20:24:0"], live=400, window=1, depth=4, maxbulk=3, probe=P, wall=W),
        job("slab-cycle", "tiny+two", alloc=[B], live=5, depth=7 + t, probe=P, wall=W),
        job("guards", "default", alloc=["malloc:%d" % x for x in (131073, 140000, 200000, 300000, 1000000)], live=1, depth=2, probe=P, wall=W),
        job("guards-div8", "tiny+div8+nolc", alloc=["malloc:%d" % x for x in (16385, 40000, 66000, 140000, 300000)], live=1, depth=2, probe=P, wall=W),
        job("quarantine", "default", alloc=["malloc:100000", "malloc:20000", "malloc:140000"], live=2, depth=3, probe=P, wall=W),
        job("quarantine-tiny", "tiny+rq22+two", alloc=["malloc:8000", "malloc:40000"], live=3, depth=5, full64=2, full16=4, probe=P, wall=W),
        job("released", "tiny+noq+fsq3", alloc=[B], live=8, depth=9, probe=P, wall=W),
        job("layout", "default", "init", what="layout", wall=W),
        job("layout-tiny", "tiny+ar3", "init", what="layout", wall=W),
        job("layout-light", "light", "init", what="layout", wall=W),
        job("layout-seal", "tiny+seal", "init", what="layout", pkey=1, sealed=1, wall=W),
    ]


@prop("C32")
def c32(t):
    W = 20 + 500 * t
    return core(t) + [
        job("cycles-tiny", "tiny", alloc=["malloc:24"], live=10, window=3, depth=3 + t, maxbulk=3, trim=1, maxtrim=1,
            bulk=["3:400:16376:0", "3:400:12000:1", "3:400:0:0", "3:300:40000:0", "3:300:140000:0", "7:12:16:0", "7:12:5000:0"], wall=W),
        job("cycles-batch", "tiny", alloc=["malloc:24"], live=40, window=1, depth=5 + t, maxbulk=5 + t, trim=1, maxtrim=1,
            bulk=["0:30:16376:0", "6:1:16376:0", "0:20:40000:0", "6:1:40000:0"], wall=W),
        job("cycles-noq", "tiny+noq", alloc=["malloc:24"], live=40, window=1, depth=5 + t, maxbulk=5 + t, trim=1, maxtrim=1,
            bulk=["0:31:16376:0", "6:1:16376:0", "4:1:16376:1", "0:40:12000:2", "6:1:12000:0"], wall=W),
        job("cycles-default", "default", alloc=["malloc:140000"], live=10, depth=2 + t, maxbulk=2 + t, bulk=["3:2000:140000:2", "3:2000:100:3", "3:500:16376:4", "3:300:131064:5", "7:30:100000:2"], wall=W),
        job("faults", "tiny", alloc=[B, "malloc:40000", "aligned_alloc:65536:40000"], resize=[16376, 33000, 50000, 140000], live=3, depth=4 + t, faults=1, trim=1, wall=W),
        job("faults-noq", "tiny+noq", alloc=[B], live=8, depth=10 + t, faults=2, trim=1, wall=W),
        job("failing-cycles-guards", "tiny", prefix=["0:97:40000:2"], alloc=["malloc:40000", "aligned_alloc:65536:40000"], resize=[140000], live=140, window=1, depth=2 + t, bulk=["3:50:40000:3"], maxbulk=1, wall=W),
        job("failing-cycles", "tiny", prefix=["0:32:16376:0", "0:95:40000:0"], alloc=["malloc:16376", "malloc:40000", "aligned_alloc:65536:40000"], resize=[40000, 16376], live=140, window=1, depth=3 + t, bulk=["3:50:16376:0", "3:50:40000:0"], maxbulk=2, wall=W),
    ]


FRULE = SEQRULE + "; additionally every system call of every operation may be refused with ENOMEM (up to the stated number per sequence), every placement of the refusals being a separate branch"


@prop("C17", rule=FRULE, technique="explicit-state model checking of the real allocator with exhaustive fault placement (every system call of every operation refused), all other guarantees re-checked")
def c17(t):
    W = 15 + 500 * t
    x = dict(also="all", wall=W)
    A = [B, "malloc:0", "malloc:40000", "aligned_alloc:65536:40000", "malloc:140000"]
    R = [24, 33000, 50000, 140000]
    return [
        job("mixed", "tiny", alloc=A, resize=R, live=2, depth=5 + t, trim=1, faults=2, **x),
        job("mixed-noq", "tiny+noq", alloc=A, resize=R, live=2, depth=5 + t, trim=1, faults=3, **x),
        job("mixed-two", "tiny+two", alloc=[B, "malloc:40000"], resize=[33000, 16000], live=3, depth=5 + t, full16=2, full64=2, trim=1, faults=2, **x),
        job("slab-cycle", "tiny", alloc=[B], live=6, depth=11 + 3 * t, trim=1, faults=3, probe="freed", **x),
        job("slab-cycle-noq", "tiny+noq", alloc=[B], live=9, depth=13 + 3 * t, trim=1, faults=3, probe="freed", **x),
        job("slab-cycle-fsq2", "tiny+noq+fsq2", alloc=[B], live=8, depth=9 + 3 * t, trim=1, faults=2, full16=2, **x),
        job("ext", "tiny+ext", alloc=["malloc:131064", "malloc:60000"], resize=[140000], live=4, depth=6 + t, trim=1, faults=2, **x),
        job("regions", "tiny+rq22", alloc=["malloc:40000", "malloc:140000", "aligned_alloc:65536:40000"], resize=[33000, 90000], live=3, depth=5 + t, full64=2, faults=2, probe="freed", **x),
        job("mremap", "default", alloc=["malloc:33554432", "malloc:41943040"], resize=[41943040, 50331648, 140000], live=2, depth=3 + t, faults=2, light=1, **x),
        job("skip-threshold", "default", alloc=["malloc:29360128", "malloc:140000", "aligned_alloc:65536:33554432"], resize=[140000, 29360128], live=2, depth=3 + t, faults=2, light=1, **x),
        job("table-growth", "default", prefix=["0:97:140000:2"], alloc=["malloc:140000"], bulk=["0:250:140000:3", "6:1:140000:4"], live=2000, window=1, depth=4 + t, maxbulk=2, faults=1 + t, probe="freed", light=2, **x),
        job("table-growth-2", "default", prefix=["0:192:140000:2"], alloc=["malloc:140000", "aligned_alloc:65536:140000"], resize=[200000], bulk=["0:400:140000:3", "4:1:140000:0"], live=2000, window=1, depth=3 + t, maxbulk=2, faults=2, probe="freed", light=2, **x),
        job("metadata-growth", "default", prefix=["0:162:16376:2"], alloc=["malloc:16376"], bulk=["0:120:16376:3", "6:1:16376:4", "4:1:16376:2"], live=2000, window=1, depth=5 + t, maxbulk=2, faults=2, trim=1, **x),
        job("zero-slabs", "tiny+noq", prefix=["0:255:0:0"], alloc=["malloc:0"], bulk=["0:260:0:1", "6:1:0:4"], live=2000, window=1, depth=5 + t, maxbulk=3, faults=2, **x),
        job("full-classes", "tiny", prefix=["0:32:16376:0"], alloc=[B, "malloc:200", "calloc:2:8000"], resize=[16376], bulk=["2:8:16376:0", "1:6:16376:0", "0:6:16376:0"], live=40, window=2, depth=4 + t, maxbulk=2, trim=1, faults=1, **x),
        job("full-tables", "tiny", prefix=["0:32:16376:0", "0:95:40000:0"], alloc=["malloc:16376", "malloc:40000", "aligned_alloc:65536:40000", "posix_memalign:65536:40000"], resize=[40000, 16376, 50000], live=140, window=1, depth=4 + t, bulk=["3:50:16376:0", "3:50:40000:0"], maxbulk=2, faults=1, **x),
        job("arenas", "tiny+ar2", alloc=[B, "malloc:40000"], threads=2, live=3, depth=6 + t, faults=2, trim=1, **x),
        job("stats", "tiny+stats+noq", alloc=[B, "malloc:40000", "aligned_alloc:65536:40000"], resize=[33000, 16376], live=3, depth=5 + t, faults=2, trim=1, **x),
        job("lite", "light", alloc=[B, "malloc:140000"], bulk=["0:80:16376:2", "6:1:16376:4"], resize=[200000], live=800, window=1, depth=4 + t, maxbulk=2, faults=2, trim=1, maxtrim=1, **x),
        job("seal", "tiny+seal", alloc=[B, "malloc:40000"], resize=[33000, 50000], live=2, depth=4, trim=1, faults=2, pkey=1, sealed=1, **x),
    ]


HRULE = SEQRULE + "; additionally every system call of every operation may fail with every listed error code: errors other than ENOMEM must end the process with a fatal error in that very call"


@prop("C18", rule=HRULE, technique="explicit-state model checking of the real allocator with exhaustive fault placement (every memory system call of every operation fails with every listed error code)")
def c18(t):
    W = 15 + 500 * t
    x = dict(codes=[12, 22, 13, 11, 1], wall=W)
    A = [B, "malloc:0", "malloc:40000", "aligned_alloc:65536:40000", "calloc:3:60000"]
    R = [24, 33000, 50000, 140000]
    return [
        job("mixed", "tiny", alloc=A, resize=R, live=2, depth=4 + t, trim=1, faults=2, rnull=1, fsized=1, **x),
        job("mixed-noq", "tiny+noq", alloc=A, resize=R, live=2, depth=5 + t, trim=1, faults=1, **x),
        job("slab-cycle", "tiny", alloc=[B], live=6, depth=10 + 2 * t, trim=1, faults=2, **x),
        job("slab-cycle-noq", "tiny+noq", alloc=[B], live=9, depth=12 + 2 * t, trim=1, faults=2, **x),
        job("zero-slabs", "tiny+noq", prefix=["0:255:0:0"], alloc=["malloc:0"], bulk=["0:260:0:1", "6:1:0:4"], live=2000, window=1, depth=5 + t, maxbulk=3, faults=1, trim=1, **x),
        job("ext", "tiny+ext", alloc=["malloc:131064", "malloc:60000"], resize=[140000], live=4, depth=6 + t, trim=1, faults=1, **x),
        job("regions", "tiny+rq22", alloc=["malloc:40000", "malloc:140000", "posix_memalign:65536:40000"], resize=[33000, 90000], live=3, depth=5 + t, full64=2, faults=1, **x),
        job("mremap", "default", alloc=["malloc:33554432", "malloc:41943040"], resize=[33554432, 41943040, 50331648, 140000], live=2, depth=3 + t, faults=2, light=1, **x),
        job("table-growth", "default", prefix=["0:97:140000:2"], alloc=["malloc:140000"], bulk=["0:250:140000:3"], live=2000, window=1, depth=3 + t, maxbulk=1, faults=1, light=2, **x),
        job("metadata-growth", "default", prefix=["0:162:16376:2"], alloc=["malloc:16376"], bulk=["0:120:16376:3", "6:1:16376:4"], live=2000, window=1, depth=4 + t, maxbulk=2, faults=1, trim=1, **x),
        job("seal", "tiny+seal", alloc=[B, "malloc:40000"], resize=[33000, 50000], live=2, depth=4, trim=1, faults=1, pkey=1, sealed=1, **x),
        job("light", "light", alloc=[B, "malloc:140000"], resize=[200000], live=6, depth=4 + t, faults=1, trim=1, **x),
        job("stats", "tiny+stats+noq", alloc=[B, "malloc:40000"], resize=[33000], live=3, depth=4 + t, faults=1, trim=1, **x),
        job("start-up", "default", "init", what="first", faults=1, **x),
        job("start-up-tiny", "tiny+ar2", "init", what="first", faults=2, **x),
        job("start-up-seal", "tiny+seal", "init", what="first", faults=2, pkey=1, sealed=1, **x),
        job("environment", "default", "init", what="environment", wall=W),
        job("environment-seal", "tiny+seal", "init", what="environment", pkey=1, sealed=1, wall=W),
    ]


@prop("C21")
def c21(t):
    W = 20 + 500 * t
    return [
        job("start-up", "default", "init", what="first,queries,environment", wall=W),
        job("start-up-light", "light", "init", what="first,queries,environment", wall=W),
        job("start-up-tiny", "tiny+ar3", "init", what="first,queries,environment", wall=W),
        job("start-up-stats", "tiny+stats", "init", what="first,queries,environment", wall=W),
        job("start-up-seal", "tiny+seal", "init", what="first,queries,environment", pkey=1, sealed=1, wall=W),
        job("start-up-faults", "tiny", "init", what="first,queries", faults=2, wall=W),
    ]


CRULE = ("every program made of one sequence of calls (from the menu, of the given length) per thread x every schedule with at most the stated number of preemptions; a switch is "
         "possible before every lock that threads share, every atomic update, every system call made outside locks and every operation; each execution runs the real code under a "
         "controlled scheduler with vector-clock data race detection; states = scheduling points visited")
CTECH = "stateless model checking of the real allocator: exhaustive preemption-bounded schedule enumeration under a controlled scheduler, with happens-before race detection"


def cj(name, cname, **a):
    return job(name, cname, "conc", mode="sched", **a)


@prop("C19", rule=CRULE, technique=CTECH)
def c19(t):
    W = 20 + 500 * t
    L = dict(threads=2, len=2, pb=2, wall=W)
    L.update(pb=3) if t else None
    M = ["m16376", "m40000", "m100", "f", "r16376", "r40000", "u"]
    return [
        cj("noq-mixed", "tiny+noq", menu=M + ["t"], own=1, **L),
        cj("noq-deep", "tiny+noq", menu=["m16376", "f", "t"], **{**L, "len": 3 + t}),
        cj("noq-nearly-full", "tiny+noq", menu=["m16376", "f", "r40000", "t"], own=1, fill=20, **L),
        cj("noq-preempt", "tiny+noq", menu=M, own=1, threads=2, len=1, pb=5 + t, wall=W),
        cj("three-threads", "tiny+noq", menu=["m16376", "m40000", "f", "t"], own=1, threads=3, len=1, pb=2 + t, wall=W),
        cj("cross-free", "tiny+noq", menu=["m16376", "h16376", "x", "f"], **{**L, "len": 3}),
        cj("cross-free-large", "tiny+noq", menu=["m40000", "h40000", "x"] + ["r50000"] * t, **{**L, "len": 3}),
        cj("cross-free-arenas", "tiny+noq+ar2", menu=["m16376", "h16376", "x", "f"], **{**L, "len": 3, "pb": 1 + t}),
        cj("three-cross-arenas", "tiny+noq+ar2", menu=["m16376", "h16376", "x"], threads=3, len=2, pb=1 + t, wall=W),
        cj("all-calls", "tiny+noq", menu=["c100", "a64/16000", "a65536/40000", "z", "o", "r24", "m0"], own=1, **{**L, "pb": 1 + t}),
        cj("queries-quarantine", "tiny", menu=["m24", "f", "o", "u", "z", "r40", "t"], own=2, ownsize=24, checkcap=0, **L),
        cj("queries-ext", "tiny+ext", menu=["m60000", "f", "o", "u", "t"], own=2, ownsize=60000, checkcap=0, **L),
        cj("stats-quarantine", "tiny+ext+stats", menu=["m60000", "m0", "f", "i", "I", "t"], own=1, heavy=2, checkcap=0, threads=2, len=1, pb=2 + t, wall=W),
        cj("stats", "tiny+noq+stats", menu=["m16376", "m40000", "f", "r40000", "a65536/40000", "i", "I"], own=1, heavy=2, **{**L, "pb": 1 + t}),
        cj("stats-reports", "tiny+noq+stats", menu=["m16376", "m40000", "f", "i", "I"], own=1, heavy=2, threads=2, len=1, pb=2 + t, wall=W),
        cj("quarantined", "tiny", menu=M + ["t"], own=1, policy=2, **{**L, "pb": 1 + t}),
        cj("quarantined-two", "tiny+two", menu=["m16376", "f", "m40000", "r40000"], own=2, policy=3, **L),
        cj("quarantined-last", "tiny+two", menu=["m16376", "f", "m40000", "b"], own=2, policy=1, **L),
        cj("arenas", "tiny+ar2+noq", menu=M + ["t"], own=1, **{**L, "pb": 1 + t}),
        cj("table-growth", "default", menu=["m140000", "f", "r200000"], prefix=["140000:94"], own=1, ownsize=140000, checkcap=0, policy=2, **L),
        cj("metadata-growth", "tiny+noq", menu=["m16376", "f", "m0"], own=0, checkcap=0, **L),
        cj("mremap", "default", menu=["r41943040", "r50331648", "f"], own=1, ownsize=33554432, checkcap=0, **{**L, "len": 1 + t}),
        cj("colliding", "tiny+noq", menu=["m40000", "f", "r60000", "r36000"], own=1, ownsize=50000, clash=1, **L),
        cj("colliding-two", "tiny", menu=["f", "b", "r60000", "r36000"], own=2, ownsize=50000, clash=1, policy=2, **L),
        cj("colliding-mremap", "default", menu=["r41943040", "m140000", "m29000000", "f", "r140000"], own=1, ownsize=33554432, checkcap=0, clash=1, **{**L, "len": 1 + t}),
        cj("double-free", "tiny+noq", menu=["d", "f", "r40000", "t"], own=1, must="d", **L),
        cj("double-free-large", "tiny", menu=["d", "m40000", "D90000", "t"], dsize=40000, must="d", own=1, **L),
        cj("double-free-large-noq", "tiny+noq", menu=["d", "f", "t"], dsize=40000, must="d", own=2, ownsize=40000, **L),
        cj("double-free-quarantine", "tiny", menu=["d", "D40000", "m16376", "f"], own=1, must="d", **L),
        cj("every-system-call", "tiny+noq", menu=["m16376", "m40000", "f", "r40000", "t"], own=1, threads=2, len=1, pb=2 + t, allsys=1, filter=0, wall=W),
        cj("light", "light", menu=["m16376", "m140000", "f", "r200000", "t"], own=1, checkcap=0, **L),
        cj("default", "default", menu=["m16376", "m140000", "f", "r200000", "m100000"], own=1, checkcap=0, policy=2, **L),
        cj("extended", "tiny+ext+noq", menu=["m60000", "m20000", "f", "t"], own=0, cap=60000, **L),
    ]


@prop("C20", rule=CRULE + "; the child of every fork runs alone from the forked memory image through allocation, resizing, freeing, trimming and statistics", technique=CTECH)
def c20(t):
    W = 20 + 500 * t
    L = dict(threads=2, len=2, pb=2 + t, wall=W, must="F", fill=12)
    return [
        cj("small", "tiny+noq", menu=["F", "m16376", "f", "t", "r24", "m0"], own=1, **L),
        cj("large", "tiny+noq", menu=["F", "m40000", "f", "r60000", "r16376"], own=1, ownsize=40000, **L),
        cj("calls", "tiny+noq", menu=["F", "c100", "a65536/40000", "z", "u", "i", "I", "m0"], own=1, heavy=2, **{**L, "pb": 1 + t}),
        cj("quarantined", "tiny", menu=["F", "m16376", "f", "r40000", "t"], own=1, policy=2, **{**L, "fill": 4}),
        cj("arenas", "tiny+ar2+noq", menu=["F", "m16376", "f", "m40000"], own=1, **L),
        cj("stats", "tiny+noq+stats", menu=["F", "m16376", "f", "m40000", "i"], own=1, heavy=2, **L),
        cj("three-threads", "tiny+noq", menu=["F", "m16376", "f", "m40000"], own=1, threads=3, len=1, pb=2 + t, wall=W, must="F", fill=10),
        cj("two-forks", "tiny+noq", menu=["F", "m16376", "f"], own=1, heavy=3, **L),
        cj("sealed", "tiny+seal", menu=["F", "m16376", "f", "m40000", "t"], own=1, pkey=1, policy=2, **{**L, "fill": 4}),
        cj("default", "default", menu=["F", "m16376", "f", "m140000", "r200000"], own=1, checkcap=0, policy=2, **{**L, "fill": 0}),
        cj("every-system-call", "tiny+noq", menu=["F", "m16376", "m40000", "f", "r40000", "t"], own=1, threads=2, len=1, pb=2 + t, allsys=1, filter=0, wall=W, must="F", fill=10),
    ]


def rj(name, cname, **a):
    return job(name, cname, "rng", mode="rng", **a)


@prop("C22", rule="every bound of the 16-bit generator x every 16-bit input word (the whole input space of a draw), executed on the real code; the 64-bit generator at structured bounds x the words around every change of answer or acceptance",
      technique="exhaustive enumeration of the input space of the real bounded random number generators (all 2^32 bound/word pairs for 16 bits), judged by counting")
def c22(t):
    return [rj("all-16-bit", "default", what="u16", wall=100 + 500 * t), rj("structured-64-bit", "default", what="u64", wall=60)]


@prop("C23", rule="every sequence of requests (from the menu) up to the depth bound from every buffer position, before the first block, across blocks and across the reseeding point, on the real generator, "
      "each output compared with an independent ChaCha8; every pattern of three answers of the system's random source (interrupted, 0..40 bytes, error)",
      technique="exhaustive bounded enumeration of request sequences and of system random source answers on the real generator against an independent reference")
def c23(t):
    W = 40 + 500 * t
    return [
        rj("sequences", "default", what="stream", depth=3, wall=W),
        rj("one-request-across-reseed", "default", what="stream", late=1, depth=1, starts=520, wall=W),
        rj("sequences-across-reseed", "default", what="stream", late=1, depth=2 + t, step=1 if t else 3, wall=W),
        rj("short-reads", "default", what="seed", wall=W),
        rj("counter-carry", "default", what="carry", wall=W),
        rj("processes", "default", what="process", wall=W), rj("processes-arenas", "tiny+ar2", what="process", wall=W), rj("processes-light", "light", what="process", wall=W),
        rj("forks", "default", what="fork", histories=4 + 40 * t, wall=W), rj("forks-arenas", "tiny+ar3", what="fork", histories=10, wall=W),
        job("start-up", "default", "init", what="environment", wall=W),
    ]


_c18, _c20, _c31, _c21 = JOBS["C18"], JOBS["C20"], JOBS["C31"], JOBS["C21"]
JOBS["C18"] = lambda t: _c18(t) + [rj("reseeding", "default", what="seed", wall=60)]
JOBS["C20"] = lambda t: _c20(t) + [
    rj("randomness", "default", what="fork", histories=40 + 60 * t, wall=60), rj("randomness-light", "light", what="fork", histories=40 + 60 * t, wall=60),
    rj("randomness-tiny", "tiny", what="fork", histories=20, wall=60), rj("randomness-arenas", "tiny+ar2", what="fork", histories=20, wall=60)]
JOBS["C31"] = lambda t: _c31(t) + [rj("processes-" + c, c, what="process", wall=60) for c in ("default", "light", "tiny", "tiny+ar2")]
JOBS["C21"] = lambda t: _c21(t) + [
    cj("two-threads", "tiny", uninit=1, menu=["m100", "m40000", "n", "q", "u", "t", "i", "c100"], threads=2, len=1, pb=3 + t, checkcap=0, wall=60),
    cj("two-threads-two-calls", "tiny+noq", uninit=1, menu=["m100", "m40000", "q", "f"], threads=2, len=2, pb=2 + t, checkcap=0, wall=60),
    cj("three-threads", "tiny+noq", uninit=1, menu=["m100", "m40000", "n", "q"], threads=3, len=1, pb=2, checkcap=0, wall=60),
    cj("three-threads-arenas", "tiny+ar2", uninit=1, menu=["m100", "q", "a65536/40000"], threads=3, len=1, pb=2, checkcap=0, wall=60),
    cj("default", "default", uninit=1, menu=["m100", "m140000", "q"], threads=2, len=1, pb=3 + t, checkcap=0, wall=60),
    cj("sealed", "tiny+seal", uninit=1, menu=["m100", "m40000", "n", "q"], threads=2, len=1, pb=3, checkcap=0, pkey=1, wall=60),
    cj("stats", "tiny+stats", uninit=1, menu=["m100", "m40000", "i", "I"], threads=2, len=1, pb=3, checkcap=0, wall=60)]


def sw(name, cname, what, mode="plain", **a):
    return job(name, cname, "sweep", mode=mode, what=what, **a)


SWRULE = "every input listed (each a call with its arguments, executed on the real allocator from a fixed heap state and judged against the size-class arithmetic of the model); "


@prop("C02", rule=SWRULE + "and " + SEQRULE, technique="exhaustive enumeration of call arguments on the real allocator, and bounded explicit-state search over API sequences")
def c02(t):
    W = 60 + 300 * t
    r = [
        sw("sizes", "default", "sizes", fn=0, top=270000, wall=W), sw("sizes-calloc", "default", "sizes", fn=1, top=20000 + 250000 * t, wall=W),
        sw("sizes-light", "light", "sizes", fn=0, top=140000, wall=W),
        sw("sizes-nocanary", "default+nocan", "sizes", fn=0, top=140000, wall=W),
        sw("sizes-nolarge", "tiny+nolc", "sizes", fn=0, top=100000, wall=W),
        sw("sizes-noext", "tiny", "sizes", fn=0, top=100000, wall=W),
        sw("sizes-arenas", "tiny+ar3+ext", "sizes", fn=0, top=140000, wall=W),
        sw("sizes-stats", "tiny+stats", "sizes", fn=0, top=40000, wall=W),
        sw("sizes-seal", "tiny+seal", "sizes", fn=0, top=20000, wall=W),
        sw("aligned", "default", "aligned", wall=W), sw("aligned-light", "light", "aligned", wall=W), sw("aligned-nocanary", "default+nocan", "aligned", wall=W),
        sw("aligned-nolarge", "tiny+nolc", "aligned", wall=W), sw("aligned-noext", "tiny", "aligned", wall=W),
        sw("aligned-all", "default", "aligned-all", top=20000 + 250000 * t, wall=W), sw("aligned-all-noext", "tiny", "aligned-all", top=20000, wall=W),
        sw("aligned-all-nocanary", "default+nocan", "aligned-all", top=18000, wall=W),
        sw("calloc", "default", "calloc", wall=W), sw("calloc-noext", "tiny+nolc", "calloc", wall=W),
        sw("page", "default", "page", wall=W), sw("page-tiny", "tiny+nolc", "page", wall=W), sw("page-light", "light", "page", wall=W),
        job("faults", "tiny", alloc=["calloc:3:100", "aligned_alloc:64:100", "posix_memalign:4096:5000", "memalign:32768:70000", "valloc:1", "pvalloc:5000", "malloc:0", B], live=3, depth=3 + t, full16=2, full64=2, faults=1 + t, wall=20 + 500 * t),
        job("uninitialised", "default", "init", what="queries", wall=W),
        job("huge-resize", "default", alloc=["malloc:0", "malloc:100", "malloc:140000", "malloc:33554432"], resize=HUGE + [200], live=1, depth=2, rnull=1, light=1, wall=W),
        job("huge-resize-nolarge", "tiny+nolc+nocan", alloc=["malloc:0", "malloc:100", "malloc:140000"], resize=HUGE + [200], live=1, depth=2, rnull=1, wall=W),
    ]
    return r + pick(core(t), "mixed", "mixed-calls", "extended", "default-regions", "tiny-full")


@prop("C06", rule=SWRULE + "and " + SEQRULE, technique="exhaustive enumeration of (allocated size, alignment, claimed size) on the real allocator, and bounded explicit-state search over API sequences")
def c06(t):
    W = 60 + 300 * t
    r = [sw("claims", "default", "claims", every=140000 + 200000 * t, wall=W)]
    r += [sw("claims-" + n, c, "claims", every=40000 + 100000 * t, wall=W) for n, c in (("light", "light"), ("nocanary", "default+nocan"), ("nolarge", "tiny+nolc"), ("noext", "tiny"), ("seal", "tiny+seal"), ("arenas", "tiny+ar2+ext"))]
    r += [sw("delete-claims", "default", "claims", mode="cxx", cxx=1, dense=600 + 4000 * t, wall=W), sw("delete-claims-noext", "tiny+nocan", "claims", mode="cxx", cxx=1, dense=300, wall=W)]
    r += [sw("delete-" + n, c, "delete", mode="cxx", few=0 if t else 1, wall=W) for n, c in (("default", "default"), ("light", "light"), ("nolarge", "tiny+nolc"), ("nocanary", "default+nocan"))]
    r += [sw("aligned-all", "default", "aligned-all", top=8000, wall=W), sw("sizes", "default", "sizes", fn=0, top=140000, wall=W)]
    r += [job("history", "tiny", alloc=[B, "malloc:0", "malloc:24", "malloc:40000"], resize=[0, 24, 16376, 40000, 50000], live=3, depth=5 + t, fsized=1, wall=20 + 500 * t),
          job("history-noq", "tiny+noq", alloc=[B, "malloc:8000", "malloc:300000"], resize=[40000], live=4, depth=5 + t, fsized=1, trim=1, wall=20 + 500 * t)]
    return r


@prop("C27", rule=SWRULE + "operator new forms x sizes x alignments x new-handler behaviours, and every delete form on storage of every matching new form",
      technique="exhaustive enumeration of operator forms, arguments and new-handler behaviours on the real operators under a fault injector")
def c27(t):
    W = 60 + 300 * t
    C = (("", "default"), ("-light", "light"), ("-nocanary", "default+nocan"), ("-nolarge", "tiny+nolc"), ("-seal", "tiny+seal"), ("-arenas", "tiny+ar3"))
    return [sw("new" + n, c, "new", mode="cxx", wall=W) for n, c in C] + [sw("delete" + n, c, "delete", mode="cxx", few=0 if t or not n else 1, wall=W) for n, c in C]


_c24 = JOBS["C24"]
JOBS["C24"] = lambda t: _c24(t) + [
    sw("sizes", "default", "sizes", fn=0, top=270000), sw("sizes-light", "light", "sizes", fn=0, top=140000), sw("sizes-noext", "tiny+nolc", "sizes", fn=0, top=60000),
    sw("sizes-nocanary", "default+nocan", "sizes", fn=0, top=140000), sw("aligned", "default", "aligned"), sw("aligned-all", "default", "aligned-all", top=8000)]


def mj(name, cname, **a):
    return job(name, cname, "mte", mode="mte", **a)


@prop("C30", rule="every sequence of API calls from the menu up to the depth bound x slot choices x answers of the tag instruction (the listed number of permitted tags, lowest and highest included), executed on the "
      "real code built with memory tagging; after every call the pointer tags, the tags of all slot memory and the tag history are judged", assumptions=[
      "the tagging instructions themselves (arm_mte.h) are replaced by stand-ins: a random tag among the permitted ones, and a tag store which also clears; the kernel model keeps PROT_MTE per mapping and drops tags with page contents",
      "single accesses of the allocator are checked against tags only where they go through memcpy/memset"])
def c30(t):
    W = 20 + 500 * t
    A = ["malloc:16376", "malloc:0", "malloc:40000", "calloc:2:100", "aligned_alloc:64:100"]
    return [
        mj("slab-cycle", "tiny+noq", alloc=[B], live=8, depth=10 + 2 * t, trim=1, wall=W),
        mj("slab-cycle-quarantined", "tiny", alloc=[B], live=6, depth=10 + 2 * t, trim=1, wall=W),
        mj("slab-cycle-tags", "tiny+noq+norand", alloc=[B], live=5, depth=5 + 2 * t, tags=9, wall=W),
        mj("slab-cycle-two", "tiny+two", alloc=[B], live=6, depth=8 + t, full16=2, wall=W),
        mj("slots", "tiny+noq", alloc=[B], live=5, depth=6 + t, full16=4, tags=3, wall=W),
        mj("mixed", "tiny+noq", alloc=A, resize=[24, 16000, 16376, 40000], live=3, depth=4 + t, trim=1, fsized=1, wall=W),
        mj("mixed-quarantined", "tiny", alloc=A, resize=[24, 16000, 16376, 40000], live=3, depth=4 + t, wall=W),
        mj("many-slots", "tiny+noq", alloc=["malloc:8"], bulk=["0:300:8:3", "4:1:8:0", "6:1:8:1", "0:200:8:4", "3:500:8:5", "0:513:8:0", "0:513:8:1"], live=1500, window=2, maxbulk=3 + t, depth=4 + t, wall=W),
        mj("many-slots-default", "default", alloc=["malloc:24", "malloc:100"], bulk=["0:130:24:3", "4:1:24:0", "6:1:24:1", "0:300:100:4", "3:500:24:5"], live=1500, window=2, maxbulk=3, depth=4 + t, wall=W),
        mj("all-classes", "default", alloc=["malloc:%d" % (x - 8) for x in CLS + EXT], live=2, depth=2, wall=W),
        mj("light", "light", alloc=[B, "malloc:60"], bulk=["0:80:16376:2", "0:200:60:3", "6:1:16376:4", "4:1:60:2"], live=800, window=2, depth=3 + t, maxbulk=2, trim=1, wall=W),
        mj("extended", "tiny+ext+noq", alloc=["malloc:131064", "malloc:20000"], resize=[65000], live=3, depth=5 + t, trim=1, wall=W),
        mj("arenas", "tiny+ar2+noq", alloc=[B], live=4, depth=6 + t, threads=2, wall=W),
        mj("nocanary", "tiny+nocan+noq", alloc=["malloc:16384", "malloc:32"], live=4, depth=6 + t, trim=1, wall=W),
        mj("faults", "tiny+noq", alloc=[B, "malloc:40000"], resize=[16000], live=6, depth=7 + t, trim=1, faults=2, wall=W),
        mj("class-cycles", "tiny+noq", alloc=["malloc:24", "malloc:4000"], bulk=["0:300:4000:0", "6:1:4000:1", "0:200:1000:2", "6:1:1000:3", "0:40:10000:4", "6:1:10000:0"], live=800, window=1, depth=4 + t, maxbulk=4 + t, trim=1, wall=W),
        mj("class-cycles-small", "tiny+noq", alloc=["malloc:24"], bulk=["0:2400:24:0", "6:1:24:1", "0:700:120:2", "6:1:120:3", "0:6000:8:0", "6:1:8:2"], live=9000, window=1, depth=3 + t, maxbulk=3 + t, trim=1, maxtrim=1, wall=W),
        mj("class-trims", "tiny", alloc=["malloc:%d" % (x - 8) for x in CLS], live=1, depth=4, trim=1, maxtrim=1, wall=W),
    ]


def tagged(p, *js):
    f = JOBS[p]
    JOBS[p] = lambda t: f(t) + list(js)


tagged("C01", mj("tagged", "tiny+noq", alloc=[B, "malloc:24", "malloc:40000"], resize=[16000, 50000], live=4, depth=5, trim=1))
tagged("C03", mj("tagged", "tiny+noq", alloc=[B, "calloc:2:100", "malloc:40000"], live=6, depth=7, trim=1), mj("tagged-nocanary", "tiny+nocan+noq", alloc=["malloc:16384", "calloc:2:100"], live=6, depth=7, trim=1))
tagged("C04", mj("tagged", "tiny+noq", alloc=[B, "malloc:0", "malloc:24", "malloc:40000", "malloc:140000"], resize=[0, 24, 8000, 16376, 40000, 140000], live=2, depth=4))
tagged("C05", mj("tagged", "tiny+noq", alloc=[B, "malloc:0", "malloc:40000"], live=3, depth=5, probe="bad"))
tagged("C10", mj("tagged", "tiny", alloc=[B, "malloc:24", "malloc:40000"], resize=[16000], live=4, depth=6, trim=1, probe="leftover"))
tagged("C24", mj("tagged", "tiny+noq", alloc=["malloc:16376", "malloc:24", "malloc:40000", "malloc:0", "calloc:10:100"], resize=[100], probe="sizes", live=3, depth=4))


def also(p, f):
    g = JOBS[p]
    JOBS[p] = lambda t: g(t) + f(t)


for _p in ("C01", "C03", "C04", "C07", "C12", "C13", "C14", "C15", "C16", "C25", "C26", "C28", "C32"):
    also(_p, lambda t: covered(t))
for _p in ("C01", "C03", "C12", "C16", "C26", "C32"):
    also(_p, lambda t: covered_cycle(t))
also("C02", lambda t: covered(t, alloc=["calloc:3:5000", "aligned_alloc:64:100", "posix_memalign:4096:5000", "memalign:32768:70000", "malloc:16384"], resize=[], live=3, depth=3 + t, trim=0))
also("C05", lambda t: covered(t, probe="bad", alloc=[B, "malloc:40000", "malloc:0"], live=3, depth=2 + t))
also("C05", lambda t: covered(t, "freed", probe="freed", alloc=[B, "malloc:40000"], live=3, depth=3 + t))
also("C06", lambda t: covered(t, fsized=1, depth=3 + t))
also("C08", lambda t: [j for j in covered(t, probe="canary", words=3, alloc=[B, "malloc:24", "calloc:2:1000"], live=3, depth=3 + t) if j["cfg"]["SLAB_CANARY"] == "true"])
also("C09", lambda t: [j for j in covered(t, probe="poke", alloc=[B, "malloc:24"], live=3, depth=4 + t) if j["cfg"]["WRITE_AFTER_FREE_CHECK"] == "true"])
also("C10", lambda t: covered(t, probe="leftover") + covered_cycle(t, depth=5 + t, probe="leftover"))
also("C11", lambda t: covered(t, alloc=["malloc:0", "calloc:0:5", "malloc:8"], resize=[0, 1], rnull=1, bulk=["0:270:0:1", "6:1:0:4"], maxbulk=2, live=600, window=2, depth=3 + t))
also("C17", lambda t: covered(t, faults=1 + t, also="all", depth=4 + t, alloc=[B, "malloc:40000", "malloc:0"], live=3) + covered_cycle(t, faults=1 + t, also="all"))
also("C18", lambda t: covered(t, faults=1, codes=[12, 22], depth=3 + t, live=3))
also("C24", lambda t: covered(t, probe="sizes", depth=2 + t))
also("C29", lambda t: [j for j in covered(t, sealed=1, depth=3 + t) if j["cfg"]["CONFIG_SEAL_METADATA"] == "true"])
also("C31", lambda t: covered(t, probe="cover", depth=2 + t))


for _p in ("C01", "C03", "C04", "C13", "C14", "C16", "C24", "C28", "C32"):
    also(_p, lambda t: wide(t))
also("C05", lambda t: wide(t, probe="freed"))
also("C07", lambda t: wide(t, only=("metadata", "full", "faults", "faults-noq")))
also("C10", lambda t: wide(t, only=("mremap", "growth", "metadata", "full"), probe="leftover"))
also("C11", lambda t: wide(t, only=("full", "faults")))
also("C12", lambda t: wide(t, only=("metadata", "full", "faults")))
also("C25", lambda t: wide(t, "+stats"))
also("C26", lambda t: wide(t, only=("metadata", "full", "faults", "faults-noq")))
also("C29", lambda t: wide(t, "+seal", pkey=1, sealed=1))


def covered_threads(t, name="configuration", **x):
    r = []
    for i, row in enumerate(ROWS):
        a = dict(menu=["m16376", "f", "m40000", "r40000"], own=1, threads=2, len=2, pb=1 + t, policy=2, wall=20 + 100 * t)
        if row[4] == 1:
            a.update(pkey=1)
        if row[6]:
            a.update(checkcap=0)
        a.update(x)
        r.append(cj("%s-%d" % (name, i), "cov%d" % i, **a))
    return r


also("C19", lambda t: covered_threads(t, menu=["m16376", "f", "m40000", "r16376", "t"]))
also("C20", lambda t: covered_threads(t, menu=["F", "m16376", "f", "m40000"], must="F", fill=0))
also("C21", lambda t: covered_threads(t, menu=["m100", "m40000", "q", "n"], uninit=1, own=0, len=1, pb=2 + t, checkcap=0))
also("C29", lambda t: [j for j in covered_threads(t, "threads", len=1, pb=2 + t, menu=["m16376", "f", "m40000", "r40000", "u", "t", "i", "I", "a65536/40000"]) if j["cfg"]["CONFIG_SEAL_METADATA"] == "true"])
also("C29", lambda t: [cj("fork", "tiny+seal+noq", menu=["F", "m16376", "f", "m40000", "r40000"], own=1, threads=2, len=1, pb=2 + t, pkey=1, must="F", fill=4),
                       cj("first-call", "tiny+seal", uninit=1, menu=["m100", "q", "n", "u", "i"], threads=2, len=1, pb=2 + t, checkcap=0, pkey=1),
                       job("mremap-faults", "default+seal", alloc=["malloc:33554432"], resize=[41943040, 50331648, 140000], live=1, depth=3, faults=3, wall=20, light=1, pkey=1, sealed=1)])
also("C30", lambda t: [dict(j, kind="mte", mode="mte") for j in covered(t, depth=3 + t) if j["cfg"]["CONFIG_SEAL_METADATA"] == "false" and j["cfg"]["ZERO_ON_FREE"] == "true"])

for _p in ("C03", "C07", "C12", "C26", "C32"):
    also(_p, lambda t: refused_classes(t, ("tiny+noq", "tiny+noq+nozero", "tiny+ext+nocan")))
for _p in ("C01", "C02", "C03", "C07", "C12", "C15", "C26", "C28", "C32"):
    also(_p, lambda t: each_class(t, ("default", "light")) + each_class(t, ("tiny+ext+noq", "tiny+nocan+two"), depth=5 + t, maxbulk=4 + t))
also("C05", lambda t: each_class(t, ("default", "light"), probe="freed") + each_class(t, ("tiny+ext+noq", "tiny+nocan+two"), depth=5 + t, maxbulk=4 + t, probe="freed") + [
    job("every-byte-" + c.replace("+", "-"), c, focus=1, bulk=["0:5:0:2"], live=100000, window=1, depth=2, startdepth=2, maxbulk=1, probe="bad", every=1 if t else e, light=1, wall=40 + 1000 * t)
    for c, e in (("default", 8), ("light", 16), ("tiny+ext+noq+nocan", 8))])
also("C06", lambda t: each_class(t, ("default", "tiny+ext+noq", "tiny+nocan+two"), fsized=1))
also("C08", lambda t: [job("each-class-" + c.replace("+", "-"), c, focus=1, bulk=["0:5:0:2", "4:1:0:0", "6:1:0:0"], live=100000, window=1, depth=3 + t, maxbulk=2 + t, probe="canary", light=1, wall=20 + 300 * t) for c in ("default", "tiny+ext+noq")])
also("C09", lambda t: [job("each-class-" + c.replace("+", "-"), c, focus=1, bulk=["0:2:0:2", "6:1:0:0", "4:1:0:0"], live=100000, window=1, depth=4 + t, maxbulk=3, pokes=1, light=1, wall=20 + 300 * t) for c in ("tiny+ext+noq", "tiny+noq+nocan")])
also("C10", lambda t: each_class(t, ("default", "tiny+ext+noq", "tiny+nowaf+noq"), probe="leftover"))
also("C17", lambda t: each_class(t, ("tiny+ext+noq", "default", "tiny+two"), faults=1 + t, also="all"))
also("C18", lambda t: each_class(t, ("tiny+ext+noq",), faults=1, codes=[12, 22], depth=3 + t))
also("C24", lambda t: [job("every-byte-" + c.replace("+", "-"), c, focus=1, bulk=["0:5:0:2"], live=100000, window=1, depth=2, startdepth=2, maxbulk=1, probe="sizes", every=1, light=1, wall=20 + 300 * t) for c in ("default", "light", "default+nocan")])
also("C25", lambda t: each_class(t, ("default+stats", "tiny+ext+noq+stats"), probe="stats"))
also("C29", lambda t: each_class(t, ("tiny+ext+noq+seal",), pkey=1, sealed=1))
also("C30", lambda t: [dict(j, kind="mte", mode="mte") for j in each_class(t, ("default", "tiny+ext+noq", "tiny+noq+norand"), live=100000)])

# the region table as full as it gets: lookups of addresses it does not hold must still end
FULL_TABLE = (("tiny", "0:300:40000:0", "malloc:40000"), ("default", "0:127:140000:2", "malloc:140000"), ("default", "0:255:140000:2", "malloc:140000"))
for _p, _probe in (("C05", "bad"), ("C24", "sizes")):
    also(_p, lambda t, probe=_probe: [job("full-table-%d" % i, c, prefix=[pre], alloc=[a], live=600, window=1, depth=1 + t, startdepth=1 + t, probe=probe, light=2, wall=30) for i, (c, pre, a) in enumerate(FULL_TABLE)])


# Android's interface: its statistics, malloc_disable, mallopt(M_PURGE), memory labels, tagging switched off at run time
AND = dict(alloc=["malloc:100", "malloc:0", "malloc:40000", B, "aligned_alloc:65536:33000"], resize=[24, 16376, 60000], live=3, trim=1)


def android(t, cfgs=("tiny+noq+stats+android", "tiny+ar2+android"), depth=5, kind="seq", name="android", **x):
    return [job("%s-%s" % (name, c.replace("+android", "").replace("+", "-")), c, kind, mode="mte" if kind == "mte" else "plain", **{**AND, **dict(depth=depth + t, wall=20 + 200 * t), **x}) for c in cfgs]


def untagged(t, notag=2, cfgs=("tiny+android", "tiny+noq+stats+android"), **x):
    return android(t, cfgs, kind="mte", name="untagged" if notag == 2 else "tagging-stops", notag=notag, **x)


also("C25", lambda t: android(t, ("tiny+noq+stats+android", "tiny+ar2+stats+android"), threads=2) + android(t, ("default+stats+android", "light+stats+android"), depth=3)
     + [dict(j, name="android-" + j["name"]) for j in each_class(t, ("default+stats+android",))])
also("C26", lambda t: android(t, ("tiny+noq+stats+android", "tiny+ext+noq+android", "tiny+android"), purge=1, depth=6))
also("C14", lambda t: android(t, ("tiny+noq+android", "tiny+two+android"), faults=1))
also("C21", lambda t: [job("android", "tiny+stats+android", "init", what="first,queries", faults=1 + t, wall=20 + 100 * t)])
also("C05", lambda t: [job("android-early", "tiny+stats+android", "init", what="queries", wall=20 + 100 * t)])
also("C18", lambda t: android(t, ("tiny+noq+android",), faults=1, codes=[12, 22]))
also("C30", lambda t: untagged(t, 1, ("tiny+noq+android", "tiny+ar2+android")) + untagged(t, 2, depth=6) + untagged(t, 1, ("tiny+noq+stats+android",), faults=1))
also("C16", lambda t: untagged(t, 1, ("tiny+noq+android",)) + untagged(t, 2, ("tiny+android",)))
for _p in ("C01", "C03", "C04", "C28"):
    also(_p, lambda t: untagged(t, 1, ("tiny+noq+android", "tiny+ar2+android")) + untagged(t, 2, ("tiny+android",)))
also("C08", lambda t: untagged(t, 2, ("tiny+android", "tiny+noq+android"), probe="canary"))
also("C09", lambda t: untagged(t, 2, ("tiny+noq+android",), alloc=["malloc:100", B], resize=[24], pokes=1))
also("C10", lambda t: untagged(t, 2, ("tiny+noq+android", "tiny+android"), probe="leftover") + untagged(t, 1, ("tiny+noq+android",), probe="leftover"))
also("C05", lambda t: untagged(t, 2, ("tiny+noq+android",), probe="freed"))


@prop("C33", rule=CRULE + "; between malloc_disable and malloc_enable the other threads run until none can go on", technique=CTECH)
def c33(t):
    W = 30 + 500 * t
    M = ["L1", "L0"]
    L = dict(threads=2, len=1, pb=2 + t, own=1, wall=W, must="L")
    return [
        cj("calls", "tiny+noq+stats+android", menu=M + ["m16376", "m40000", "m100", "m0", "c100", "f", "z", "r40000", "r24", "a65536/40000", "t", "i", "I", "u", "o"], heavy=2, **L),
        cj("large", "tiny+android", menu=M + ["m40000", "f", "z", "r60000", "r36000", "r16376", "u", "o"], ownsize=50000, **L),
        cj("two-calls", "tiny+noq+android", menu=M + ["m16376", "f", "m40000"], **{**L, "len": 2, "pb": 1 + t}),
        cj("arenas", "tiny+ar2+noq+android", menu=M + ["m16376", "f", "m40000", "t"], **{**L, "pb": 1 + t}),
        cj("cross-free", "tiny+noq+android", menu=["L1", "h16376", "x"], **{**L, "len": 2, "pb": 1 + t}),
        cj("three-threads", "tiny+noq+android", menu=["L1", "m16376", "f", "m40000"], **{**L, "threads": 3, "pb": 1 + t}),
        cj("first-call", "tiny+android", uninit=1, menu=M + ["m100", "m40000", "n", "q"], checkcap=0, **{**L, "own": 0, "pb": 1 + t}),
        cj("default", "default+android", menu=M + ["m16376", "m140000", "f", "r200000"], checkcap=0, **{**L, "pb": 1 + t}),
        job("first", "tiny+stats+android", "init", what="first,queries", faults=1 + t, wall=W),
        cj("light", "light+android", menu=M + ["m16376", "m140000", "f", "r200000"], checkcap=0, **{**L, "pb": 1 + t}),
    ]


@prop("C34", rule="every kind of error x every pattern of answers of write(2) with at most that many short (every length), failing and interrupted writes, executed on the real code",
      technique="exhaustive bounded exploration of the answers of the environment (short, interrupted, failing writes) on the real fatal error path")
def c34(t):
    W = 20 + 500 * t
    return [
        job("writes", "default", "fatal", deviations=2 + t, interrupts=t, wall=60 + 500 * t),
        job("interrupts", "default", "fatal", deviations=1, interrupts=2 + t, wall=60 + W),
        job("light", "light", "fatal", deviations=1, interrupts=1, wall=W),
        job("bare", "tiny+nocan+noq", "fatal", deviations=1, interrupts=1, wall=W),
        job("seal", "tiny+seal", "fatal", deviations=1, interrupts=1, wall=W),
        job("android", "tiny+android", "fatal", wall=W),
    ]

also("C05", lambda t: [rj("division", "default", what="divide", wall=100)])

for _p in ("C20", "C21"):
    also(_p, lambda t: [job("loading", "default+self", "init", what="selfinit"), job("loading-light", "light+self", "init", what="selfinit"), job("loading-sealed", "tiny+seal+self", "init", what="selfinit")])
