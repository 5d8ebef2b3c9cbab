"""The checks: per property, the harness entry points, their bounds and budgets."""
from vp.run import Cfg

CHECKS = {}
NOT_APPLICABLE = {}


def prop(pid, configs, **kw):
    CHECKS[pid] = dict(configs=configs, **kw)


def hull(entry, harness, rows, **kw):
    """rows: (shape, range, symbolic coordinates, extra params, tier)"""
    cs = []
    for shape, m, ss, extra, tier in rows:
        p = dict(shape=shape, m=m, **{"s%d" % i: s for i, s in enumerate(ss)})
        p.update(extra)
        cs.append(Cfg(entry, harness, params=p, tier=tier, expect=["hull"], bounds="shape %d, coordinates %s +-%d" % (shape, ss, m), **kw))
    return cs


prop("P01", hull("p01_hull", "p01.cpp", [
    (0, 2, [0, 1, 2, 3], {}, "both"),
    (1, 4, [6, 7, 0], {}, "both"),
    (2, 15, [8, 9], {}, "both"),
    (3, 3, [8, 9, 0], {}, "both"),
    (4, 3, [0, 1, 2, 3], {}, "both"),
    (5, 3, [0, 1, 7], {}, "both"),
    (6, 3, [0, 1, 8], {}, "both"),
    (7, 4, [2, 3], {}, "both"),
    (10, 2, [3, 7, 11], {}, "both"),
    (11, 2, [12, 13, 14], {}, "both"),
    (12, 1, [21, 22, 23], {}, "both"),
    (13, 2, [0, 1, 2], {}, "both"),
    (14, 2, [0, 1, 14], {}, "both"),
    (15, 2, [12, 13, 14], {}, "both"),
    (20, 1, [20, 21], {}, "both"),
    (25, 1, [14, 16, 17], dict(inner=58), "both"),
    (25, 1, [0, 1, 2], dict(inner=60), "both"),
    (25, 1, [9, 10, 17], dict(inner=121), "both"),
]) + hull("p01_hull", "p01.cpp", [      # the last number of points for each size of the incidence sets, and the next
    (25, 1, [0, 10], dict(inner=32 * words + more - 6), "both") for words in (1, 2, 3, 4, 6, 8, 10, 12, 16, 20, 30, 40, 50, 75, 100, 150, 200) for more in (0, 1)
], instr=600000000) + hull("p01_hull", "p01.cpp", [      # higher dimensions, repeated points, degenerate positions
    (919, 1, [62], {}, "both"), (919, 1, [60], dict(rot=19), "both"),
    (58, 1, [20, 25], {}, "both"), (58, 1, [1, 8], {}, "both"), (58, 1, [30, 34], dict(rot=2), "both"),
    (59, 1, [25, 44], dict(primes=3), "both"), (59, 1, [11], dict(primes=3, rev=1), "both"),
    (60, 1, [16, 17, 34], {}, "both"), (60, 1, [0, 3], dict(rot=5), "both"),
    (61, 2, [1, 6], {}, "both"), 
    (63, 1, [30, 35], dict(primes=3), "both"), (63, 1, [36, 37], dict(primes=3, rev=1), "both"), (64, 1, [8, 9, 18], {}, "both"), (64, 1, [2, 13], dict(rot=3), "both"),
] + [(2000 + k, 1, [(5 * k) % 36], dict(primes=3), "both") for k in range(24) if k != 8], instr=600000000) + hull("p01_cli", "p01.cpp", [
    (2, 4, [8, 9], {}, "both"),
    (5, 2, [0, 7], {}, "both"),
    (11, 1, [12, 13, 14], {}, "both"),
]))

P02 = []
for ad in (0, 1):
    P02 += hull("p02_cli", "p02.cpp", [(a, b, c, dict(d, ad=ad), e) for a, b, c, d, e in [
        (40, 2, [4, 5], {}, "both"),
        (41, 3, [0, 1], {}, "both"),
        (42, 3, [0, 1], {}, "both"),
        (43, 1, [0, 4, 8], {}, "both"),
        (44, 1, [2, 5, 8], {}, "both"),
        (45, 1, [12, 13], {}, "both"),
        (46, 2, [4, 5], {}, "both"),
        (47, 1, [0, 1, 6], {}, "both"),
        (48, 3, [3, 4], {}, "both"),
        (49, 1, [0, 1], {}, "both"),
        (50, 1, [0, 9, 10], {}, "both"),
        (51, 2, [2, 3], {}, "both"),
        (52, 1, [3, 4, 6], {}, "both"),
        (53, 1, [0, 1, 2, 3, 5], {}, "both"),
        (53, 1, [2, 4, 5, 6, 7], dict(rev=1), "both"),
        (54, 1, [1, 2, 3, 8], {}, "both"),
        (54, 1, [4, 9, 13, 16], dict(rot=2), "both"),
        (55, 1, [5, 6, 7, 8, 9], {}, "both"),
        (55, 2, [0, 6, 8], dict(rev=1), "both"),
        (56, 1, [1, 2, 4, 7], {}, "both"),
        (56, 1, [0, 3, 8, 9], dict(rot=1), "both"),
        (57, 1, [2, 5, 8, 9], {}, "both"),
        (57, 2, [0, 7], dict(rev=1), "both"),
    ]])
prop("P02", P02)


P03 = []
for ad in (0, 1):
    P03 += hull("p03_cli", "p03.cpp", [(a, b, c, dict(d, ad=ad), e) for a, b, c, d, e in [
        (0, 2, [2, 8, 6], {}, "both"),
        (1, 2, [8, 6, 11], {}, "both"),
        (2, 2, [6, 7, 8], {}, "both"),
        (3, 2, [14, 12], {}, "both"),
        (4, 1, [15, 3], {}, "both"),
        (5, 1, [7, 15], {}, "both"),
        (6, 3, [0, 1, 3], {}, "both"),
        (7, 3, [0, 1], {}, "both"),
        (8, 1, [2, 5, 6], {}, "both"),
        (9, 1, [8, 11], {}, "both"),
        (10, 1, [2, 5, 8], {}, "both"),
        (11, 1, [24, 29], {}, "both"),
        (12, 2, [0, 4], {}, "both"),
        (13, 2, [1, 4, 2], {}, "both"),
        (14, 1, [4, 6, 7], {}, "both"),
        (15, 1, [3], {}, "both"),
        (16, 2, [2, 3, 7], {}, "both"),
        (17, 1, [0, 4], dict(digits=2), "both"),
        (18, 1, [3, 19], dict(digits=2), "both"),
        (19, 1, [35, 30], {}, "both"),
        (20, 1, [41], {}, "thorough"),
        (20, 1, [29, 35], dict(rot=3), "thorough"),
        (21, 1, [2, 26], {}, "both"),
        (0, 2, [2, 8], dict(u0=12, u1=8, digits=3), "both"),
        (3, 1, [12, 14], dict(u0=10, u1=30, digits=3), "both"),
        (9, 1, [8], dict(u0=6, u1=15, u2=10, digits=3), "both"),
        (12, 1, [2, 5], dict(u0=14, u1=21, digits=3), "both"),
        (135, 2, [2, 95], dict(digits=2), "both"),
        (136, 2, [8, 98], dict(rev=1, digits=2), "both"),
    ]])
    P03 += hull("p03_eq", "p03.cpp", [(a, b, c, dict(d, ad=ad), e) for a, b, c, d, e in [
        (0, 1, [2, 0, 8], dict(equations=1), "both"),
        (3, 1, [12, 14, 2], dict(equations=1, rot=4), "both"),
        (4, 1, [3, 15], dict(equations=2), "both"),
        (11, 1, [24, 25], dict(equations=1, rot=4), "both"),
        (12, 2, [0, 2], dict(equations=2), "both"),
    ]])
prop("P03", P03)

prop("P04", hull("p04_facets", "p04.cpp", [
    (0, 2, [2, 3, 4, 5], {}, "both"),
    (1, 3, [6, 7, 0], {}, "both"),
    (2, 7, [8, 9], {}, "both"),
    (7, 3, [2, 3, 8], {}, "both"),
    (30, 7, [0, 1, 2], {}, "both"),
    (10, 2, [3, 7, 11], {}, "both"),
    (11, 1, [12, 13, 14], {}, "both"),
    (12, 1, [21, 22, 23], {}, "both"),
    (13, 1, [0, 1, 2], {}, "both"),
    (16, 1, [12, 13, 14], {}, "both"),
    (20, 1, [20, 21], {}, "both"),
    (1010, 1, [3, 13], {}, "both"), (1040, 1, [21], {}, "both"), (1070, 0, [], {}, "both"),
], instr=600000000) + hull("p04_vertices", "p04.cpp", [
    (0, 2, [2, 5, 8], {}, "both"),
    (3, 2, [12, 14], {}, "both"),
    (4, 1, [15, 3, 7], {}, "both"),
    (15, 1, [3, 7], {}, "both"),
    (11, 1, [24, 29], {}, "both"),
]))

P05 = hull("p05_cli", "p05.cpp", [
    (1, 3, [6, 7], {}, "both"),
    (7, 2, [2, 3], {}, "both"),
    (5, 2, [0, 7], {}, "both"),
    (6, 2, [0, 3], {}, "both"),
    (4, 2, [0, 3], {}, "both"),
    (11, 1, [12, 13, 14], {}, "both"),
    (12, 1, [21, 22, 23], {}, "both"),
    (14, 1, [0, 1, 14], {}, "both"),
    (15, 1, [12, 13], {}, "both"),
    (16, 1, [12, 13, 14], {}, "both"),
    (43, 1, [0, 4], {}, "both"),
    (44, 1, [2, 5], {}, "both"),
    (47, 1, [0, 6], {}, "both"),
    (20, 1, [20, 21], {}, "both"),
])
P05 += hull("p05_cli", "p05.cpp", [(a, b, c, dict(facets=0), "both") for a, b, c in [
    (0, 1, [2, 8]), (3, 1, [14, 12]), (5, 1, [7, 15]), (4, 1, [15, 3]), (9, 1, [8, 11]), (13, 1, [1, 4]), (14, 1, [4, 7])]])


def sched(shape, m, ss, params, preempt, tier="both", **kw):
    p = dict(shape=shape, m=m, threads=2, **{"s%d" % i: s for i, s in enumerate(ss)})
    p.update(params)
    return Cfg("p05_cli", "p05.cpp", params=p, tier=tier, mode="thr", explore=True, preempt=preempt, expect=["both"],
               name="p05_schedules%s,preempt=%s" % ("".join(",%s=%s" % kv for kv in sorted(p.items())), preempt),
               bounds="shape %d, coordinates %s +-%d, %d worker threads, at most %d preemptions" % (shape, ss, m, p["threads"], preempt), **kw)


P05 += [
    sched(0, 1, [], {}, 2),
    sched(1, 0, [], {}, 1),
    sched(1006, 0, [], {}, 1),
    sched(1005, 0, [], {}, 1),
    sched(1005, 0, [], {}, 2, tier="thorough"),
    sched(1006, 0, [], dict(threads=3), 1, tier="thorough"),
    sched(1006, 1, [1], {}, 1),
    sched(22, 1, [], {}, 2),
    sched(0, 1, [], {}, 1, race=True),
    sched(5, 1, [], {}, 1),
    sched(0, 1, [3], {}, 1),
    sched(6, 1, [], dict(facets=0), 2),
    sched(0, 1, [], dict(threads=3), 0),
]
P05 += [    # other integer types and maps, with data race detection
    sched(0, 1, [], dict(type=t, scale=sc), 1, race=True, variant="flex") for t, sc in ((0, 1), (2, 1), (3, 1), (4, 50000), (4, 300000007))] + [
    sched(10, 0, [], dict(type=4, facets=1, scale=300000007), 1, race=True, variant="flex"),
    sched(12, 0, [], dict(family=1), 0, race=True), sched(0, 0, [], dict(family=0), 1, race=True), sched(12, 0, [], dict(), 0, race=True), sched(6, 1, [], dict(facets=0), 1, race=True),
    sched(4, 0, [], dict(facets=0, family=1), 0, race=True)]
prop("P05", P05)

INT_MAX, INT64_MAX = 2 ** 31 - 1, 2 ** 63 - 1


def big(op, tier="both", entry="p08_ops", **p):
    return Cfg(entry, "p08.cpp", variant="flex", params=dict(op=op, **p), tier=tier, expect=["op"], bounds="operands base + symbolic part, %s" % p)


F = INT64_MAX
P08 = []
for op in (0, 1, 5):
    P08 += [big(op, am=F, bm=F, asign=x, bsign=y, **e) for x in (1, -1) for y in (1, -1) for e in (dict(), dict(ahim=2), dict(bhim=2), dict(ahi=1, bhi=1), dict(ahi=1, bhi=2), dict(ahi=2, bhi=1))]
P08 += [big(6, ahim=2, am=F), big(7, ahim=2, am=F), big(0, entry="p08_int", ahim=1, am=F), big(0, entry="p08_make")]
P08 += [big(0, entry="p08_digits", x2=x, minus=y) for x in (0, 1, -1) for y in (0, 1)]
for op in (2, 3, 4):
    P08 += [big(op, alo=2 ** 31, am=8, blo=9, bm=9), big(op, alo=2 ** 40, am=20, blo=9, bm=9), big(op, alo=2 ** 40, am=9, blo=2 ** 33, bm=9), big(op, ahi=1, am=9, blo=9, bm=9),
            big(op, alo=46341, am=9, blo=46341, bm=9), big(op, alo=5, am=5, bhi=0 if op == 2 else 1, blo=2 ** 40, bm=9)]
P08 += [big(3, ahi=3, am=5, bhi=1, bm=5), big(4, ahi=3, am=5, bhi=1, bm=5), big(8, alo=46341, am=40), big(8, alo=2 ** 33, am=40), big(9, ahi=1, am=40), big(9, alo=2 ** 33, am=40)]
for n, am, bm in ((3, 7, 7), (4, 6, 15), (5, 0x15, 0x0e)):
    for pattern in range(0, 6, 2 if n > 3 else 1):
        P08 += [big(0, entry="p08_long", n=n, amask=am, bmask=bm, pattern=pattern, negative=g) for g in (0, 3)] + [big(1, entry="p08_long", n=n, amask=am & ~(1 << n - 1), bmask=bm & ~(1 << n - 1), pattern=pattern, negative=pattern % 4)]
        P08 += [big(2, entry="p08_long", n=n, amask=am, bmask=bm & 5, pattern=pattern)]
        P08 += [big(3, entry="p08_long", n=n, amask=0, bmask=bm & 11, pattern=pattern, k=k, negative=(pattern + k) % 4) for k in (3, 2 ** 32 - 1, 2 ** 62 + 1)]
P08 += [big(0, entry="p08_long", n=3, amask=2, bmask=2, pattern=1, negative=g) for g in (1, 2)]
prop("P08", P08)


def safe(op, tier="both", **p):
    return Cfg("p07_ops", "p07.cpp", variant="flex", params=dict(op=op, **p), tier=tier, expect=["op"],
               bounds="operands over the whole 64-bit range unless am/bm bounds them to base +- m: %s" % p)


P07 = [safe(op) for op in (0, 1, 5, 8)] + [safe(op, bm=0) for op in (6, 7, 10)]
for base in (0, 2 ** 31, -2 ** 31, 2 ** 32 + 1, 3037000500, 2 ** 62, -2 ** 62, F, -F):
    P07 += [safe(2, blo=base, bm=4 if base >= 0 else 1, beach=1)]
    P07 += [safe(2, alo=base, am=9, blo=x, bm=40) for x in ((F // base, -F // base) if base else (0, F, -F))]
    # quotients and remainders: both operands in windows (64-bit division of two unbounded symbols is out of reach),
    # divisors near the ends of the range with an unbounded dividend
    P07 += [safe(op, blo=base, bm=15, alo=other, am=60) for op in (3, 4) for other in (0, 2 ** 33, F, -F) if not (op == 4 and base < 0)]
    if abs(base) >= 2 ** 62:
        P07 += [safe(op, blo=base, bm=4, beach=1) for op in (3, 4) if not (op == 4 and base < 0)]
P07 += [safe(9, alo=base, am=50) for base in (0, 3037000499, -3037000499, 2 ** 32, F, -F)]
prop("P07", P07)


P09 = []
for t in range(5):
    def g(t=t, tier="both", **p):
        return Cfg("p09_pair", "p09.cpp", variant="flex", params=dict(type=t, **p), tier=tier, expect=["op"], bounds="integer type %d, operands base +- m (base 1/-1: ends of the range): %s" % (t, p))
    P09 += [g(am=24, bm=24), g(abase=-1, am=20, bm=20), g(am=20, bbase=-1, bm=20), g(abase=1, am=12, bbase=-1, bm=12), g(abase=-1, am=12, bbase=-1, bm=12), g(abase=1, am=12, bbase=1, bm=12),
            g(abase=30030, am=20, bbase=2310, bm=20), g(am=60, bm=60, tier="thorough"), g(abase=-1, am=60, bm=60, tier="thorough")]
    P09 += [Cfg("p09_row", "p09.cpp", variant="flex", params=dict(type=t, n=n, m=m), expect=["op"], bounds="integer type %d, rows of %d entries in +-%d" % (t, n, m)) for n, m in ((0, 0), (1, 100), (2, 12), (3, 4))]
prop("P09", P09)


P10 = []
for t in range(5):
    def r10(op, t=t, entry="p10_ops", tier="both", **p):
        return Cfg(entry, "p10.cpp", variant="flex", params=dict(type=t, op=op, **p), tier=tier, expect=["op"], bounds="integer type %d, symbolic entries in +-m: %s" % (t, p))
    P10 += [r10(0, n=2, m=3), r10(1, n=2, m=3), r10(0, n=1, m=30), r10(1, n=1, m=30), r10(2, n=2, m=7), r10(3, n=2, m=7), r10(4, n=2, m=3), r10(4, n=1, m=30), r10(5, n=3, m=4), r10(5, n=2, m=13),
            r10(6, n=1, m=3, count=3), r10(6, n=2, m=1, count=3 if t in (0, 2) else 2), r10(0, n=0, m=0)]
    P10 += [r10(0, entry="p10_modulo", n=3, rows=1, m=2), r10(0, entry="p10_modulo", n=3, rows=1, m=2, which=1), r10(0, entry="p10_modulo", n=3, rows=2, m=2, p=3),
            r10(0, entry="p10_modulo", n=3, rows=1, m=1, q0=0), r10(0, entry="p10_modulo", n=3, rows=1, m=1, q0=1, which=1, p0_0=0),
            r10(0, entry="p10_modulo", n=3, rows=2, m=1, q0=0, q1=2), r10(0, entry="p10_modulo", n=4, rows=2, m=1, p1_0=-1, p0_2=0, which=1), r10(0, entry="p10_modulo", n=2, rows=3, m=3)]
for t in range(5):     # long rows: some entries arbitrary
    for n in (5, 8, 11):
        if t < 3:
            P10 += [r10(op, t=t, n=n, m=3) for op in (0, 1, 2, 4)]
        else:
            P10 += [r10(op, t=t, n=n, m=2, first=f, free=2 if op != 4 else 1) for op in (0, 1, 2, 4) for f in (0, n - 2)]
    P10 += [r10(op, t=t, n=n, m=2, first=f, free=2 if t > 2 else 3) for op, n, f in ((3, 9, 6), (5, 9, 6), (5, 13, 4), (5, 8, 0))] + [r10(6, t=t, n=9, m=1, count=2, first=7, free=2 if t < 3 else 1)]
P10 += [r10(op, t=t, n=33, m=3) for op in (0, 1, 2, 4) for t in (0, 2)] + [r10(6, n=2, m=1, count=7, first=0, free=1), r10(6, n=3, m=1, count=5, first=1, free=1)]
prop("P10", P10)

P17 = []
for t, bits, cap in ((0, 1, 1), (0, 5, 5), (0, 31, 31), (0, 32, 32), (0, 33, 33), (0, 64, 64), (0, 65, 65), (0, 32, 96), (0, 40, 96), (0, 64, 96), (1, 1, 32), (1, 20, 32), (1, 32, 32), (2, 1, 64), (2, 32, 64), (2, 33, 64), (2, 64, 64),
                     (3, 64, 96), (3, 65, 96), (3, 96, 96)):
    P17 += [Cfg("p17_ops", "p17.cpp", params=dict(type=t, bits=bits, capacity=cap, op=op), expect=["op"], bounds="sets over %d elements with arbitrary contents" % bits) for op in range(8)]
    if bits > 33:
        P17 += [Cfg("p17_ops", "p17.cpp", params=dict(type=t, bits=bits, capacity=cap, op=4, first=5), expect=["op"], bounds="sets over %d elements, six of them arbitrary" % bits)]
for t, bits, cap in ((0, 96, 96), (0, 97, 97), (0, 127, 127), (0, 128, 128), (0, 129, 320), (0, 160, 160), (0, 193, 193), (0, 257, 320), (0, 320, 320), (4, 97, 128), (4, 127, 128), (4, 128, 128), (6, 128, 192), (6, 129, 192), (6, 161, 192), (6, 192, 192),
                     (8, 128, 256), (8, 193, 256), (8, 255, 256), (8, 256, 256), (10, 256, 320), (10, 257, 320), (10, 289, 320), (10, 320, 320)):
    for op in range(8):
        P17 += [Cfg("p17_ops", "p17.cpp", params=dict(type=t, bits=bits, capacity=cap, op=op, **x), expect=["op"], bounds="sets over %d elements, %s" % (bits, "six of them arbitrary" if op in (3, 4) else "two words arbitrary"))
                for x in ([dict(first=f) for f in (0, 5, 11, 15, 20) if f < 1 or bits > (0, 33, 95, 160, 224)[(0, 5, 11, 15, 20).index(f)]] if op in (3, 4) else [dict(window=w) for w in range(0, (bits + 31) // 32, 1 if op in (1, 5) else 3)])]
prop("P17", P17)

P21 = []
for t in range(5):
    def m21(op, rows, cols, m, ss, t=t, tier="both", **p):
        return Cfg("p21_ops", "p21.cpp", variant="flex", params=dict(type=t, op=op, rows=rows, cols=cols, m=m, **dict(p, **{"s%d" % i: s for i, s in enumerate(ss)})), tier=tier, expect=["op"],
                   bounds="integer type %d, %dx%d matrices, entries %s in +-%d" % (t, rows, cols, ss, m))
    for op in (0, 1, 2):
        P21 += [m21(op, 1, 1, 9, [0]), m21(op, 1, 3, 5, [0, 1, 2]), m21(op, 2, 2, 3, [0, 1, 2, 3]), m21(op, 3, 2, 1, [0, 1, 2, 3, 4, 5]), m21(op, 2, 3, 1, [0, 1, 2, 3, 4, 5]),
                m21(op, 3, 3, 2, [0, 4, 8], shift=1), m21(op, 3, 3, 2, [0, 1, 2], dup=2), m21(op, 3, 3, 2, [3, 4, 5], zero=0), m21(op, 4, 3, 1, [0, 4, 8, 11]), m21(op, 3, 4, 1, [0, 5, 10, 3], zero=1)]
    for op in (0, 1, 2) if t == 0 else (1,):
        P21 += [m21(op, 2, 3, 2, [0, 1, 3, 4]), m21(op, 2, 3, 2, [0, 2, 4, 5], shift=1), m21(op, 2, 3, 3, [1, 2, 3], shift=2), m21(op, 2, 4, 2, [0, 3, 5], shift=2), m21(op, 3, 4, 2, [0, 5, 7], shift=3)]
    for op in (0, 1, 2) if t == 1 else (t % 3,):
        P21 += [m21(op, 1, 5, 1, [0, 1, 2, 3, 4]), m21(op, 2, 5, 1, [0, 1, 2, 3, 5, 6]), m21(op, 2, 5, 1, [2, 3, 4, 7, 8, 9], shift=3), m21(op, 2, 6, 1, [0, 2, 4, 7, 9], shift=4), m21(op, 5, 3, 1, [0, 4, 8, 11, 13], shift=2), m21(op, 4, 4, 1, [0, 5, 10, 15], shift=5, dup=2)]
    if t != 3:
        P21 += [m21(op, r, c, 1, ss, shift=sh, big=1) for op in (0, 1, 2) for r, c, ss, sh in ((6, 5, [7, 22], 0), (9, 4, [5, 30], 1), (7, 7, [8, 24], 2), (5, 9, [0, 31], 3), (20, 5, [42, 96], 1), (34, 3, [40, 100], 2), (8, 8, [9, 62], 4)) if (t != 1 or c < 5) and (t < 3 or c < 7)]
        P21 += [m21(3, r, c, 2, [7, 11], shift=1, big=1) for r, c in ((9, 5), (5, 9), (17, 3), (3, 18))]
    P21 += [m21(3, 2, 3, 1, [0, 4]), m21(3, 1, 1, 9, [0]), m21(3, 3, 2, 2, [1, 5])]
prop("P21", P21)



def sym(entry="p06_cli", tier="both", **p):
    ss = p.pop("ss", [])
    p.update({"s%d" % i: s for i, s in enumerate(ss)})
    return Cfg(entry, "p06.cpp", params=p, tier=tier, expect=["both"], bounds=str(p))


P06 = []
for fam, m, p in ((0, 4, {}), (1, 4, {}), (2, 4, {}), (4, 4, {}), (6, 4, {}), (8, 4, {}), (11, 4, {}), (3, 2, {}), (5, 2, {}), (12, 2, {}), (10, 20, {})):
    P06 += [sym("p06_class", family=fam, m=m, facets=1), sym("p06_class", family=fam, m=m, facets=0, last=1), sym("p06_class", family=fam, m=m, facets=0, last=0)]
for red in (0, 1):
    P06 += [sym(family=0, base=2, m=2, ss=[0, 1, 2], reduced=red), sym(family=0, base=3, m=1, ss=[0, 1, 2, 5], l2=0, b2_0=1, b2_1=2, reduced=red),
            sym(family=1, base=2, m=1, ss=[0, 1], b0_0=3, b0_1=1, b1_0=2, b1_1=2, reduced=red), sym(family=2, base=3, m=2, ss=[0, 1, 4], reduced=red), sym(family=4, base=3, m=2, ss=[0, 1, 3], reduced=red),
            sym(family=6, base=2, m=2, ss=[0, 1, 3], reduced=red), sym(family=8, base=3, m=2, ss=[0, 3], reduced=red), sym(family=11, base=2, m=2, ss=[0, 1], reduced=red),
            sym(family=3, base=1, m=1, ss=[0, 1, 2], b0_0=0, b0_1=1, b0_2=3, plane=1, reduced=red), sym(family=3, base=2, m=1, ss=[0, 4], b1_0=0, b1_1=0, b1_2=0, reduced=red),
            sym(family=5, base=2, m=1, ss=[0, 1, 4], plane=2, digits=2, reduced=red), sym(family=5, base=3, m=1, ss=[0, 4], plane=2, digits=2, b2_0=2, b2_1=2, reduced=red), sym(family=9, base=4, m=1, ss=[0, 5], reduced=red),
            sym(family=12, base=2, m=1, ss=[0, 4], b1_0=1, b1_1=1, b1_2=0, reduced=red), sym(family=7, base=1, m=1, ss=[0], b0_0=1, b0_1=0, b0_2=0, reduced=red), sym(family=10, base=2, m=2, ss=[0, 1], reduced=red)]
P06 += [sym(family=0, base=2, m=2, ss=[0, 1], reduced=1, dd=1), sym(family=1, base=2, m=1, ss=[0, 1], reduced=1, dd=1), sym(family=3, base=2, m=1, ss=[0], b1_0=0, b1_1=0, b1_2=0, reduced=1, dd=1),
        sym(family=4, base=3, m=1, ss=[0, 1], l2=0, b2_0=0, b2_1=1, reduced=1, dd=1)]
for red in (0, 1):
    P06 += [sym(facets=0, family=0, base=2, m=1, ss=[0, 1], l0=-3, l1=0, b1_0=-1, b1_1=0, reduced=red), sym(facets=0, family=1, base=1, m=1, ss=[0, 1], l0=-4, b0_0=2, b0_1=1, reduced=red),
            sym(facets=0, family=2, base=2, m=1, ss=[0, 3], l0=-2, l1=-3, reduced=red), sym(facets=0, family=4, base=2, m=1, ss=[0, 1], l0=-4, l1=-3, b1_0=0, b1_1=-1, reduced=red),
            sym(facets=0, family=3, base=2, m=1, ss=[0], l0=-4, b0_0=2, b0_1=1, b0_2=1, l1=0, b1_0=-1, b1_1=0, b1_2=0, reduced=red), sym(facets=0, family=6, base=1, m=1, ss=[0, 1], l0=-3, reduced=red),
            sym(facets=0, family=12, base=3, m=1, ss=[0], l0=-1, l1=-2, l2=-2, b0_0=2, b0_1=0, b0_2=0, b1_0=0, b1_1=0, b1_2=1, b2_0=0, b2_1=0, b2_2=-1, reduced=red)]
    P06 += [sym(facets=0, dd=1, family=0, base=2, m=1, ss=[0, 1], l0=-3, l1=0, b1_0=-1, b1_1=0, reduced=red), sym(facets=0, dd=1, family=2, base=2, m=1, ss=[0, 3], l0=-2, l1=-3, reduced=red),
            sym(dd=1, family=5, base=2, m=1, ss=[0, 4], plane=2, digits=2, reduced=red), sym(dd=1, family=9, base=4, m=1, ss=[0], reduced=red)]
for red in (0, 1):
    for dd in (0, 1):
        P06 += [sym(facets=0, family=3, base=1, m=1, ss=[0, 1], l0=0, b0_0=-1, b0_1=0, b0_2=0, eq=1, reduced=red, dd=dd), sym(facets=0, family=9, base=2, m=1, ss=[0, 3], l0=0, b0_0=-1, b0_1=0, b0_2=0, l1=0, b1_0=0, b1_1=0, b1_2=-1, eq=1, reduced=red, dd=dd),
                sym(facets=0, family=5, base=2, m=1, ss=[0, 4], l0=0, b0_0=-1, b0_1=0, b0_2=0, l1=-3, b1_0=0, b1_1=1, b1_2=0, eq=2, digits=2, reduced=red, dd=dd)]
P06 += [Cfg("p06_orbit", "p06.cpp", params=p, expect=["both"], instr=600000000, bounds=str(p)) for p in (dict(n=4), dict(n=4, sign=1, at=2), dict(n=5, at=1), dict(n=5, facets=0, many=1, last=1, at=4), dict(n=3, sign=1, many=1, last=0),
        dict(n=6, many=1, at=5, every=7, end=1), dict(n=6, facets=0, last=0, every=50), dict(n=5, sign=1, at=3, every=100), dict(n=7, at=2, every=1000, end=1))]
prop("P06", P06)


def known(shape, m, ss, tier="both", **p):
    p.update(shape=shape, m=m, **{"s%d" % i: s for i, s in enumerate(ss)})
    return Cfg("p23_cli", "p23.cpp", params=p, tier=tier, expect=["both"], bounds="shape %d, coordinates %s +-%d, %s" % (shape, ss, m, p))


def known_sched(shape, preempt, tier="both", race=False, **p):
    p.update(shape=shape, m=0)
    p.setdefault("threads", 2)
    return Cfg("p23_cli", "p23.cpp", params=p, tier=tier, mode="thr", explore=True, preempt=preempt, race=race, expect=["both"],
               name="p23_schedules%s,preempt=%s%s" % ("".join(",%s=%s" % kv for kv in sorted(p.items())), preempt, ",race" if race else ""),
               bounds="%s, at most %d preemptions of the workers and the thread that adds known rows" % (p, preempt))


P23 = [
    known(0, 1, [2, 5]), known(1, 2, [6], times=2), known(2, 1, [8], multiple=2, window=2), known(1, 1, [7], multiple=3, window=2, first=1, reverse=1), known(4, 1, [0, 3]), known(5, 1, [0, 7], reverse=1, times=2),
    known(7, 1, [2]), known(11, 1, [14], window=5), known(12, 0, [], window=6), known(14, 1, [14], window=3), known(10, 1, [3], spelling=1), known(6, 1, [0], spelling=2), known(30, 2, [0], spelling=3, multiple=3),
    known(43, 1, [0], window=3), known(43, 1, [0], window=2, shift=1), known(44, 1, [2], window=3, shift=1, multiple=2), known(45, 1, [12], window=3, shift=1), known(47, 1, [0], window=2), known(40, 1, [4], window=2, shift=1),
    known(48, 1, [3], window=2), known(51, 1, [2], window=2),
    known(1, 0, [], family=0, window=4), known(1, 0, [], family=2, window=4, times=2), known(12, 0, [], family=1, window=4), known(10, 0, [], family=1, window=4, multiple=2), known(43, 0, [], family=1, window=3, shift=1),
    known(1, 1, [6], named=1), known(5, 1, [7], named=1), known(44, 1, [2], named=1), known(1, 0, [], named=1, family=0),
]
P23 += [known(a, b, c, facets=0, **d) for a, b, c, d in [
    (0, 1, [2, 8], {}), (1, 1, [8], dict(times=2)), (2, 1, [6], dict(multiple=2, window=2)), (3, 1, [14], dict(window=5)), (5, 1, [7], dict(window=3, spelling=3)), (4, 0, [], dict(window=6)), (9, 1, [8], dict(reverse=1)),
    (14, 1, [4], dict(multiple=2, window=2, first=1)), (12, 1, [0], dict(multiple=2, window=3)), (13, 1, [4], dict(window=3, spelling=2)), (16, 1, [2], dict(window=3, multiple=2)), (6, 2, [0], dict(spelling=1)),
    (0, 0, [], dict(family=0)), (0, 0, [], dict(family=2, times=2)), (4, 0, [], dict(family=1, window=5)), (8, 1, [2], dict(window=2))]]
P23 += [known_sched(0, 1, subset=1), known_sched(0, 1, subset=7, race=True), known_sched(22, 1, subset=1), known_sched(6, 2, facets=0, subset=3), known_sched(0, 1, facets=0, subset=5), known_sched(6, 1, facets=0, subset=3, race=True),
        known_sched(1, 0, subset=5, threads=3), known_sched(5, 1, subset=2), known_sched(6, 2, facets=0, subset=2, threads=1)]
prop("P23", P23)


def opt(entry, tier="both", **p):
    return Cfg(entry, "p14.cpp", params=p, tier=tier, expect=["options"], bounds=str(p))


P14 = []
for mask in range(256):
    if bin(mask).count("1") in (0, 1, 2) or mask in (0b111, 0b1011, 0b1101, 0b10101, 0b10011, 0b100011, 0b1000011, 0b10000011, 0b11000001, 0b1100001):
        P14 += [opt("p14_positions", mask=mask)]
P14 += [opt("p14_value", kind=1, length=n) for n in (0, 1, 2)] + [opt("p14_value", kind=2, length=n) for n in (0, 1, 2)] + [opt("p14_value", kind=2, length=3, prefix=3), opt("p14_value", kind=2, length=3)]
P14 += [opt("p14_value", kind=3, length=n) for n in (0, 1, 2, 3)] + [opt("p14_value", kind=4, length=n, prefix=x) for n, x in ((0, 0), (1, 0), (2, 0), (3, 0), (1, 1), (2, 1), (3, 1), (4, 1), (1, 2), (2, 2), (3, 2), (4, 2), (2, 4), (2, 5))]
P14 += [opt("p14_word", prefix=x, length=n, more=m) for m in (0, 1) for x, n in [(0, 1), (0, 2), (0, 3), (1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1), (4, 1), (5, 1), (6, 1), (6, 2), (7, 1), (8, 1), (8, 2), (9, 1), (9, 2), (10, 1), (11, 1), (12, 1), (13, 1), (14, 1), (15, 1), (16, 1), (17, 1)]]
P14 += [opt("p14_errors", what=w) for w in range(4)] + [opt("p14_help", what=w) for w in range(3)] + [opt("p14_help", what=3, length=n) for n in (0, 1, 2)] + [opt("p14_help", what=4), opt("p14_runs")]
P14 += [opt("p14_value", kind=k, length=n, word=w) for k, words in ((1, 4), (2, 5), (4, 14)) for w in range(words) for n in (0, 1)] + [opt("p14_value", kind=2, length=2, word=w) for w in (0, 3, 4)]
prop("P14", P14)


def p24(entry, mode="san", tier="both", **p):
    x = dict(explore=True, preempt=2, race=True) if mode == "thr" else {}
    return Cfg(entry, "p24.cpp", params=p, tier=tier, mode=mode, expect=["op"], bounds=str(p), **x)


prop("P24", [p24("p24_scope", count=1), p24("p24_scope", count=2), p24("p24_delayed", unit=0), p24("p24_delayed", unit=1), p24("p24_delayed", unit=2), p24("p24_progress"), p24("p24_joining", mode="thr")] +
     [p24("p24_peek", file=f, length=n, steps=k) for f in (0, 1) for n, k in ((0, 3), (1, 3), (2, 4), (3, 4), (4, 3))] +
     [p24("p24_peek", file=f, length=2, steps=2, fill=n) for f in (0, 1) for n in (80, 260, 1100)] + [p24("p24_guarded", length=2, steps=2, skips=1, fill=n) for n in (260, 1100)] +
     [p24("p24_guarded", length=n, steps=k) for n, k in ((0, 2), (1, 3), (2, 3), (3, 3), (4, 2))])


# named / unnamed constraint lines; (entry, template, names)
ACCEPTED, REJECTED = ["accepted"], ["rejected"]
P11 = [Cfg("p11_named", "p11.cpp", params=dict(t=t), bounds="template %d" % t) for t in range(52)]
P11 += [Cfg("p11_three", "p11.cpp", params=dict(t=t), bounds="template %d" % t) for t in range(5)]
P11 += [Cfg("p11_wide", "p11.cpp", params=dict(t=t), bounds="template %d" % t) for t in range(7)]
P11 += [Cfg("p11_many", "p11.cpp", params=dict(t=t, count=n), bounds="template %d, %d names" % (t, n)) for t in range(6) for n in (12, 33)]
P11 += [Cfg("p11_named", "p11.cpp", params=dict(t=t, pad=n), bounds="template %d, %d blanks on either side" % (t, n)) for t, n in ((0, 100), (2, 600), (5, 1100))]
P11 += [Cfg("p11_unnamed", "p11.cpp", params=dict(t=0, names=0, pad=n), bounds="template 0, %d blanks on either side" % n) for n in (300, 1100)]
P11 += [Cfg("p11_unnamed", "p11.cpp", params=dict(t=t, names=n), bounds="template %d" % t) for t in range(24) for n in (0, 1)]
P11 += [Cfg("p11_named", "p11.cpp", params=dict(t=t, more=n), bounds="template %d, %d further lines" % (t, n)) for t, n in ((2, 9), (13, 17), (36, 33))]
P11 += [Cfg("p11_unnamed", "p11.cpp", params=dict(t=t, names=0, more=n), bounds="template %d, %d further lines" % (t, n)) for t, n in ((0, 9), (9, 17), (20, 33))] + [Cfg("p11_equation", "p11.cpp", params=dict(t=1, more=12), bounds="template 1, 12 further lines"), Cfg("p11_unnamed_equation", "p11.cpp", params=dict(t=0, more=20), bounds="template 0, 20 further lines")]
P11 += [Cfg("p11_equation", "p11.cpp", params=dict(t=t), bounds="template %d" % t) for t in range(7)]
P11 += [Cfg("p11_unnamed_equation", "p11.cpp", params=dict(t=t), bounds="template %d" % t) for t in range(5)]
for c in P11:
    if (c.entry, c.params["t"]) in (("p11_named", 8), ("p11_named", 33), ("p11_named", 34), ("p11_three", 0), ("p11_equation", 4)) or c.entry == "p11_many" and c.params["t"] == 0:
        c.parts = 4
prop("P11", P11)


P13 = [Cfg("p13_line", "p13.cpp", params=dict(t=t, ray=ray, first=first), bounds="template %d" % t) for t in range(52) for ray in (0, 1) for first in (0, 1)]
P13 += [Cfg("p13_line", "p13.cpp", params=dict(t=t, ray=ray, first=first, more=n), bounds="template %d, %d further lines" % (t, n)) for t, n in ((0, 9), (4, 17), (16, 5), (40, 33)) for ray in (0, 1) for first in (0, 1)]
P13 += [Cfg("p13_line", "p13.cpp", params=dict(t=t, ray=ray, first=ray, pad=n), bounds="template %d, %d blanks on either side" % (t, n)) for t, n in ((0, 100), (1, 300), (3, 600), (4, 1100)) for ray in (0, 1)]
prop("P13", P13)


P12 = []
for eq in (0, 1):
    for named in (0, 1):
        P12 += [Cfg("p12_constraint", "p12.cpp", variant="flex", params=dict(t, equation=eq, named=named), bounds="coefficients +-%s" % t["m"], expect=["printed"]) for t in [
            dict(n=2, m=3), dict(n=3, m=1, ln=1), dict(n=1, m=12, crlf=1), dict(n=2, m=2, big=2147483645, big_at=0), dict(n=2, m=2, big=-2147483645, big_at=2, ln=1), dict(n=2, m=1, names=1), dict(n=3, m=1, names=2),
            dict(n=2, m=2, type=64), dict(n=2, m=2, type=16), dict(n=2, m=2, type=1), dict(n=2, m=2, type=2)]]
        P12 += [Cfg("p12_constraint", "p12.cpp", variant="flex", params=dict(t, equation=eq, named=named, names=3), bounds="long rows, %s" % t, expect=["printed"]) for t in [
            dict(n=7, m=2, free=0x0c), dict(n=12, m=2, free=0x801, pattern=3), dict(n=20, m=2, free=0x80100, ln=1, pattern=7), dict(n=33, m=3, free=1 << 32, pattern=1, type=64), dict(n=9, m=2, free=0x3, pattern=4, type=2), dict(n=9, m=1, free=0x188, pattern=9, type=1, crlf=1)]]
P12 += [Cfg("p12_vertex", "p12.cpp", variant="flex", params=t, bounds=str(t), expect=["printed"]) for t in [dict(n=7, m=2, d=4, free=0x18), dict(n=12, m=2, d=12, free=0x800, pattern=4), dict(n=20, m=2, d=6, free=0x80000, pattern=8), dict(n=33, m=3, d=5, free=1 << 32), dict(n=2, m=4, d=4), dict(n=3, m=1, d=3), dict(n=1, m=12, d=12), dict(n=1, m=1, d=2, big=2147483646, big_at=0), dict(n=1, m=1, d=2, big=-2147483646, big_at=0), dict(n=2, m=2, d=2, type=64), dict(n=2, m=2, d=2, type=16), dict(n=2, m=2, d=2, type=1), dict(n=2, m=2, d=2, type=2)]]
P12 += [Cfg("p12_plain", "p12.cpp", variant="flex", params=t, bounds=str(t), expect=["printed"]) for t in [dict(n=12, m=9, free=0x801), dict(n=33, m=9, free=1 << 32), dict(n=2, m=10), dict(n=3, m=2), dict(n=1, m=2, big=2147483645, big_at=0), dict(n=2, m=2, type=64), dict(n=2, m=2, type=16), dict(n=2, m=2, type=1), dict(n=2, m=2, type=2)]]
P12 += [Cfg("p12_wide", "p12.cpp", variant="flex", params=dict(type=t, how=h, at=at, big=b, m=3), bounds="entries %d +-3" % b) for t in (64, 1) for h in (0, 1, 2, 3) for at in (0, 2) for b in (2147483647, -2147483648, 1 << 32, -(1 << 32), 1 << 40)]
prop("P12", P12)


P20 = [Cfg("p20_line", "p20.cpp", variant="flex", params=dict(t=t, first=first), bounds="template %d" % t) for t in range(41) for first in (0, 1)]
for c in P20:
    if c.params["t"] == 1:
        c.parts = 3
P20 += [Cfg("p20_line", "p20.cpp", variant="flex", params=dict(t=t, first=first, more=n), bounds="template %d, %d further maps" % (t, n)) for t, n in ((17, 9), (5, 17), (25, 12), (38, 20)) for first in (0, 1)]
P20 += [Cfg("p20_line", "p20.cpp", variant="flex", params=dict(t=t, first=t % 2, pad=n), bounds="template %d, %d blanks on either side" % (t, n)) for t, n in ((0, 100), (3, 300), (4, 1100))]
for w in (0, 1, 2):
    P20 += [Cfg("p20_apply", "p20.cpp", variant="flex", params=dict(t, what=w, **(dict(sv=t.get("sv", 15) & 5, sf=t.get("sf", 15) & 3) if w == 2 else {})), bounds=str(t), expect=["applied"]) for t in [
        dict(n=1, m=2, k=3, sa=3), dict(n=1, m=2, k=2, repeat=1, sb=1, sa=1), dict(n=2, m=1, k=1, sa=9), dict(n=2, m=1, k=1, sa=20, pattern=1), dict(n=2, m=1, k=1, sa=34, pattern=2), dict(n=2, m=2, k=2, sa=0, pattern=1),
        dict(n=2, m=2, k=2, sa=0, pattern=2), dict(n=2, m=3, k=2, sa=0, pattern=3), dict(n=2, m=2, k=1, sa=2, repeat=1, sb=2), dict(n=3, m=1, k=1, sa=64, pattern=1), dict(n=3, m=1, k=1, sa=2, pattern=2),
        dict(n=5, m=1, k=1, sa=2, sv=5, sf=3, pattern=1), dict(n=8, m=2, k=1, sa=1, sv=3, sf=3, pattern=2), dict(n=9, m=1, k=1, sa=0, sv=0x301, sf=0x101, pattern=1), dict(n=17, m=1, k=1, sa=0, sv=0x20001, sf=0x20001, pattern=2, diagonal=1),
        dict(n=2, m=2, k=2, sa=0, type=64), dict(n=2, m=2, k=2, sa=0, type=16, pattern=1), dict(n=2, m=1, k=1, sa=4, type=1, pattern=2), dict(n=2, m=1, k=1, sa=0, type=2, pattern=1)]]
prop("P20", P20)


P15 = []
for o in range(6):
    P15 += [Cfg("p15_vertices", "p15.cpp", params=dict(t, order=o, style=o % 3, spelling=(o + i) % 3), bounds=str(t), expect=["read"]) for i, t in enumerate([dict(n=2, m=1, points=2, rays=0), dict(n=1, m=2, points=3, rays=0), dict(n=1, m=1, points=2, rays=2), dict(n=2, m=1, points=0, rays=2), dict(n=3, m=1, points=2, rays=0)])]
    P15 += [Cfg("p15_inequalities", "p15.cpp", params=dict(t, order=o, style=(o + 1) % 3, spelling=(o + i + 1) % 3), bounds=str(t), expect=["read"]) for i, t in enumerate([dict(n=1, m=1, rows=3), dict(n=2, m=1, rows=2), dict(n=1, m=1, rows=1, equations=1), dict(n=1, m=4, rows=2)])]
    P15 += [Cfg("p15_vertices", "p15.cpp", params=dict(t, order=o, style=o % 3, spelling=(o + i) % 3), bounds=str(t), expect=["read"]) for i, t in enumerate([dict(n=2, m=1, points=18, rays=0, every=43), dict(n=3, m=1, points=24, rays=19, every=61), dict(n=12, m=1, points=5, rays=0, every=11), dict(n=2, m=1, points=40, rays=0, every=97), dict(n=2, m=1, points=22, rays=0, every=53, same=1), dict(n=3, m=1, points=19, rays=20, every=71, same=2)])]
    P15 += [Cfg("p15_inequalities", "p15.cpp", params=dict(t, order=o, style=o % 3, spelling=(o + i) % 3), bounds=str(t), expect=["read"]) for i, t in enumerate([dict(n=2, m=1, rows=20, every=47), dict(n=9, m=1, rows=6, equations=2, every=13), dict(n=3, m=1, rows=33, equations=2, every=83), dict(n=2, m=1, rows=36, every=89, same=1)])]
for o in range(5):
    for ad in (0, 1):
        P15 += hull("p15_results", "p15.cpp", [(a, b, c, dict(order=o, style=o % 3, ad=ad, facets=1), "both") for a, b, c in [(2, 4, [8, 9]), (5, 2, [0, 7]), (11, 1, [12, 13]), (41, 2, [0, 1])]])
        P15 += hull("p15_results", "p15.cpp", [(a, b, c, dict(order=o, style=(o + 1) % 3, ad=ad, facets=0), "both") for a, b, c in [(0, 1, [2, 8]), (6, 2, [0, 1]), (4, 1, [15])]])
for c in P15:
    if c.entry == "p15_results": c.expect = ["compared"]
prop("P15", P15)


P25 = []
LENGTHS = [(11, 12, 19, 20, 12, 13, 8, 9), (12, 13, 20, 21, 4, 5), (19, 20, 27, 28, 16, 17), (20, 21, 28, 29, 12, 13), (9, 10, 16, 17), (12, 13, 18, 19, 20, 21), (20, 21, 26, 27, 28, 29), (4, 5, 11, 12), (5, 6, 7, 8, 13, 14, 15, 16, 12), (3,)]
for w, ls in enumerate(LENGTHS):
    P25 += [Cfg("p25_keyword", "p25.cpp", params=dict(what=w, len=n), bounds="every line of %d bytes" % n, expect=["keyword"]) for n in sorted(set(ls) | {ls[0] + 2})]
P25 += [Cfg("p25_dimension", "p25.cpp", params=dict(word=w, at=at), bounds="word %d, every byte around" % w, expect=["keyword"]) for w in range(4) for at in (0, 1, 2, 3, 4, 5)]
for reduced in (0, 1):
    P25 += [Cfg("p25_points", "p25.cpp", params=dict(used=31, perm=-1, fixed=1, reduced=reduced, end=e, gaps=e, spelling=e, preamble=e == 1), bounds="every order of the sections", expect=["read"]) for e in (0, 1, 2)]
    P25 += [Cfg("p25_inequalities", "p25.cpp", params=dict(used=31, perm=-1, fixed=1, reduced=reduced, named=n, end=e, gaps=e, spelling=e), bounds="every order of the sections", expect=["read"]) for e in (0, 1, 2) for n in (0, 1)]
    for f in range(5):
        P25 += [Cfg("p25_points", "p25.cpp", params=dict(used=31, perm=0, focus=f, fixed=f, reduced=reduced, gaps=f % 3, space=f % 2), bounds="every spelling of section %d" % f, expect=["read"])]
        P25 += [Cfg("p25_inequalities", "p25.cpp", params=dict(used=31, perm=0, focus=f, fixed=f, reduced=reduced, named=f % 2, gaps=f % 3, space=f % 2), bounds="every spelling of section %d" % f, expect=["read"])]
P25 += [Cfg("p25_points", "p25.cpp", params=dict(used=u, perm=-1, spelling=u % 4, end=u % 3), bounds="sections %d" % u, expect=["read"]) for u in (8, 16, 9, 24, 25, 10, 14, 15)]
P25 += [Cfg("p25_inequalities", "p25.cpp", params=dict(used=u, perm=-1, spelling=u % 4, end=u % 3, named=u >> 1 & 1), bounds="sections %d" % u, expect=["read"]) for u in (16, 24, 25, 18, 22)]
P25 += [Cfg("p25_direction", "p25.cpp", params=t, bounds=str(t), expect=["detected"]) for t in (dict(sections=1, indent=1), dict(sections=2, run=1), dict(sections=2, preamble=1), dict(sections=1, indent=1, preamble=1), dict(sections=2, rows=30), dict(sections=2, rows=300, preamble=1))]
P25 += [Cfg(e, "p25.cpp", params=dict(used=u, perm=0, lead=19 if f < 0 else 0, focus=f, fixed=1, wide=w, gaps=g), bounds="up to %d blank lines before, %d between the rows, %d blanks around a keyword" % (19 if f < 0 else 0, g, w), expect=["read"])
        for e, u in (("p25_points", 24), ("p25_inequalities", 24)) for f, w, g in ((-1, 0, 0), (-1, 0, 40), (0, 70, 3), (1, 300, 25))]
prop("P25", P25)


P18 = []
for late in (0, 1):
    P18 += hull("p18_maps", "p18.cpp", [(a, b, c, dict(d, late=late, style=late), "both") for a, b, c, d in [
        (30, 1, [2], dict(mask=3, range=2)), (31, 1, [1], dict(mask=3, scale=2)),
        (1, 1, [], dict(mask=63)), (1, 2, [6], dict(mask=3, pattern=1, range=2)), (0, 1, [2, 5], dict(mask=12, pattern=1)), (2, 1, [8, 9], dict(mask=9, pattern=3, scale=2)),
        (4, 1, [0, 3], dict(mask=27, scale=3)), (5, 1, [0, 7], dict(mask=33, scale=2)), (6, 1, [0, 1], dict(mask=10, pattern=1, repeat=1)), (11, 1, [12], dict(mask=0x81, pattern=1)), (41, 1, [0], dict(mask=9, pattern=1, run=1)), (0, 0, [], dict(mask=5, run=1, repeat=1, second=1))]])
    P18 += hull("p18_maps", "p18.cpp", [(a, b, c, dict(d, late=late, style=1 - late, facet=1), "both") for a, b, c, d in [
        (6, 1, [1], dict(mask=3, range=2)), (7, 1, [1], dict(mask=3, scale=2)),
        (0, 1, [], dict(mask=63)), (0, 2, [8], dict(mask=3, pattern=1, range=2)), (2, 1, [2, 6], dict(mask=12, pattern=1)), (1, 1, [8], dict(mask=9, pattern=3, scale=2)),
        (8, 1, [2], dict(mask=27, scale=3)), (12, 1, [0], dict(mask=33, scale=2)), (13, 1, [0, 1], dict(mask=10, pattern=1, repeat=1)), (9, 1, [8], dict(mask=0x81, pattern=1)), (10, 1, [2], dict(mask=9, run=1)), (0, 0, [], dict(mask=5, run=1, repeat=1, second=1))]])
P18 += hull("p18_facets", "p18.cpp", [
    (0, 1, [2], dict(range=2), "both"), (1, 1, [0], dict(range=2, mask=7), "both"), (2, 2, [8, 9], dict(run=1), "both"), (4, 1, [0, 1], dict(range=2), "both"), (5, 1, [0, 7], dict(range=1, run=1), "both"), (6, 1, [0], dict(range=2), "both"),
    (11, 1, [14], dict(range=1), "both"), (13, 0, [], dict(range=1, run=1), "both"), (14, 1, [0], dict(), "both"), (30, 1, [0, 2], dict(range=3), "both"), (31, 1, [0], dict(range=3), "both"), (41, 0, [], dict(range=2, rank=2), "both"), (46, 1, [0], dict(range=1, rank=2, mask=7), "both"), (43, 0, [], dict(range=1, rank=3), "both"), (0, 0, [], dict(count=2, range=1, mask=0x3f), "both")])
for ray in (0, 1):
    P18 += hull("p18_vertices", "p18.cpp", [(a, b, c, dict(d, ray=ray), e) for a, b, c, d, e in [
        (0, 1, [2], dict(range=2), "both"), (1, 1, [8], dict(range=2), "both"), (2, 1, [8], dict(range=2, run=1), "both"), (3, 1, [14], dict(range=3), "both"), (4, 0, [], dict(range=1), "both"), (5, 1, [3], dict(range=1, run=1), "both"), (6, 2, [1], dict(range=3, den=2), "both"), (7, 2, [1], dict(range=3), "both"),
        (9, 1, [8], dict(range=1), "both"), (12, 1, [0], dict(range=4, den=3), "both"), (13, 1, [0], dict(range=3), "both"), (14, 1, [8], dict(range=2, den=2), "both"), (8, 1, [2], dict(range=2), "both")]])
P18 += hull("p18_filter", "p18.cpp", [(0, 1, [2], dict(range=1, mask=0x3f), "both"), (1, 1, [6], dict(range=1, mask=0x1f, count=3), "both"), (4, 1, [0], dict(range=1, mask=0x3f), "both"), (11, 0, [], dict(range=1, mask=0x1f), "both"), (30, 1, [0, 2], dict(range=2, mask=0xf), "both"),
    (0, 1, [2], dict(range=1, dual=1, mask=0x3f), "both"), (2, 1, [8], dict(range=1, dual=1, mask=0x3f), "both"), (6, 1, [1], dict(range=2, dual=1, mask=0xf), "both"),
    (0, 1, [2], dict(range=2, mask=7, count=1, again=1), "both"), (1, 1, [6], dict(range=2, mask=7, count=1, again=4), "both"), (4, 0, [], dict(range=1, mask=15, count=1, again=3), "both"), (11, 0, [], dict(range=1, mask=15, count=1, again=5), "both"),
    (2, 0, [], dict(range=2, mask=7, count=1, dual=1, again=1), "both"), (0, 0, [], dict(range=2, mask=7, count=1, dual=1, again=2), "both"), (8, 0, [], dict(range=1, mask=15, count=1, dual=1, again=1), "both")])
for c in P18:
    c.expect = ["checked"]
prop("P18", P18)


P22 = []
for ty in range(5):
    for ad in (0, 1):
        P22 += hull("p22_same", "p22.cpp", [(a, b, c, dict(d, type=ty, ad=ad, style=(ty + ad) % 2, facets=1), "both") for a, b, c, d in [
            (2, 2, [8, 9], {}), (5, 1, [0, 7], dict(family=3)), (11, 1, [12, 14], {}), (1, 1, [7], dict(family=0)), (41, 1, [0, 1], {}), (4, 2, [2], {}), (0, 1, [2], dict(family=3))]], variant="flex")
        P22 += hull("p22_same", "p22.cpp", [(a, b, c, dict(d, type=ty, ad=ad, style=(ty + ad + 1) % 2, facets=0), "both") for a, b, c, d in [
            (0, 1, [2, 8], {}), (6, 3, [0, 1], {}), (2, 1, [8], dict(family=0)), (8, 1, [2], {}), (4, 1, [15], {})]], variant="flex")
for ty, scales in ((1, (331,)), (2, (40000, 1000000)), (3, (99999,)), (4, (10000000,))):
    for scale in scales:
        for ad in (0, 1):
            P22 += hull("p22_same", "p22.cpp", [(a, 1, c, dict(d, type=ty, ad=ad, style=ad, facets=1, scale=scale), "both") for a, c, d in [
                (1, [7], {}), (12, [3], {}), (2, [8, 9], {}), (13, [1], {}), (4, [2], {}), (14, [4], {}), (44, [2], {}), (30, [1], dict(offset=1)), (40, [4], {})]], variant="flex")
            P22 += hull("p22_same", "p22.cpp", [(a, 1, c, dict(d, type=ty, ad=ad, style=ad, facets=0, scale=scale), "both") for a, c, d in [
                (0, [2, 8], dict(offset=1)), (2, [8], {}), (4, [15], {})]], variant="flex")
for c in P22: c.expect = ["compared"]
for sh, ad, base, lo, hi, count in [(sh, ad, base, lo, hi, 2) for sh in (0, 2, 3, 5) for ad in (0, 1) for base, lo, hi in ((214748364, 6, 7), (3, 0, 9), (327, 0, 2), (9999, 8, 9))] + [
        (sh, sh in (1, 6), base, lo, hi, 1) for sh in (1, 4, 6, 7) for base, lo, hi in ((214748364, 6, 7), (3, 0, 9), (327, 0, 2), (999, 8, 9), (99999, 8, 9))]:
    P22 += [Cfg("p22_overflow", "p22.cpp", variant="flex", params=dict(shape=sh, base=base, lo=lo, hi=hi, ad=int(ad), count=count, sign=(sh + ad) % 3), bounds="coordinates %d.. %d" % (base * 10 + lo, base * 10 + hi), expect=["started"])]
P22 += [Cfg("p22_conversion", "p22.cpp", variant="flex", params=dict(type=ty, base=base, sign=sign, facets=f, wide=0, ad=sign), bounds="%d0 .. %d9" % (base, base), expect=["compared"]) for f in (0, 1) for sign in (0, 1)
        for ty, base in ((0, 3276), (0, 6553), (1, 214748364), (2, 214748364), (3, 214748364), (-1, 214748364), (0, 6554), (0, 9830))]
prop("P22", P22)


P19 = [Cfg("p19_bytes", "p19.cpp", params=dict(t=t), bounds="file %d, every byte at the holes" % t, expect=["ended"]) for t in range(80)]
P19 += [Cfg("p19_prefix", "p19.cpp", params=dict(t=t, ad=t % 2, extra=x), bounds="every prefix of file %d" % t, expect=["ended"]) for t in range(5) for x in (0, 1)]
P19 += [Cfg("p19_rejected", "p19.cpp", params=dict(t=t, ad=ad), bounds="case %d" % t, expect=["ended"], instr=300000000) for t in range(26) for ad in (0, 1) if t < 14 or ad == t % 2]
prop("P19", P19)


P26 = []
for i, (a, b, c, e) in enumerate([(0, 2, [2, 5], {}), (1, 2, [6, 7], {}), (2, 2, [8, 9], {}), (4, 2, [0, 3], {}), (5, 1, [0, 7], {}), (6, 2, [0, 3], {}), (7, 1, [2, 3], {}), (10, 1, [3, 7, 11], {}),
                                  (11, 1, [12, 14], {}), (13, 1, [0, 1], {}), (14, 1, [0, 14], {}), (15, 1, [12, 14], {}), (41, 1, [0, 1], {}), (43, 1, [0, 4, 8], {}), (44, 1, [2, 5], {}), (46, 1, [4, 5], {}),
                                  (47, 1, [0, 6], {}), (48, 1, [3, 4], {}), (52, 1, [3, 4], {}), (1, 2, [6, 7], dict(names=1)), (11, 1, [12, 14], dict(names=1)), (43, 1, [0, 4], dict(names=1))]):
    P26 += hull("p26_points", "p26.cpp", [(a, b, c, dict(e, first=f, second=s), "both" if i % 2 == f ^ s else "thorough") for f in (0, 1) for s in (0, 1)])
for i, (a, b, c) in enumerate([(0, 2, [2, 8]), (1, 2, [8, 11]), (2, 2, [6, 8]), (3, 1, [14, 12]), (4, 1, [15, 3]), (5, 1, [7, 15]), (6, 3, [0, 1]), (9, 1, [8, 11]), (12, 2, [0, 4]), (13, 2, [1, 4]), (14, 1, [4, 6]), (16, 2, [2, 3])]):
    P26 += hull("p26_inequalities", "p26.cpp", [(a, b, c, dict(first=f, second=s), "both" if i % 2 == f ^ s else "thorough") for f in (0, 1) for s in (0, 1)])
prop("P26", P26)


def wl(entry, params, tier="both", preempt=2, race=False, spurious=0, **kw):
    return Cfg(entry, "p16.cpp", params=params, tier=tier, mode="thr", explore=True, preempt=preempt, race=race, spurious=spurious, expect=["ended"],
               name="%s%s,preempt=%s%s%s" % (entry, "".join(",%s=%s" % kv for kv in sorted(params.items())), preempt, ",race" if race else "", ",spurious=%d" % spurious if spurious else ""),
               bounds="%s, at most %s preemptions%s" % (params, preempt, ", %d spurious wakeups" % spurious if spurious else ""), **kw)


prop("P16", [
    wl("p16_vertex", dict(rows=2, workers=2, deg=1), race=True, preempt=3),
    wl("p16_vertex", dict(rows=3, workers=2, deg=1, track=1)),
    wl("p16_vertex", dict(rows=2, workers=2, deg=1, track=1), spurious=1),
    wl("p16_vertex", dict(rows=2, workers=2, deg=1, known=1), race=True, preempt=1),
    wl("p16_vertex", dict(rows=2, workers=2, deg=1, known=2, concrete=1), preempt=2),
    wl("p16_facet", dict(rows=2, workers=2, deg=2, early=1, concrete=1)),
    wl("p16_facet", dict(rows=2, workers=2, deg=1, early=1), race=True, preempt=2),
    wl("p16_vertex", dict(rows=2, workers=3, deg=2, concrete=1), preempt=1),
    wl("p16_facet", dict(rows=3, workers=2, deg=2, graph=3, free=1, track=1)),
    wl("p16_vertex", dict(rows=3, workers=2, deg=2, graph=2, free=3, track=1)),
    wl("p16_facet", dict(rows=3, workers=2, deg=2, track=1), tier="thorough"),
    wl("p16_vertex", dict(rows=2, workers=2, deg=1), race=True, preempt=99),
    wl("p16_vertex", dict(rows=3, workers=3, deg=1), preempt=1, race=True),
    wl("p16_vertex", dict(rows=2, workers=4, deg=1, graph=4, early=1), preempt=0),
    wl("p16_facet", dict(rows=2, workers=4, deg=1, graph=1, early=1), preempt=0),
    wl("p16_vertex", dict(rows=5, workers=4, deg=4, graph=2), preempt=1),
    wl("p16_vertex", dict(rows=2, workers=5, deg=1, graph=4, early=1), preempt=0),
    wl("p16_facet", dict(rows=8, workers=6, deg=7, graph=2), preempt=0),
    wl("p16_vertex", dict(rows=1, workers=7, deg=1, graph=4, early=1), preempt=0),
    wl("p16_facet", dict(rows=40, workers=2, deg=39, graph=2, track=1), preempt=1),
    wl("p16_vertex", dict(rows=40, workers=1, deg=3, graph=3, free=9), preempt=0),
    wl("p16_facet", dict(rows=9, workers=2, deg=2, graph=3, free=5), preempt=1),
    wl("p16_vertex", dict(rows=9, workers=3, deg=1, graph=1, free=9), preempt=1),
    wl("p16_facet", dict(rows=3, workers=2, deg=2, track=1), preempt=4, tier="thorough"),
    wl("p16_facet", dict(rows=4, workers=2, deg=1, known=1), preempt=3, tier="thorough"),
    wl("p16_vertex", dict(rows=3, workers=3, deg=1, concrete=1, known=1), tier="thorough"),
])
