"""What each check runs: per property, the list of jobs (harness entry + concrete parameters)."""

import zlib

COMMON_ASSUMPTIONS = [
    "x86_64, 64-bit usize; the crate's own sources compiled by the repository's pinned toolchains at opt-level 1 "
    "(overflow checks and debug assertions off, as in a release build; the jobs of kind bd and sd have both on, as in a development build)",
    "the executor's model of LLVM IR (memory is byte-exact, one block per allocation; 'freed', 'uninitialised' and "
    "'moved out' are tracked) and of the allocator is right; sampled paths are compared with the compiled code",
    "single allocation requests above 4 MiB fail; allocations during panic unwinding succeed",
]


def J(kind, entry, params=(), time=60, weight=None, **opts):
    j = {"kind": kind, "entry": entry, "params": list(params), "time": time, "opts": opts}
    if weight is not None:
        j["weight"] = weight
    return j


DEV = {"bt": "bd", "st": "sd"}
# of these checks, the dearest, only every third (thorough: second) job is repeated as a development build
DEV_SPARSE = ("C01", "C04", "C06", "C09", "C10")


def with_dev(pid, jobs, tier):
    """The jobs, and copies of (a part of) them for the IR of a development build: overflow checks and debug assertions on."""
    seen, dev = set(), []
    every = (3 if tier == "quick" else 2) if pid in DEV_SPARSE else 1
    for j in jobs:
        if j["kind"] in DEV and (j["entry"] not in seen or zlib.crc32(repr((j["entry"], j["params"])).encode()) % every == 0):
            seen.add(j["entry"])
            dev.append(dict(j, kind=DEV[j["kind"]]))
    return jobs + dev


# trees of four levels, with the free key near some entry: (n, how, first entry, window)
TALL = ((450, 3, 0, 4), (450, 3, 222, 4), (650, 0, 290, 6), (650, 0, 646, 4), (640, 1, 340, 6))
TALLER = TALL + tuple((n, how, a, 6) for n, how in ((450, 3), (650, 0), (800, 2), (640, 1), (500, 8)) for a in range(0, n, n // 9))


def tall(entry, params, a, w, **k):
    params = tuple(params)
    return J("bt", entry, params + (0,) * (10 - len(params)) + (a, w), **k)


def c01(tier):
    q = tier == "quick"
    jobs = []
    shapes = [(0, 0), (1, 0), (11, 0), (12, 0), (13, 1), (30, 4), (60, 2), (60, 3), (84, 1), (100, 5), (150, 3), (200, 4), (360, 0),
              (120, 8), (200, 8), (150, 9)]
    if not q:
        shapes += [(n, h) for n in (60, 250, 300, 400, 500) for h in (8, 9)]
        shapes += [(n, h) for n in (36, 50, 72, 90, 120, 170, 240, 300, 420) for h in (0, 1, 2, 3, 4, 5)]
    for n, how in shapes:
        for op in (0, 1, 2, 3):
            if op >= 2 and (n > 200 or how >= 8):
                continue
            jobs.append(J("bt", "c01_op", (n, how, n + 1, op), time=120 if q else 300, weight=n / 10))
    for ops in (0b0000, 0b0001, 0b0100, 0b0101):
        for n, how in ((13, 0), (24, 3), (40, 4)) if q else ((13, 0), (24, 3), (40, 4), (60, 3), (84, 0), (100, 4)):
            jobs.append(J("bt", "c01_seq", (n, how, n, ops, 2), time=120 if q else 600, weight=n))
    if not q:
        for ops in range(64):
            if all((ops >> (2 * i)) & 3 < 2 for i in range(3)):
                for n, how in ((13, 0), (14, 3), (18, 1), (25, 4)):
                    jobs.append(J("bt", "c01_seq", (n, how, n, ops, 3), time=600, weight=n))
    jobs.append(J("bt", "c01_hist", (4 if q else 6, 20), time=120 if q else 900, weight=50))
    jobs.append(J("bt", "c01_hist", (6 if q else 8, 2), time=120 if q else 900, weight=50))
    for n, how, order, gap, win in ((60, 0, 0, 9, 0), (60, 2, 1, 9, 0), (84, 1, 2, 13, 0), (120, 4, 3, 29, 0), (240, 0, 3, 61, 6),
                                    (420, 2, 0, 60, 6), (420, 2, 1, 60, 6), (420, 6, 0, 139, 6)) + \
            (() if q else ((240, 0, 3, 97, 0), (420, 2, 0, 139, 0), (600, 2, 0, 23, 8), (600, 2, 1, 23, 8), (600, 6, 3, 23, 8), (600, 2, 2, 23, 8))):
        jobs.append(J("bt", "c01_drain", (n, how, 3, order, gap, win), time=120 if q else 600, weight=n / 4))
    for free, n, more, op in ((0, 0, 0, 0), (1, 0, 0, 0), (3, 0, 0, 0), (1, 0, 30, 0), (0, 0, 100, 0), (2, 12, 0, 1), (1, 40, 40, 1), (0, 60, 90, 1),
                              (2, 12, 0, 2), (1, 40, 40, 2), (3, 0, 0, 2)):
        jobs.append(J("bt", "c01_bulk", (free if q or not free else free + 1, n, more, op), time=120 if q else 600, weight=n + more))
    for n, how, a, w in TALL if q else TALLER:
        for op in (0, 1):
            jobs.append(tall("c01_op", (n, how, n, op), a, w, time=120 if q else 600, weight=n / 5))
        jobs.append(tall("c01_seq", (n, how, n, 0b0101, 2), a, 2, time=120 if q else 600, weight=n / 5))
    for order in range(4):
        jobs.append(J("bt", "c01_drain", (640, 0, 3, order, 213 if q else 31, 3), time=120 if q else 600, weight=640))
    return jobs

def c08(tier):
    q = tier == "quick"
    jobs = []
    T = 120 if q else 600
    shapes = [(0, 0), (1, 0), (11, 0), (12, 0), (23, 6), (60, 0), (71, 6), (90, 4)]
    if not q:
        shapes += [(143, 6), (83, 1), (150, 7), (200, 2), (100, 3), (300, 7)]
    for n, how in shapes:
        for op in range(4):
            for mode in (0, 1, 2):
                jobs.append(J("bt", "c08_map", (n, how, 1, op, mode, 0, 0), time=T, weight=n))
        jobs.append(J("bt", "c08_map", (n, how, 1, 4, 0), time=T, weight=n))
        jobs.append(J("bt", "c08_map", (n, how, 1, 4, 2), time=T, weight=n))
    # full nodes on every level: the insertion splits two or three levels and grows the root
    for op in range(4):
        jobs.append(J("bt", "c08_map", (143, 6, 1, op, 0, 60, 8), time=T, weight=50))
        jobs.append(J("bt", "c08_map", (143, 6, 1, op, 1, 138, 8), time=T, weight=50))
    jobs.append(J("bt", "c08_map", (1727, 6, 1, 0, 0, 800, 2 if q else 12), time=T, weight=100))
    jobs.append(J("bt", "c08_map", (1727, 6, 1, 1, 1, 1725, 2 if q else 12), time=T, weight=100))
    for n, how in ((0, 0), (1, 0), (12, 0), (60, 3), (100, 4)) if q else ((0, 0), (1, 0), (12, 0), (60, 3), (100, 4), (200, 7), (300, 2)):
        for op in range(5):
            jobs.append(J("bt", "c08_noalloc", (n, how, 1, op), time=T, weight=n / 2))
    for n, how in ((0, 0), (11, 0), (12, 1), (60, 0), (95, 1)):
        for op in range(3):
            for mode in (0, 2):
                jobs.append(J("bt", "c08_set", (n, how, 1, op, mode, 0, 0), time=T, weight=n / 2))
    if q:
        jobs.append(J("bt", "c08_hist", (24, 0, 3, 2, 0, 2), time=T, weight=60))
    else:
        jobs.append(J("bt", "c08_hist", (143, 6, 3, 2, 0, 2), time=T, weight=60))
    jobs.append(J("bt", "c08_hist", (11, 0, 2 if q else 3, 2, 0, 0), time=T, weight=60))
    return jobs


def c02(tier):
    q = tier == "quick"
    jobs = []
    T = 120 if q else 600
    for kind in range(7):
        for n, how in ((0, 0), (1, 0), (2, 0)) + (((8, 0),) if q else ((9, 0), (11, 0))):
            jobs.append(J("bt", "c02_all", (n, how, 1, kind), time=T, weight=2 ** n / 20))
    shapes = ((13, 0, 1), (30, 3, 1), (72, 6, 5), (110, 4, 9), (120, 1, 23)) if q else \
        ((12, 1, 1), (13, 0, 1), (30, 3, 1), (40, 2, 1), (120, 1, 7), (200, 1, 23), (230, 2, 29), (60, 3, 1), (72, 6, 1), (84, 0, 3), (110, 4, 3), (160, 7, 5), (300, 2, 17), (1000, 6, 83))
    for kind in range(8):
        for i, (n, how, gap) in enumerate(shapes):
            jobs.append(J("bt", "c02_runs", (n, how, 1, kind, i % 3, gap), time=T, weight=n))
    for n, how, gap in ((0, 0, 1), (1, 0, 1), (12, 0, 1)) + shapes[1:]:
        jobs.append(J("bt", "c02_stop", (n, how, 2, gap), time=T, weight=n / 2))
    for kind in range(2):
        for n, how, gap in ((0, 0, 1), (1, 0, 1), (14, 0, 1), (40, 3, 3), (90, 4, 9)):
            jobs.append(J("bt", "c02_set", (n, how, 1, kind, 1, gap if q else 1), time=T, weight=n))
    for kind in range(11):
        for what in range(12):
            if kind in (3, 4) and what in (9, 10):
                continue
            for n, how, gap in ((5, 0, 1), (16, 0, 3)) if q else ((0, 0, 1), (5, 0, 1), (13, 0, 1), (30, 3, 3), (110, 4, 21)):
                jobs.append(J("bt", "c02_meth", (n, how, 1, kind, what, gap), time=T, weight=n * n / 20))
    for kind in range(6):
        for n, how, gap in ((0, 0, 1), (5, 0, 1), (13, 0, 1), (40, 3, 3)) if q else ((0, 0, 1), (5, 0, 1), (13, 0, 1), (30, 3, 1), (72, 6, 5), (110, 4, 7)):
            jobs.append(J("bt", "c02_clone", (n, how, 1, kind, gap), time=T, weight=n * n / 20))
    for n, how, gap in ((650, 0, 130), (450, 3, 149)):
        for kind in range(8):
            jobs.append(J("bt", "c02_runs", (n, how, 1, kind, kind % 3, gap), time=T, weight=n))
        jobs.append(J("bt", "c02_stop", (n, how, 2, gap), time=T, weight=n / 2))
    return jobs


def c03(tier):
    q = tier == "quick"
    jobs = []
    T = 120 if q else 600
    for what in range(3):
        for lk in range(3):
            for hk in range(3):
                for n, how in ((0, 0), (1, 0), (13, 0), (24, 3)) if q else ((0, 0), (1, 0), (2, 0), (12, 1), (13, 0), (24, 3), (40, 4), (60, 2)):
                    jobs.append(J("bt", "c03_range", (n, how, 1, lk, hk, what, (lk + hk + n) % 3, 0, 0), time=T, weight=n * n / 20))
                for i, (n, how, a) in enumerate(((84, 0, 30), (100, 4, 60), (143, 6, 66))):
                    if what == 2 and how == 6:
                        continue
                    jobs.append(J("bt", "c03_range", (n, how, 1, lk, hk, what, (lk + hk + what + i) % 3, a, 8), time=T, weight=n / 2))
    for what in range(3):
        jobs.append(J("bt", "c03_mix", (13, 0, 1, 0, 1, what, 3, 3, 4), time=T, weight=60))
        jobs.append(J("bt", "c03_mix", (30, 3, 1, 1, 0, what, 3, 10, 4), time=T, weight=60))
        if not q:
            jobs.append(J("bt", "c03_mix", (143, 6, 1, 0, 0, what, 3, 69, 8), time=T, weight=60))
            jobs.append(J("bt", "c03_mix", (90, 2, 1, 1, 1, what, 3, 40, 8), time=T, weight=60))
    for what in range(3):
        for meth in range(11):
            for rev in (0, 1):
                for i, (n, how, a) in enumerate(((13, 0, 4), (30, 3, 9)) if q else ((13, 0, 4), (30, 3, 9), (143, 6, 69), (90, 2, 40))):
                    if how == 6 and what == 2:
                        continue
                    jobs.append(J("bt", "c03_meth", (n, how, what, (0, 3, 1, 4, 6, 2)[(what + meth + rev + i) % 6], meth, rev, a), time=T, weight=20 + n / 2))
    for form in range(6):
        for n, how in ((13, 0), (30, 3)):
            jobs.append(J("bt", "c03_forms", (n, how, 1, form), time=T, weight=20))
    for i, (n, how, a) in enumerate(((650, 0, 290), (450, 3, 222), (640, 1, 632))):
        for what in range(3):
            for lk, hk in ((0, 1), (1, 0), (1, 1)):
                jobs.append(J("bt", "c03_range", (n, how, 1, lk, hk, what, (what + i) % 3, a, 6), time=T, weight=n / 2))
    return jobs


def c04(tier):
    q = tier == "quick"
    jobs = []
    T = 120 if q else 600
    shapes = [(0, 0), (1, 0), (12, 0), (13, 1), (30, 4), (60, 3), (84, 0), (143, 6), (160, 4)]
    if not q:
        shapes += [(23, 6), (36, 2), (90, 5), (100, 2), (200, 7), (300, 0), (420, 3), (600, 6)]
    for i, (n, how) in enumerate(shapes):
        for side in range(2):
            jobs.append(J("bt", "c04_split", (n, how, 1, 2, 1, side), time=T, weight=n))
            if n <= 30 or not q and n <= 90:
                for op in range(2):
                    jobs.append(J("bt", "c04_split", (n, how, 1, op, 0, side), time=T, weight=n * 4))
    for n, how in ((13, 0), (30, 3)) if q else ((13, 0), (30, 3), (60, 4), (84, 0)):
        for side in range(2):
            jobs.append(J("bt", "c04_split2", (n, how, 1, side), time=T, weight=n * 3))
    for n1, how, n2, dist in ((0, 0, 5, 10), (13, 0, 13, 10), (30, 3, 12, 7), (40, 4, 30, 15), (60, 0, 20, 5), (71, 6, 3, 100), (24, 2, 60, 10)) + \
            (() if q else ((84, 0, 40, 5), (60, 2, 90, 10))):
        for d in range(2):
            jobs.append(J("bt", "c04_shift", (n1, how, n2, dist, 2, d), time=T, weight=n1 + n2))
            if not q and n1 < 50:
                for op in range(2):
                    jobs.append(J("bt", "c04_shift", (n1, how, n2, dist, op, d), time=T, weight=5 * (n1 + n2)))
    if not q:
        for n1, how, n2, dist in ((150, 4, 150, 11), (300, 0, 200, 9), (300, 6, 20, 150)):
            for d in range(2):
                jobs.append(J("bt", "c04_shift", (n1, how, n2, dist, 2, d), time=T, weight=n1 + n2))
    for n, how in ((0, 0), (12, 0), (25, 4)) if q else ((0, 0), (12, 0), (25, 4), (60, 3), (100, 0)):
        for few in (1, 2) if q else (1, 2, 3):
            if few == 3 and n > 30:
                continue
            for d in range(2):
                jobs.append(J("bt", "c04_few", (n, how, 1, few, d), time=T, weight=n * few * few))
    for i, (lo, w) in enumerate(((0, 8), (8, 8), (18, 8), (136, 12), (204, 12), (222, 12), (280, 12)) if q else tuple((a, 12) for a in range(0, 480, 12))):
        for drain in range(3) if not q or lo > 100 else (i % 3,):
            jobs.append(J("bt", "c04_sizes", (lo, w, 1 + (i + drain) % 3, drain), time=T, weight=lo * w / 10))
    for n, how in ((0, 0), (13, 0), (40, 3), (90, 4)):
        for n2 in (0, 1, 14, 40):
            jobs.append(J("bt", "c04_set", (n, how, n2), time=T, weight=n))
    for n, how, a, w in TALL if q else TALLER:
        for side in range(2):
            jobs.append(tall("c04_split", (n, how, 1, 2, 1, side), a, w, time=T, weight=n / 3))
        for d in range(2):
            jobs.append(tall("c04_few", (n, how, 1, 1, d), a, w, time=T, weight=n / 2))
    return jobs


def c05(tier):
    q = tier == "quick"
    jobs = []
    T = 120 if q else 600
    shapes = [(0, 0), (1, 0), (11, 0), (12, 1), (30, 3), (71, 6), (100, 4)]
    if not q:
        shapes += [(13, 2), (60, 3), (84, 0), (143, 6), (200, 7), (300, 2)]
    for n, how in shapes:
        for op in range(8):
            jobs.append(J("bt", "c05_entry", (n, how, 1, op), time=T, weight=n))
    for ops in (5, 55, 65, 40, 16, 72) if q else [a + 10 * b for a in range(8) for b in range(8)]:
        for n, how in ((12, 0), (24, 3)):
            jobs.append(J("bt", "c05_seq", (n, how, 1, ops, 2), time=T, weight=n * 2))
    for n in (0, 1, 13, 30):
        for op in range(6):
            jobs.append(J("bt", "c05_zst", (n, op), time=T, weight=n))
    jobs.append(J("bt", "c05_seq", (0, 0, 1, 5555, 4 if q else 5), time=T, weight=50))
    for n, how, a, w in TALL if q else TALLER:
        for op in range(8) if not q else (0, 2, 4, 5, 7):
            jobs.append(tall("c05_entry", (n, how, 1, op), a, w, time=T, weight=n / 5))
    return jobs


def c06(tier):
    q = tier == "quick"
    jobs = []
    T = 120 if q else 600
    for op in range(9):
        for n1, how, n2, dist in ((0, 0, 3, 10), (13, 0, 13, 10), (30, 3, 12, 7), (40, 4, 3, 50)) if q else \
                ((0, 0, 3, 10), (13, 0, 13, 10), (30, 3, 12, 7), (40, 4, 3, 50), (60, 2, 40, 15), (100, 0, 30, 20), (100, 4, 90, 10)):
            for swap in range(2):
                jobs.append(J("bt", "c06_shift", (n1, how, n2, dist, op, swap), time=T, weight=n1 + n2))
        for n, how, few in ((20, 0, 1), (40, 3, 2)) if q else ((20, 0, 1), (40, 3, 2), (100, 4, 2), (50, 0, 3)):
            for swap in range(2):
                jobs.append(J("bt", "c06_few", (n, how, few, op, swap), time=T, weight=n * few * few / 3))
        # one set is more than sixteen times larger: the searching algorithms, with runs of common elements
        for n, how, few, at, w in ((52, 0, 3, 20, 2), (70, 3, 4, 66, 1)) if q else ((52, 0, 3, 20, 3), (70, 3, 4, 66, 2), (100, 4, 5, 30, 2), (33, 1, 2, 0, 32), (48, 0, 3, 45, 2), (47, 0, 3, 45, 2)):
            for swap in range(2):
                jobs.append(J("bt", "c06_win", (n, how, few, op, swap, at, w), time=T, weight=n * w * few / 3))
        # sizes, equal or far apart, of disjoint, interleaved, overlapping and equal sets
        for n1, how, n2, dist, place in ((40, 0, 40, 10, 40), (40, 0, 40, 10, 0), (34, 0, 34, 10, 17), (70, 0, 6, 10, 70), (70, 0, 6, 10, 63)) if q else \
                [(n1, 0, n2, 10, place) for n1 in (17, 33, 40, 64, 70, 100, 130, 200) for n2 in (1, 5, n1 - 1, n1, n1 + 1) for place in (0, n1 // 2, n1 - 1, n1)]:
            for swap in range(2):
                jobs.append(J("bt", "c06_big", (n1, how, n2, dist, op, swap, place), time=T, weight=(n1 + n2) / 3))
        for n1, n2 in ((1, 1), (2, 2)) if q else ((1, 1), (2, 2), (3, 2), (2, 3), (3, 3)):
            jobs.append(J("bt", "c06_small", (n1, n2, 12, op), time=T, weight=50))
        for n, how in ((0, 0), (1, 0), (12, 0), (25, 3)) if q else ((0, 0), (1, 0), (12, 0), (25, 3), (60, 4), (120, 2)):
            jobs.append(J("bt", "c06_self", (n, how, op), time=T, weight=n))
    for op in range(4):
        for what in range(13):
            for n, dist, extra in ((9, 10, 0), (12, 0, 1), (8, 0, 2)) if q else ((0, 0, 0), (9, 10, 0), (13, 15, 0), (12, 0, 1), (8, 0, 2), (14, 0, 2), (25, 0, 1), (30, 10, 0)):
                jobs.append(J("bt", "c06_meth", (n, dist, op, what, extra), time=T, weight=n if not extra else n * 3))
    return jobs


def c07(tier):
    q = tier == "quick"
    jobs = []
    T = 120 if q else 600
    shapes = [(0, 0), (1, 0), (12, 0), (13, 1), (30, 4), (60, 3), (100, 2)]
    if not q:
        shapes += [(11, 1), (36, 2), (72, 0), (84, 1), (150, 3), (200, 4), (300, 0)]
    for n, how in shapes:
        for op in range(6):
            jobs.append(J("bt", "c07_op", (n, how, 1, op), time=T, weight=n))
    pairs = [0, 6, 13, 14, 20, 9, 17, 3] if q else list(range(36))
    for ops in pairs:
        for n, how in ((13, 0), (24, 3)) if q else ((13, 0), (24, 3), (40, 4)):
            jobs.append(J("bt", "c07_seq", (n, how, 1, ops, 2), time=T, weight=n * 2))
    jobs.append(J("bt", "c07_hist", (4 if q else 5, 20), time=T, weight=60))
    jobs.append(J("bt", "c07_hist", (5 if q else 7, 1), time=T, weight=60))
    for free, n in ((1, 0), (3, 0), (2, 12), (2, 40)) if q else ((1, 0), (3, 0), (5, 0), (2, 12), (2, 40), (3, 30)):
        jobs.append(J("bt", "c07_bulk", (free, n, 0, 1), time=T, weight=30))
    # equal elements in the source
    for free, n, more, differ in ((1, 0, 24, 5), (1, 0, 60, 30), (1, 12, 24, 9)):
        jobs.append(J("bt", "c07_bulk", (free, n, more, differ), time=T, weight=30))
    for free, n, more in ((3, 0, 0), (2, 12, 0), (1, 40, 40), (0, 60, 90)):
        jobs.append(J("bt", "c07_refs", (free, n, more), time=T, weight=30))
    for kind in range(3):
        for what in range(12):
            for n, how in ((4, 0), (13, 0)) if q else ((0, 0), (4, 0), (13, 0), (25, 3)):
                jobs.append(J("bt", "c07_meth", (n, how, kind, what), time=T, weight=n * 2))
    for n, how, a, w in TALL if q else TALLER:
        for op in range(6):
            jobs.append(tall("c07_op", (n, how, 1, op), a, w, time=T, weight=n / 5))
    return jobs


KINDS = ("bt", "st")


def c12(tier):
    q = tier == "quick"
    jobs = []
    T = 120 if q else 600
    shapes = ((0, 0), (1, 0), (11, 0), (12, 1), (30, 4), (40, 3), (90, 0)) if q else \
        ((0, 0), (1, 0), (2, 0), (11, 0), (12, 1), (13, 0), (30, 4), (40, 3), (71, 6), (90, 0), (143, 6), (150, 4), (300, 2))
    for n, how in shapes:
        for mode in range(5):
            if n > 100 and mode == 2:
                continue
            jobs.append(J("bt", "c12_clone", (n, how, 1, 1, mode, 1 if n < 50 else n // 25), time=T, weight=n))
        jobs.append(J("bt", "c12_clone", (n, how, 1, 0, 0, 1), time=T, weight=n))
        jobs.append(J("bt", "c12_clone", (n, how, 1, 2, 0, 1), time=T, weight=n))
    for n in (1, 6, 11, 13, 40) if q else (1, 2, 6, 11, 13, 24, 40, 71, 90):
        for a, b in ((0, 1), (1, 2), (0, 3), (3, 5), (5, 5), (4, 0)) if q else [(a, b) for a in range(6) for b in range(6)]:
            for change, side in ((0, 0), (1, 0), (1, 1), (2, 0), (2, 1), (4, 0)):
                if change == 4 and n > 13:
                    continue
                jobs.append(J("bt", "c12_cmp", (n, a, b, change, side), time=T, weight=n * (20 if change == 4 else 1)))
    for n1, n2 in ((0, 0), (0, 1), (1, 1), (1, 2), (2, 2)) if q else ((0, 0), (0, 1), (1, 1), (1, 2), (2, 2), (3, 2), (3, 3)):
        jobs.append(J("bt", "c12_small", (n1, n2, 4), time=T, weight=30))
        jobs.append(J("bt", "c12_set_small", (n1 + 1, n2 + 1, 5), time=T, weight=30))
        jobs.append(J("bt", "c12_partial", (n1, n2), time=T, weight=30))
    for n in (0, 1, 6, 11, 13, 40):
        for a, b in ((0, 1), (1, 2), (0, 4)):
            for change in range(4):
                jobs.append(J("bt", "c12_set", (n, a, b, change), time=T, weight=n))
    for n, o in ((0, 2), (2, 2), (3, 12)) if q else ((0, 2), (2, 2), (3, 12), (12, 3), (12, 13)):
        jobs.append(J("bt", "c12_nested", (n, o), time=T, weight=30))
    for n, how in ((650, 0), (450, 3)):
        jobs.append(J("bt", "c12_clone", (n, how, 1, 0, 0, 1), time=T, weight=n))
        jobs.append(J("bt", "c12_clone", (n, how, 1, 1, 0, n // 3), time=T, weight=n))
    return jobs


def c11(tier):
    q = tier == "quick"
    jobs = []
    T = 120 if q else 600
    shapes = [(0, 0), (1, 0), (12, 0), (13, 1), (30, 4), (60, 3), (84, 0), (143, 6), (200, 9), (300, 8)]
    if not q:
        shapes += [(n, h) for n in (24, 50, 100, 170, 250, 420) for h in range(6)] + [(600, 6), (600, 2), (1000, 6), (500, 8), (500, 9)]
    for n, how in shapes:
        for op in range(6 if n > (100 if q else 200) else 7):
            jobs.append(J("bt", "c11_op", (n, how, 1, op, 9), time=T, weight=n))
        for op2 in (0, 1, 2, 5) if q else range(7):
            for op in (1, 2, 5, 6):
                if n <= (13 if q else 60):
                    jobs.append(J("bt", "c11_op", (n, how, 1, op, op2), time=T, weight=n * 4))
    for pat in range(9):
        for n, how, steps in ((14, 0, 40), (60, 2, 100), (150, 4, 140), (143, 6, 130)) if q else \
                ((14, 0, 100), (60, 2, 300), (150, 4, 400), (143, 6, 400), (300, 3, 290), (420, 0, 400), (600, 6, 590)):
            jobs.append(J("bt", "c11_churn", (n, how, 5, pat, steps), time=T, weight=n))
    jobs.append(J("bt", "c11_hist", (4 if q else 6, 3), time=T, weight=60))
    for n, how in ((0, 0), (1, 0), (13, 0), (60, 3), (90, 4)):
        for op in range(6):
            jobs.append(J("bt", "c11_set", (n, how, 1, op), time=T, weight=n))
    for n in (0, 1, 4, 8):
        jobs.append(J("bt", "c11_empty", (n,), time=T))
    for n, how, a, w in TALL if q else TALLER:
        for op in range(4):
            jobs.append(tall("c11_op", (n, how, 1, op, 9), a, w, time=T, weight=n / 5))
    for i, (lo, w) in enumerate(((10, 12), (136, 12), (204, 12), (222, 12), (280, 12)) if q else tuple((a, 12) for a in range(0, 480, 12))):
        for end in range(2):
            for share in (1 + (i + end) % 3,) if q else (1, 2, 3):
                jobs.append(J("bt", "c11_sizes", (lo, w, share, end, 0), time=T, weight=lo * w / 10))
    for n, lo, w in ((90, 20, 10), (300, 60, 10), (300, 140, 10)) if q else tuple((n, a, 12) for n in (90, 300, 480) for a in range(0, n, 12)):
        for end in range(2):
            jobs.append(J("bt", "c11_sizes", (lo, w, 4, end, n), time=T, weight=n * w / 20))
    return jobs


def c10(tier):
    q = tier == "quick"
    jobs = []
    T = 120 if q else 600
    shapes = ((0, 0), (1, 0), (13, 0), (24, 2), (71, 3)) if q else ((0, 0), (1, 0), (2, 0), (12, 0), (13, 1), (24, 2), (30, 4), (36, 2), (71, 3), (90, 0), (84, 2), (143, 3))
    # later uses: 0 remove and drain, 1 insert, 2 split, 3 ranges, 4 consume, 5 copy, 6 append, 7 drop
    for n, how in shapes:
        w = n
        for op in range(8):
            for later in ((7,) if op in (2, 4, 7) else (0, 1, 2, 6) if op in (5, 6) else (0, 6)) if q else ((7, 0) if op == 4 else range(7)):
                for ans in ((0, 1, 3) if not q or later == 0 and n < 70 else (op % 2 * 2 + 1,)) + (() if q else (2,)):
                    for n2 in (5, 14) if op in (6, 7) else (0,):
                        b = 3 if q or later not in (0, 7) else 5
                        jobs.append(J("bt", "c10_ord", (n, how, n2, op, b, 1, ans, later), time=T, weight=w))
        for op in range(10):
            lat = ((0, 1, 2, 6) if op in (5, 6, 8, 9) else (7,) if op in (2, 4, 7) else (0,)) if q else range(7)
            for later in lat:
                if op not in (8, 9):
                    jobs.append(J("bt", "c10_panic", (n, how, 14, op, 0, later, 8 if q else 30, 3 if op in (6, 7) else 1), time=T, weight=w))
                else:
                    jobs.append(J("bt", "c10_panic", (n, how, 0, op, 1, later, 20, max(1, n // 9)), time=T, weight=w))
                jobs.append(J("bt", "c10_panic", (n, how, 14, op, 2, later, 4 if q else 8, 1), time=T, weight=w))
        for op in range(9):
            for later in ((7,) if op in (4, 5, 7) else (0,) if op < 3 else (0, 1)) if q else range(7):
                if q and op == 3 and n > 13:
                    later = 7
                jobs.append(J("bt", "c10_iter", (n, how, op, later), time=T, weight=w))
        for op in (6, 8, 10, 11):
            for later in (0, 2) if q else range(7):
                for mode in range(2):
                    jobs.append(J("bt", "c10_oom", (n, how, 30, op, later, mode), time=T, weight=w))
    for op in (5, 6) if q else (4, 5, 6):
        for ans in (0, 1, 3):
            jobs.append(J("bt", "c10_hist", (2, 1 if q else 2, 1 if q else 3, ans, op), time=T, weight=60))
    for n, b in ((4, 6), (14, 4), (30, 3)) if q else ((5, 10), (14, 7), (30, 6), (100, 4)):
        for ans in (0, 1, 3):
            jobs.append(J("bt", "c10_fill", (n, b, ans), time=T, weight=60))
    for op in range(14):
        for n, n2 in ((0, 3), (2, 2), (13, 3), (3, 13), (20, 1), (1, 20)):
            for ans in (0, 1, 2, 3):
                jobs.append(J("bt", "c10_set", (n, n2, op, 4 if q else 7, 1, ans), time=T, weight=20))
    for n, how in ((0, 0), (13, 0), (71, 3)) if q else ((0, 0), (1, 0), (5, 0), (13, 0), (24, 2), (71, 3), (143, 3)):
        for honest, budget in ((0, 2), (2, 2), (4, 2)) if q else ((0, 4), (1, 4), (2, 3), (3, 3), (4, 3), (5, 3)):
            for i, (lo, hi) in enumerate(((1, 3), (2, 4), (3, 2)) if honest else ((0, 0), (1, 3))):
                jobs.append(J("bt", "c10_bounds", (n, how, honest, budget, lo, hi, (i + honest // 2) % 2, 5 * (i % 2)), time=T, weight=20 + n))
    for n, how in ((650, 0), (450, 3)):
        for op in (0, 1, 3, 7):
            jobs.append(J("bt", "c10_ord", (n, how, 14 if op == 7 else 0, op, 3 if q else 5, 1, 1 + op % 3, 7 if op == 7 else 6), time=T, weight=n))
        if not q:
            for op in (8, 9):
                jobs.append(J("bt", "c10_panic", (n, how, 0, op, 1, 0, 20, n // 5), time=T, weight=n))
    return jobs


def c09(tier):
    q = tier == "quick"
    jobs = []
    T = 120 if q else 600
    for lay in range(13):
        shapes = ((0, 0), (1, 0), (13, 1), (24, 2), (71, 3)) if q else ((0, 0), (1, 0), (11, 0), (12, 0), (13, 1), (24, 2), (36, 4), (71, 3), (90, 0), (120, 2))
        if lay in (6, 7):
            shapes = ((0, 0), (1, 0))
        if lay in (0, 1, 8):
            shapes = tuple(s for s in shapes if s[0] <= 100)
        for n, how in shapes:
            for a in range(10):
                jobs.append(J("bt", "c09_op", (lay, n, how, a, 10), time=T, weight=n))
                if not q and n <= 24:
                    for b in range(9):
                        jobs.append(J("bt", "c09_op", (lay, n, how, a, b), time=T, weight=n * 4))
            jobs.append(J("bt", "c09_iter", (lay, n, how, 1 if n < 20 else 5 if q else 3), time=T, weight=n))
        jobs.append(J("bt", "c09_hist", (lay, 2 if q else 3, 0), time=T, weight=20))
        jobs.append(J("bt", "c09_empty", (lay,), time=T))
        if lay not in (6, 7):
            for n, how, gap in ((120, 3, 13), (90, 2, 23)) if q else ((120, 3, 3), (90, 2, 3), (100, 0, 5), (120, 4, 5)):
                for order in range(4):
                    jobs.append(J("bt", "c09_drain", (lay, n, how, order, gap), time=T, weight=n))
        for n in (0, 1) if lay in (6, 7) else (0, 1, 14) if q else (0, 1, 12, 14, 40):
            for op in range(9):
                jobs.append(J("bt", "c09_set", (lay, n, op), time=T, weight=n))
    # trees of four levels
    for lay in (2, 3) if q else (2, 3, 4, 5, 9, 10, 11, 12):
        for n, how in ((650, 0), (450, 3)):
            jobs.append(J("bt", "c09_iter", (lay, n, how, 149), time=T, weight=n))
            jobs.append(J("bt", "c09_drain", (lay, n, how, lay % 4, 217), time=T, weight=n))
    return jobs


def c13(tier):
    q = tier == "quick"
    jobs = []
    T = 120 if q else 600
    for kind in KINDS:
        for ty in tuple(range(9)) + (10,):
            for op in range(4):
                for ln, cap in ((0, 0), (2, 2), (1, 4)) if q else ((0, 0), (0, 3), (1, 1), (2, 2), (1, 4), (3, 4), (5, 5), (4, 16)):
                    if op in (1, 3) and ln + cap:
                        continue
                    jobs.append(J(kind, "c13_reserve", (ty, op, ln, cap), time=T))
            for ln, cap in ((0, 0), (2, 2), (3, 4)):
                for op in (0, 1, 2, 9):
                    if ty in (2, 7, 10) or op == 9 and ty in (3, 5):
                        continue
                    jobs.append(J(kind, "c13_fill", (ty, op, ln, cap), time=T))
            if kind == "bt" and ty not in (2, 7, 10):
                jobs.append(J(kind, "c13_small", (ty,), time=T))
        for ty in (0, 1, 3, 4, 6, 9):
            for op in range(3):
                if op == 1 and ty in (0, 1, 4, 6):
                    continue
                for ln, cap in ((0, 0), (2, 2), (1, 4)) if q else ((0, 0), (0, 3), (1, 1), (2, 2), (1, 4), (3, 4), (5, 5), (4, 16)):
                    jobs.append(J(kind, "c13_limit", (ty, op, ln, cap), time=T))
        for op in range(17):
            for m in (0, 1, 3, 5) if q else range(7):
                jobs.append(J(kind, "c13_zst", (op, m), time=T))
        jobs.append(J(kind, "c13_concat", (), time=T))
        for op in range(2):
            for ln, cap in ((0, 0), (3, 3), (3, 20)):
                jobs.append(J(kind, "c13_io", (op, ln, cap), time=T))
        jobs.append(J(kind, "c13_format", (), time=T))
    for kind in ("st", "hb"):
        for cap in (0, 1, 3, 4, 7, 8, 14, 15, 28, 29, 56, 57, 112, 113, 200, 1000, 1800, 5000, 20000, 100000, 2 ** 64 - 1):
            jobs.append(J(kind, "c13_map", (cap,), time=T))
    return jobs


# vectors: lengths and room
# longer vectors and longer arguments, across the sizes an implementation may treat in blocks: (len, cap, base of the arguments)
WIDE = ((0, 0, 40), (20, 33, 70), (70, 70, 33))
WIDER = WIDE + ((130, 200, 20), (3, 3, 140), (260, 260, 1), (1, 1, 520), (64, 64, 64))
VSTATES = ((0, 0), (0, 2), (1, 1), (3, 3), (3, 4), (2, 9))


def c14(tier):
    q = tier == "quick"
    jobs = []
    T = 120 if q else 600
    for kind in KINDS:
        for ty in (1, 2, 3, 4) if q else range(9):
            for op in range(9):
                if op >= 7 and ty in (3, 5, 7):
                    continue
                for ln, cap in VSTATES if q else VSTATES + ((5, 5), (6, 8), (12, 12), (9, 30)):
                    jobs.append(J(kind, "c14_op", (ty, op, ln, cap), time=T))
            jobs.append(J(kind, "c14_collect", (ty, 6 if q else 12), time=T))
            for base in (31, 64) if q else (16, 31, 64, 127, 250):
                jobs.append(J(kind, "c14_collect", (ty, 2, base), time=T))
            for op in range(4 if kind == "bt" else 1):
                jobs.append(J(kind, "c14_make", (ty, op), time=T))
                if op < 3:
                    jobs.append(J(kind, "c14_make", (ty, op, 62), time=T))
            for ln, cap in VSTATES + ((40, 40), (70, 90)):
                jobs.append(J(kind, "c14_clone", (ty, ln, cap), time=T))
        for ty in (0, 5, 6, 7, 8, 10):
            for op in range(9):
                if op >= 7 and ty in (5, 7, 10):
                    continue
                jobs.append(J(kind, "c14_op", (ty, op, 3, 3), time=T))
        if kind == "bt":
            jobs += [J(kind, "c14_make", (0, op), time=T) for op in range(4)]
        for ty in (0, 3, 4) if q else range(9):
            for op in range(2, 9):
                if op >= 7 and ty in (3, 5, 7):
                    continue
                for ln, cap, base in WIDE if q else WIDER:
                    jobs.append(J(kind, "c14_op", (ty, op, ln, cap, base), time=T, weight=ln + base))
        # every index and every shorter length of a long vector
        for ty in (1, 3) if q else (1, 2, 3, 4):
            for op in (2, 4, 5):
                for ln, cap in ((75, 75), (75, 90)) if q else ((75, 75), (75, 90), (140, 140), (260, 300)):
                    jobs.append(J(kind, "c14_op", (ty, op, ln, cap), time=T, weight=ln))
        for ty in (1, 3):
            for ln, cap in ((0, 0), (2, 3)):
                jobs.append(J(kind, "c14_hist", (ty, 2 if q else 3, ln, cap), time=T, weight=50))
    return jobs


def c15(tier):
    q = tier == "quick"
    jobs = []
    T = 120 if q else 600
    for kind in KINDS:
        for ty in (1, 3, 4) if q else range(9):
            for op in range(9):
                if op >= 7 and ty in (3, 5, 7):
                    continue
                for ln, cap in VSTATES if q else VSTATES + ((5, 5), (6, 8), (12, 12)):
                    for mode in (0, 1, 2) + ((3, 4) if op in (5, 6) and ty not in (0, 1, 8) else ()):
                        if q and mode == 1 and op < 5:
                            continue
                        jobs.append(J(kind, "c15_op", (ty, op, ln, cap, mode), time=T))
        for ty in (3, 7, 5, 1):
            for op in range(6 if kind == "bt" else 3):
                for mode in (0, 1, 2) + ((3, 4) if op in (1, 3, 4) and ty != 1 else ()):
                    jobs.append(J(kind, "c15_make", (ty, op, mode), time=T))
        for op in (0, 1, 3, 4) if kind == "bt" else (0, 1):
            for base in (40,) if q else (16, 31, 40, 64, 127):
                jobs.append(J(kind, "c15_make", (3, op, 4 if op else 0, base), time=T, weight=base))
        for op in range(7):
            for mode in (0, 3) if op in (5, 6) else (0,):
                for ty in (2, 5, 6, 7, 10):
                    jobs.append(J(kind, "c15_op", (ty, op, 2, 2, mode), time=T))
        for ty, op, mode in ((1, 3, 0), (3, 4, 0), (3, 2, 2), (1, 8, 0), (1, 7, 0), (3, 5, 4), (3, 6, 4), (4, 6, 0)) if q else \
                [(ty, op, mode) for ty in (0, 1, 3, 4, 7) for op in range(2, 9) if op < 7 or ty not in (3, 7)
                 for mode in (0, 2) + ((3, 4) if op in (5, 6) and ty not in (0, 1) else ())]:
            for ln, cap, base in WIDE if q else WIDER:
                jobs.append(J(kind, "c15_op", (ty, op, ln, cap, mode, base), time=T, weight=ln + base))
        for ty, op in ((1, 2), (3, 2), (3, 4), (1, 4)):
            jobs.append(J(kind, "c15_op", (ty, op, 75, 75, 0), time=T, weight=75))
        for ty in (1, 3):
            for ln, cap in ((0, 0), (2, 3)):
                jobs.append(J(kind, "c15_hist", (ty, 2 if q else 3, ln, cap), time=T, weight=50))
    return jobs


def c16(tier):
    q = tier == "quick"
    jobs = []
    T = 120 if q else 600
    for kind in KINDS:
        for ty in (3, 7) if q else (3, 5, 7, 2):
            for ln, cap in VSTATES if q else VSTATES + ((5, 5), (6, 8), (9, 30)):
                for op, whats in ((0, (3,)), (1, (3,)), (2, (3,)), (3, (1,)), (4, (1, 2)), (5, (0, 1, 3, 4)), (6, (0, 1, 4))):
                    for w in whats:
                        if ty in (7, 2) and w in (1, 3, 4):
                            continue
                        jobs.append(J(kind, "c16_op", (ty, op, ln, cap, w), time=T))
        for op, whats in ((4, (1, 2)), (5, (0, 1)), (6, (0, 1))):
            for w in whats:
                for ln, cap, base in WIDE if q else WIDER:
                    jobs.append(J(kind, "c16_op", (3, op, ln, cap, w, base), time=T, weight=ln + base))
        for ty in (3, 5):
            for op, whats in ((0, (1, 2, 3)), (1, (0, 1, 3, 4)), (2, (0, 1, 3, 4)), (3, (0, 1, 3, 4)), (4, (3,))):
                if op in (2, 3) and kind == "st":
                    continue
                for w in whats:
                    jobs.append(J(kind, "c16_make", (ty, op, w), time=T))
        for op, whats in ((0, (2,)), (1, (0, 1)), (2, (0, 1)), (3, (0, 1))):
            if op in (2, 3) and kind == "st":
                continue
            for w in whats:
                jobs.append(J(kind, "c16_make", (3, op, w, 40), time=T, weight=40))
        for op, whats in ((3, (1,)), (4, (1, 2)), (5, (0, 1, 3)), (6, (0, 1))):
            for w in whats:
                jobs.append(J(kind, "c16_op", (10, op, 2, 2, w), time=T))
        for ty in (3,) if q else (3, 5):
            for op, whats in ((0, (0, 3, 4)), (1, (1, 2)), (2, (1,)), (3, (0, 4)), (4, (0, 4)), (5, (3,)), (6, (0, 1, 4))):
                for w in whats:
                    for ln, cap in ((1, 1), (3, 3), (2, 6)):
                        jobs.append(J(kind, "c16_try", (ty, op, w, ln, cap), time=T))
    return jobs


def c17(tier):
    q = tier == "quick"
    jobs = []
    T = 120 if q else 600
    for kind in KINDS:
        for ty in (1, 2, 3) if q else range(9):
            for first in range(12):
                for ln, cap in ((0, 0), (2, 2), (3, 5)) if q else VSTATES:
                    jobs.append(J(kind, "c17_hist", (ty, 1 if q else 2, first, ln, cap, 0), time=T))
                    for mode in (1, 4) if first in (5, 10) else (1, 2) if first in (0, 2, 3, 4) else ():
                        if ty != 2:
                            jobs.append(J(kind, "c17_hist", (ty, 1 if q else 2, first, ln, cap, mode), time=T))
            for ln, cap in ((0, 0), (1, 3), (4, 4), (20, 40)):
                jobs.append(J(kind, "c17_view", (ty, ln, cap), time=T))
                jobs.append(J(kind, "c17_iter", (ty, ln, cap), time=T))
            for mode in (0, 1, 2, 3):
                if mode in (1, 2) and ty == 2 or mode == 3 and ty in (0, 1, 8):
                    continue
                jobs.append(J(kind, "c17_concat", (ty, mode), time=T))
                if mode in (0, 3) or not q:
                    jobs.append(J(kind, "c17_concat", (ty, mode, 35), time=T))
                for op in range(4):
                    for ln in (0, 1, 3, 40):
                        if mode and op > 1 or mode == 3 and op:
                            continue
                        jobs.append(J(kind, "c17_from", (ty, op, ln, mode), time=T))
        for ty, first, mode in ((1, 2, 0), (3, 2, 1), (3, 3, 0), (1, 3, 1), (1, 4, 0), (3, 4, 1), (1, 5, 0), (3, 5, 4), (3, 10, 4), (1, 7, 0), (3, 11, 0), (3, 6, 0)):
            for ln, cap, base in WIDE if q else WIDER:
                jobs.append(J(kind, "c17_hist", (ty, 1, first, ln, cap, mode, base), time=T, weight=ln + base))
        for ty, first in ((1, 0), (3, 2), (3, 5), (3, 10), (3, 4), (3, 11), (3, 1)):
            jobs.append(J(kind, "c17_hist", (ty, 2 if q else 3, first, 2, 2, 0), time=T, weight=40))
            if first in (0, 2, 5, 4, 10):
                jobs.append(J(kind, "c17_hist", (ty, 2 if q else 3, first, 1, 1, 4), time=T, weight=40))
        for first in range(12):
            jobs.append(J(kind, "c17_hist", (10, 1, first, 2, 2, 4 if first in (5, 10) else 0), time=T))
        jobs.append(J(kind, "c17_concat", (10, 3), time=T))
        for ty in (1, 2, 3):
            for which in range(3):
                for what in range(11):
                    for ln, cap in ((4, 6),) if q else ((0, 0), (1, 1), (4, 6), (20, 20)):
                        jobs.append(J(kind, "c17_meth", (ty, ln, cap, which, what), time=T))
        for ty in range(5):
            for la, lb in ((0, 0), (0, 1), (1, 1), (2, 1), (2, 2), (3, 3), (2, 3), (20, 20), (36, 35), (0, 40)):
                jobs.append(J(kind, "c17_eq", (ty, la, lb), time=T))
        for ln in (0, 1, 2, 3, 5, 20) if q else (0, 1, 2, 3, 4, 5, 6, 20, 40):
            for mode in (0, 1):
                jobs.append(J(kind, "c17_text", (ln, mode), time=T))
    return jobs


def c18(tier):
    q = tier == "quick"
    jobs = []
    T = 120 if q else 900
    BIG = 1 << 62
    for kind in KINDS:
        for op in range(3):
            for ln, cap in ((0, 0), (2, 2), (2, 40), (3, 5)):
                if op == 2 and ln + cap:
                    continue
                for n in (0, 1, 4) if q else (0, 1, 2, 4, 6):
                    jobs.append(J(kind, "c18_read", (op, ln, cap, n, 0, BIG, 0), time=T))
                    if n > 1:
                        jobs.append(J(kind, "c18_read", (op, ln, cap, n, 1 if q else 2, BIG, 0), time=T))
                        for err in (0, 2, n):
                            jobs.append(J(kind, "c18_read", (op, ln, cap, n, 0, err, 0), time=T))
                    for mode in (1, 2, 3):
                        jobs.append(J(kind, "c18_read", (op, ln, cap, n if n < 4 else 3, 0, BIG, mode), time=T))
                        jobs.append(J(kind, "c18_any", (op, ln, cap, n, mode), time=T))
                    jobs.append(J(kind, "c18_any", (op, ln, cap, n, 0), time=T))
            for n in (31, 32, 33, 40, 70) if q else (31, 32, 33, 34, 63, 64, 65, 96, 97, 130):
                jobs.append(J(kind, "c18_any", (op, 0, 0, n, 0), time=T))
                if op < 2:
                    jobs.append(J(kind, "c18_any", (op, 3, 20, n, 1), time=T))
            for n in (300,) if q else (141, 256, 300, 511, 1025, 1500):
                for ln, cap in ((0, 0), (3, 20)):
                    if op < 2 or ln == 0:
                        for mode in (0, 1):
                            jobs.append(J(kind, "c18_any", (op, ln, cap, n, mode), time=T, weight=n / 10))
        for n in (3, 5):
            for mode in (0, 1):
                jobs.append(J(kind, "c18_seq", (2 if q else 3, n, mode), time=T))
        for op in range(6):
            for ln, cap in ((0, 0), (2, 2), (3, 6), (1, 2)):
                for mode in range(4):
                    jobs.append(J(kind, "c18_write", (op, ln, cap, mode), time=T))
            for ln, cap, base in ((0, 0, 40), (3, 6, 300), (70, 100, 30), (70, 70, 1)):
                for mode in (0, 1):
                    jobs.append(J(kind, "c18_write", (op, ln, cap, mode, base), time=T))
    return jobs


def c19(tier):
    q = tier == "quick"
    jobs = []
    T = 120 if q else 600
    for kind in KINDS:
        for ty in range(13):
            for op in range(2):
                for mode in range(3):
                    if mode and ty in (2, 7, 11, 12):
                        continue
                    jobs.append(J(kind, "c19_new", (ty, op, mode), time=T))
                for mode in range(5):
                    if mode in (1, 2) and ty in (2, 7, 11, 12) or mode > 2 and ty in (0, 1, 8):
                        continue
                    jobs.append(J(kind, "c19_clone", (ty, op, mode), time=T))
        for ty in (2, 3, 5) if q else range(9):
            jobs.append(J(kind, "c19_hist", (ty, 3 if q else 5), time=T, weight=20))
        for op in range(2):
            for what in range(2):
                jobs.append(J(kind, "c19_panic", (op, what), time=T))
    return jobs


def c20(tier):
    q = tier == "quick"
    jobs = []
    T = 120 if q else 600
    for kind in KINDS:
        for ty in tuple(range(9)) + (10,):
            for op in range(2):
                # the stable configuration reports only the first of its two allocations
                for mode in (0, 1, 2) if kind == "bt" else (0,) if ty in (2, 7) else (0, 2):
                    jobs.append(J(kind, "c20_new", (ty, op, mode), time=T))
        for ty in (3,) if q else (3, 5, 1, 2):
            for op in range(2):
                jobs.append(J(kind, "c20_hist", (ty, op, 4 if q else 5), time=T, weight=30))
        jobs.append(J(kind, "c20_unsized", (), time=T))
        for op in range(2):
            for f in range(2):
                jobs.append(J(kind, "c20_panic", (op, f), time=T))
    return jobs


def c23(tier):
    q = tier == "quick"
    jobs = []
    T = 120 if q else 600
    for kind in KINDS:
        for what in range(14):
            for spare in (0, 1, 20):
                for mode in range(3):
                    jobs.append(J(kind, "c23_fmt", (what, spare, mode), time=T))
        for n in (0, 1, 3, 40) if q else (0, 1, 2, 3, 4, 5, 6, 40, 150):
            for end in range(4):
                for spare in (0, 1, 9):
                    for mode in range(2):
                        jobs.append(J(kind, "c23_user", (n, end, spare, mode), time=T))
        for n in (0, 1, 5) if q else (0, 1, 2, 5, 20, 60):
            for mode in range(2):
                jobs.append(J(kind, "c23_cap", (n, mode), time=T))
    return jobs


def c24(tier):
    q = tier == "quick"
    jobs = []
    T = 120 if q else 600
    for kind in KINDS:
        jobs.append(J(kind, "c24_prim", (), time=T))
        for ty in range(11):
            for mode in (0, 3, 5):
                if ty in (0, 1, 8) and mode:
                    continue
                jobs.append(J(kind, "c24_option", (ty, mode), time=T))
        for what in range(21):
            for mode in range(6):
                jobs.append(J(kind, "c24_nested", (what, mode), time=T))
    return jobs


def c21(tier):
    q = tier == "quick"
    jobs = []
    T = 120 if q else 600
    for k, cl, ops in ((3, 1, 4), (4, 1, 2), (3, 2, 2), (4, 1, 4), (5, 1, 2), (4, 2, 2)) if q else ((4, 1, 4), (5, 1, 2), (4, 2, 2), (6, 1, 1), (5, 1, 4), (6, 1, 2), (5, 2, 2)):
        jobs.append(J("st", "c21_hist", (k, cl, ops), time=T, weight=80))
    # tables: empty, partly filled, full (3, 7, 14, 28 entries), with tombstones
    shapes = ((0, 1, 0), (1, 1, 0), (3, 1, 0), (4, 1, 0), (7, 1, 0), (7, 3, 2), (7, 1, 3), (14, 1, 0), (14, 2, 5), (15, 5, 0), (28, 7, 0), (28, 1, 4), (57, 57, 0), (112, 112, 30), (120, 120, 100), (224, 224, 0),
              (450, 450, 3), (450, 450, 440), (60, 4, 0))
    if not q:
        shapes += ((7, 1, 7), (8, 2, 8), (14, 14, 13), (29, 29, 0), (30, 1, 1), (56, 9, 3), (57, 57, 0), (28, 2, 27))
    for n, cl, gone in shapes:
        for op in range(4):
            jobs.append(J("st", "c21_one", (n, cl, gone, op, 9), time=T, weight=n))
            if n <= 8 or not q and n < 20:
                for op2 in range(2):
                    jobs.append(J("st", "c21_one", (n, cl, gone, op, op2), time=T, weight=n))
        jobs.append(J("st", "c21_iter", (n, cl, gone), time=T, weight=n))
        for op in range(2):
            jobs.append(J("st", "c21_clone", (n, cl, gone, op), time=T, weight=n))
    for n in (0, 1, 3):
        jobs.append(J("st", "c21_debug", (n,), time=T))
    for n in (0, 1, 4, 7):
        jobs.append(J("st", "c21_types", (n,), time=T))
    jobs += [dict(j, kind="hb") for j in jobs]
    return jobs


def c22(tier):
    q = tier == "quick"
    jobs = []
    T = 120 if q else 600
    shapes = ((0, 1, 0), (1, 1, 0), (2, 1, 0), (3, 1, 0), (4, 2, 0), (6, 1, 0), (7, 1, 0), (7, 3, 2), (7, 1, 7), (8, 2, 0), (15, 3, 0), (29, 4, 0), (14, 1, 0), (14, 2, 5), (28, 7, 0), (56, 56, 0), (112, 112, 0), (112, 112, 30),
              (448, 448, 0))
    if not q:
        shapes += ((8, 2, 8), (14, 14, 13), (28, 1, 14), (28, 28, 27), (29, 1, 0), (56, 9, 3), (56, 1, 0))
    for n, cl, gone in shapes:
        for mode in range(4):
            jobs.append(J("st", "c22_insert", (n, cl, gone, mode), time=T, weight=n))
        for mode in range(7):
            if mode < 4 or n < 100 or n == 112 and mode != 5:
                jobs.append(J("st", "c22_clone", (n, cl, gone, mode), time=T, weight=n))
    for n, cl, gone in ((0, 1, 0), (2, 1, 0), (3, 2, 0), (6, 1, 0), (7, 1, 6)):
        for mode in (1, 2):
            jobs.append(J("st", "c22_hist", (2 if q else 3, cl, n, gone, mode), time=T, weight=30))
    for cap in (0, 1, 3, 4, 7, 8, 14, 15, 28, 29, 56, 100, 200, 448, 1792, 2 ** 64 - 1):
        for mode in (0, 1, 3):
            jobs.append(J("st", "c22_capacity", (cap, mode), time=T))
    jobs += [dict(j, kind="hb") for j in jobs]
    return jobs


def c26(tier):
    q = tier == "quick"
    jobs = []
    T = 120 if q else 600
    for n, how in ((0, 0), (1, 0), (12, 0), (40, 3)) if q else ((0, 0), (1, 0), (2, 0), (12, 0), (40, 3), (72, 6), (110, 4)):
        jobs.append(J("bt", "c26_map", (n, how, 1, 0), time=T, weight=n))
        if n == 40 and q:
            jobs.append(J("bt", "c26_map", (150, 0, 1, 0), time=T, weight=300))
            jobs.append(J("bt", "c26_set", (150, 0, 1, 0, 1), time=T, weight=300))
            for kind in range(8):
                jobs.append(J("bt", "c26_iter", (150, 3, 1, kind, 37), time=T, weight=30))
        if n < 41:
            jobs.append(J("bt", "c26_map", (n, how, 1, 8), time=T, weight=n * 5))
        jobs.append(J("bt", "c26_entry", (n, how, 1), time=T, weight=n / 2))
        for kind in range(8):
            jobs.append(J("bt", "c26_iter", (n, how, 1, kind, 1 if n < 13 else 7 if q else 3), time=T, weight=n))
        for kind in range(4):
            jobs.append(J("bt", "c26_set", (n, min(how, 4), 1, kind, 1 if n < 13 else 7 if q else 3), time=T, weight=n))
    for op in range(4):
        for n1, n2 in ((0, 3), (14, 5), (40, 2), (3, 0)) if q else ((0, 3), (14, 5), (40, 2), (3, 0), (70, 3), (60, 50)):
            jobs.append(J("bt", "c26_algebra", (n1, n2, op), time=T, weight=n1))
    return jobs


def c27(tier):
    q = tier == "quick"
    jobs = []
    T = 120 if q else 600
    for kind in KINDS:
        for plain, ops in ((1, range(10)), (0, (0, 3, 4, 7, 9))):
            for op in ops:
                for ty, n, k in ((0, 1500, 1), (1, 300, 1), (1, 2000, 33), (2, 50, 2), (4, 200, 3), (8, 300, 7)) if q else \
                        ((0, 20000, 1), (0, 30000, 63), (1, 3000, 1), (1, 8000, 33), (2, 200, 2), (4, 1000, 3), (6, 300, 1), (8, 2000, 7)):
                    if op == 2:
                        n = min(n, 300 if q else 1000)
                    jobs.append(J(kind, "c27_grow", (ty, op, plain, n, k, 0), time=T, weight=n / k / 20))
                jobs.append(J(kind, "c27_grow", (1, op, plain, 400, 1, 130), time=T, weight=20))
        for ty in (0, 1, 2, 4, 6, 8):
            for plain in (0, 1):
                for ln, cap in ((0, 0), (0, 5), (3, 3), (3, 9), (70, 100)):
                    jobs.append(J(kind, "c27_fit", (ty, ln, cap, plain), time=T))
            jobs.append(J(kind, "c27_empty", (ty,), time=T))
            for op in range(6 if kind == "bt" else 5):
                for n in (3, 20, 100) if q else (3, 20, 100, 300, 900):
                    if op == 4 and ty == 6 and n > 100:
                        continue
                    jobs.append(J(kind, "c27_copy", (ty, op, n), time=T, weight=n / 10))
        for n, k in ((60, 1), (1500, 1), (2000, 17)) if q else ((60, 1), (5000, 1), (20000, 1), (20000, 17), (60000, 64)):
            jobs.append(J(kind, "c27_io", (n, k), time=T, weight=n / k / 20))
    for kind in ("st", "hb"):
        for n, c in ((0, 0), (1, 0), (40, 0), (500, 0), (500, 26), (30, 300)) if q else ((0, 0), (1, 0), (40, 0), (500, 0), (500, 26), (30, 300), (4000, 0), (2000, 112)):
            jobs.append(J(kind, "c27_map", (n, c), time=T, weight=n / 10))
        for n, r in ((1, 60), (14, 300), (28, 300), (100, 400)) if q else ((1, 600), (14, 3000), (27, 3000), (28, 3000), (100, 3000), (448, 3000)):
            jobs.append(J(kind, "c27_churn", (n, r), time=T, weight=r / 10))
        for n in (0, 3, 30, 300) if q else (0, 3, 30, 300, 1000):
            jobs.append(J(kind, "c27_map_copy", (n,), time=T, weight=n / 10))
    return jobs


PROPS = {
    "C27": {"jobs": c27,
            "bounds": "Vectors (ordinary and TryVec, six element types) grown step by step to up to 2000 (quick) or 30000 (thorough) elements by ten "
                      "operations, from any small length and capacity (and from 130 elements), in steps of 1 to 63; reservations of an unconstrained 64-bit count; copies, collections, "
                      "concatenations and literals of up to 100 (900) elements; byte-wise writing of up to 2000 (60000) bytes; hash maps (std's and "
                      "hashbrown's) grown to 500 (4000) entries from several capacities, churned over 400 (3000) replacements, and copied after removals.",
            "outside": "larger collections; constants: the bounds allow a quarter's growth per reallocation and four times the memory (sixteen times for tables); elapsed time."},
    "C26": {"jobs": c26,
            "bounds": "Maps and sets of up to 150 entries in up to seven shapes after one insertion or removal with an "
                      "unconstrained key; all eight map iterators and three set iterators after any number of front and back steps (multiples of a gap above 12 "
                      "entries); entries for an unconstrained key; four set operations after up to three steps; a formatter that "
                      "fails at any of its first eight writes; the plain and the alternate (pretty) notation.",
            "outside": "larger collections; keys and values whose own formatting panics."},
    "C12": {"jobs": c12,
            "bounds": "Copying of maps of up to 90 (quick) or 300 (thorough) entries with one unconstrained value, every choice of one failing "
                      "allocation or of failing from some allocation on, every failing element copy (in steps of n/25 above 50 entries), "
                      "followed by a change to either, assigned to an existing map by clone_from as well; copies of four-level maps of 450 and 650 entries with every third of them failing; comparisons and hashes of maps of up to 40 (90) entries in five shapes with one free "
                      "change to either or (up to 13 entries) both, of two maps or sets of up to two or three (three or four) free entries, "
                      "and with incomparable values.",
            "outside": "larger collections with more than one free entry."},
    "C11": {"jobs": c11,
            "bounds": "One operation (or two, on up to 13 entries; thorough 60) with an unconstrained key on maps of up to 300 (quick) or "
                      "1000 (thorough) entries in ten shapes, and near given entries of four-level trees of 450-650 (800); nine long patterns of use (queues, drains, splits, churn) on up to 150 (600) "
                      "entries with a free operation at the end, memory measured after every step; appends for every total size in windows up to 292 (thorough: "
                      "every size to 480) and splits at a free key in windows, then removal from one end, memory measured after every step; all histories of four (six) operations; "
                      "limits: at most 1 + n/4 blocks and twice a linear search of every node on the longest path.",
            "outside": "larger collections; costs other than comparisons and blocks."},
    "C10": {"jobs": c10,  "bounds": "The first three (thorough: five) comparisons of an operation answered arbitrarily or panicking, later ones by a fixed "
                      "answer or honestly; any one comparison, copy, drop, closure or iterator step (of the first 8-30) panicking; the "
                      "first or all later allocations failing inside operations that can only panic; on maps of up to 71 (quick) or 143 "
                      "(thorough) entries in five shapes (some also on 450 and 650) with a second map of up to 30 entries; then well-behaved "
                      "removal, insertion, splitting, ranges, consumption, copying or appending at a freely chosen place, under an "
                      "ordering numbered after the actual contents; set operations on sets of up to 20 elements; ranges whose bounds change "
                      "or panic at two consecutive calls (thorough: three or four) from the first, third or fifth on, on up to 71 (143) entries.",
            "outside": "two panics in one operation (a panic while unwinding ends the process); longer sequences of arbitrary answers; larger trees."},
    "C09": {"jobs": c09,
            "bounds": "Thirteen layouts of keys and values (sizes 0, 1, 2, 4, 8, 16, 64-aligned, 512, over-aligned and zero-sized, boxed, plain without destructors): "
                      "one (thorough: two) of ten operations with an unconstrained key on maps of up to 71 (quick) or 120 (thorough) entries "
                      "in five shapes, histories of two (three) operations from the empty map, consuming iteration abandoned "
                      "after any prefix, draining in several orders (both also on 450 and 650 entries); nine operations on sets.",
            "outside": "other layouts; larger trees; longer histories; failing allocations (C08) and panics (C10)."},
    "C21": {"jobs": c21,
            "bounds": "Histories of three to four (quick) or four to six (thorough) insertions, removals, lookups and copies with "
                      "unconstrained keys (all colliding, or in two hash classes); one or two operations with an unconstrained key on "
                      "maps of up to 450 entries in one to 450 hash classes, full and partly removed again; "
                      "consuming iteration stopped anywhere; both tables (the standard library's and, without the std feature, hashbrown's).",
            "outside": "hash seeds other than one fixed pair (the table's own probing is the standard library's); larger maps."},
    "C22": {"jobs": c22,
            "bounds": "Insertion with an unconstrained key into, and copying of, maps of up to 448 entries, "
                      "empty, full and with removed entries, with every choice of failing allocations and every failing or "
                      "panicking key or value copy (failing allocations only, above 112); histories of two (three) such operations; creation with 12 capacities and every "
                      "capacity beyond memory.",
            "outside": "hash seeds other than one fixed pair; larger maps."},
    "C19": {"jobs": c19,
            "bounds": "Creation, copying and raw-pointer round trips of Box and TryBox for thirteen element types (sizes 0, 1, 4, 8, 16, 512, "
                      "alignments up to 64, and 8192; zero-sized ones aligned to 1, 8 and 64) with unconstrained values, every choice of failing allocations and element copies; "
                      "all histories of three (quick) or five (thorough) steps on three optional boxes; panicking copies and drops.",
            "outside": "element layouts other than these; longer histories."},
    "C20": {"jobs": c20,
            "bounds": "Creation of Rc and Arc for nine element types with unconstrained values; nightly configuration: every choice "
                      "of failing allocations, stable configuration: the first allocation failing; all histories of four (quick) "
                      "or five (thorough) copies, drops, downgrades and upgrades; unsized values.",
            "outside": "use from several threads (Arc's counters are the standard library's); the stable configuration's second, "
                       "infallible allocation (documented limitation)."},
    "C23": {"jobs": c23,
            "bounds": "Ten format strings over 12 boundary integers, 4 texts, 4 characters; a width or text of up to 200 characters; user values of up to 40 (quick) or 150 "
                      "(thorough) pieces of unconstrained text, also failing or panicking; room exact or with 1, 9, 20 to spare, and every stated capacity up to the largest integer; "
                      "every choice of failing allocations.",
            "outside": "the standard library's rendering of arbitrary numbers; capacities stated too small (documented)."},
    "C24": {"jobs": c24,
            "bounds": "Every value of every primitive type; options of ten element types (among them a plain type with a failing, not bitwise copy); sixteen nested structures of up to three "
                      "levels with up to 7 elements; vectors of up to 261 elements; every choice of failing allocations, the n-th element copy failing or panicking.",
            "outside": "deeper nesting."},
    "C17": {"jobs": c17,
            "bounds": "Every operation of TryVec on vectors of up to 3 elements (element values, indices and compared contents "
                      "unconstrained), sequences of one to two (quick) or two to three (thorough) operations, with every choice of "
                      "failing allocations and element copies; single operations on and with 20 to 70 (thorough: 520) elements; "
                      "concatenations of up to three parts of up to two, or about 35, elements; comparisons of up to 40; "
                      "every provided iterator method (nth, last, count, find, fold, step_by ...) after any number of steps on 4 (up to 20) elements; "
                      "texts of up to 20 (40) bytes, also of unequal lengths; both build configurations.",
            "outside": "longer vectors, longer histories; debugging output beyond two elements."},
    "C18": {"jobs": c18,
            "bounds": "Sources of up to 4 (quick) or 6 (thorough) unconstrained bytes handed out in every possible chunking with up to "
                      "one (two) interruptions and an error at any of three places, every limit up to 3 beyond the end, initial "
                      "buffers of up to 3 bytes with and without room, every choice of failing allocations; sources of up "
                      "to 300 (1500) bytes handed out whole with every limit up to 6 beyond the end, 100, 8192, 70000, 2^20 and everything above what memory holds (4 MiB); two (three) reads from one source; writes of "
                      "up to 5, or about 300, bytes in one or two calls, through write!, in pieces (write_vectored) and through a trait object.",
            "outside": "arbitrary chunkings of long sources; sources that break the contract of Read."},
    "C14": {"jobs": c14,
            "bounds": "Every operation with every argument on vectors of up to 3 (quick) or 12 (thorough) elements with and without spare "
                      "room, and of 20 to 70 (up to 260) elements; arguments up to length + 5 and 33 to 75 (up to 525), insertion at every "
                      "possible and impossible index; element values "
                      "unconstrained, nine element types; sequences of two (three) operations; iterators with up to 6 (12) "
                      "items, and about 31 and 64 (250), with five kinds of size hint; both build configurations.",
            "outside": "other lengths of vectors and arguments; iterators with enormous size hints."},
    "C15": {"jobs": c15,
            "bounds": "Every operation and construction on vectors of up to 3 (quick) or 12 (thorough) elements, arguments up to "
                      "length + 4 (and single operations on and with 20 to 70, thorough up to 520, elements), with every choice of failing "
                      "allocations and every failing element copy; "
                      "sequences of two (three) operations with failures in each; nine element types, both build configurations.",
            "outside": "longer vectors and arguments."},
    "C16": {"jobs": c16,
            "bounds": "Every operation and construction on vectors of up to 3 (quick) or 9 (thorough) elements, arguments up to length "
                      "+ 4: the n-th element copy, drop, closure call or iterator step panics, n up to 6, also with 20 to 70 (up to 520) elements; also drops that panic "
                      "while an allocation or a copy fails; both build configurations.",
            "outside": "two panics in one operation (a second panic while unwinding ends the process); longer vectors."},
    "C13": {"jobs": c13,
            "bounds": "Every 64-bit requested count and limit; nine element types (sizes 0, 1, 3.., 4, 8, 16, 64-aligned, 512); vectors of "
                      "up to 5 elements in up to 16 slots, and zero-sized vectors of 2^64-6 to 2^64-1 elements; filling operations "
                      "with counts up to 5 or too large for memory; filling with every 64-bit count where the first element's copy or closure panics; creation of hash maps (both tables) with selected capacities and with every capacity beyond memory.",
            "outside": "filling with counts between 6 and what memory (4 MiB in the model) can hold."},
    "C05": {"jobs": c05,
            "bounds": "One entry operation (all of the interface) with an unconstrained key and value on maps of up to 100 (quick) or "
                      "300 (thorough) entries in eight shapes, on four-level trees of 450-650 (800) entries with keys in windows of four to six; pairs of entry operations on 12-24 entries; histories of four or "
                      "five vacant/occupied operations from the empty map.",
            "outside": "larger trees and longer free histories; failing allocations (see C08) and panicking closures (see C10)."},
    "C06": {"jobs": c06,
            "bounds": "Pairs of sets: one tree of up to 40 (quick) or 100 (thorough) elements against another of up to 13 (90) elements "
                      "at an unconstrained relative offset, against one to three free elements, against an equal set with one free "
                      "element added or removed; two sets of up to two (three) free elements; pairs of equal size and of sizes far apart up to 70 (200); both "
                      "argument orders, all iterator and operator forms (which must hold copies of the same elements the methods yield), both the stitching and the searching algorithms; every provided iterator method (and min, max) after any number of steps on sets of 9 and 12 (up to 30) elements.",
            "outside": "arbitrary pairs of large sets."},
    "C07": {"jobs": c07,
            "bounds": "One operation with an unconstrained element on sets of up to 100 (quick) or 300 (thorough) elements in five "
                      "shapes, on four-level trees of 450-650 (800) elements near given ones, pairs of operations on up to 24 (40) elements, all histories of four to seven operations from the "
                      "empty set, collecting and extending (from values, from references) with up to five free elements, also among up to 60 fixed ones of which many are equal; every provided method of the set iterators on 4 and 13 elements after steps from either end.",
            "outside": "larger sets, longer free histories."},
    "C04": {"jobs": c04,
            "bounds": "Split at an unconstrained key of maps of up to 160 (quick) or 600 (thorough) entries in eight shapes, both "
                      "halves then checked, operated on with a free key, refilled and drained, and (four-level trees of 450-650 entries; thorough 800) at a key in windows of four to six entries; appends of two trees whose relative "
                      "offset is unconstrained (up to 24+60 or 60+20 entries quick, 300+200 thorough) and of one to three free keys either "
                      "way; the same for sets; appends for every total size in windows of 8-12 up to 292 (thorough: every size to 480) with one key near the end free, "
                      "then removed from the right, the left or both ends.",
            "outside": "larger trees; arbitrary interleavings of two large key sets."},
    "C03": {"jobs": c03,
            "bounds": "Both bounds unconstrained (any kind, any key on, between, below or above the stored ones) on maps and sets of "
                      "up to 24 (quick) or 60 (thorough) entries; on trees of 84-143 entries both bounds anywhere in a window of "
                      "eight stored keys, on four-level trees of 450-650 entries in a window of six; front, back, alternating and (in small windows) freely interleaved consumption; every provided iterator method of the ranges of maps of 13 and 30 (thorough: 143) entries after steps from either end.",
            "outside": "larger trees; both bounds free over a large tree."},
    "C02": {"jobs": c02,
            "bounds": "Every interleaving of front and back steps on maps of up to 8 (quick) or 11 (thorough) entries, for each of "
                      "the seven iterators; on shapes of up to 110, 450 and 650 (quick) or 1000 (thorough) entries: any number of front steps, "
                      "then any number of back steps (in multiples of a stated gap), then alternating; consuming iteration "
                      "stopped after any such prefix; copies of every cloneable iterator, and the provided iterator methods "
                      "(nth, nth_back, last, count, folds, rfind, min, max, take, rev, step_by) of all eleven iterators, on up to 40 (quick) "
                      "or 110 (thorough) entries after any number of front and back steps.",
            "outside": "arbitrary interleavings on larger trees; Debug output of iterators (C26)."},
    "C01": {"jobs": c01,
            "bounds": "Trees of 0 to 650 entries (up to four levels) in eight shapes (ascending, descending, random, thinned, churned, middle-out, "
                      "bulk-built), one operation with an unconstrained key (on, between, below, above the stored keys) and value; "
                      "sequences of two (quick) or three (thorough) operations on trees up to 100 entries; all histories of 4-6 "
                      "(quick) or 6-8 (thorough) insertions/removals from the empty map; draining with one free operation; collecting and "
                      "extending (from values, from references) with up to three free entries among up to 150 fixed ones.",
            "outside": "larger trees, longer free sequences, key types other than the harness's 4-byte key with identity."},
    "C08": {"jobs": c08,
            "bounds": "Trees of 0 to 300 entries plus bulk-built ones of 143 and 1727 entries (full nodes on every level), one or "
                      "two operations with a symbolic key and every choice of failing allocations (one failure, persistent "
                      "failure, total failure).",
            "outside": "larger trees; more than a few independent failures in one history."},
}

for _p, _v in PROPS.items():
    _v["jobs"] = (lambda pid, f: lambda tier: with_dev(pid, f(tier), tier))(_p, _v["jobs"])
    _v["bounds"] += (" A third (thorough: half) of the jobs" if _p in DEV_SPARSE else " Every job") + \
        " is repeated on the code of a development build (overflow checks and debug assertions on)."
