"""C01 - C04: grids, wrapping, jumps and pairs."""
from .core import *

# extents that exercise each corner: one, even, odd, mixed, many dimensions
FIXED = [[1], [2], [3], [12], [1, 1], [1, 5], [5, 1], [2, 2], [3, 4], [4, 3], [2, 3, 4], [4, 1, 3],
         [1, 1, 1], [3, 3, 3], [5, 2, 3], [2, 2, 2, 2], [3, 1, 2, 2], [2, 1, 3, 1, 2],
         [1, 2, 1, 3, 1, 1, 2], [2, 1, 1, 1, 2, 1, 1, 1, 3, 2]]
WIDE = [[2**20, 2**20, 2**20], [2**31, 3], [3, 2**31], [10**6, 10**6], [2**62], [2**61 - 1], [2, 2**60 + 2], [2**32 + 15, 2**30],
        [7, 2**33 + 1, 5], [65537, 65536, 65535], [2**40 - 1, 2, 2**20], [1, 2**50, 1], [46341, 46341],
        [4294967291, 1000003], [2**16, 2**15, 2**16, 2**15], [1000003] * 3, [2**21] * 2 + [2**20],
        [2] * 62, [1, 2] * 31, [3] * 39, [5, 3, 2, 7, 1, 4, 3, 2, 6, 5, 4, 3, 2, 3, 5], [1] * 40 + [9], [2**8] * 7]
# pair numbers of a grid need the square of its sites
PAIRWIDE = [[65536, 65535], [46341, 46341], [2**31], [3, 2**30 - 1], [2**16, 2**16 - 1], [2**32 - 1]]


def small(rng, maxsites, maxdim=5, maxext=9):
    while True:
        d = rng.randint(1, maxdim)
        if maxdim >= 5 and rng.random() < .08:
            d = rng.randint(6, 12)
        L = [rng.choice([1, 1, 2, 2, 3]) if d > 5 else rng.choice([1, 2, 3, 4, 5, 6, 7, 8, rng.randint(1, maxext)]) for _ in range(d)]
        n = 1
        for x in L:
            n *= x
        if n <= maxsites:
            return L, n


def prod(L):
    n = 1
    for x in L:
        n *= x
    return n


def edge(rng, n):
    return rng.choice([0, n - 1, n // 2, max(0, n // 2 - 1), min(n - 1, n // 2 + 1), rng.randrange(n), rng.randrange(n)])


def wcoord(rng, L):
    return [edge(rng, x) for x in L]


def windex(L, c):
    k = 0
    for x, y in zip(L, c):
        k = k * x + y
    return k


def far(rng, L, span):
    return [rng.choice([rng.randint(-span * x, span * x), -x, x, 0, -1, x - 1, -x - 1, 2 * x, -2 * x, x + 1]) for x in L]


def gen_c01(rng, tier):
    S = []
    big = tier == "thorough"
    grids = [(L, c) for L in FIXED for c in (0, 1)]
    grids += [(small(rng, 120 if not big else 400, maxext=40)[0], rng.randint(0, 1)) for _ in range(40 if not big else 250)]
    for k, (L, c) in enumerate(grids):
        ops = ["new %d %s" % (c, vec(L)), "table"]
        for _ in range(12):
            ops.append("ongrid " + vec(far(rng, L, 2)))
            ops.append("ongrid " + vec([edge(rng, x) for x in L]))
        for d in range(len(L)):  # one component out at a time
            for v in (-1, L[d], L[d] + 1, -L[d], -2**31 + 1, 2**31 - 1):
                x = [edge(rng, y) for y in L]
                x[d] = v
                ops.append("ongrid " + vec(x))
        S.append(Stim("small%d" % k, ops))
    # larger grids, sampled sites
    for k in range(8 if not big else 40):
        L, n = small(rng, 10**6, maxdim=5, maxext=300)
        ops = ["new %d %s" % (k % 2, vec(L))]
        for _ in range(25):
            ops.append("coords %d" % edge(rng, n))
        S.append(Stim("mid%d" % k, ops))
    wide = [list(L) for L in WIDE]
    for _ in range(10 if not big else 100):
        L = []
        while prod(L) < 2**40 and len(L) < 6:
            L.append(rng.choice([1, 2, 3, rng.randint(1, 2**20), rng.randint(1, 2**33)]))
        while prod(L) >= 2**63:
            L.pop()
        rng.shuffle(L)
        wide.append(L)
    for k, L in enumerate(wide):
        n = prod(L)
        ops = ["wnew %d %s" % (k % 2, vec(L))]
        for _ in range(6):
            ops.append("wcoords %d" % edge(rng, n))
            ops.append("windex " + vec(wcoord(rng, L)))
            c = wcoord(rng, L)
            ops.append("wongrid " + vec(c))
            d = rng.randrange(len(L))
            c[d] = rng.choice([-1, L[d], L[d] + 2**32, -L[d], c[d] - 2**32, -2**62])
            ops.append("wongrid " + vec(c))
        S.append(Stim("wide%d" % k, ops))
    return S


def gen_c02(rng, tier):
    S = []
    big = tier == "thorough"
    for k, L in enumerate(FIXED + [small(rng, 36 if not big else 64)[0] for _ in range(24 if not big else 150)]):
        if prod(L) > 64:
            continue
        ops = ["new 1 " + vec(L), "maptable"]
        for _ in range(25):
            ops.append("enforce " + vec(far(rng, L, rng.choice([2, 5, 50, 1000]))))
        ops.append("new 0 " + vec(L))
        for _ in range(8):
            ops.append("enforce " + vec(far(rng, L, 5)))
        # lattices have their own wrapping (many dimensions: very many images)
        if len(L) < 6:
            ops.append("start 1 %s 0" % vec(L))
            for _ in range(20):
                ops.append("latenforce " + vec(far(rng, L, rng.choice([2, 5, 50]))))
        S.append(Stim("small%d" % k, ops))
    for k in range(20 if not big else 100):
        L, n = small(rng, 10**6, maxdim=5, maxext=200)
        ops = ["new 1 " + vec(L)]
        for _ in range(20):
            ops.append("mapped %d %d" % (edge(rng, n), edge(rng, n)))
            ops.append("unmapped %d %d" % (edge(rng, n), edge(rng, n)))
        S.append(Stim("mid%d" % k, ops))
    for k, L in enumerate(WIDE):
        n = prod(L)
        ops = ["wnew 1 " + vec(L)]
        for _ in range(6):
            ops.append("wmapped %d %d" % (edge(rng, n), edge(rng, n)))
            ops.append("wmapped %d %d" % (windex(L, wcoord(rng, L)), windex(L, wcoord(rng, L))))
            ops.append("wenforce " + vec([max(-2**61, min(2**61, v)) for v in far(rng, L, 1)]))
        ops.append("wnew 0 " + vec(L))
        ops.append("wenforce " + vec([max(-2**61, min(2**61, v)) for v in far(rng, L, 1)]))
        S.append(Stim("wide%d" % k, ops))
    return S


def gen_c03(rng, tier):
    S = []
    big = tier == "thorough"
    for k, L in enumerate(FIXED + [small(rng, 30 if not big else 48)[0] for _ in range(20 if not big else 120)]):
        if prod(L) > 48:
            continue
        S.append(Stim("table%d" % k, ["new 1 " + vec(L), "jumptable", "new 0 " + vec(L), "jumptable"]))
    for k in range(20 if not big else 100):
        L, n = small(rng, 10**6, maxdim=5, maxext=200)
        ops = ["new %d %s" % (k % 3 > 0, vec(L))]
        for _ in range(20):
            a = [edge(rng, x) for x in L]
            b = [(y + rng.choice([x // 2, (x + 1) // 2, x // 2 + 1, -(x // 2), 0, 1, -1, rng.randrange(x)])) % x for x, y in zip(L, a)]
            ops.append("jump %d %d" % (windex(L, a), windex(L, b)))
        S.append(Stim("mid%d" % k, ops))
    for k, L in enumerate(WIDE):
        for closed in (1, 0):
            ops = ["wnew %d %s" % (closed, vec(L))]
            for _ in range(6):
                a = wcoord(rng, L)
                b = [(y + rng.choice([x // 2, (x + 1) // 2, x // 2 + 1, 0, 1, -1, rng.randrange(x)])) % x for x, y in zip(L, a)]
                ops.append("wjump %d %d" % (windex(L, a), windex(L, b)))
            # about half way round, from either side, in every direction
            for m, x in enumerate(L):
                if x < 2**31:
                    continue
                for h in {x // 2, x // 2 + 1, (x + 1) // 2 - 1, x // 2 + rng.randrange(40)}:
                    a = wcoord(rng, L)
                    b = wcoord(rng, L)
                    a[m], b[m] = rng.choice([(0, h), (h, 0), (x - 1 - h, x - 1), (x - 1, x - 1 - h)])
                    ops += ["wjump %d %d" % (windex(L, a), windex(L, b)), "wjump %d %d" % (windex(L, b), windex(L, a))]
            S.append(Stim("wide%d_%d" % (k, closed), ops))
    # walks: to anywhere, and by short steps that wind around
    for k in range(40 if not big else 200):
        L, n = small(rng, 60, maxdim=4, maxext=12)
        closed = int(rng.random() < .75)
        a = [rng.randrange(x) for x in L]
        first = list(a)
        ops = ["start %d %s %d" % (closed, vec(L), windex(L, a))]
        drift = rng.choice([None, [rng.choice([-1, 0, 1]) for _ in L]])
        for _ in range(rng.choice([20, 60]) if not big else 120):
            if drift is None or not closed:
                a = [rng.randrange(x) for x in L]
            else:
                a = [(y + rng.choice([0, 1, x // 2 if x > 3 else 1]) * d) % x for x, y, d in zip(L, a, drift)]
            ops.append("hop %d" % windex(L, a))
            if rng.random() < .1:
                ops.append("hop %d" % windex(L, first))
                a = list(first)
        ops.append("hop %d" % windex(L, first))
        for _ in range(5):
            ops.append("winding " + vec([x * rng.choice([0, 1, -1, 2, -3, rng.randint(-1000, 1000)]) for x in L]))
        S.append(Stim("walk%d" % k, ops))
    # windings: every extent to 130, and multiples which rounded arithmetic misses
    for k in range(1, 131, 5):
        ops = []
        for x in range(k, k + 5):
            ops.append("start %d %s 0" % (x % 4 > 0, vec([x])))
            hard = [w for w in range(-400, 400) if int((w * x) * (1.0 / x)) != w]
            for w in [rng.randint(-1000, 1000) for _ in range(5)] + rng.sample(hard, min(3, len(hard))):
                ops.append("winding " + vec([x * w]))
            for _ in range(3):
                ops.append("wwinding " + vec([x * rng.randint(-2**62 // x, 2**62 // x)]))
        S.append(Stim("wind%d" % k, ops))
    return S


def gen_c04(rng, tier):
    S = []
    big = tier == "thorough"
    for n in list(range(1, 13)) + [rng.randint(13, 40) for _ in range(6 if not big else 40)]:
        S.append(Stim("table%d" % n, ["pairtable %d" % n, "npairs %d" % n]))
    for k in range(30 if not big else 200):
        n = rng.choice([2**32 - 1, 2**31, 65536, 46341, 2**16 + 1, rng.randint(1, 2**32 - 1), rng.randint(1, 2**20), rng.randint(1, 100)])
        ops = ["npairs %d" % n]
        for _ in range(8):
            ops.append("pair %d %d %d" % (n, edge(rng, n), edge(rng, n)))
            ops.append("unpair %d %d" % (n, edge(rng, n * n)))
        S.append(Stim("wide%d" % k, ops))
    for k, L in enumerate(FIXED + PAIRWIDE + [small(rng, 1000)[0] for _ in range(10)]):
        n = prod(L)
        ops = ["wnew %d %s" % (k % 2, vec(L))]
        for _ in range(8):
            ops.append("gridpair %d %d" % (edge(rng, n), edge(rng, n)))
        S.append(Stim("grid%d" % k, ops))
    # even when only the first pairs have an index that fits
    for k, L in enumerate(WIDE):
        n = prod(L)
        ops = ["wnew %d %s" % (k % 2, vec(L))]
        for _ in range(4):
            ops.append("gridpair %d %d" % (edge(rng, n), rng.randint(0, 2**63 // n - 1)))
        S.append(Stim("wgrid%d" % k, ops))
    return S


OBS = {"new": ["dim", "open", "closed", "bclosed", "size", "n"], "table": ["cs", "idx", "valid", "past"],
       "coords": ["c", "back"], "wcoords": ["c", "back"], "windex": ["i", "back"], "ongrid": ["r"], "wongrid": ["r"],
       "enforce": ["r"], "latenforce": ["r"], "wenforce": ["r"], "mapped": ["r"], "unmapped": ["r"],
       "maptable": ["m", "u"], "wmapped": ["r", "ca", "cb", "cr", "back"], "jump": ["r"], "jumptable": ["j"],
       "wjump": ["r"], "start": ["dim", "size", "n", "open"], "hop": ["j", "acc"], "winding": ["w"], "wwinding": ["w"],
       "npairs": ["r"], "pair": ["k2", "pa", "pb"], "unpair": ["back"], "pairtable": ["np", "k", "p"],
       "gridpair": ["k", "pa", "pb", "lib"], "wnew": ["size", "n", "dim", "closed"]}
BUILD = [dict(driver="drv_grid")]
CHECKS = {
    "C01": dict(mc=[("MC_Grid", "MC_Grid")], gen=gen_c01, spec="Trace_Grid", build=BUILD, obs=OBS),
    "C02": dict(mc=[("MC_Grid", "MC_Grid")], gen=gen_c02, spec="Trace_Grid", build=BUILD, obs=OBS),
    "C03": dict(mc=[("MC_Walk", "MC_Walk")], gen=gen_c03, spec="Trace_Grid", build=BUILD, obs=OBS,
                tlcgen=[("Gen_Walk", "Gen_Walk")]),
    "C04": dict(mc=[("MC_Grid", "MC_Grid")], gen=gen_c04, spec="Trace_Grid", build=BUILD, obs=OBS),
}
