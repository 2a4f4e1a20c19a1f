"""C05 - C10: Bravais lattices and finite lattices."""
from fractions import Fraction
from itertools import product as iprod
import math
import struct
from .core import *
from .grid import prod, windex, edge

DIM = {"chain": 1, "square": 2, "cubic": 3, "triangular": 2}


class B:
    """a user lattice: rows of P and R are the primitive vectors times den"""

    def __init__(self, den, P, R, nb):
        self.dim, self.den, self.P, self.R, self.nb = len(P), den, P, R, nb
        d = self.dim
        self.G = [[sum(P[i][k] * P[j][k] + 3 * R[i][k] * R[j][k] for k in range(d)) for j in range(d)] for i in range(d)]

    def inverse(self):
        """row-major inverse of the matrix whose columns are the vectors"""
        d = self.dim
        s3 = Fraction(math.isqrt(3 << 200), 1 << 100)
        A = [[(self.P[j][i] + self.R[j][i] * s3) / self.den for j in range(d)] for i in range(d)]
        M = [list(map(Fraction, r)) + [Fraction(int(i == k)) for k in range(d)] for i, r in enumerate(A)]
        for c in range(d):
            p = next(r for r in range(c, d) if M[r][c] != 0)
            M[c], M[p] = M[p], M[c]
            M[c] = [x / M[c][c] for x in M[c]]
            for r in range(d):
                if r != c and M[r][c] != 0:
                    M[r] = [x - M[r][c] * y for x, y in zip(M[r], M[c])]
        return [[float(M[i][d + j]) for j in range(d)] for i in range(d)]

    def cmd(self):
        d = self.dim
        flat = lambda m: [x for r in m for x in r]
        piv = flat(self.inverse())
        return "bravais user %d %d %s %s %s %s" % (d, self.den, vec(flat(self.P)), vec(flat(self.R)),
                                                   " ".join([str(d * d)] + [hd(x) for x in piv]), vec(flat(self.nb)))


def det(M):
    if not M:
        return 1
    return sum((-1) ** j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(len(M)))


Z2, Z3 = [[0, 0], [0, 0]], [[0] * 3 for _ in range(3)]
TRI = B(2, [[2, 0], [1, 0]], [[0, 0], [0, 1]], [[1, 0], [0, 1], [1, -1]])
BUILTIN = {"chain": B(1, [[1]], [[0]], [[1]]), "square": B(1, [[1, 0], [0, 1]], Z2, [[1, 0], [0, 1]]),
           "cubic": B(1, [[1, 0, 0], [0, 1, 0], [0, 0, 1]], Z3, [[1, 0, 0], [0, 1, 0], [0, 0, 1]]), "triangular": TRI}
USER = [
    B(2, [[3]], [[0]], [[1], [2]]),
    B(1, [[-2]], [[0]], [[1]]),
    B(2, [[2, 0], [0, 3]], Z2, [[1, 0], [0, 1]]),
    B(2, [[2, 0], [1, 3]], Z2, [[1, 0], [0, 1], [1, 1]]),
    B(2, [[2, 1], [-1, 2]], Z2, [[1, 0]]),
    B(4, [[4, 1], [1, 3]], Z2, [[1, 0], [0, 1], [2, -1]]),
    B(1, [[0, 1], [1, 0]], Z2, [[1, 0], [0, 1]]),
    B(2, [[2, 0], [-1, 0]], [[0, 0], [0, 1]], [[1, 0], [0, 1], [1, 1]]),
    B(1, [[1, 1], [1, -1]], Z2, [[1, 0], [0, 1], [1, 0]]),
    B(2, [[2, 0, 0], [1, 0, 0], [0, 0, 3]], [[0, 0, 0], [0, 1, 0], [0, 0, 0]], [[1, 0, 0], [0, 0, 1], [1, -1, 0]]),
    B(2, [[1, 1, 0], [1, 0, 1], [0, 1, 1]], Z3, [[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, -1, 0], [1, 0, -1], [0, 1, -1]]),
    B(2, [[-1, 1, 1], [1, -1, 1], [1, 1, -1]], Z3, [[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1]]),
    B(2, [[2, 0, 0], [0, 3, 0], [1, 0, 4]], Z3, [[1, 0, 0], [0, 1, 0], [0, 0, 1]]),
    B(1, [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]], [[0] * 4 for _ in range(4)],
      [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]),
    B(2, [[2, 0, 0, 0], [1, 2, 0, 0], [0, 0, 2, 0], [0, 0, 0, 3]], [[0] * 4 for _ in range(4)],
      [[1, 0, 0, 0], [0, 1, 0, -1], [0, 0, 1, 0]]),
]


def rand_user(rng, thin=6):
    while True:
        d = rng.choice([1, 2, 2, 2, 3, 3])
        den = rng.choice([1, 2, 4])
        P = [[rng.randint(-3, 4) for _ in range(d)] for _ in range(d)]
        if det(P) == 0:
            continue
        # not too thin
        b = B(den, P, [[0] * d for _ in range(d)], [])
        if det(b.G) * thin < math.prod(b.G[i][i] for i in range(d)):
            continue
        b.nb = [[rng.randint(-1, 1) if rng.random() < .8 else rng.randint(-3, 3) for _ in range(d)] for _ in range(rng.randint(1, 4))]
        return b


def norm(G, c):
    d = len(c)
    return sum(c[i] * G[i][j] * c[j] for i in range(d) for j in range(d))


def fits(b, L, limit=30000):
    """do the exact searches of the specification stay within integers (and a budget of images)?"""
    d = b.dim
    D = det(b.G)
    adj = [det([[b.G[i][j] for j in range(d) if j != k] for i in range(d) if i != k]) for k in range(d)]
    w = [x // 2 for x in L]
    q = max(norm(b.G, [s * x for s, x in zip(sg, w)]) for sg in iprod((-1, 1), repeat=d))
    if q * max(adj) >= 2**31 or max(q * a // D for a in adj) >= 2**31 - 1:
        return False
    return prod(2 * (math.isqrt(q * a // D) // x) + 2 for a, x in zip(adj, L)) * prod(L) <= limit


def sizes(rng, d, maxn, maxext):
    while True:
        L = [rng.choice([1, 2, 3, 4, 5, rng.randint(1, maxext)]) for _ in range(d)]
        if prod(L) <= maxn:
            return L


def lattices(rng, n_builtin, n_user, n_rand, maxn, maxext=12):
    """(bravais command, B, extents)"""
    for name, b in BUILTIN.items():
        for _ in range(n_builtin):
            yield "bravais " + name, b, sizes(rng, b.dim, maxn, maxext if b.dim > 1 else maxn)
    for b in USER:
        for _ in range(n_user):
            yield b.cmd(), b, sizes(rng, b.dim, maxn, maxext)
    for _ in range(n_rand):
        b = rand_user(rng)
        yield b.cmd(), b, sizes(rng, b.dim, maxn, maxext)


FIXED = {1: [[1], [2], [3], [8]], 2: [[1, 1], [2, 2], [3, 3], [4, 3], [3, 4], [1, 4], [4, 1], [2, 5]],
         3: [[1, 1, 1], [2, 2, 2], [2, 3, 1], [3, 3, 3], [1, 2, 4]], 4: [[2, 2, 2, 2], [1, 2, 1, 3]]}


def gen_c05(rng, tier):
    S = []
    big = tier == "thorough"
    todo = [("bravais " + n, b, L) for n, b in BUILTIN.items() for L in FIXED[b.dim]]
    todo += list(lattices(rng, 6 if not big else 40, 2 if not big else 10, 30 if not big else 200, 40 if not big else 80))
    for k, (cmd, b, L) in enumerate(todo):
        ops = [cmd]
        if "user" not in cmd:
            ops.append("builtin")
        for how in (1, 0, 2) if k % 3 == 0 else (1, 0):
            ops += ["lattice %d %s" % (how, vec(L)), "neighbors"]
        if k % 4 == 0:
            ops += ["copylat", "neighbors"]
        S.append(Stim("lat%d" % k, ops))
    S += large(rng, "nb", tier)
    # far offsets: several periods away, through any other period
    for k in range(10 if not big else 50):
        d = rng.choice([1, 2, 3])
        b = B(1, [[int(i == j) for j in range(d)] for i in range(d)], [[0] * d for _ in range(d)],
              [[rng.randint(-9, 9) for _ in range(d)] for _ in range(rng.randint(1, 3))])
        L = sizes(rng, d, 24, 6)
        S.append(Stim("far%d" % k, [b.cmd(), "lattice 1 " + vec(L), "neighbors", "lattice 0 " + vec(L), "neighbors"]))
    return S


# lattices with closest images beyond the first shell
ELONGATED = [("bravais triangular", BUILTIN["triangular"], L) for L in
             ([2, 14], [1, 8], [8, 1], [3, 13], [1, 30], [24, 1], [2, 20])] + \
            [(USER[11].cmd(), USER[11], [1, 2, 6]), (USER[11].cmd(), USER[11], [1, 1, 9])]


def elongated(rng):
    while True:
        b = rand_user(rng, thin=60) if rng.random() < .7 else rng.choice([BUILTIN["triangular"]] + USER)
        L = [rng.choice([1, 1, 2, 3, rng.randint(4, 20)]) for _ in range(b.dim)]
        if prod(L) <= 40 and fits(b, L):
            for n, x in BUILTIN.items():
                if x is b:
                    return "bravais " + n, b, L
            return b.cmd(), b, L


def images(b, L, c):
    return sorted({norm(b.G, [x + L[m] * i for m, (x, i) in enumerate(zip(c, im))]) for im in iprod((-2, -1, 0, 1), repeat=b.dim)})


def close(rng):
    """lattices where the nearest images of a site lie at nearly the same distance"""
    while True:
        d = rng.choice([1, 2, 2, 2, 3])
        q = rng.choice([40, 60, 90]) if d < 3 else 12
        b = B(rng.choice([1, 8, 64, 1000]), [[(q if i == j else rng.choice([0, q // 2, -q // 2])) + rng.choice([0, 1, -1]) for i in range(d)] for j in range(d)],
              [[0] * d for _ in range(d)], [[int(i == j) for i in range(d)] for j in range(d)])
        if det(b.P) == 0:
            continue
        L = [rng.choice([1, 2, 3, 4, 5]) for _ in range(d)]
        if not fits(b, L, 4000):
            continue
        for c in iprod(*map(range, L)):
            n = images(b, L, c)
            if n[0] and n[1] - n[0] < n[0] / (40 if d == 3 else 120):
                return b.cmd(), b, L


def scaled(rng, n):
    """the same lattices, far smaller"""
    for _ in range(n):
        b = rng.choice(USER) if rng.random() < .5 else rand_user(rng)
        b = B(b.den * rng.choice([1000, 2**13, 9973, 3]), b.P, b.R, b.nb)
        yield b.cmd(), b, sizes(rng, b.dim, 24, 6)


def gen_c06(rng, tier):
    S = []
    big = tier == "thorough"
    todo = [("bravais " + n, b, L) for n, b in BUILTIN.items() for L in FIXED[b.dim]]
    todo += list(lattices(rng, 8 if not big else 50, 2 if not big else 12, 40 if not big else 250, 36 if not big else 64))
    todo += [close(rng) for _ in range(24 if not big else 150)] + list(scaled(rng, 10 if not big else 60))
    todo += ELONGATED + [elongated(rng) for _ in range(20 if not big else 200)]
    for k, (cmd, b, L) in enumerate(todo):
        n = prod(L)
        ops = [cmd]
        pairs = [(0, x) for x in range(n)] + [(x, 0) for x in range(n)][:6] + \
                [(rng.randrange(n), rng.randrange(n)) for _ in range(20)] + [(x, x) for x in (rng.randrange(n),)]
        if len(pairs) > 60:
            pairs = rng.sample(pairs, 60)
        if fits(b, L):
            ops += ["lattice 1 " + vec(L), "positions"] + ["vec %d %d" % p for p in pairs]
        ops += ["lattice 0 " + vec(L), "positions"] + ["vec %d %d" % p for p in pairs[-30:]]
        if k % 5 == 0:
            ops += ["copylat"] + ["vec %d %d" % p for p in pairs[:4]]
        S.append(Stim("lat%d" % k, ops))
    S += large(rng, "vec", tier)
    return S


# large lattices, looked at in a few places
LARGE = [("bravais chain", BUILTIN["chain"], [40000], [0, 1]), ("bravais chain", BUILTIN["chain"], [70001], [1, 0]),
         ("bravais square", BUILTIN["square"], [300, 260], [1, 0]), ("bravais square", BUILTIN["square"], [1, 33000], [0]),
         ("bravais triangular", BUILTIN["triangular"], [200, 170], [1, 0]),
         ("bravais cubic", BUILTIN["cubic"], [30, 33, 40], [1, 0]), (USER[11].cmd(), USER[11], [32, 28, 25], [1])]


def large(rng, what, tier):
    S = []
    for k, (cmd, b, L, bounds) in enumerate(LARGE):
        n = prod(L)
        ops = [cmd]
        for closed in bounds:
            ops.append("lattice %d %s" % (closed, vec(L)))
            for _ in range(12 if tier == "quick" else 60):
                x, y = windex(L, [edge(rng, e) for e in L]), windex(L, [edge(rng, e) for e in L])
                if what == "vec":
                    ops += ["vec %d %d" % (x, y), "position %d" % x]
                else:
                    ops.append("nbof %d %s" % (x, vec([y, x, max(0, x - 1), min(n - 1, x + 1), rng.randrange(n)])))
        S.append(Stim("large%d" % k, ops))
    return S


def gen_c07(rng, tier):
    S = []
    big = tier == "thorough"
    bs = [("bravais " + n, b) for n, b in BUILTIN.items()] + [(b.cmd(), b) for b in USER]
    for _ in range(30 if not big else 300):
        b = rand_user(rng)
        bs.append((b.cmd(), b))
    bs += [(cmd, b) for cmd, b, _ in scaled(rng, 8 if not big else 60)]
    for k, (cmd, b) in enumerate(bs):
        d = b.dim
        ops = [cmd]

        def c(m=None):
            m = m or rng.choice([1, 3, 10, 100, 1000, 10**6, 2**31, 2**33, 2**52])
            return vec([rng.randint(-m, m) for _ in range(d)])
        unit = [vec([int(i == j) for j in range(d)]) for i in range(d)]
        for u in unit + [c() for _ in range(12 if not big else 40)]:
            ops += ["real " + u, "recip " + u]
        for _ in range(10 if not big else 40):
            m = rng.choice([30, 30, 2**15, 2**31, 2**40, 2**52])
            ops.append("between %s %s" % (c(m), c(rng.choice([m, 30]))))
        for j in range(2 * len(b.nb)):
            ops.append("step %s %d" % (c(), j))
        S.append(Stim("bra%d" % k, ops))
    return S


def gen_c08(rng, tier):
    S = []
    big = tier == "thorough"
    todo = [("bravais " + n, b, L) for n, b in BUILTIN.items() for L in FIXED[b.dim]]
    todo += list(lattices(rng, 6 if not big else 30, 2 if not big else 12, 30 if not big else 200, 48 if not big else 120, 40))
    todo += list(scaled(rng, 6 if not big else 40))
    for k, (cmd, b, L) in enumerate(todo):
        S.append(Stim("lat%d" % k, [cmd, "lattice %d %s" % (rng.choice([1, 2]), vec(L)), "momenta"] +
                      (["copylat", "momenta"] if k % 7 == 0 else [])))
    # larger ones: all of the momenta of some, a few of those of others
    for k, (cmd, b, L) in enumerate(midsize(rng, 6 if not big else 30, 300 if not big else 1500)):
        S.append(Stim("mid%d" % k, [cmd, "lattice 1 " + vec(L), "momenta"]))
    for k, (cmd, b, L, bounds) in enumerate(x for x in LARGE if 1 in x[3]):
        at = {0, prod(L) - 1} | {windex(L, [edge(rng, e) for e in L]) for _ in range(20 if not big else 150)}
        S.append(Stim("large%d" % k, [cmd, "lattice 1 " + vec(L), "momof " + vec(sorted(at))]))
    return S


def midsize(rng, n, most):
    """lattices of hundreds of sites"""
    for k in range(n):
        names = ["chain", "square", "cubic", "triangular"]
        b = BUILTIN[names[k]] if k < 4 else rand_user(rng)
        while True:
            L = [rng.randint(1, most) if b.dim == 1 else rng.choice([1, 2, rng.randint(3, 40), rng.randint(3, 20)]) for _ in range(b.dim)]
            if most // 3 <= prod(L) <= most and fits(b, L):
                break
        yield ("bravais " + names[k] if k < 4 else b.cmd()), b, L


def occs(rng, n, ty):
    m = rng.choice(["one", "few", "bool", "wide", "limits"])
    if m == "one":
        v = [0] * n
        v[rng.randrange(n)] = 1
    elif m == "few":
        v = [rng.choice([0, 0, 0, 1, 2, 3]) for _ in range(n)]
    elif m == "bool":
        v = [rng.randint(0, 1) for _ in range(n)]
    elif m == "wide":
        v = [rng.randint(-9, 9) for _ in range(n)]
    else:
        top = {"int": 2**31 - 1, "long": 2**53, "ulong": 2**53, "short": 32767, "double": 2**40, "float": 2**40, "uint": 2**32 - 1, "uchar": 255, "char": 127, "bool": 1}[ty]
        v = [rng.choice([top, -top, 0, 1, top // 2, rng.randint(-top, top)]) for _ in range(n)]
    if ty in ("ulong", "uint", "uchar", "bool"):
        v = [abs(x) for x in v]
    if ty == "bool":
        v = [min(x, 1) for x in v]
    if ty == "float":
        v = [struct.unpack("f", struct.pack("f", x))[0] for x in v]
    if ty in ("double", "float") and abs(max(v, key=abs)) < 2**20 and rng.random() < .7:
        v = [x * rng.choice([0.5, 0.25, 1.5]) + rng.choice([0, 0.125]) for x in v]
    return " ".join([str(n)] + [hd(x) for x in v])


def gen_c09(rng, tier):
    S = []
    big = tier == "thorough"
    todo = [("bravais " + n, b, L) for n, b in BUILTIN.items() for L in FIXED[b.dim] if prod(L) <= 18]
    todo += list(lattices(rng, 5 if not big else 20, 1 if not big else 5, 14 if not big else 100, 16 if not big else 24, 12))
    todo += list(scaled(rng, 4 if not big else 30))
    for k, (cmd, b, L) in enumerate(todo):
        n = prod(L)
        ops = [cmd, "lattice 1 " + vec(L), "momenta"]
        for r in range(4 if not big else 6):
            ty = rng.choice(["int", "long", "ulong", "short", "float", "uint", "uchar", "char", "bool", "double", "double"])
            mult = rng.choice([1.0, 1.0, 2.0, 0.5, 0.1, -3.0, float(n), 0.0, 2.0**-60, 1e30])
            if r == 1:
                ops.append("skinit " + " ".join([str(n)] + [hd(rng.choice([0.0, 1.0, -2.5, 100.0])) for _ in range(n)]))
            ops.append("sk %d %s %s %s%s" % (int(r in (1, 2) or rng.random() < .3), ty, occs(rng, n, ty), hd(mult),
                                             " %d" % rng.randint(0, 1) if mult == 1.0 else ""))
        ops.append("lattice 0 " + vec(L))
        ops.append("sk 0 int %s 0x1p+0 %d" % (occs(rng, n, "int"), rng.randint(0, 1)))
        ops.append("skinit " + " ".join([str(n)] + [hd(rng.choice([0.0, 1.0, -2.5])) for _ in range(n)]))
        ops.append("sk 1 double %s %s" % (occs(rng, n, "double"), hd(2.0)))
        S.append(Stim("lat%d" % k, ops))
    for k, (cmd, b, L) in enumerate(midsize(rng, 5 if not big else 20, 300 if not big else 1000)):
        n = prod(L)
        ops = [cmd, "lattice 1 " + vec(L)]
        for _ in range(2):
            m = rng.randint(1, 5)
            at = sorted({0, n - 1, n // 2} | {rng.randrange(n) for _ in range(6)})
            ops.append("sksparse %s %s %s %s" % (vec(rng.sample(range(n), m)), vec([hd(rng.choice([1.0, 1.0, -2.0, 0.5, 3.0])) for _ in range(m)]),
                                                 vec(at), hd(rng.choice([1.0, 0.5, -3.0, float(n)]))))
        S.append(Stim("mid%d" % k, ops))
    return S


def gen_c10(rng, tier):
    S = []
    big = tier == "thorough"
    todo = [("bravais " + n, b, L) for n, b in BUILTIN.items() for L in FIXED[b.dim]]
    todo += list(lattices(rng, 3 if not big else 20, 1 if not big else 6, 12 if not big else 100, 40, 40))
    todo += list(scaled(rng, 5 if not big else 40))
    for k, (cmd, b, L) in enumerate(todo):
        ops = [cmd]
        n = prod(L)
        for how in (1, 0):
            ops.append("lattice %d %s" % (how, vec(L)))
            for w in ("positions", "distances", "momenta") + (("pairs",) if n <= 16 else ()):
                ops.append("save %s %d" % (w, rng.choice([0, 1, 5])))
        S.append(Stim("lat%d" % k, ops))
    # all of the pairs of larger lattices, of which a few are looked at
    for k, (cmd, L) in enumerate([("bravais chain", [rng.randint(257, 300)]), ("bravais " + rng.choice(["square", "triangular"]), rng.choice([[17, 16], [15, 19], [2, 130]]))]):
        n = prod(L)
        at = [(0, 0), (n - 1, n - 1), (0, n - 1), (n - 1, 0), (255, 256), (256, 256)] + [(rng.randrange(n), rng.randrange(n)) for _ in range(20)]
        S.append(Stim("all%d" % k, [cmd, "lattice %d %s" % (rng.randint(0, 1), vec(L)), "somepairs %d %s" % (len(at), " ".join("%d %d" % p for p in at))]))
    return S


WAYS = ["ctor", "assign", "assign", "temp", "vector"]


def some_lattice(rng, maxn=14, like=None):
    """(commands making it current, B, extents, closed), often with the grid of another one"""
    if rng.random() < .5:
        name = rng.choice(sorted(BUILTIN))
        cmd, b = "bravais " + name, BUILTIN[name]
    else:
        b = rng.choice(USER) if rng.random() < .6 else rand_user(rng)
        cmd = b.cmd()
    if like and b.dim != like[1].dim and rng.random() < .6:
        return some_lattice(rng, maxn, like)
    while True:
        L = sizes(rng, b.dim, maxn, 12)
        closed = rng.randint(0, 1)
        if like and b.dim == like[1].dim and rng.random() < .6:
            L, closed = rng.choice([(like[2], like[3]), (like[2], closed), (like[2][::-1], like[3])])
        if not closed or fits(b, L):
            return [cmd, "lattice %d %s" % (closed, vec(L))], cmd, b, L, closed


def ask(rng, cmd, b, L, closed, n):
    """a few questions to the current lattice"""
    N = prod(L)
    c = lambda: vec([rng.randint(-9, 9) for _ in range(b.dim)])
    ops = []
    if n > 2:
        ops += ["real " + c(), "recip " + c(), "step %s %d" % (c(), rng.randrange(2 * len(b.nb)))] + (["momenta"] if closed else [])
    for q in rng.sample(["neighbors", "vec", "vec", "positions", "momenta", "sk", "grid", "grid", "real", "between", "step", "save", "itself"], n):
        if q == "vec":
            ops += ["vec %d %d" % (rng.randrange(N), rng.randrange(N)) for _ in range(4)]
        elif q == "sk":
            ops += (["momenta"] if closed else []) + ["sk %d int %s %s 0" % (rng.randint(0, 1), occs(rng, N, "int"), hd(2.0))]
        elif q == "momenta":
            ops += ["momenta"] if closed else []
        elif q == "grid":
            ops += ["grid " + rng.choice(["get", "slice", "other"])]
        elif q == "real":
            ops += ["real " + c(), "recip " + c()] + (["builtin"] if "user" not in cmd else [])
        elif q == "between":
            ops.append("between %s %s" % (c(), c()))
        elif q == "step":
            ops.append("step %s %d" % (c(), rng.randrange(2 * len(b.nb))))
        elif q == "save":
            ops.append("save %s %d" % (rng.choice(["positions", "distances", "momenta"]), rng.choice([0, 1, 5])))
        else:
            ops.append(q)
    return ops


def shelfconv(h, rng, n=2):
    """a history of new, shelve, fetch, gone and exchange in operations"""
    now, shelf, ops, seen = None, {}, [], set()
    for x in h:
        if x == "n":
            new = some_lattice(rng, like=now)
            ops += new[0]
            now = new[1:]
        elif x == "i":
            ops.append("itself")
        else:
            k = int(x[1:])
            if x[0] == "s":
                ops.append("shelve %d %s" % (k, rng.choice(WAYS)))
                shelf[k] = now
            elif x[0] == "x":
                ops.append("exchange %d" % k)
                now, shelf[k] = shelf[k], now
            else:
                ops.append("fetch %d %s" % (k, "gone" if x[0] == "g" else rng.choice(WAYS)))
                now = shelf[k]
                if x[0] == "g":
                    del shelf[k]
        ops += ask(rng, *now, n if x[0] in "nsi" else n + 2)
    for k in sorted(shelf):
        ops.append("fetch %d ctor" % k)
        ops += ask(rng, *shelf[k], n + 1)
    return ops


def gen_c34(rng, tier):
    S = []
    big = tier == "thorough"
    # the grid of every kind of lattice
    for k, (cmd, b, L) in enumerate([("bravais " + n, b, L) for n, b in BUILTIN.items() for L in FIXED[b.dim]] +
                                    [(b.cmd(), b, rng.choice(FIXED[b.dim])) for b in USER]):
        ops = [cmd]
        for closed in (1, 0):
            ops += ["lattice %d %s" % (closed, vec(L))] + ["grid " + h for h in ("get", "slice", "other")]
        S.append(Stim("grid%d" % k, ops))
    # one over another that differs in one thing
    for k in range(24 if not big else 150):
        first = some_lattice(rng)
        ops = first[0] + ["shelve 0 ctor", "shelve 1 ctor"]
        while True:
            new = some_lattice(rng, like=first[1:])
            if new[2].dim == first[2].dim and (new[3:] == first[3:]) == (k % 3 > 0):
                break
        for how in rng.sample(["ctor", "assign", "temp", "vector", "gone"], 2) + ["assign"]:
            ops += new[0] + ["fetch %d %s" % (how == "gone", how)] + ask(rng, *first[1:], 3)
        ops += new[0] + ["exchange 0"] + ask(rng, *first[1:], 3) + ["fetch 0 assign"] + ask(rng, *new[1:], 3)
        S.append(Stim("over%d" % k, ops))
    # long histories
    for k in range(30 if not big else 200):
        h, full = ["n"], set()
        for _ in range(rng.randint(5, 12)):
            x = rng.choice("nssffggxxi")
            p = rng.randrange(3)
            if x in "ni":
                h.append(x)
            elif x == "s" or p in full:
                h.append(x + str(p))
                full = full | {p} if x != "g" else full - {p}
        S.append(Stim("shelf%d" % k, shelfconv(h, rng)))
    return S


OBS = {"grid": ["size", "n", "dim", "closed", "open", "valid", "cs", "idx", "mapped", "unmapped", "jump"], "bravais": ["dim", "gamma"], "real": ["r", "inv"], "recip": ["r"], "between": ["v", "d", "dd", "dv"],
       "step": ["n", "m", "nm", "mn"], "lattice": ["n", "size", "dim"], "neighbors": ["nb", "are", "coord", "z"],
       "builtin": ["off"], "vec": ["v", "d"], "positions": ["p"], "position": ["p"], "nbof": ["nb", "are", "coord"], "momenta": ["k"], "momof": ["k"], "sksparse": ["r"], "sk": ["r"],
       "save": ["header", "newline", "ids", "vals"]}
BUILD = [dict(driver="drv_lattice")]
MC = [("MC_Lattice", "MC_Lattice")]
CHECKS = {"C05": dict(gen=gen_c05), "C06": dict(gen=gen_c06), "C07": dict(gen=gen_c07), "C08": dict(gen=gen_c08),
          "C09": dict(gen=gen_c09), "C10": dict(gen=gen_c10),
          "C34": dict(gen=gen_c34, tlcgen=[("Gen_Shelf", "Gen_Shelf")], tlcgen_thorough=[("Gen_Shelf", "Gen_Shelf_thorough")], tlcconv=shelfconv,
                      mc=[("MC_Shelf", "MC_Shelf")])}
for c in CHECKS.values():
    c.update(mc=c.get("mc", MC), spec="Trace_Lattice", build=BUILD, obs=OBS)
