"""C22 - C29: spaces, choices, search, enums, approximate comparison, files,
random engines and arithmetic helpers."""
import math, struct
from fractions import Fraction as F
from .core import *

BIG = {"double": 53, "float": 24}
INTS = {"int": (-2**31, 2**31 - 1), "long": (-2**63, 2**63 - 1), "uint": (0, 2**32 - 1), "ulong": (0, 2**64 - 1)}


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def isf32(x):
    return f32(x) == x


# -------------------------------- C22 --------------------------------------
class Range:
    def __init__(self, rng, small=False):
        self.rng = rng
        kind = rng.choice(["lin", "lin", "log", "pow"])
        T = rng.choice(["double", "double", "double", "float", "long"] if kind == "lin" else ["double", "double", "float"])
        n = rng.choice([1, 2, 3, 4, 5, 7, 8, 10, 12, 16])
        if not small and rng.random() < .25:
            n = rng.choice([20, 33, 50, 64]) if kind != "lin" else rng.choice([20, 33, 64, 100, 257, 1000])
        self.kind, self.T, self.n = kind, T, n
        if kind == "pow":
            base = rng.choice([2.0, 10.0, math.e, 1.5, 3.0])
            a = rng.randint(-6, 6)
            b = a + rng.choice([1, 1, 2, 3, 5, 8])
            if T == "float":
                a, b = max(a, -4), min(max(b, a + 1), 8)
                a = min(a, b - 1)
            if rng.random() < .2 and T == "double":
                base, a, b = 10.0, rng.randint(-30, 0), rng.randint(1, 30)
                if self.n > 16:
                    self.n = 16
            if self.n > 16:
                a, b = max(-3, a), min(4, b)
                if a >= b:
                    a, b = 0, 2
            base = f32(base) if T == "float" else base
            bits = 14 if T == "float" else 36
            self.cmd = "pow %s %d %d %d %s %d" % (T, a, b, self.n, hd(base), bits)
        elif T == "long":
            a = rng.choice([0, 1, -5, -100, rng.randint(-10**6, 10**6), rng.randint(-2**40, 2**40)])
            st = rng.choice([1, 2, 3, 10, 1000, rng.randint(1, 10**6)])
            self.cmd = "lin long %d %d %d 52" % (a, a + st * self.n, self.n)
        else:
            if kind == "lin":
                a = rng.choice([0.0, 1.0, -1.0, rng.uniform(-10, 10), rng.uniform(-1e6, 1e6), rng.uniform(-1, 1) * 1e-5])
                d = rng.choice([1.0, 2.0, 0.1, 10.0, rng.uniform(0, 5) + 1e-3, abs(a) * 1e-3 + 1e-6, rng.uniform(1, 2) * 1e4])
                b = a + d
                if rng.random() < .1:
                    a, b = -d, d
            else:
                a = rng.choice([1.0, 2.0, 0.1, 1e-3, rng.uniform(.01, 10), rng.uniform(1, 2) * 10.0 ** rng.randint(-20, 20)
                                if T == "double" else 0.5])
                b = a * rng.choice([2.0, 10.0, 1.01, 100.0, 1000.0, rng.uniform(1.001, 50)])
                if T == "double" and rng.random() < .1:
                    a, b = 1e-100, 1e100
            if T == "float":
                a, b = f32(a), f32(b)
            if not a < b:
                a, b = 1.0, 2.0
            bits = (45 if T == "double" else 16) if kind == "lin" else (36 if T == "double" else 12)
            self.cmd = "%s %s %s %s %d %d" % (kind, T, hd(a), hd(b), self.n, bits)


def gen_c22(rng, tier):
    S = []
    for i in range(160 if tier == "quick" else 900):
        r = Range(rng)
        regs = rng.choice([1, 2, 3])
        ops = ["space %d %s" % (k, r.cmd) for k in range(regs)]
        live = set(range(regs))
        steps = 0
        top = 2 * r.n if r.kind != "lin" else 2 * r.n + 3
        if r.n > 16:
            top = r.n
        st = {k: 0 for k in live}
        for _ in range(rng.choice([4, 8, 12])):
            k = rng.choice(sorted(live))
            w = rng.random()
            room = top - st[k]
            if w < .35 and room > 0:
                ops.append("step %d %s" % (k, rng.choice(["pre", "post", "call"])))
                st[k] += 1
            elif w < .4 and room > 1:
                to = rng.choice([x for x in range(4) if x != k])
                how = rng.choice(["pre", "post", "twice"])
                ops.append("keep %d %d %s" % (k, to, how))
                live.add(to)
                st[to] = st[k] + {"pre": 1, "post": 0, "twice": 2}[how]
                st[k] += 2 if how == "twice" else 1
            elif w < .45 and room > 0:
                n = rng.randint(0, room)
                ops.append("steps %d %d" % (k, n))
                st[k] += n
            elif w < .6:
                n = rng.choice([0, 1, 2, r.n])
                n = min(n, room + 1)
                ops.append("collect %d %d" % (k, n))
            elif w < .7:
                ops.append("iterate %d" % k)
            elif w < .78:
                to = rng.randrange(4)
                ops.append("copyspace %d %d" % (to, k))
                live.add(to)
                st[to] = st[k]
            elif w < .88:
                to = rng.randrange(4)
                how = rng.choice(["begin", "end"])
                ops.append("ends %d %d %s" % (k, to, how))
                live.add(to)
                st[to] = 0 if how == "begin" else r.n
            else:
                ops.append("samestep %d %d" % (k, rng.choice(sorted(live))))
        for k in sorted(live):
            ops.append("look %d" % k)
            for j in sorted(live):
                ops.append("samestep %d %d" % (k, j))
        S.append(Stim("sp%d" % i, ops))
    # many steps: no drift
    for i in range(4 if tier == "quick" else 20):
        n = rng.choice([1000, 9999, 100000] if tier == "quick" else [1000, 99999, 1000000])
        a = rng.choice([0.0, 0.1, -3.7])
        b = a + rng.choice([1.0, 0.1, 12.3])
        S.append(Stim("long%d" % i, ["space 0 lin double %s %s %d 45" % (hd(a), hd(b), n), "steps 0 %d" % (n // 3), "look 0",
                                     "steps 0 %d" % (n - n // 3), "look 0", "space 1 lin double %s %s %d 45" % (hd(a), hd(b), n),
                                     "ends 1 1 end", "samestep 0 1", "samestep 1 0"]))
    return S


def spconv(h, rng):
    r = Range(rng, small=True)
    ops = ["space 0 " + r.cmd, "space 1 " + r.cmd]
    for o in h:
        w = o.split()
        if w[0] in ("pre", "post", "call"):
            ops.append("step %s %s" % (w[1], w[0]))
        elif w[0] == "collect":
            ops.append("collect %s %d" % (w[1], rng.choice([0, 1, 2, 3])))
        elif w[0] == "iterate":
            ops.append("iterate " + w[1])
        elif w[0].startswith("keep"):
            ops.append("keep %s %s %s" % (w[2], w[1], w[0][4:]))
        elif w[0] == "copy":
            ops.append("copyspace %s %s" % (w[1], w[2]))
        else:
            ops.append("ends %s %s %s" % (w[2], w[1], w[0]))
        ops += ["samestep 0 1", "look 0", "look 1"]
    return ops


# -------------------------------- C23 --------------------------------------
def weights(rng, T, n):
    k = rng.choice(["ints", "uniform", "zeros", "skew", "one", "tiny", "equal"])
    if k == "ints":
        w = [float(rng.randint(0, 4)) for _ in range(n)]
    elif k == "uniform":
        w = [rng.random() for _ in range(n)]
    elif k == "zeros":
        w = [rng.choice([0.0, 0.0, rng.random()]) for _ in range(n)]
    elif k == "skew":
        w = [2.0 ** -rng.randint(0, 20) for _ in range(n)]
    elif k == "one":
        w = [0.0] * n
        w[rng.randrange(n)] = rng.choice([1.0, 0.3, 7.0])
    elif k == "tiny":
        w = [rng.random() * 1e-12 for _ in range(n)]
    else:
        w = [rng.choice([1.0, 0.1])] * n
    if rng.random() < .25:
        for i in range(rng.randint(0, n - 1)):
            w[n - 1 - i] = 0.0
    if rng.random() < .25:
        for i in range(rng.randint(0, n - 1)):
            w[i] = 0.0
    if not any(w):
        w[rng.randrange(n)] = 1.0
    if rng.random() < .3:
        s = sum(w)
        w = [x / s for x in w]
    sc = rng.choice([1.0, 1.0, 1.0, 1e3, 1e-9])
    w = [x * sc for x in w]
    return [f32(x) for x in w] if T == "float" else w


def gen_c23(rng, tier):
    S = []
    N = 20000 if tier == "quick" else 60000
    sizes = [1, 2, 3, 4, 5, 5, 8, 17, 33]
    for i in range(60 if tier == "quick" else 300):
        T = rng.choice(["double", "double", "float"])
        shape = rng.choice(["vector", "vector", "deque", "list", "array5"])
        ops = []
        for _ in range(3):
            n = 5 if shape == "array5" else rng.choice(sizes)
            if rng.random() < .05:
                n = 5 if shape == "array5" else rng.choice([100, 300, 1000])
            g = rng.choice(["strata", "strata", "mt64", "mt32", "minstd"])
            w = weights(rng, T, n)
            ops.append("choose %s %s %s %d %s%s" % (shape, T, g, N, "" if g == "strata" else "%d " % rng.randrange(10**6),
                                                   vec(hd(x) for x in w)))
        for _ in range(3):
            g = rng.choice(["strata", "mt64", "mt32"])
            T2 = rng.choice(["double", "float"])
            p = rng.choice([0.0, 1.0, 0.5, 0.25, rng.random(), rng.random(), 1e-3, 1 - 1e-3, 1e-300, 1 - 2.0**-53, 5e-324])
            if T2 == "float":
                p = min(f32(p), 1.0)
            ops.append("chance %s %s %d %s%s" % (T2, g, N, "" if g == "strata" else "%d " % rng.randrange(10**6), hd(p)))
        S.append(Stim("ch%d" % i, ops))
    return S


def gen_small_weights():
    """all lists of up to four small weights, as in MC_Choice"""
    import itertools
    ops = []
    for n in (1, 2, 3, 4):
        for w in itertools.product((0, 1, 2), repeat=n):
            if sum(w):
                ops.append("choose vector double strata %d %s" % (3000, vec(w)))
    return [Stim("small%d" % i, ops[i:i + 20]) for i in range(0, len(ops), 20)]


# -------------------------------- C24 --------------------------------------
def queries(rng, vals, V, X, runs):
    lim = INTS.get(V)
    xs = []
    if V in ("double", "float"):
        cand = []
        for v in vals:
            cand += [v, math.nextafter(v, math.inf), math.nextafter(v, -math.inf)]
        for a, b in zip(vals, vals[1:]):
            cand += [a + (b - a) * rng.random(), (a + b) / 2]
        cand += [vals[0] - 1, vals[-1] + 1, vals[0] - 1e6, vals[-1] + 1e6] if vals else [0.0]
        if X == "int":
            cand = [float(int(x)) for x in cand if abs(x) < 2**31 - 1]
        if V == "float":
            cand = [f32(x) for x in cand]
        rng.shuffle(cand)
        xs = cand[:16] if len(cand) > 16 else cand
        return " ".join([str(len(xs))] + [("%d" % x if X == "int" else hd(x)) for x in xs])
    cand = []
    for v in vals:
        cand += [v - 1, v, v + 1]
    cand += [vals[0] - 1000, vals[-1] + 1000] if vals else [0]
    for a, b in zip(vals, vals[1:]):
        cand += [(a + b) // 2, a + int((b - a) * rng.random())]
    # representable differences
    lo, hi = (vals[0], vals[-1]) if vals else (0, 0)
    span = lim[1]
    cand = [x for x in cand if lim[0] <= x <= lim[1] and abs(x - lo) <= span and abs(x - hi) <= span]
    rng.shuffle(cand)
    cand = cand[:16]
    return vec(cand)


SHAPES = ["vector", "vector", "mutable", "pointer", "deque", "middle", "list"]


def searchop(rng, vals, lens, V, X, shape):
    put = (lambda x: hd(x)) if V in ("double", "float") else (lambda x: "%d" % x)
    runs = " ".join([str(len(vals))] + ["%s %d" % (put(v), n) for v, n in zip(vals, lens)])
    return "search %s %s %s %s %s" % (shape, V, X, runs, queries(rng, vals, V, X, lens))


def values(rng, V, n, how):
    """n increasing values"""
    if how == "even":
        v = [3 * i for i in range(n)]
    elif how == "random":
        v = sorted(rng.sample(range(-10**6, 10**6), n))
    elif how == "expo":
        v = sorted({int(1.3 ** (i % 60)) + i for i in range(n)})
    elif how == "far":
        v = list(range(n - 1)) + [10**8]
    elif how == "farleft":
        v = [-10**8] + list(range(n - 1))
    else:
        v = [i * i for i in range(n)]
    if V in ("uint", "ulong"):
        m = min(v + [0])
        v = [x - m for x in v]
    if V == "int":
        v = [x for x in v if abs(x) < 2**29]
    if V in ("double",):
        s = rng.choice([1.0, 0.1, 1e-3, math.pi, 1e10])
        v = [x * s for x in v]
        if how == "expo" and rng.random() < .5:
            v = [math.ldexp(1.0, i * 8) for i in range(min(n, 120))]
    if V == "float":
        v = [float(x) for x in v]
        v = sorted({f32(x) for x in v})
    return v


def gen_c24(rng, tier):
    S = []
    for i in range(70 if tier == "quick" else 500):
        V = rng.choice(["double", "double", "double", "long", "int", "ulong", "float"])
        X = "int" if V == "double" and rng.random() < .2 else V
        ops = []
        for _ in range(rng.choice([1, 2])):
            n = rng.choice([0, 1, 2, 5, 30, 60, 150])
            how = rng.choice(["even", "random", "expo", "far", "farleft", "square"])
            vals = values(rng, V, n, how) if n > 1 else ([rng.choice([0, 5])] * n if V not in ("double", "float") else [1.5] * n)
            if not vals:
                ops.append("search %s %s %s 0 %s" % (rng.choice(SHAPES), V, X, "2 3 -1" if V in ("int", "long") or X == "int" else "2 0x1p+0 0x1p+1" if V in ("double", "float") else "2 3 1"))
                continue
            big = rng.random() < .8
            m = len(vals)
            style = rng.choice(["ones", "equal", "mixed", "onebig", "firstbig", "lastbig"])
            if not big:
                lens = [rng.choice([1, 1, 2, 5]) for _ in vals]
            elif style == "equal":
                lens = [rng.choice([10001, 15000, 30000]) // m + 1] * m
            elif style == "ones":
                lens = [1] * m
                lens[rng.randrange(m)] = rng.choice([9990, 10000, 10001, 10010])
            elif style == "mixed":
                lens = [rng.choice([1, 1, 3, 500, 2500, 12000]) for _ in vals]
            else:
                lens = [rng.choice([1, 2, 100]) for _ in vals]
                lens[{"onebig": rng.randrange(m), "firstbig": 0, "lastbig": -1}[style]] = rng.choice([10001, 25000, 60000])
            shape = rng.choice(SHAPES)
            if shape == "list":  # (stepping through a list takes its time)
                lens = [min(x, 12000) for x in lens] if V == "double" and X == "double" else [min(x, 50) for x in lens]
            ops.append(searchop(rng, vals, lens, V, X, shape))
        # some with the iterators of the standard library checked (and slow)
        S.append(Stim("%sse%d" % ("dbg_" if i % 5 == 0 else "", i), ops))
    S.append(Stim("dbg_empty", ["search %s %s %s 0 %s" % (shape, V, X, xs) for shape in SHAPES
                                for V, X, xs in [("double", "double", "2 0x1p+0 -0x1p+1"), ("double", "int", "1 0"), ("float", "float", "1 0x1p+0"), ("long", "long", "2 -1 5"),
                                                 ("int", "int", "1 7"), ("ulong", "ulong", "1 0")]]))
    # long arrays of different elements: several rounds of interpolation
    for i in range(5 if tier == "quick" else 24):
        V = rng.choice(["double", "double", "long", "float"])
        n = rng.choice([600, 900])
        vals = values(rng, V, n, rng.choice(["even", "random", "far", "farleft", "square"]))
        lens = [rng.choice([30, 60, 100, 200]) for _ in vals]
        S.append(Stim("deep%d" % i, [searchop(rng, vals, lens, V, V, rng.choice(["vector", "pointer", "deque"]))]))
    # more elements than a float can count, the last one close to the value in its terms
    for i in range(2 if tier == "quick" else 10):
        n = rng.choice([2**24, 2**24, 2**25]) + rng.choice([3, 4, 7, 8, 11, 12, 15, 19, 20, 23])
        vals = [f32(-rng.choice([1.0, 8.0, 3.0, 1e10])), f32(rng.choice([1e-9, 1e-10, 2.0**-40]))]
        lens = [n - 1, 1]
        if rng.random() < .5:
            vals.insert(1, f32(-1e-9))
            lens = [n - 6, 4, 2]
        xs = [vals[-1] / 2, vals[-1], vals[0], 0.0, vals[-2], f32(vals[0] * (1 - 2.0**-23)), 5e-324, vals[0] / 2]
        S.append(Stim("vast%d" % i, ["search %s float float %s %s" % (rng.choice(["vector", "pointer"]), " ".join([str(len(vals))] + ["%s %d" % (hd(v), k) for v, k in zip(vals, lens)]),
                                                                      " ".join([str(len(xs))] + [hd(f32(x)) for x in xs]))]))
    # positions beyond any narrower integer; evenly, lest the search take ages
    for i in range(12 if tier == "quick" else 60):
        m = rng.choice([2, 3, 5, 8])
        L = rng.choice([2**28, 2**31 // m, 2**31 - 1, 2**31, 2**32 // m + 1, 2**32 - 7, 2**32, 2**32 + 12345, 2**40, 2**50]) + rng.randrange(3)
        lens = [L + rng.randrange(5) for _ in range(m)]
        if rng.random() < .5:
            lens[-1] += rng.choice([0, 2**32 - sum(lens) % 2**32 + rng.choice([0, 1, 5000, 20000])])
        a, d = rng.choice([(0.0, 1.0), (-1.5, 0.5), (100.0, 3.0)])
        vals = [a + d * k for k in range(m)]
        xs = vals + [v + d * rng.choice([.3, .5, .7]) for v in vals] + [vals[0] - d, vals[0] - 1e9, vals[-1] + 1e9]
        S.append(Stim("vast_stairs%d" % i, ["stairs %s %s" % (" ".join([str(m)] + ["%s %d" % (hd(v), k) for v, k in zip(vals, lens)]), vec(hd(x) for x in xs))]))
    return S


def seconv(h, rng):
    v, vals, lens = 0, [], []
    for g, n in zip(h[::2], h[1::2]):
        v += int(g)
        vals.append(v)
        lens.append(int(n))
    V = rng.choice(["double", "long", "int"])
    if V == "double":
        vals = [x * 0.5 for x in vals]
    return [searchop(rng, vals, lens, V, V, rng.choice(["vector", "pointer", "deque", "middle"]))]


# -------------------------------- C25 --------------------------------------
NAMES = [["Apple", "ApplePie", "Pear"], ["Only"], ["abc", "ABC", "Abc", "aBc", "abC"],
         ["_x", "x_", "x", "x1", "x_1", "_"], ["aaaaa", "aaaa", "aaa", "aa", "a", "ab", "b"],
         ["a", "aa", "aaa", "aaaa", "aaaaa"], ["Unknown", "unknown", "E1", "enum_", "for_enum"],
         ["N%02d" % i for i in range(70)],
         ["a_rather_long_name_of_an_enumerator_1", "a_rather_long_name_of_an_enumerator_2", "a_rather_long_name_of_an_enumerator_"],
         ["Ready", "Running", "Done", "Read"]]


def gen_c25(rng, tier):
    S = []
    for e, names in enumerate(NAMES):
        ops = ["enum %d" % e]
        top = 1
        while top < len(names):
            top *= 2
        for i in range(max(top, 2) if len(names) > 1 else 2):
            ops.append("tostring %d" % i)
        words = list(names)
        for n in names:
            words += [n[:-1], n + n[-1:], n + " ", " " + n, n.lower(), n.upper(), n.swapcase(), n[1:], n[::-1], n + "\n", n + "x", "\t" + n,
                      n[: len(n) // 2], n + "," + names[0], str(names.index(n))]
        words += ["", " ", "0", "1", "Unknown", "[ Unknown %s ]" % "Fruit", "enum", "Fruit", "x" * 200, "for enum", "\x80\xff", "a" * 5000]
        words += [n + "\0" for n in names[:9]] + [n + "\0x" for n in names[:9]] + ["\0" + names[0], "\0", names[0][:1] + "\0" + names[0][1:]]
        words += [m for o in NAMES for m in o[:2]]
        for _ in range(20 if tier == "quick" else 300):
            n = list(rng.choice(names))
            for _ in range(rng.choice([1, 1, 2])):
                k = rng.randrange(len(n) + 1)
                if rng.random() < .5:
                    n.insert(k, rng.choice("aAx_1 N0Pe"))
                elif n:
                    n[min(k, len(n) - 1)] = rng.choice("aAx_1 N0Pe")
            words.append("".join(n))
        words = sorted(set(words))
        rng.shuffle(words)
        for w in words:
            ops.append("fromstring %s %d" % (hx(w), rng.randrange(len(names))))
        head, rest = ops[:1], ops[1:]
        for j in range(0, len(rest), 60):
            S.append(Stim("en%d_%d" % (e, j), head + rest[j:j + 60]))
    return S


# -------------------------------- C26 --------------------------------------
def gen_c26(rng, tier):
    S = []
    ops = []
    for i in range(1500 if tier == "quick" else 12000):
        v = rng.choice([0.0, 1.0, -1.0, rng.uniform(-10, 10), rng.uniform(-1, 1) * 10.0 ** rng.randint(-100, 100), 3.0, 1e-310, 2.0 ** -1060,
                        1e300, 0.1, -0.3, 100.0, 1e6 + .5])
        sets = []
        eps = 2.0 ** -52
        ab, re = 0.0, 100 * eps
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            if rng.random() < .5:
                ab = rng.choice([0.0, 1e-3, -1e-3, .5, -.5, 1e-12, 1.0, -0.0, abs(v) / 8, 1e300, rng.random()])
                sets.append("abs " + hd(ab))
            else:
                re = rng.choice([0.0, 1e-3, -1e-3, .25, -.25, 1e-12, 1.0, 2.0, eps, rng.random()])
                sets.append("rel " + hd(re))
        tol = max(abs(ab), abs(re) * abs(v))
        w = rng.random()
        sg = rng.choice([1, -1])
        if w < .2:
            x = v
        elif w < .55:  # at the boundary and next to it
            x = v + sg * tol
            for _ in range(rng.choice([0, 0, 1, 2])):
                x = math.nextafter(x, rng.choice([1, -1]) * math.inf)
        elif w < .7:
            x = v + sg * tol * rng.choice([.5, .99, 1.01, 2, 1 + 1e-9, 1 - 1e-9])
        elif w < .75:
            x = -v
        elif w < .8:
            x = rng.choice([math.nextafter(v, math.inf), math.nextafter(v, -math.inf)])
        else:
            x = rng.choice([0.0, 1.0, -1.0, rng.uniform(-10, 10), v * 2, v / 2, v * (1 + 50 * eps), v * (1 + 150 * eps), v * (1 - 99 * eps)])
        if not math.isfinite(x) or abs(x) > 8e307 or abs(v) > 8e307:
            continue
        ops.append(" ".join(["approx", hd(v), hd(x)] + sets))
    return [Stim("ap%d" % i, ops[i:i + 50]) for i in range(0, len(ops), 50)]


def apconv(h, rng):
    v, sets, ops = int(h[0]), h[1:], []
    txt = " ".join("%s %s" % (a, b) if a == "abs" else "rel %s" % hd(int(b) / 2) for a, b in zip(sets[::2], sets[1::2]))
    for x in range(-14, 15):
        ops.append("approx %s %s %s" % (hd(v), hd(x / 2), txt))
    return ops


# -------------------------------- C27 --------------------------------------
def content(rng):
    n = rng.choice([0, 0, 1, 1, 2, 3, 5])
    L = [0, 1, 2, 10, 100, 1000, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 100000]
    return [(rng.choice([0, 10, 13, 26, 32, 65, 127, 128, 254, 255, rng.randrange(256)]), rng.choice(L)) for _ in range(n)]


def size(c):
    return sum(n for _, n in c)


def change(rng, c, at=None):
    """one byte different"""
    t = size(c)
    if t == 0:
        return [(0, 1)]
    if at is None:
        at = rng.choice([0, t - 1, t // 2, rng.randrange(t)] + [x for x in (4095, 4096, 8190, 8191, 8192, 65535, 65536) if x < t])
    out, pos = [], 0
    for b, n in c:
        if pos <= at < pos + n:
            out += [(b, at - pos), (b ^ rng.choice([1, 128, 255, 32, rng.randrange(1, 256)]), 1), (b, n - (at - pos) - 1)]
        else:
            out.append((b, n))
        pos += n
    return out


def writeop(f, c):
    return "write %d %d%s" % (f, len(c), "".join(" %d %d" % x for x in c))


def gen_c27(rng, tier):
    S = []
    for i in range(120 if tier == "quick" else 800):
        ops = []
        c = content(rng)
        ops.append(writeop(0, c))
        others = []
        for f in range(1, rng.choice([2, 3, 4])):
            w = rng.random()
            if w < .25:
                d = [x for x in c]
            elif w < .6:
                d = change(rng, c)
            elif w < .7:
                d = c + [(rng.choice([0, 10, 255]), 1)]
            elif w < .8:
                d = [(b, n) for b, n in c[:-1]] + ([(c[-1][0], max(0, c[-1][1] - 1))] if c else [])
            elif w < .85 and len(c) > 1:
                d = c[::-1]
            elif w < .92:
                d = None
            else:
                d = content(rng)
            if d is not None:
                ops.append(writeop(f, d))
            ops.append("compare 0 %d" % f)
            others.append(f)
        for a in range(len(others) + 1):
            ops.append("compare %d %d" % (a, rng.choice(others)))
        ops.append("compare 0 0")
        if rng.random() < .5:
            ops += ["remove 0", "compare 0 %d" % others[0], "compare %d 0" % others[0], "compare 0 0"]
        S.append(Stim("fi%d" % i, ops))
    # sizes that differ by more than a narrower type can tell (sparse files)
    for i in range(16 if tier == "quick" else 60):
        c = content(rng)
        c = c + [(rng.choice([1, 10, 255]), rng.choice([1, 5, 100]))] if c else c
        h = rng.choice([0, 0, 1, 2, 2048, 4096])
        ops = [writeop(0, c)] + (["extend 0 %d" % h] if h else [])
        for f in (1, 2):
            d = c if rng.random() < .8 else change(rng, c)
            k = rng.choice([x for x in (1, 2, 3, 2047, 2048, 4095, 4096, 8192, 6144) if x != h] + ([h] if 0 < h < 3 else []))
            k = k + h if rng.random() < .3 and h > 2 else k
            ops += [writeop(f, d), "extend %d %d" % (f, k), "compare 0 %d" % f]
            if f == 2 and rng.random() < .5:
                ops.append("remove 2")
        S.append(Stim("bigfile%d" % i, ops))
    # many millions of bytes, equal or with one that differs
    for i in range(6 if tier == "quick" else 24):
        t = 2 ** rng.randint(20, 24 if tier == "quick" else 27) + rng.choice([-1, 0, 1, rng.randrange(1, 2 ** 20)])
        cut = rng.randrange(t)
        c = [(rng.randrange(256), cut), (rng.randrange(256), t - cut)] + [(rng.randrange(256), 1)] * rng.randrange(3)
        edges = [x + d for k in range(17, 27) for x in (2 ** k,) for d in (-1, 0, 1) if x + d < t]
        ops = [writeop(0, c), writeop(1, c), "compare 0 1"]
        for at in (rng.choice(edges), rng.randrange(t), t - 1):
            ops += [writeop(1, change(rng, c, at)), "compare %s" % rng.choice(["0 1", "1 0"])]
        S.append(Stim("long%d" % i, ops))
    return S


def ficonv(h, rng):
    k = h.index("|")
    ops = []
    for f, c in ((0, h[:k]), (1, h[k + 1:])):
        if c:
            ops.append(writeop(f, list(zip(map(int, c[::2]), map(int, c[1::2])))))
    return ops + ["compare 0 1", "compare 1 0"]


# -------------------------------- C28 --------------------------------------
def someseed(rng, bits):
    m = 2**32 if bits == 32 else 2**64
    return rng.choice([0, 1, 5489, m - 1, rng.randrange(m), rng.randrange(1000), 2**31, 2**31 - 1, 2**32 - 1,
                       rng.randrange(m) | (m // 2)]) % m


class Engines:
    """a history of engines, with their positions in their streams"""

    def __init__(self, bits, seeds):
        self.bits, self.ops, self.e, self.slot = bits, [], {}, {}
        for k, s in enumerate(seeds):
            self.seed(k, s)

    def seed(self, k, s):
        self.ops.append("seed %d %d %d" % (k, self.bits, s))
        self.e[k] = (s, 0)

    def go(self, op, k, n):
        self.ops.append("%s %d %d" % (op, k, n))
        self.e[k] = (self.e[k][0], self.e[k][1] + n)

    def copy(self, k, f):
        self.ops.append("copy %d %d" % (k, f))
        self.e[k] = self.e[f]

    def save(self, s, kind, ks):
        self.ops.append("save %d %s %s" % (s, kind, vec(ks)))
        self.slot[s] = [self.e[k] for k in ks]

    def load(self, s, ks):
        self.ops.append("load %d %s" % (s, vec(ks)))
        for k, e in zip(ks, self.slot[s]):
            self.e[k] = e

    def refer(self, k, n=3):
        """the next numbers of an engine, and those of a directly seeded one"""
        s, p = self.e[k]
        self.seed(5, s)
        if p:
            self.go("skip", 5, p)
        self.go("draw", 5, n)
        self.go("draw", k, n)


def gen_c28(rng, tier):
    S = []
    for i in range(60 if tier == "quick" else 400):
        bits = rng.choice([32, 64])
        n = rng.choice([2, 3, 4])
        seeds = [someseed(rng, bits) for _ in range(2)]
        g = Engines(bits, [rng.choice(seeds) for _ in range(n)])
        N = 624 if bits == 32 else 312
        for _ in range(rng.choice([4, 7, 10])):
            w = rng.random()
            k = rng.randrange(n)
            if w < .25:
                g.go("skip", k, rng.choice([0, 1, 3, N - 1, N, N + 1, N // 2, 2 * N, rng.randrange(5 * N)]))
            elif w < .4:
                g.go("draw", k, rng.choice([1, 2, 5]))
            elif w < .65 or not g.slot:
                ks = rng.sample(range(n), rng.choice([1, 1, 2]))
                g.save(rng.randrange(3), rng.choice(["text", "binary"]), ks)
                if rng.random() < .5:
                    g.refer(ks[0])
            elif w < .95:
                s = rng.choice(sorted(g.slot))
                ks = rng.sample(range(n), len(g.slot[s]))
                g.load(s, ks)
                for x in ks:
                    g.refer(x, rng.choice([1, 3]))
            else:
                g.copy(k, rng.randrange(n))
        for k in range(n):
            g.refer(k, rng.choice([3, 20]))
        for k in range(n):  # once more, far on
            g.go("skip", k, N)
            g.refer(k)
        S.append(Stim("rng%d" % i, g.ops))
    for i in range(24 if tier == "quick" else 120):
        bits = rng.choice([32, 64])
        ops = ["seed 0 %d %d" % (bits, someseed(rng, bits)), "skip 0 %d" % rng.randrange(2000)]
        kind = rng.choice(["text", "binary"])
        how = ["cut", "word", "text", "good"][i % 4]
        at = rng.choice([0, 1, 10, 310, 311, 312, 313, 623, 624, rng.randrange(625)])
        if how == "text":
            ops.append("badload 0 %s text 0 %s" % (kind, hx(rng.choice(["", "hello", "-", "1", "1 2 3", "x 1 2", " ", "nan", "0x"]))))
        else:
            ops.append("badload 0 %s %s %d" % (kind, how, at if how != "cut" else rng.choice([0, 1, 5, 100, 311])))
        if how == "good":
            ops.append("draw 0 5")
        S.append(Stim("bad%d" % i, ops))
    seeds = [0, 1, 2, 5489, 42, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 5 * 10**9, 2**63 - 1, 2**63, 2**64 - 1]
    seeds += [rng.randrange(2**64) for _ in range(10)] + [rng.randrange(10**6) for _ in range(10)]
    for i, s in enumerate(seeds):
        S.append(Stim("dump%d" % i, ["seed 0 64 %d" % s, "draw 0 6", "dump 1 %d 1" % s, "draw 1 6", "skip 0 900", "skip 1 900",
                                     "draw 0 2", "draw 1 2"]))
    S.append(Stim("dumpnone", ["dump 0"]))
    return S


def rngconv(h, rng):
    bits = rng.choice([32, 64])
    N = 624 if bits == 32 else 312
    g = Engines(bits, [someseed(rng, bits), someseed(rng, bits)])
    for o in h:
        w = o.split()
        if w[0] == "draw":
            if rng.random() < .5:
                g.go("skip", int(w[1]), rng.choice([1, N - 1, N, N + 1, 77]))
            g.go("draw", int(w[1]), 2)
        elif w[0] == "save":
            g.save(0, rng.choice(["text", "binary"]), [int(w[1])])
        elif w[0] == "load":
            g.load(0, [int(w[1])])
        else:
            g.copy(int(w[1]), int(w[2]))
    for k in (0, 1):
        g.refer(k)
    for k in (0, 1):
        g.go("skip", k, N)
        g.refer(k)
    return g.ops


# -------------------------------- C29 --------------------------------------
def isq(v):
    return math.isqrt(v)


def intval(rng, T, lim=None):
    lo, hi = INTS[T]
    if lim is not None:
        lo, hi = max(lo, -lim), min(hi, lim)
    return rng.choice([0, 1, lo, hi, rng.randint(lo, hi), max(lo, min(hi, rng.randint(-20, 20))), hi - 1, lo + 1, max(lo, min(hi, -1))])


def fval(rng, T):
    x = rng.choice([0.0, 1.0, -1.0, rng.uniform(-10, 10), rng.uniform(-1, 1) * 10.0 ** rng.randint(-12, 12), float(rng.randint(-1000, 1000)),
                    0.1, -0.5, 1e-12])
    return f32(x) if T == "float" else x


def gen_c29(rng, tier):
    ops = []

    def put(T, x):
        return hd(x) if T in ("double", "float") else "%d" % x

    def fn(name, T, shape, bits, xs):
        ops.append("fn %s %s %s %d %s" % (name, T, shape, bits, vec(put(T, x) for x in xs)))
    ALL = ["double", "float", "int", "long", "uint", "ulong"]
    rnd = {"double": 48, "float": 18}
    for i in range(220 if tier == "quick" else 2500):
        T = rng.choice(ALL)
        fl = T in rnd
        lo, hi = (None, None) if fl else INTS[T]
        b = rnd.get(T, 0)
        bs = rnd.get(T, 0)
        v = lambda lim=None: fval(rng, T) if fl else intval(rng, T, lim)
        fn("square", T, "-", bs, [v(None if fl else isq(hi))])
        fn("cube", T, "-", bs, [v(None if fl else int(round(hi ** (1 / 3))) - 1)])
        n = rng.choice([1, 2, 3, 3, 5, 9, 40])
        shape = rng.choice(["vector", "list", "deque", "array"])
        m = [v(None if fl else hi // n) for _ in range(n)]
        fn("sum", T, shape, b - 4 if fl else 0, m)
        fn("max", T, shape, 0, [v() for _ in range(n)])
        fn("min", T, shape, 0, [v() for _ in range(n)])
        if rng.random() < .3:  # with ties
            x = v()
            fn("max", T, shape, 0, [x] * n)
            fn("min", T, shape, 0, [x] * n)
        if rng.random() < .3 and fl:  # all negative
            xs = [-abs(v()) - 1 for _ in range(n)]
            if T == "float":
                xs = [f32(x) for x in xs]
            fn("max", T, shape, 0, xs)
            fn("min", T, shape, 0, [-x for x in xs])
        if rng.random() < .2:
            fn("sum", T, shape, 0, [])
            fn("product", T, shape, 0, [])
            fn("sumsq", T, shape, 0, [])
        k = rng.choice([1, 2, 3, 6])
        if fl:
            p = [rng.choice([fval(rng, T), 0.5, 2.0, -1.5]) for _ in range(k)]
            p = [f32(x) for x in p] if T == "float" else p
            if all(abs(x) > 1e-5 or x == 0 for x in p):
                fn("product", T, shape, b - 4, p)
        else:
            p, q = [], 1
            while len(p) < k:
                x = rng.choice([rng.randint(0, 12), hi // q, 1, rng.randint(0, max(1, isq(hi // max(q, 1))))])
                if rng.random() < .3 and lo < 0:
                    x = -x
                if abs(x) * q > hi:
                    x = 1
                p.append(x)
                q = max(1, abs(x) * q)
            fn("product", T, shape, 0, p)
        s = [v(None if fl else isq(hi // n)) for _ in range(n)]
        fn("sumsq", T, shape, b - 4 if fl else 0, s)
        fn("norm", T, shape, {"float": 14}.get(T, 44), s)
        if T in ("int", "uint", "float"):  # into a wider type
            m = [v() for _ in range(n)]
            fn("sum", T, "wide", 44 if fl else 0, m)
            m = m[:2] if rng.random() < .5 else [rng.choice(m)]
            if fl and all(abs(x) > 1e-5 or x == 0 for x in m):
                fn("product", T, "wide", 44, m)
                fn("sumsq", T, "wide", 44, m)
            elif not fl:
                lim = 2**63 - 1
                fn("product", T, "wide", 0, [x for x in m if True] if abs(math.prod(m)) <= lim else m[:1])
                fn("sumsq", T, "wide", 0, m if sum(x * x for x in m) <= lim else m[:1])
                fn("dsumsq", T, "wide", 44, m)
        fn("sgn", T, "-", 0, [v()])
        x, y = v(), v()
        if fl or abs(x - y) <= hi:
            fn("absdiff", T, "-", b - 2 if fl else 0, [x, y])
        if T in ("uint", "ulong"):
            w = 31 if T == "uint" else 63
            x, y = v(), v()
            if rng.random() < .3:
                y = max(0, min(hi, x + rng.randint(-3, 3)))
            if abs(x - y) < 2**w:
                fn("signeddiff", T, "-", 0, [x, y])
            if T == "uint":
                fn("signeddiff", T, "long", 0, [x, y])
        if not fl:
            x, y = abs(v(hi)), abs(v(hi))
            g = rng.choice([1, 6, 1024, 30030])
            if rng.random() < .6:
                x, y = rng.randint(0, 10**4) * g, rng.randint(0, 10**4) * g
            if rng.random() < .15:
                x, y = 1836311903, 1134903170  # Fibonacci: the deepest recursion
            fn("gcd", T, "-", 0, [min(x, hi), min(y, hi)])
        if fl:
            x = rng.choice([0.0, -0.0, 5e-324 if T == "double" else 2.0**-149, -5e-324 if T == "double" else -2.0**-149, v(), -1.0, 1e30])
            x = f32(x) if T == "float" else x
            fn("heaviside", T, "-", 0, [x])
            fn("heaviside2", T, "-", 0, [x])
            t = rng.choice([0.0, 1.0, 0.5, rng.random(), rng.uniform(-3, 3), 2.0, -1.0])
            t = f32(t) if T == "float" else t
            fn("lerp", T, "-", b, [v(), v(), t])
            big = (1e38 if T == "float" else 1e300) if rng.random() < .5 else 1e16
            ends = [f32(z) if T == "float" else z for z in (rng.choice([-big, big, 1.0, 0.1, v()]), rng.choice([-big, big, 1.0, 0.1, v()]))]
            fn("lerp", T, "-", b, ends + [rng.choice([0.0, 1.0])])
            j = rng.choice([1, 2, 3, 7, 10, 100, 12345, -4])
            i2 = rng.choice([0, 1, j, j - 1, rng.randint(-5, 200)])
            ops.append("fn lerpi %s %s %d %d %d %s" % (T, rng.choice(["int", "long"]), b, i2, abs(j), vec(put(T, z) for z in [v(), v()])))
        # in place
        VT = rng.choice(["double", "float", "int", "long"])
        shape = rng.choice(["vector", "list", "deque", "array3"])
        n = 3 if shape == "array3" else rng.choice([0, 1, 2, 5, 9])
        name = rng.choice(["sum_into", "subtract_into", "invert", "get_inverted", "sum_self"])
        if VT in rnd:
            xs = [float(rng.randint(-2**10, 2**10)) / 8 for _ in range(n)]
            ys = [float(rng.randint(-2**10, 2**10)) / 8 for _ in range(n)]
        else:
            h = INTS[VT][1]
            xs = [rng.choice([rng.randint(-h // 2, h // 2), rng.randint(-9, 9), 0]) for _ in range(n)]
            ys = [rng.choice([rng.randint(-h // 2, h // 2), rng.randint(-9, 9), 0]) for _ in range(n)]
        ops.append("vec %s %s %s %s %s" % (name, VT, shape, vec(put(VT, x) for x in xs), vec(put(VT, y) for y in ys)))
    S = [Stim("fn%d" % i, ops[i:i + 40]) for i in range(0, len(ops), 40)]
    # binomial coefficients while their intermediate products fit
    ops = []
    for T, top in (("int", 2**31 - 1), ("long", 2**63 - 1), ("ulong", 2**64 - 1), ("uint", 2**32 - 1), ("double", 2**53)):
        for n in list(range(0, 24)) + [28, 29, 30, 40, 50, 60, 61, 62, 66, 100, 1000, 30000]:
            ks = list(range(0, min(n, 40) + 1)) + [n - j for j in range(0, 4) if n - j >= 0] + [n + 1, n + 7]
            if tier == "quick":
                ks = sorted(set(rng.sample(ks, min(len(ks), 5)) + [0, n, n + 1]))
            for k in sorted(set(ks)):
                res, ok, kk = 1, True, min(k, n - k)
                for i in range(1, kk + 1):
                    res *= n + 1 - i
                    if res > top:
                        ok = False
                        break
                    res //= i
                if ok:
                    ops.append("fn binomial %s - 0 %s %s" % (T, hd(n) if T == "double" else n, hd(k) if T == "double" else k))
    S += [Stim("bin%d" % i, ops[i:i + 60]) for i in range(0, len(ops), 60)]
    return S


OBS = {"space": ["v"], "step": ["v", "now"], "steps": ["now"], "keep": ["v", "now"], "look": ["v"], "collect": ["vs", "now"], "iterate": ["vs", "now"],
       "ends": ["v"], "samestep": ["eq", "ne"], "choose": ["outside", "unchanged", "agree"], "search": ["got"], "stairs": ["got", "outside"],
       "tostring": ["s"], "fromstring": ["thrown", "now"], "compare": ["ab", "ba", "lena", "lenb", "unchanged"],
       "approx": ["xeq", "aeq", "xne", "ane", "xle", "ale", "xge", "age", "xlt", "alt", "xgt", "agt"],
       "fn": ["r"], "vec": ["r", "same", "right"]}
ROBS = {"draw": ["v"], "load": ["thrown"], "badload": ["thrown"], "dump": ["status", "readable"]}
U = dict(spec="Trace_Utils", obs=OBS, build=[dict(driver="drv_utils")])
CHECKS = {
    "C22": dict(U, gen=gen_c22, mc=[("MC_Spaces", "MC_Spaces")], tlcgen=[("Gen_Spaces", "Gen_Spaces")],
                tlcgen_thorough=[("Gen_Spaces", "Gen_Spaces_thorough")], tlcconv=spconv),
    "C23": dict(U, gen=lambda rng, tier: gen_c23(rng, tier) + gen_small_weights(), mc=[("MC_Choice", "MC_Choice")]),
    "C24": dict(U, gen=gen_c24, build=U["build"] + [dict(driver="drv_utils", name="drv_utils_debug", defs=["_GLIBCXX_DEBUG"])],
                variants=[lambda s: not s.id.startswith("dbg_"), lambda s: s.id.startswith("dbg_")], mc=[("MC_Search", "MC_Search")], mc_thorough=[("MC_Search", "MC_Search_thorough")],
                tlcgen=[("Gen_Search", "Gen_Search")], tlcgen_thorough=[("Gen_Search", "Gen_Search_thorough")], tlcconv=seconv),
    "C25": dict(U, gen=gen_c25, mc=[("MC_Enum", "MC_Enum")]),
    "C26": dict(U, gen=gen_c26, mc=[("MC_Approx", "MC_Approx")], tlcgen=[("Gen_Approx", "Gen_Approx")], tlcconv=apconv),
    "C27": dict(U, gen=gen_c27, mc=[("MC_Files", "MC_Files")], tlcgen=[("Gen_Files", "Gen_Files")], tlcconv=ficonv),
    "C28": dict(spec="Trace_Random", obs=ROBS, gen=gen_c28, mc=[("MC_Random", "MC_Random")],
                tlcgen=[("Gen_Random", "Gen_Random")], tlcgen_thorough=[("Gen_Random", "Gen_Random_thorough")], tlcconv=rngconv,
                build=[dict(driver="drv_rng", libs=["-lboost_serialization"]), dict(driver="app_dumpmt", name="dumpmt", san=None)],
                helper_env="BWSL_DUMPMT"),
    "C29": dict(U, gen=gen_c29, mc=[("MC_Helpers", "MC_Helpers")]),
}
