"""C11 - C13: rational numbers."""
from fractions import Fraction as F
import math
from .core import *

MAXV = {"long": 2**63 - 1, "int": 2**31 - 1}


def formed(o, a, b):
    s = [a.numerator * b.denominator, b.numerator * a.denominator]
    if o in "+-":
        return s + [s[0] + s[1] if o == "+" else s[0] - s[1], a.denominator * b.denominator]
    if o == "*":
        return [a.numerator * b.numerator, a.denominator * b.denominator]
    return [a.numerator * b.denominator, a.denominator * b.numerator]


def quotient(o, a, b):
    """the numerator and denominator the operation comes to"""
    if o in "+-":
        return formed(o, a, b)[2:]
    return formed(o, a, b)


def value(o, a, b):
    return a + b if o == "+" else a - b if o == "-" else a * b if o == "*" else a / b


class Calc:
    def __init__(self, rng, T, n):
        self.rng, self.T, self.m = rng, T, MAXV[T]
        self.r = [F(0)] * n
        self.ops = ["type %s %d" % (T, n)]

    def num(self, k=None):
        rng = self.rng
        bits = 31 if self.T == "int" else 63
        k = k or rng.choice(["small", "small", "small", "mid", "wide", "edge"])
        if k == "small":
            v = rng.randint(-12, 12)
        elif k == "mid":
            v = rng.randint(-10**4, 10**4)
        elif k == "wide":
            v = rng.randint(-(1 << (bits // 2)), 1 << (bits // 2))
        else:
            v = rng.choice([self.m, -self.m, self.m - 1, -self.m - 1, -self.m - 1, 1 << (bits - 1), -(1 << (bits - 1)), rng.randint(-self.m, self.m),
                            (1 << 31) + rng.randint(-2, 2) if bits == 63 else 46341, 3 ** (19 if bits == 31 else 39)])
        return v

    def make(self):
        rng = self.rng
        n, d = self.num(), self.num()
        if rng.random() < .4:
            g = self.num("mid") or 6
            if abs(n * g) <= self.m and abs(d * g) <= self.m:
                n, d = n * g, d * g
        if d == 0:
            d = rng.choice([1, -1, 2, -7])
        if not self.fit(n, d):
            return
        k = rng.randrange(len(self.r))
        self.r[k] = F(n, d)
        self.ops.append("make %d %d %d" % (k, n, d))

    def fits(self, xs):
        return all(-self.m - 1 <= x <= self.m for x in xs)

    def fit(self, n, d):
        """the fraction, and its canonical form"""
        q = F(n, d)
        return self.fits([n, d, q.numerator, q.denominator])

    def step(self):
        rng = self.rng
        n = len(self.r)
        k, a, b = rng.randrange(n), rng.randrange(n), rng.randrange(n)
        o = rng.choice("+-*/")
        w = rng.random()
        if w < .3:
            self.make()
        elif w < .6:
            A, Bv = self.r[a], self.r[b]
            if (o == "/" and Bv == 0) or not self.fits(formed(o, A, Bv)) or not self.fit(*quotient(o, A, Bv)):
                return
            self.r[k] = value(o, A, Bv)
            self.ops.append("op %d %s %d %d" % (k, o, a, b))
        elif w < .85:
            i = self.num()
            left = rng.random() < .5
            x, y = (F(i), self.r[a]) if left else (self.r[a], F(i))
            if (o == "/" and y == 0) or not self.fits(formed(o, x, y)) or not self.fit(*quotient(o, x, y)):
                return
            self.r[k] = value(o, x, y)
            self.ops.append("%s %d %s %d %d" % ("iop" if left else "opi", k, o, a, i))
        elif w < .95:
            self.r[k] = self.r[a]
            self.ops.append("copy %d %d %d" % (rng.randrange(3), k, a))
        else:
            self.ops.append("simplify %d" % k)

    def compare(self):
        rng = self.rng
        a, b = rng.randrange(len(self.r)), rng.randrange(len(self.r))
        A, Bv = self.r[a], self.r[b]
        if rng.random() < .5:
            if self.fits([A.numerator * Bv.denominator, Bv.numerator * A.denominator]):
                self.ops.append("rel %d %d" % (a, b))
        else:
            i = rng.choice([math.floor(A), math.ceil(A), int(A), -int(A), round(A), int(A) + 1, int(A) - 1, 0, self.num()])
            if self.fits([A.numerator, i * A.denominator, i]):
                self.ops.append("reli %d %d" % (a, i))


def gen_c11(rng, tier):
    S = []
    for k in range(150 if tier != "thorough" else 1500):
        c = Calc(rng, rng.choice(["long", "long", "int"]), 4)
        while len(c.ops) < 25:
            c.step()
        S.append(Stim("calc%d" % k, c.ops))
    return S


def gen_c12(rng, tier):
    S = []
    for k in range(150 if tier != "thorough" else 1500):
        c = Calc(rng, rng.choice(["long", "long", "int"]), 4)
        for _ in range(4):
            c.make()
        while len(c.ops) < 40:
            if rng.random() < .25:
                c.step()
            # neighbours of a value
            elif rng.random() < .15:
                A = c.r[0]
                d = rng.choice([1, -1])
                n, e = A.numerator * rng.choice([1, 2, -3]), A.denominator
                q = [(A.numerator + d, A.denominator), (A.numerator, A.denominator + 1), (-A.numerator, -A.denominator), (A.numerator * 2, A.denominator * 2)]
                n, e = rng.choice(q)
                if e and c.fit(n, e):
                    c.r[1] = F(n, e)
                    c.ops.append("make 1 %d %d" % (n, e))
            else:
                c.compare()
        S.append(Stim("cmp%d" % k, c.ops))
    return S


GOODTAIL = ["", "", "", " ", "abc", "//3", "/", " 7", ".5", "-", "\n", " 1//2"]


def gen_c13(rng, tier):
    S = []
    bad0 = ["", " ", "/", "//", "1", "1/", "1//", "//2", "1/2", "1///2", "1//0", "0//0", "-3//0", "1//-0", "a", "a//b", "1//b", "b//1", "--1//2", "1//--2",
            "1.5//2", "1//.5", "0x//1", "1,2//3", "1\\\\2", "1|2", "1:/2", "1/:2", "1/ :2", "-", "-//2", "1//-", "+", "1+//2", "1-//2", "e//1", "1e1//2", "nan//1",
            "inf//2", "\x00", "1//\x00", "½", "99999999999999999999999//1", "1//99999999999999999999999", "-99999999999999999999999//5", "12345", "a1//2", "x 1//2",
            ".//.", "1*/2", "1/*2", "1\t:2", "0//0//1", "000//000", "5//00"]
    for k in range(60 if tier != "thorough" else 600):
        T = rng.choice(["long", "long", "int"])
        c = Calc(rng, T, 4)
        for _ in range(20):
            w = rng.random()
            kk = rng.randrange(4)
            if w < .2:
                c.step()
            elif w < .35:
                c.ops.append("text %d" % kk)
            elif w < .7:
                n, d = c.num(), c.num() or 3
                t = "%s%d//%s%d" % (rng.choice(["", "", "", "0", "00"]) if n >= 0 else "", n, "", d)
                if rng.random() < .1 and n >= 0:
                    t = "+" + t.lstrip("+")
                if rng.random() < .1:
                    t = rng.choice([" ", "\t", "\n", "  "]) + t
                t += rng.choice(GOODTAIL)
                if c.fit(n, d):
                    c.r[kk] = F(n, d)
                c.ops.append("parse %d %s" % (kk, hx(t)))
            elif w < .92:
                t = rng.choice(bad0)
                if rng.random() < .3:  # one character of a good text replaced
                    g = "%d//%d" % (c.num(), c.num() or 1)
                    p = rng.randrange(len(g))
                    if g[p] == "/":
                        t = g[:p] + rng.choice("|\\:;,.x-1") + g[p + 1:]
                    else:
                        t = g[:p] + rng.choice("xyz") + g[p:]
                if T == "int" and rng.random() < .1:
                    t = "3000000000//7"
                c.ops.append("parse %d %s" % (kk, hx(t)))
                # what the text really says is the specification's business;
                # the register is unknown to this generator from here on
                c.ops.append("make %d %d 1" % (kk, 5))
                c.r[kk] = F(5)
            else:
                m = rng.randint(1, 4)
                bad = rng.random() < .4
                parts = ["%d//%d" % (c.num("mid"), c.num("mid") or 2) for _ in range(m)]
                if bad:
                    parts[rng.randrange(m)] = rng.choice(["1/2", "x", "3//0", "4", "1//y"])
                c.ops.append("stream 0 %d %s" % (m, hx(rng.choice([" ", "\n", "  "]).join(parts))))
                for j in range(m):
                    c.ops.append("make %d %d 2" % (j, j))
                    c.r[j] = F(j, 2)
        S.append(Stim("text%d" % k, c.ops))
    return S


D = ["num", "den", "isint", "dbl", "trunc"]
R = ["lt", "le", "eq", "ne", "ge", "gt"]
OBS = {"make": D, "op": D + ["anum", "bden"], "opi": D, "iop": D, "copy": D, "simplify": D, "rel": R, "reli": R, "irel": R,
       "text": ["s", "num", "equal", "same"], "parse": ["thrown", "num", "den"], "stream": ["ok", "got"]}
BUILD = [dict(driver="drv_rational")]
CHECKS = {"C11": dict(gen=gen_c11), "C12": dict(gen=gen_c12), "C13": dict(gen=gen_c13)}
for k, c in CHECKS.items():
    c.update(mc=[("MC_Rational", "MC_Rational")], spec="Trace_Rational", build=BUILD, obs=OBS)
    if k != "C13":
        c.update(tlcgen=[("Gen_Rational", "Gen_Rational")], tlcgen_thorough=[("Gen_Rational", "Gen_Rational_thorough")])
