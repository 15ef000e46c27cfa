"""Long ranges and far positions: which ones to look at (never a verdict). BigOps.tla is the oracle."""
import random
from math import gcd
M = 1 << 20
mib = lambda x: [x // M, x % M]
LONG = [1, 2, 255, 256, 257, 65535, 65536, 65537, 70000, 131073]


def cases(part, R, T):
    cs = []
    base = {"part": part, "op": "-", "n": 0, "g": 1, "m": 0, "h": 1, "s": 1, "o": 0, "pos": 0, "k": 0}

    def add(**k):
        cs.append({**base, **k})

    def nn(lo=1):
        x = R.choice([x for x in LONG if x >= lo] + [65537, 70000])
        return max(lo, x + R.randrange(3))

    def blk():
        g = R.choice([1, 1, 2, 3, 7, 300, 66000])
        return max(1, nn() // g) * g, g

    def coprime(n):
        while True:
            s = R.randrange(1, 2000)
            if gcd(s, n) == 1:
                return s
    Q = 1 if not T else 8
    far = [0, 1, 5, (1 << 31) - 1, 1 << 31, (1 << 31) + 9, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 33) + 77, (1 << 40) + 3]
    if part == 22:
        for n in (2, (1 << 31) + 2):
            add(la=mib(n), marks=[], p=mib(1), q=mib(1), k=9)
    if part == 11:
        for _ in range(40 * Q):
            (n, g), (m, h) = blk(), blk()
            add(n=n, g=g, m=m, h=h, s=R.choice([1, 2, 3]), o=R.choice([0, 0, 1, 5, 65536, 200000]), k=R.randrange(3))
    elif part == 12:
        for _ in range(40 * Q):
            add(n=nn(), g=R.choice([1, 2, 3]), m=nn(), h=R.choice([1, 2, 3, 5]), s=R.choice([1, 2, 7, 1000000]))
    elif part == 13:
        for n, g, m, h in [(70000, 1, 70, 1), (300, 300, 300, 300), (66000, 66000, 2, 2), (2, 2, 66000, 66000), (66000, 2, 30, 2), (600, 300, 600, 300), (40, 1, 66000, 1), (257, 257, 256, 256)]:
            add(n=n, g=g, m=m, h=h)
    elif part == 14:
        for _ in range(40 * Q):
            n, g = blk()
            add(n=n, g=g, s=coprime(n), k=R.randrange(5))
    elif part == 15:
        for _ in range(10 * Q):
            for op in ("erase", "eraseif", "dup", "insert", "concat", "index", "create"):
                n, g = blk()
                if op == "insert":
                    g = 1
                add(op=op, n=n, g=g, m=nn(), s=coprime(n), pos=R.choice([0, n - 1, n // 2, min(n - 1, 65536), min(n - 1, 65535), R.randrange(n)]), k=R.randrange(2))
    elif part == 16:
        for _ in range(10 * Q):
            for op in ("tovec", "tovec", "toset", "rep", "sortby", "sortby", "scan", "flaw", "flaw", "sort"):
                n, g = blk()
                if op == "flaw":
                    n = nn(2)
                pos = R.choice([0, n - 1, n // 2, min(n - 1, 65536), min(n - 1, 65535), min(n - 1, 65537), R.randrange(n)])
                if op == "scan" and n == g:
                    continue
                add(op=op, n=n, g=g, s=coprime(n), pos=pos, k=R.choice([1, 9]) if op == "flaw" else R.randrange(5 if op == "tovec" else 3))
    elif part == 19:
        for _ in range(10 * Q):
            n = nn()
            add(op="zip", n=n, pos=R.choice([0, n - 1, min(n - 1, 65536)]))
        for a in (0, 1, 3, 255, 70000, (1 << 31) + 1):
            for d in (0, 1, 1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 33):
                add(op="sizes", la=mib(a), lb=mib(a + d))
    elif part == 20:
        for _ in range(10 * Q):
            add(op="enum", n=nn())
            add(op="win", n=nn(4))
        for f in far:
            add(op="far", la=mib(f))
    elif part == 21:
        for a in far:
            for b in far:
                add(la=mib(a), lb=mib(b))
    elif part in (22, 23):
        def marks(n, seps):
            ps = sorted({p for p in [0, 7, n // 2, n - 1, (1 << 31) - 1, 1 << 31, (1 << 31) + 5, 1 << 32, (1 << 32) + 2] if 0 <= p < n and R.random() < 0.6})
            return [[*mib(p), R.choice(seps)] for p in ps]
        ns = [(1 << 31) - 1, (1 << 31) + 7, (1 << 32), (1 << 32) + 11]
        for n in ns * (1 if part == 23 or not T else 3):
            if part == 22:
                for _ in range(3):
                    p, q = R.choice(far[:9]), R.choice(far)
                    add(la=mib(n), marks=marks(n, [97, 98, 44]), p=mib(p), q=mib(q), k=R.choice([97, 98, 44]))
            else:
                for op in ("tok", "tokb", "num", "line", "iter", "skip"):
                    sep = 44 if op in ("tok", "tokb", "num") else 10
                    ms = marks(n, [sep, sep, 97])
                    add(op=op, la=mib(n), marks=ms, k=R.choice([0, 1, 2, 3]))
        G4 = 1 << 32
        for gap in [[(G4 + 6, 0)], [(0, 0), (G4 + 9, 0)]]:       # one piece longer than 4 GiB
            if part == 22:
                add(la=mib(G4 + 11), marks=[[*mib(x), 44] for x, _ in gap], p=mib(1), q=mib(G4 + 4), k=44)
                add(la=mib(G4 + 11), marks=[[*mib(G4 + 8), 98]], p=mib(G4 + 2), q=mib(G4 + 7), k=98)
            else:
                for op in ("tok", "tokb", "num", "line", "iter", "skip"):
                    add(op=op, la=mib(G4 + 11), marks=[[*mib(x), 10 if op in ("line", "iter", "skip") else 44] for x, _ in gap], k=1)
        if part == 23:
            for n in (255, 257, 65535, 65536, 65537, 70000, 131075):
                for s, k in ((0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (1, 3)):
                    g = R.choice([x for x in (2, 3, 5) if (n - 1) % x])
                    add(op="many", n=n, g=g, s=s, k=k, pos=R.choice([0, 1, 254, min(n, 65535), n, n - 1]) if k == 3 else 0, la=[0, 1], marks=[])
    elif part == 25:
        for n in (255, 256, 257, 65535, 65536, 65537, 70000):
            for k in (0, 1):
                add(n=n, g=R.choice([1, 3, 5]), s=R.randrange(2), k=k, m=R.choice([10, 255, 256, 65535, 65536, 70001]), pos=R.randrange(n))
    elif part == 30:
        for n in (255, 256, 65535, 65536, 65537, 70000):
            for k in (0, 1, 2):
                add(n=n, k=k, pos=R.choice([0, 1, n // 2, n]))
    return cs


def run(c, part):
    T = c.thorough
    exe = c.build("big.cc", name="big%d" % part, flags=("-DPART=%d" % part,), asan=False, opt="-O2")
    heavy = part in (22, 23)
    c.conform("big", exe, cases(part, random.Random(c.seed * 131 + part), T), "BigConf", "X.cfg", canaries=20, per_case=120 if heavy else 60, jobs=3 if heavy else 8, min_kill=0.4)
