"""C23 tokens and lines."""
import big


def run(c):
    T, R = c.thorough, c.rng
    exe = c.build("cstr.cc")
    big.run(c, 23)
    c.model_check("Cstr", "CstrMCt.cfg" if T else "CstrMC.cfg")
    cs = []
    toks = c.enumerate("CstrOps", "SeqsUpTo({44, 97}, %d)" % (8 if T else 6))
    lines = c.enumerate("CstrOps", "SeqsUpTo({10, 13, 97}, %d)" % (7 if T else 5))

    def add(fn, t, sep=44, k=0, m=None):
        cs.append({"fn": fn, "t": t, "sep": sep, "k": k, "m": m or []})

    def allof(t, sep, ln):
        n = t.count(sep) + 1
        add("tok", t, sep)
        add("toknum", t, sep)
        for k in range(1, min(n, 4) + 1):
            add("tokbrk", t, sep, k)
        if ln:
            for f in ("line", "linenum", "iter", "iterpost", "iterv"):
                add(f, t)
            n = t.count(10) + 2
            for k in {0, 1, R.randrange(n), n}:
                add("iterat", t, k=k)
            for k in range(min(n, 4)):
                add("skip", t, m=[1] * k + [0] * (n - k))
            add("skip", t, m=[R.randrange(2) for _ in range(n)])
    for t in toks:
        allof(t, 44, False)
    for t in lines:
        allof(t, 10, True)
    for _ in range(600 if not T else 8000):
        t = [R.choice([10, 10, 13, 97, 98, 0, 44, 255]) for _ in range(R.choice([6, 10, 30, 80]))]
        allof(t, R.choice([44, 0, 255, 13, 97]), True)
    for n in (130, 257, 300, 520):   # many pieces, long pieces
        for _ in range(2):
            t = []
            for _ in range(n):
                t += [97] * R.choice([0, 1, 2]) + R.choice([[10], [13, 10], [44]])
            allof(t, R.choice([44, 10]), True)
        t = [98] * n + [10] + [99] * (2 * n) + [13, 10] + [32] * n
        allof(t, 10, True)
    c.conform("walks", exe, cs, "TokConf", "X.cfg", canaries=40)
    c.assumptions += ["the position of an empty piece is not part of the property, only its being reported"]
