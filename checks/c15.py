"""C15 in-place container helpers."""
import big


def run(c):
    T = c.thorough
    R = c.rng
    exe = c.build("inplace.cc")
    big.run(c, 15)
    c.model_check("Inplace", "InplaceMC.cfg")
    cs = []
    arrs = c.enumerate("InplaceOps", "SeqsUpTo(0..2, %d)" % (6 if T else 4))
    for j, a in enumerate(arrs):
        for x in range(3):
            for v in ([(j + x) % 11, (j * 5 + x + 3) % 11] if not T else range(11)):
                cs.append({"fn": "erase", "a": a, "x": x, "variant": v})
        for m in range(8):
            cs.append({"fn": "erase_if", "a": a, "m": m, "variant": (j + m) % 6})
        for lo in range(len(a) + 1):
            for hi in range(lo, len(a) + 1):
                for d in (1, 2):
                    cs.append({"fn": "dup", "a": a, "lo": lo, "hi": hi, "div": d, "variant": 4 + (j + lo + hi) % 3})
        for v in range(4):
            cs.append({"fn": "dup", "a": a, "lo": 0, "hi": len(a), "div": 1 + (j + v) % 2, "variant": v})
    for j, a in enumerate(c.enumerate("InplaceOps", "{AscendingOf(S) : S \\in SUBSET (1..%d)}" % (6 if T else 5))):
        for x in range(0, 8):
            for v in range(8):
                if T or (j + x + v) % 2 == 0:
                    cs.append({"fn": "insert", "a": a, "x": x, "variant": v})
    for j, s in enumerate(c.enumerate("InplaceOps", "SeqsUpTo(0..1, 3) \\X SeqsUpTo(2..3, 3)")):
        cs.append({"fn": "concat", "a": s[0], "b": s[1], "variant": j % 6})
    for j, ops in enumerate(c.enumerate("InplaceOps", "[1..3 -> {<<k, v, w>> : k \\in 1..2, v \\in {0 - 1, 0, 5}, w \\in {0, 9}}]")):
        cs.append({"fn": "goc", "ops": ops, "variant": j % 5})
    for j, ops in enumerate(c.enumerate("InplaceOps", "SeqsUpTo(0..3, 5)")):
        cs.append({"fn": "goci", "ops": ops, "variant": j % 3})
    for j, d in enumerate(c.enumerate("InplaceOps", "{<<<<>>, a, b>> : a \\in {<<>>, <<1>>, <<1, 1>>}, b \\in SeqsUpTo(1..2, 2)} \\X [1..2 -> 1..3]")):
        cs.append({"fn": "rec", "ops": d[1], "deps": d[0], "w": [3, 5, 7], "variant": j % 5})
    for n in (5, 12, 40):
        for v in range(5):
            for _ in range(3):
                cs.append({"fn": "rec", "ops": [R.randrange(1, n + 1) for _ in range(4)], "deps": [R.sample(range(1, k), min(k - 1, R.choice([0, 1, 2]))) for k in range(1, n + 1)], "w": [R.randrange(1, 5) for _ in range(n)], "variant": v})
            cs.append({"fn": "rec", "ops": [n, n, 1], "deps": [[k - 1] if k > 1 else [] for k in range(1, n + 1)], "w": [1] * n, "variant": v})
    for n in (130, 257, 300, 600):
        for v in range(11):
            a = [R.randrange(8) for _ in range(n)]
            b = [R.randrange(150) for _ in range(n)]
            s = sorted(R.sample(range(4 * n), n))
            lo = R.choice([0, 1, 129, 256]) % n
            cs.append({"fn": "erase", "a": a, "x": R.randrange(8), "variant": v})
            cs.append({"fn": "erase_if", "a": a, "m": R.randrange(256), "variant": v % 6})
            cs.append({"fn": "dup", "a": b, "lo": lo, "hi": R.randrange(lo, n + 1), "div": R.choice([1, 2]), "variant": v % 7})
            cs.append({"fn": "insert", "a": s, "x": R.choice([s[-1], s[0], s[0] - 1, s[-1] + 1, s[n // 2], s[n // 3] + 1]), "variant": v % 8})
            cs.append({"fn": "concat", "a": a, "b": b[:R.randrange(n)], "variant": v % 6})
        for v in range(3):
            cs.append({"fn": "goci", "ops": list(range(n)) + [0, 255 % n, 256 % n, n - 1], "variant": v})
    for _ in range(400 if not T else 5000):
        n = R.choice([0, 1, 2, 15, 16, 17, 18, 40, 64])
        a = [R.randrange(R.choice([2, 8])) for _ in range(n)]
        cs.append({"fn": "erase", "a": a, "x": R.randrange(8), "variant": R.randrange(11)})
        cs.append({"fn": "erase_if", "a": a, "m": R.randrange(256), "variant": R.randrange(6)})
        b = [R.randrange(R.choice([3, 20, 100])) for _ in range(n)]
        lo = R.randrange(n + 1)
        cs.append({"fn": "dup", "a": b, "lo": lo, "hi": R.randrange(lo, n + 1), "div": R.choice([1, 2, 7]), "variant": R.randrange(7)})
        s = sorted(set(R.randrange(200) for _ in range(n)))
        cs.append({"fn": "insert", "a": s, "x": R.choice(s + [R.randrange(200)]), "variant": R.randrange(8)})
        cs.append({"fn": "concat", "a": a, "b": b, "variant": R.randrange(6)})
        cs.append({"fn": "goc", "ops": [[R.randrange(6), R.choice([-1, 0, 3, 4]), R.choice([0, 0, 11])] for _ in range(R.randrange(12))], "variant": R.randrange(5)})
        cs.append({"fn": "goci", "ops": [R.randrange(9) for _ in range(R.randrange(25))], "variant": R.randrange(3)})
    c.conform("inplace", exe, cs, "InplaceConf", "X.cfg", canaries=30)
    c.assumptions += ["orderings are strict weak and consistent with the equality used"]
