"""C16 bulk conversions and whole-range algorithms."""
import big

ALG = ["all", "any", "none", "findif", "find", "count", "min", "max", "minby", "maxby", "sorted", "sorteddesc", "fill", "equal", "uniform", "uniformit", "uniformlv", "uniformby", "uniformbylv"]
SORTS = ["sort", "sortdesc", "sortdq", "nth", "nthdesc"]


def add(c, cs, a, j, every):
    R = c.rng
    for v in range(9 if every else 2):
        cs.append({"fn": "conv", "a": [x % 8 for x in a], "variant": (j * 2 + v) % 10})
    cs.append({"fn": "copy", "a": a, "variant": j % 4})
    cs.append({"fn": "set", "a": a, "m": 3 if len(a) < 8 else 1000, "variant": j % 4})
    cs.append({"fn": "sortby", "a": a, "variant": j % 5})
    for k, op in enumerate(ALG):
        if not every and (k + j) % 3:
            continue
        for x in range(3):
            b = list(a)
            if op == "equal":
                w = R.randrange(4)
                b = a + [0] if w == 0 else a[:-1] if w == 1 else ([R.randrange(5)] + a[1:] if a else []) if w == 2 else a
            cs.append({"fn": "algo", "op": op, "a": a, "b": b, "x": x, "variant": (j + x) % 4})
    for k, op in enumerate(SORTS):
        if every or (k + j) % 2:
            cs.append({"fn": "sorts", "op": op, "a": a, "x": (j + k) % (len(a) + 1)})


def run(c):
    T = c.thorough
    exe = c.build("bulk.cc")
    big.run(c, 16)
    c.model_check("Bulk", "BulkMC.cfg")
    cs = []
    for j, a in enumerate(c.enumerate("BulkOps", "SeqsUpTo(0..3, %d)" % (5 if T else 4))):
        add(c, cs, a, j, T or len(a) <= 3)
    for n in range(0, 20):
        for v in range(4):
            cs.append({"fn": "rep", "n": n, "x": n % 7, "variant": v})
    for j in range(200 if not T else 3000):
        n = c.rng.choice([1, 2, 8, 15, 16, 17, 18, 31, 50, 90])
        add(c, cs, [c.rng.randrange(c.rng.choice([2, 5, 30])) for _ in range(n)], j, T)
    for j, n in enumerate([127, 128, 129, 130, 255, 256, 257, 258, 300, 520]):   # long ranges
        add(c, cs, [c.rng.randrange([2, 30, 1000][j % 3]) for _ in range(n)], j, True)
        cs.append({"fn": "rep", "n": n, "x": 4, "variant": j % 4})
        cs.append({"fn": "algo", "op": ALG[-5 + j % 5], "a": [3] * n + [8] * (j % 2), "b": [], "x": 0, "variant": j % 4})
    for j in range(60):   # uniform ones
        n = c.rng.randrange(1, 20)
        a = [3] * n
        if j % 2:
            a[c.rng.randrange(n)] = c.rng.randrange(5)
        for op in ALG[-5:]:
            cs.append({"fn": "algo", "op": op, "a": a, "b": a, "x": 0, "variant": j % 4})
    c.conform("bulk", exe, cs, "BulkConf", "X.cfg", canaries=30)
