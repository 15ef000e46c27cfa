"""C12 sorted_diff."""
import big


def run(c):
    T = c.thorough
    exe = c.build("diff.cc")
    big.run(c, 12)
    c.model_check("Diff", "DiffMC.cfg")
    small = c.enumerate("DiffOps", "{[a |-> x, b |-> y] : x \\in Elems(1..2, 0..1, %d), y \\in Elems(1..2, 0..1, %d)}" % ((4, 4) if T else (3, 3)))
    small += c.enumerate("DiffOps", "{[a |-> x, b |-> y] : x \\in Elems(1..3, 0..1, 2), y \\in Elems(1..3, 0..1, 3)}")
    cs = [dict(s, fn="diff", variant=j % 6) for j, s in enumerate(small)]
    for _ in range(600 if not T else 8000):
        kk = c.rng.choice([2, 5, 30])
        def g():
            return sorted([[c.rng.randrange(kk), c.rng.randrange(3)] for _ in range(c.rng.randrange(0, 40))], key=lambda e: e[0])
        a = g()
        b = g()
        if c.rng.random() < 0.5:   # mostly equal sequences
            b = [list(e) for e in a if c.rng.random() < 0.9]
            for e in b:
                if c.rng.random() < 0.2:
                    e[1] = c.rng.randrange(3)
        cs.append({"fn": "diff", "a": a, "b": b, "variant": c.rng.randrange(6)})
    for n in (130, 257, 300, 520):   # long runs: any block or counter width inside an implementation shows
        for kk in (3, 40, 1000):
            a = sorted([[c.rng.randrange(kk), c.rng.randrange(3)] for _ in range(n)], key=lambda e: e[0])
            b = [list(e) for e in a if c.rng.random() < 0.95]
            for e in b:
                if c.rng.random() < 0.1:
                    e[1] = c.rng.randrange(3)
            cs.append({"fn": "diff", "a": a, "b": b, "variant": c.rng.randrange(6)})
            cs.append({"fn": "diff", "a": [], "b": b, "variant": c.rng.randrange(6)})
            cs.append({"fn": "diff", "a": a, "b": b[:3], "variant": c.rng.randrange(6)})
    c.conform("diff", exe, cs, "DiffConf", "X.cfg")
