"""C13 power_set_intersection."""
import big


def run(c):
    T = c.thorough
    exe = c.build("diff.cc")
    big.run(c, 13)
    c.model_check("PowerSet", "PowerSetMC.cfg")
    small = c.enumerate("DiffOps", "{[a |-> x, b |-> y] : x \\in SortedSeqsUpTo(1..3, %d), y \\in SortedSeqsUpTo(1..3, %d)}" % ((5, 5) if T else (4, 4)))
    cs = [dict(s, fn="psi", variant=j % 8) for j, s in enumerate(small)]
    for _ in range(500 if not T else 6000):
        kk = c.rng.choice([1, 2, 5, 12])
        def g():
            return sorted(c.rng.randrange(kk) for _ in range(c.rng.randrange(0, 20)))
        cs.append({"fn": "psi", "a": g(), "b": g(), "variant": c.rng.randrange(8)})
    for n, kk in ((130, 60), (257, 200), (300, 5000), (40, 1)):
        for _ in range(3):
            cs.append({"fn": "psi", "a": sorted(c.rng.randrange(kk) for _ in range(n)), "b": sorted(c.rng.randrange(kk) for _ in range(c.rng.choice([n, 20]))), "variant": c.rng.randrange(8)})
    c.conform("power_set", exe, cs, "DiffConf", "X.cfg")
