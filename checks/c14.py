"""C14 grouping helpers."""
import big

V = [0, 1, 2, 3, 4, 5, 10, 11, 12, 13, 14, 15, 16]


def run(c):
    T = c.thorough
    exe = c.build("group.cc")
    big.run(c, 14)
    c.model_check("Group", "GroupMC.cfg")
    small = c.enumerate("GroupOps", "SeqsUpTo(0..3, %d)" % (6 if T else 4))
    cs = [{"a": s, "div": 2, "variant": v} for j, s in enumerate(small) for v in (V if T else [V[j % 13], V[(j * 3 + 1) % 13], V[(j * 7 + 5) % 13]])]
    for _ in range(120 if not T else 1500):
        kk = c.rng.choice([1, 3, 10, 50])
        for v in V:
            cs.append({"a": [c.rng.randrange(kk) for _ in range(c.rng.choice([0, 1, 15, 16, 17, 33, 60]))], "div": c.rng.choice([1, 2, 5]), "variant": v})
    for n in [64, 65, 127, 128, 129, 255, 256, 257, 300, 600]:  # long groups: any window or block size inside an implementation shows
        for kk, sh in [(1, 0), (2, 0), (2, 1), (40, 1)]:
            for v in (V if T else c.rng.sample(V, 4)):
                a = [c.rng.randrange(kk) for _ in range(n)]
                cs.append({"a": sorted(a) if sh == 0 else a, "div": c.rng.choice([1, 2]), "variant": v})
    c.conform("groups", exe, cs, "GroupConf", "X.cfg")
