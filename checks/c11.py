"""C11 sorted joins."""
import big

KINDS = ["inner", "left", "full"]


def run(c):
    exe = c.build("join.cc")
    big.run(c, 11)
    c.model_check("Join", "JoinMC.cfg")
    n, k = (4, 3) if not c.thorough else (5, 4)
    small = c.enumerate("JoinOps", "{[a |-> x, b |-> y] : x \\in SortedSeqsUpTo(1..%d, %d), y \\in SortedSeqsUpTo(1..%d, %d)}" % (k, n, k, n))
    cases = []
    for j, s in enumerate(small):
        for kind in KINDS:
            cases.append(dict(s, kind=kind, variant=(j * 7 + KINDS.index(kind)) % 9))
    for _ in range(600 if not c.thorough else 6000):
        la, lb, kk = c.rng.randrange(0, 24), c.rng.randrange(0, 24), c.rng.choice([1, 2, 5, 12])
        a = sorted(c.rng.randrange(kk) for _ in range(la))
        b = sorted(c.rng.randrange(kk) for _ in range(lb))
        for kind in KINDS:
            for v in range(9):
                if c.rng.random() < 0.3:
                    cases.append({"a": a, "b": b, "kind": kind, "variant": v})
    for n in (127, 130, 257, 300, 520):   # long groups and many groups
        for kk in (1, 3, 1000):
            a = sorted(c.rng.randrange(kk) for _ in range(n))
            b = sorted(c.rng.randrange(kk) for _ in range(c.rng.choice([n, 2 * n, 5])))
            for kind in KINDS:
                cases.append({"a": a, "b": b, "kind": kind, "variant": c.rng.randrange(9)})
                cases.append({"a": b, "b": a, "kind": kind, "variant": c.rng.randrange(9)})
    c.conform("join", exe, cases, "JoinConf", "JoinConf.cfg")
