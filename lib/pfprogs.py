import itertools
import conc
from conc import case

KINDS = ("cb", "tl", "js", "je", "jf", "pg", "rt", "er", "th", "tb", "tx")
CFG = """SPECIFICATION Spec
CONSTANTS W = %d
 N = %d
 FailKinds = {0, 1, 2}
 Strat = %d
 Progress = 1
 Over = %d
 Fault = "none"
 Gen = TRUE
INVARIANTS Refines GenOut
"""


def programs(c, strats):
    T, s, rng = c.thorough, c.seed, c.rng
    cs = []
    cap = 400 if not T else 8000
    # every fail pattern of up to 3 jobs, both run variants
    k = 0
    for n in (0, 1, 2, 3):
        for fail in itertools.product((0, 1, 2), repeat=n):
            for over in (0, 1):
                k += 1
                prog = 1 if 2 in fail else k % 2
                for W in ((2,) if n == 3 and not T else (1, 2, 3)):
                    cs.append(case(prog="pf", n=n, over=over, strat=strats[k % len(strats)], progress=prog, fail=list(fail), workers=W,
                                   runs=60 if not T else 1500, seed=s * 1000 + k, cap=cap))
    # all overloads, bigger
    for over in range(8):
        for strat in strats:
            for W in (1, 2, 4):
                for q in range(2 if not T else 8):
                    n = rng.choice((2, 4, 5, 7, 9))
                    prog = rng.randrange(2)
                    fail = [rng.choice((0, 0, 0, 1, 3) + ((2,) if prog else ())) for _ in range(n)] if q or over % 2 else [0] * n
                    cs.append(case(prog="pf", n=n, over=over, strat=strat, progress=prog, fail=fail, workers=W, runs=60 if not T else 2000,
                                   seed=rng.randrange(10**6), cap=cap))
    # only failures / one failure early or late
    for n in (3, 6):
        for fail in ([1] * n, [3] * n, [1] + [0] * (n - 1), [0] * (n - 1) + [1]):
            for over in (0, 1):
                for W in (2, 3):
                    cs.append(case(prog="pf", n=n, over=over, strat=strats[0], progress=0, fail=fail, workers=W, runs=150 if not T else 4000, seed=s, cap=cap))
    # delay-bounded
    for fail in ([0, 0], [1, 0], [1, 1, 0], [0, 2, 0]):
        for over in (0, 1):
            cs.append(case(prog="pf", n=len(fail), over=over, strat=strats[0], progress=1, fail=fail, workers=2, mode="delay", delays=2, runs=1200 if not T else 20000, cap=cap, seed=s))
    # behaviours of ParallelFor.tla
    for W, N, over in ((2, 3, 1), (3, 2, 0)):
        g = conc.guides(c, "ParallelFor", CFG % (W, N, strats[0], over), 200 if not T else 4000, 200, "gen%d%d" % (W, N))
        by = {}
        for x in g:
            by.setdefault(tuple(x["fail"]), []).append(x["s"])
        for f, gs in by.items():
            cs.append(case(prog="pf", n=N, over=over, strat=strats[0], progress=1, fail=list(f), workers=W, mode="guide", guides=gs, cap=cap, seed=s))
    for x in cs:
        x["kinds"] = list(KINDS)
    return cs
