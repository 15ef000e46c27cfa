import conc


def B(n, nest=()):
    return {"n": n, "nest": [list(x) for x in nest]}


def nest_cfg(W, batches, nest):
    return """SPECIFICATION Spec
CONSTANTS W = %d
 Batches <- %s
 Nest <- %s
 Fault = "none"
 Gen = TRUE
INVARIANTS Refines GenOut
""" % (W, batches, nest)


def programs(c, nested=True, thorough=False, kinds=(), mult=1):
    T = thorough
    s = c.seed
    small = [[], [B(0)], [B(1)], [B(2)], [B(3)], [B(2), B(1)], [B(1), B(0), B(2)], [B(0), B(0)], [B(1), B(1), B(1)], [B(4), B(2)]]
    nst = [[B(2, [(0, 2)])], [B(1, [(0, 1)]), B(2)], [B(2, [(1, 0)])], [B(3, [(0, 1), (2, 2)]), B(1, [(0, 3)])]]
    big = [[B(9), B(3)], [B(12)], [B(5), B(0), B(7), B(1), B(6)], [B(2)] * 5, [B(1)] * 7]
    cs = []
    for k, bs in enumerate(small + (nst if nested else [])):
        for W in (1, 2, 3):
            cs.append(conc.case(prog="pool", batches=bs, hooks=1, workers=W, runs=500 if not T else 6000, seed=s * 100 + k, cap=60 if not T else 1500))
    for k, bs in enumerate(big):
        for W in (2, 3, 4):
            cs.append(conc.case(prog="pool", batches=bs, hooks=1 - k % 2, workers=W, runs=400 if not T else 6000, seed=s * 100 + 50 + k, cap=40 if not T else 800, spurious=2))
    # exhaustive delay-bounded exploration of the small programs
    for k, bs in enumerate([[], [B(1)], [B(2)], [B(2), B(1)]] + ([[B(2, [(0, 2)])]] if nested else [])):
        for W in (1, 2):
            cs.append(conc.case(prog="pool", batches=bs, hooks=1, workers=W, mode="delay", delays=2 if T or len(bs) < 2 and W == 1 else 1, runs=1500 if not T else 30000, cap=150 if not T else 2000,
                                spurious=1, seed=s))
    # behaviours of ThreadPool.tla as schedules
    for W, bn, bs, nn in ((2, "B21", [B(2), B(1)], "N0"), (2, "B202", [B(2), B(0), B(2)], "N0"), (3, "B211", [B(2), B(1), B(1)], "N0")):
        g = conc.guides(c, "ThreadPoolMC", nest_cfg(W, bn, nn), 60 if not T else 1500, 300, "gen_%s_%d" % (bn, W))
        # a specification step is one synchronisation operation; the code crosses about as many scheduling points
        gs = [x["s"] for x in g]
        cs.append(conc.case(prog="pool", batches=bs, hooks=1, workers=W, mode="guide", guides=gs, cap=200, seed=s))
    for x in cs:
        x["kinds"] = list(kinds)
        x["runs"] *= mult
        x["cap"] = 3000 if not T else 20000
    return cs
