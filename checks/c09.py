"""C09 global registry of progress trackers."""
import conc
from conc import case


def legal(ops):
    """Only operate on trackers that have been handed out and scopes that are open (bookkeeping only, no results)."""
    reg, n, act, sc, out = {}, 0, None, 0, []
    for o in ops:
        k = o[0]
        if k in ("get", "act", "goa"):
            if k == "goa" and act:
                pass
            elif o[1] not in reg:
                n += 1
                reg[o[1]] = n
            if k == "act" or k == "goa" and not act:
                act = reg[o[1]]
        elif k in ("actp", "u", "m", "i", "status", "show", "mod", "inhigh", "bounds"):
            if o[1] > n:
                continue
            if k == "actp":
                act = o[1]
        elif k == "actnull":
            act = None
        elif k == "end":
            if not sc:
                continue
            sc -= 1
            reg, act = {}, None
        elif k == "begin":
            sc += 1
        elif k == "clear":
            reg, act = {}, None
        out.append(o)
    return out


def hists(c):
    T = c.thorough
    A = '{<<"get", 2>>, <<"act", 3>>, <<"goa", 2>>, <<"getact">>, <<"u", 1, 50>>, <<"status", 1, 2>>, <<"show", 1, 0>>, <<"print">>, <<"clear">>, <<"begin", 1>>, <<"end">>}'
    seqs = c.enumerate("RegistryOps", "[1..%d -> %s]" % (4 if T else 3, A))
    cs = [{"ops": legal([["begin", 2], ["get", 4]] * (j % 2) + [["begin", 0]] * (1 - j % 2) + s)} for j, s in enumerate(seqs)]
    for hi in (7, 13, 64, 200):   # fractional percentages and the edges of the bar's cells
        for mod in (1, 2, 3, 4):
            ups = [["u", 1, x] for x in c.rng.sample(range(hi + 1), 7)]
            cs.append({"ops": [["begin", 0], ["get", 1 + hi % 4], ["mod", 1, mod], ["inhigh", 1, hi]] + ups + [["status", 1, 2], ["i", 1, 1]]})
            cs.append({"ops": [["begin", 0], ["get", 3], ["bounds", 1, 80, 777], ["mod", 1, mod], ["inhigh", 1, hi]] + ups})
    for q in range(24 if not T else 200):   # many trackers, long names, long status texts
        r = c.rng
        ns = r.sample(range(1, 15), r.choice([9, 10, 11, 13, 14]))
        ops = [["begin", 0]]
        for k, n in enumerate(ns):
            ops.append([["get", "act", "get"][k % 3], n])
        for _ in range(14):
            h = r.randrange(1, len(ns) + 1)
            ops.append(r.choice([["status", h, r.choice([41, 90, 300, 1])], ["u", h, r.randrange(101)], ["show", h, r.randrange(2)], ["status", h, r.randrange(3)], ["print"]]))
        if q % 3 == 0:
            ops += [["clear"], ["get", 3], ["print"]]
        cs.append({"ops": legal(ops)})
    for _ in range(900 if not T else 8000):
        r = c.rng
        ops = [["begin", r.choice([0, 0, 2, 1])]] if r.random() < 0.8 else []
        for _ in range(r.randrange(3, 30)):
            k = r.choice(["get", "get", "act", "goa", "getact", "actp", "u", "u", "m", "i", "i", "status", "status", "show", "mod", "inhigh", "bounds", "print", "print", "clear", "begin", "end", "actnull"])
            if k in ("clear", "begin", "end", "actnull") and r.random() < 0.6:
                continue
            if k in ("get", "act", "goa"):
                ops.append([k, r.randrange(1, 5) if r.random() < 0.9 else r.randrange(5, 15)])
            elif k in ("getact", "print", "clear", "end", "actnull"):
                ops.append([k])
            elif k == "begin":
                ops.append([k, r.choice([0, 1, 2])])
            else:
                h = r.randrange(1, 5)
                v = {"u": r.randrange(0, 120), "m": r.randrange(0, 120), "i": r.randrange(0, 30), "status": r.randrange(0, 5), "show": r.randrange(2),
                     "mod": r.choice([8, 4, 1, 80, 0]), "inhigh": r.choice([100, 10, 7, 50]), "actp": 0, "bounds": r.choice([0, 80, 400])}[k]
                ops.append([k, h] + ([] if k == "actp" else [v]) + ([r.choice([800, 480, 240])] if k == "bounds" else []))
        cs.append({"ops": legal(ops)})
    return cs


def progs(c):
    T = c.thorough
    sh = [[[[0, 0, 0], [3, 0, 0]], [[1, 1, 0], [3, 0, 0]]],
          [[[2, 0, 0], [3, 0, 0]], [[2, 1, 0], [3, 0, 0]]],
          [[[0, 0, 0], [4, 0, 30], [7, 0, 0]], [[1, 1, 0], [5, 1, 3]]],
          [[[4, 0, 30]], [[4, 0, 70]], [[5, 1, 2]]],
          [[[8, 0, 30], [8, 1, 2]], [[8, 0, 25], [6, 1, 0]]],
          [[[5, 0, 2], [6, 0, 0]], [[5, 0, 4], [4, 0, 77]]],
          [[[1, 0, 0], [3, 0, 0]], [[9, 1, 0], [3, 0, 0]], [[7, 0, 0]]],
          [[[2, 0, 0], [8, 0, 50]], [[10, 0, 0], [3, 0, 0]], [[7, 0, 0]]],
          [[[1, 0, 0], [10, 0, 0], [2, 1, 0]], [[0, 1, 0], [3, 0, 0], [7, 0, 0]]],
          [[[7, 0, 0], [7, 0, 0]], [[4, 2, 10], [7, 0, 0]]],
          [[[0, 0, 0]], [[0, 0, 0]], [[0, 0, 0]]]]
    cs = []
    for k, th in enumerate(sh):
        for silent in ((0, 1) if k % 3 == 0 else (0,)):
            P = dict(prog="rg", threads=th, silent=silent, workers=2, seed=c.seed * 10 + k)
            cs.append(case(runs=200 if not T else 4000, cap=200 if not T else 3000, **P))
        cs.append(case(mode="delay", delays=1 if not T else 2, runs=300 if not T else 10000, cap=300 if not T else 3000, prog="rg", threads=th, silent=0, workers=2, seed=c.seed))
    return cs


def mut(r, rng):
    o = r["out"]["obs"]
    x = rng.choice(o) if o else None
    if not x:
        return None
    if x[1] and rng.random() < 0.7:
        k = rng.randrange(len(x[1]))
        x[1][k:k + 1] = rng.choice([[], [x[1][k] + 1], [x[1][k]] * 2])
    else:
        x[0] += 1
    return r


def run(c):
    exe = conc.build(c)
    seq = c.build("registry.cc", repo_srcs=("src/progress_tracker.cc",))
    c.model_check("Registry", "RegistryMCt.cfg" if c.thorough else "RegistryMC.cfg", workers=4)
    c.conform("histories", seq, hists(c), "RegistryHist", "RegistryHist.cfg", mutate=mut)
    conc.judge(c, exe, progs(c), "concurrent", "RgTrace", "RgTrace.cfg", ("oe", "ln"), limit=60000 if c.thorough else 6000, min_kill=0.5)
    c.assumptions += ["output of concurrent callers is compared line-wise (the bar of a frame may mix values of a tracker updated meanwhile); the last frame must show the final state exactly",
                      "tracker names and status texts are ASCII"]
