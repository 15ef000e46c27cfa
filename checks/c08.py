"""C08 setting chains of a progress tracker."""
import conc, trprogs

SAFE = '{<<"status", 0, 0>>, <<"status", 1, 0>>, <<"show", 0, 0>>, <<"show", 1, 0>>, <<"reset", 0, 0>>, <<"bounds", 160, 400>>, <<"bounds", 400, 160>>, <<"mod", 20, 0>>, <<"mod", 0, 0>>, <<"inhigh", 10, 0>>}'
PRES = [[], [["u", 30]], [["c", [["bounds", 160, 400]]], ["u", 50]], [["c", [["status", 1, 0], ["mod", 20, 0]]], ["i", 7]], [["c", [["show", 0, 0], ["inhigh", 10, 0]]], ["m", 3]]]


def mut(r, rng):
    ks = [j for j, x in enumerate(r["in"]["ops"]) if x[0] == "c"]
    if not ks:
        return None
    o = r["out"]["obs"][rng.choice(ks)]
    f = rng.choice(["in", "out", "cb", "thrown", "status", "low", "mod", "free"])
    o[f] += rng.choice([-1, 1])
    return r


def run(c):
    exe = conc.build(c)
    seq = c.build("progress.cc", repo_srcs=("src/progress_tracker.cc",))
    c.model_check("Progress", "ProgressMC.cfg")
    T = c.thorough
    two = c.enumerate("ProgressOps", "UNION {[1..n -> Setters] : n \\in 1..2}")
    three = c.enumerate("ProgressOps", "[1..3 -> %s]" % ("Setters" if T else SAFE))
    cs = []
    for j, ch in enumerate(two):
        for p in range(len(PRES)):
            cs.append({"ops": PRES[p] + [["c", ch], ["u", 5], ["c", ch[:1]]], "scale": 1})
    for j, ch in enumerate(three):
        for p in (range(len(PRES)) if T else [j % len(PRES)]):
            cs.append({"ops": PRES[p] + [["c", ch], ["i", 2]], "scale": 1})
    allsets = [["status", 0, 0], ["status", 3, 0], ["show", 0, 0], ["show", 1, 0], ["reset", 0, 0], ["bounds", 0, 800], ["bounds", 8, 16], ["bounds", 9, 8], ["mod", 8, 0], ["mod", 1, 0],
               ["mod", 0, 0], ["mod", -1, 0], ["inhigh", 1, 0], ["inhigh", 100, 0], ["inhigh", 55, 0]]
    for _ in range(600 if not T else 6000):
        ops = []
        for _ in range(c.rng.randrange(1, 8)):
            if c.rng.random() < 0.35:
                ops.append([c.rng.choice("umi"), c.rng.randrange(0, 120)])
            else:
                ops.append(["c", [c.rng.choice(allsets) for _ in range(c.rng.randrange(1, 6))]])
        cs.append({"ops": ops, "scale": 1})
    c.conform("chains", seq, cs, "ProgressHist", "ProgressHistSet.cfg", mutate=mut)
    conc.judge(c, exe, trprogs.settings(c), "concurrent", "TrTrace", "TrTraceSet.cfg", ("cb",), ways=(0, 1), limit=200000 if c.thorough else 15000, min_kill=0.3)
    c.assumptions += ["setting chains are moved-from temporaries that end in the full expression (documented use)"]
