"""C07 progress values: sequential histories and concurrent callers."""
import conc, trprogs

PRE = [[], [["bounds", 160, 400]], [["mod", 20, 0]], [["inhigh", 10, 0]], [["bounds", 240, 240]], [["bounds", 80, 720], ["mod", 56, 0], ["inhigh", 33, 0]],
       [["mod", 1200, 0]], [["inhigh", 7, 0], ["mod", 3, 0]], [["inhigh", 0, 0]], [["bounds", 400, 800], ["inhigh", 3, 0]], [["bounds", 8, 9], ["mod", 1, 0]]]
SCALES = [1, 1000, 1 << 32, 1 << 40]


def hists(c):
    T = c.thorough
    ops = c.enumerate("ProgressOps", "UNION {[1..n -> {<<k, v>> : k \\in {\"u\", \"m\", \"i\"}, v \\in {0, 1, 4, 9}}] : n \\in 1..%d}" % (3 if T else 2))
    cs = []
    for j, o in enumerate(ops):
        for q in (range(len(PRE)) if len(o) < 2 else [j % len(PRE), (j * 5 + 3) % len(PRE)]):
            pre = [["c", PRE[q]]] if PRE[q] else []
            cs.append({"ops": pre + [list(x) + ([1] if (j + q) % 3 == 0 else []) for x in o], "scale": SCALES[(j + q) % 4]})
    for _ in range(800 if not T else 8000):
        ops = []
        low_eq = False
        if c.rng.random() < 0.8:
            lo = c.rng.randrange(0, 400)
            hi = c.rng.choice([lo, lo + 1, c.rng.randrange(lo, 801), 800])
            ih = c.rng.choice([1, 2, 3, 7, 10, 60, 100, 128, 999])
            ch = [["bounds", lo, hi], ["mod", c.rng.choice([1, 4, 8, 12, 40, 80, 100, 800, 900]), 0], ["inhigh", ih, 0]]
            c.rng.shuffle(ch)
            ops.append(["c", ch[:c.rng.randrange(1, 4)]])
        else:
            ih = 100
        for _ in range(c.rng.randrange(1, 14)):
            if c.rng.random() < 0.06:
                ops.append(["c", [["inhigh", c.rng.choice([5, 50, 100]), 0]]])
                continue
            v = c.rng.choice([0, 1, 2, ih // 2, ih - 1, ih, ih + 1, c.rng.randrange(0, ih + 2), c.rng.randrange(0, 1000)])
            ops.append([c.rng.choice("umi"), v] + ([1] if c.rng.random() < 0.3 else []))
        cs.append({"ops": ops, "scale": c.rng.choice(SCALES)})
    # domain: no division of an empty output range by a zero input range
    ok = []
    for x in cs:
        lo_eq = any(s[0] == "bounds" and s[1] == s[2] for o in x["ops"] if o[0] == "c" for s in o[1])
        z = any(s[0] == "inhigh" and s[1] == 0 for o in x["ops"] if o[0] == "c" for s in o[1])
        if lo_eq and z:
            continue
        sets = [s for o in x["ops"] if o[0] == "c" for s in o[1]]
        if x["scale"] != 1 and (x["ops"][0][0] != "c" or x["ops"][0][1][-1][0] != "inhigh" or any(s == ["inhigh", 100, 0] or s[0] == "reset" for s in sets)):
            x = {"ops": x["ops"], "scale": 1}   # in_high 100 is not scaled
        ok.append(x)
    return ok


def mut(r, rng):
    o = r["out"]["obs"]
    k = rng.choice([j for j, x in enumerate(r["in"]["ops"])])
    if r["in"]["ops"][k][0] == "c":
        return None
    f = rng.choice(["in", "out", "cb"])
    o[k][f] += rng.choice([-1, 1]) * (8 if f == "out" else 1)
    return r


def run(c):
    exe = conc.build(c)
    seq = c.build("progress.cc", repo_srcs=("src/progress_tracker.cc",))
    c.model_check_many([("Progress", "ProgressMC.cfg")] + [("ProgressConc", "ProgressConc_%s.cfg" % k) for k in "imx"] +
                       [("ProgressConc", "ProgressConc_F_%s.cfg" % f, r"Invariant \w+ is violated") for f in ("no_reread", "split_increment", "mono_store")])
    c.conform("histories", seq, hists(c), "ProgressHist", "ProgressHistVal.cfg", mutate=mut)
    conc.judge(c, exe, trprogs.values(c), "concurrent", "TrTrace", "TrTraceVal.cfg", ("fn",), ways=(2,), limit=200000 if c.thorough else 20000, min_kill=0.3)
    c.assumptions += ["modulus, bounds and inputs small enough that float rounding only matters at exact ties; in_high = 0 with an empty output range excluded",
                      "sequentially consistent interleavings of synchronisation operations"]
