"""C10 owners release their resource exactly once."""
import os

# type: (make variants, typed operations)
TYPES = {
    "buffer": ([[0, 3], [1, 2], [2, 4], [3, 0], [4, 0], [0, 0]], [["rs", 0], ["rs", 1], ["rs", 7], ["rb"], ["wr", 1, 33]]),
    "file": ([[0, 0], [1, 0], [3, 0]], [["gc"], ["ct"]]),
    "mmap": ([[0, 0], [1, 0], [2, 0], [3, 9000]], [["ln"], ["rn", 1], ["rn", 9]]),
    "mfile": ([[0, 0], [1, 0], [3, 0]], [["sz"]]),
    "mmem": ([[0, 0], [1, 0], [2, 0], [3, 9000]], [["ct"], ["sz"]]),
    "gen": ([[0, 0], [0, 2], [1, 1], [1, 0]], [["nx"], ["bl"]]),
    "fin": ([[0, 0], [1, 0]], [["da"]]),
    "raii": ([[0, 4], [1, 6]], [["da"], ["set", 9]]),
}


def tla(x):
    return "<<" + ", ".join('"%s"' % y if isinstance(y, str) else str(y) for y in x) + ">>"


def mutate(r, rng):
    o = rng.choice(r["out"]["obs"])
    k = rng.choice(["live", "ret", "acts"])
    if k == "live" and isinstance(o["live"], int):
        o["live"] += 3
    elif o[k] and rng.random() < 0.5:
        o[k].pop()
    else:
        o[k].append(1)
    return r


def run(c):
    T = c.thorough
    R = c.rng
    exe = c.build("owners.cc")
    c.model_check("Owners", "OwnersMCt.cfg" if T else "OwnersMC.cfg")
    for ty, (mks, xs) in TYPES.items():
        small_m = [m for m in mks if m[0] in (0, 3)][:2]
        small_x = xs[:2]
        cs = []
        beh = c.enumerate("OwnersOps", "{b[1] : b \\in Behaviours(\"%s\", 2, {%s}, {%s}, %d)}" % (
            ty, ", ".join(tla(m) for m in small_m), ", ".join(tla(x) for x in small_x), 5 if T else 4))
        if not T and len(beh) > 4000:
            beh = R.sample(beh, 4000)
        for b in beh:
            cs.append({"ty": ty, "ns": 2, "ops": [list(o) for o in b] + [["ds", 1], ["ds", 2]]})
        for _ in range(1200 if not T else 20000):
            ops = []
            for _ in range(R.randrange(3, 16)):
                k = R.random()
                i, j = R.randrange(1, 4), R.randrange(1, 4)
                if k < 0.3:
                    m = R.choice(mks)
                    n = R.choice([0, 1, 5, 63]) if ty == "buffer" and m[0] in (0, 1, 2) else R.choice([0, 1, 3]) if ty == "gen" else m[1]
                    if ty == "raii":
                        n = R.randrange(20)
                    ops.append(["mk", i, m[0], n])
                elif k < 0.45 and ty != "raii":
                    ops.append(["mc", i, j])
                elif k < 0.6 and ty != "raii":
                    ops.append(["ma", i, j])
                elif k < 0.68:
                    ops.append(["ds", i])
                else:
                    x = R.choice(xs)
                    if x[0] == "rs":
                        x = ["rs", R.choice([0, 1, 2, 8, 100])]
                    ops.append([x[0], i] + x[1:])
            cs.append({"ty": ty, "ns": 3, "ops": ops + [["ds", 1], ["ds", 2], ["ds", 3]]})
        if ty == "mmap":
            for b in R.sample(beh, 120):  # mappings of several pages
                cs.append({"ty": ty, "ns": 2, "ops": [["mk", o[1], 3, 9000] if o[0] == "mk" else ["rn", o[1], 1] if o[0] == "ln" else list(o) for o in b] + [["ds", 1], ["ds", 2]]})
        c.conform(ty, exe, cs, "OwnersHist", "OwnersHist.cfg", canaries=30, per_case=20, mutate=mutate)
    c.assumptions += ["a moved-from object is only destroyed, assigned to, or resized (buffer)",
                      "assigning to an armed finally object runs the action it guarded before taking over the new one"]
