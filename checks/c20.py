"""C20 enumerate, nwise, pairwise."""
import big
import cursorgen

FW = ["inc", "pinc", "ne", "copy", "get"]
BI = FW + ["dec", "pdec", "diff"]
RA = BI + ["add", "sub"]
S = ["set"]
W = ["inc", "eq", "ne", "copy", "get"]


def run(c):
    en, nw = c.build_all([dict(src="cursor.cc", name="enum", flags=("-DKIND=1",)), dict(src="nwise.cc", name="nwise")])
    big.run(c, 20)
    c.model_check("Cursor", "CursorMC.cfg")
    V = {0: (1, RA + S, [1], 3, 0, None), 1: (1, RA, [], 3, 0, None), 2: (1, RA, [], 3, 1, None), 3: (1, BI + S, [1], 2, 0, None),
         4: (1, FW + S, [1], 1, 0, None), 5: (1, RA + S, [1], 3, 0, "3"), 6: (1, RA + S, [1], 3, 0, None), 7: (1, BI, [], 2, 0, "set"),
         8: (1, RA, [], 3, 1, None), 9: (1, RA + S, [1], 3, 0, None)}
    cs = cursorgen.cases(c, "enum", V, {})
    cs += cursorgen.long_cases(c, "enum", V)
    c.conform("enumerate", en, cs, "CursorHist", "CursorHist.cfg", mutate=cursorgen.mutate, canaries=40)
    cs = []
    for w in (1, 2, 3, 4):
        k = list(range(1, w + 1))
        V = {0: (1, W + S, k, 1, 0, None), 1: (1, W, [], 1, 0, None), 2: (1, W, [], 1, 0, None), 3: (1, W + S, k, 1, 0, None), 4: (1, W + S, k, 1, 0, None),
             5: (1, W, [], 1, 0, "set"), 6: (1, W + S, k, 1, 0, None), 7: (1, W + S, k, 1, 0, None), 8: (1, W, [], 1, 0, None)}
        if w == 2:
            V.update({20: (1, W + S, k, 1, 0, None), 21: (1, W, [], 1, 0, None), 22: (1, W, [], 1, 0, None), 23: (1, W + S, k, 1, 0, None), 24: (1, W, [], 1, 0, None)})
        cs += cursorgen.cases(c, "win", V, {}, w)
        cs += cursorgen.long_cases(c, "win", {v: x for v, x in V.items() if v != 7 and (w == 2 or v in (0, 2, 3))}, w)
    c.conform("windows", nw, cs, "CursorHist", "CursorHist.cfg", mutate=mutw, canaries=40)
    c.assumptions += ["the end iterator of enumerate over a container without size() is only compared", "iterators of one range only are compared"]


def mutw(r, rng):
    if rng.random() < 0.2:
        r["out"]["size"] += 1
        return r
    return cursorgen.mutate(r, rng)
