"""C19 zip."""
import big
import cursorgen

BASE = ["inc", "dec", "get", "eq", "ne", "copy"]
ORD = ["lt", "le", "gt", "ge"]


def run(c):
    exe = c.build("cursor.cc", flags=("-DKIND=0",))
    big.run(c, 19)
    c.model_check("Cursor", "CursorMC.cfg")
    W = BASE + ["set"]
    V = {0: (1, W + ORD, [1], 2, 0, None), 1: (2, W, [1, 2], 2, 0, None), 2: (3, W, [1, 3], 2, 0, None), 3: (2, BASE, [], 2, 0, None),
         4: (2, W + ORD, [1, 2], 2, 2, None), 5: (3, W, [1, 2, 3], 2, 0, None), 6: (2, W, [1, 2], 2, 1, None), 7: (2, BASE + ORD, [], 2, 0, None),
         8: (2, BASE + ORD, [], 2, 0, None), 9: (2, BASE, [], 2, 0, None), 10: (2, W, [1], 2, 0, "set"), 11: (2, BASE + ORD, [], 2, 0, None)}
    cs = cursorgen.cases(c, "zip", V, {})
    # unequal lengths
    for v in (1, 2, 3, 4, 7, 9, 10):
        cols = V[v][0]
        for a in range(4):
            for b in range(4):
                for e in range(4) if cols == 3 else [b]:
                    if a == b == e:
                        continue
                    ls = [a, b, e][:cols]
                    cs.append({"kind": "zip", "variant": v, "d": [list(range(10, 10 + n)) for n in ls], "init": [0, 0], "ops": [], "cat": 2, "owned": 0, "w": 1})
    for v in (5, 6, 8, 11):
        cols, own = V[v][0], V[v][4]
        for _ in range(40):
            ls = [c.rng.randrange(6) for _ in range(cols)]
            if len(set(ls)) > 1:
                cs.append({"kind": "zip", "variant": v, "d": [[c.rng.randrange(50) for _ in range(n)] for n in ls], "init": [0, 0], "ops": [], "cat": 2, "owned": own, "w": 1, "un": min(ls)})
    cs += cursorgen.long_cases(c, "zip", V, per=1)
    c.conform("zip", exe, cs, "CursorHist", "CursorHist.cfg", mutate=mut, canaries=40)
    c.assumptions += ["over unequally long containers the unchecked variants are only indexed below the shortest length", "iterators of different zips are not compared"]


def mut(r, rng):
    if "un" in r["in"]:
        r["out"]["thr"] = 1
        return r
    if r["out"].get("thr"):
        return {"in": r["in"], "out": {"st": "ok", "thr": 0, "rets": [], "all": [], "size": 0, "idx": [], "after": r["in"]["d"], "cnt": 0, "cat": 2, "again": []}}
    k = rng.choice(["size", "idx", "again", ""])
    if k == "size":
        r["out"]["size"] += 1
        return r
    if k in ("idx", "again") and r["out"][k]:
        r["out"][k].pop()
        return r
    return cursorgen.mutate(r, rng)
