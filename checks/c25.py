"""C25 CSV rows map columns by header name."""
import big
import itertools
import csvgen as g
from csvgen import C, enc

KNOWN = {"k1": ["str", "int", "cstr"], "k2": ["str", "dbl", "bool"], "k3": ["str", "int", "str"], "k4": ["cstr"] * 3, "k5": ["flt", "i64", "u32"]}
NAMES = ["A", "AB", "B"]
OTHER = ["X", "ABA", "a", "A ", " A", "AB ", "", "b", "AA", "B1"]


def value(ty, R, sep):
    if R.random() < 0.12:
        return C("", R.random() < 0.3)
    if ty == "int":
        return C(R.choice(["", "", " ", "  "]) + str(R.choice([0, 1, -1, 7, 12, 2147483647, -2147483648, R.randrange(-10**6, 10**6)])), R.random() < 0.3)
    if ty == "dbl":
        return C(R.choice(["", " "]) + R.choice(["0", "1", "1.5", "-2.25", "12.125", "0.001", "99999.999", "+3.", ".5"]), R.random() < 0.3)
    if ty == "flt":
        return C(R.choice(["", " ", "  "]) + R.choice(["0", "1", "1.5", "-2.25", "12.125", "0.001", "999.5", "+3.", ".5"]), R.random() < 0.3)
    if ty in ("i64", "u32"):
        return C(R.choice(["", " "]) + str(R.choice([0, 1, 7, 4294967295, 2147483648] + ([-1, 2**63 - 1, -2**63, 2**40] if ty == "i64" else []))), R.random() < 0.3)
    if ty == "bool":
        return C(R.choice(["", " "]) + R.choice(["true", "false", "TRUE", "False"]), R.random() < 0.3)
    v = "".join(R.choice("ab 01.,;$\t-\xe4\x00\"") for _ in range(R.choice([1, 1, 2, 3, 8, 20])))
    return C(v, R.random() < 0.3 or chr(sep) in v or '"' in v)


def table(cfg, R, n=None, rows=None):
    sep = R.choice(g.SEPS)
    k = n or R.randrange(1, 7)
    kn = NAMES[:]
    R.shuffle(kn)
    names = kn[:R.randrange(0, min(3, k) + 1)]
    while len(names) < k:
        names.append(R.choice(OTHER) if k < 20 else "x%d" % len(names))
    R.shuffle(names)
    if names[-1] == "":
        names[-1] = "X"
    ty = {nm: t for nm, t in zip(NAMES, KNOWN[cfg])}
    rs = []
    for _ in range(R.choice([0, 1, 1, 2, 3, 5]) if rows is None else rows):
        r = [value(ty.get(nm, "str"), R, sep) for nm in names]
        if R.random() < 0.3:
            r = r[:R.randrange(1, k + 1)]
        if not g.row(r, sep):
            r[0] = C("1", False)
        rs.append(r)
    fin = R.random() < 0.6
    return {"names": [C(x, R.random() < 0.2) for x in names], "rows": rs, "sep": sep, "eol": R.choice([[10], [13, 10]]), "fin": fin, "bom": False,
            "tail": R.choice([0, 0, 1]) if fin else 0, "blank": []}


def run(c):
    T, R = c.thorough, c.rng
    exe = c.build("csv.cc")
    big.run(c, 25)
    c.model_check("Csv", "CsvMC2.cfg")
    cs = []
    # every order of a subset of the columns, with unknown ones, x line ends x separators x number of cells in the last row
    vals = {"A": C("v"), "AB": C("12"), "B": C("w")}
    for names in [p for k in range(1, 5) for p in itertools.permutations(["A", "AB", "B", "X", "AA"], k)]:
        for cfg in ("k1", "k3"):
            for fin, tail in ((False, 0), (True, 0), (True, 1)):
                for eol in ([10], [13, 10]):
                    sep = R.choice(g.SEPS)
                    full = [vals.get(n, C("u")) for n in names]
                    last = full[:R.randrange(1, len(full) + 1)]
                    for rows in ([], [last], [full, last]):
                        t = {"names": [C(n) for n in names], "rows": rows, "sep": sep, "eol": eol, "fin": fin, "bom": False, "tail": tail, "blank": []}
                        if not T and R.random() > 0.25:
                            continue
                        for m in ([R.choice(["vec", "into"]), R.choice(["lines", "walk"])] if not T else g.modes(cfg)):
                            cs.append(g.case(cfg, m, t, R))
    # random tables
    for _ in range(700 if not T else 12000):
        cfg = R.choice(["k1", "k1", "k2", "k3", "k4", "k5"])
        t = table(cfg, R)
        for m in g.modes(cfg):
            u = dict(t)
            if m in g.STR:
                if R.random() < 0.3:
                    u["bom"] = True
                if R.random() < 0.3:
                    u["blank"] = sorted(R.sample(range(1, len(t["rows"]) + 1), R.randrange(0, len(t["rows"]) + 1)))
                if u["fin"] and R.random() < 0.2:
                    u["tail"] = 3
            cs.append(g.case(cfg, m, u, R))
    # wide tables
    for n in (2, 8, 31, 32, 33, 62, 63, 64, 65, 66, 70, 129, 200, 256, 257, 300):
        for _ in range(2 if not T else 12):
            for cfg in ("k1", "k3"):
                t = table(cfg, R, n, 2)
                if R.random() < 0.7:      # a known column last
                    t["names"] = [x for x in t["names"] if x["v"] != enc("A")]
                    t["names"] += [C("y")] * (n - 1 - len(t["names"])) + [C("A")]
                    t["rows"] = [[C("u")] * (n - 1) + [C("last")], [C("u")] * (n - 2) + [C("w")]]
                for m in R.sample(g.modes(cfg), 4):
                    cs.append(g.case(cfg, m, t, R))
    # many rows, long cells
    for n in (130, 257, 300) if not T else (127, 128, 129, 255, 256, 257, 300, 520):
        for cfg in ("k1", "k3", "k4"):
            t = table(cfg, R, R.choice([3, 5]), n)
            for m in R.sample(g.modes(cfg), 3):
                cs.append(g.case(cfg, m, t, R))
    for n in (127, 128, 255, 256, 257, 600):
        for cfg in ("k1", "k3", "k4"):
            t = table(cfg, R, 4, 2)
            t["names"] = [C("A"), C("X"), C("AB"), C("B")]
            long = lambda: C("".join(R.choice("abc;,$ \t") for _ in range(n)), True)
            t["rows"] = [[long(), C("u"), C("5"), long()], [C("v"), long(), C("6"), C("w")]]
            for m in R.sample(g.modes(cfg), 3):
                cs.append(g.case(cfg, m, t, R))
    c.conform("tables", exe, cs, "CsvConf", "X.cfg", canaries=40, mutate=g.mut)
    c.assumptions += ["repeated column names, cells beyond the header, line ends inside quotes and text after a closing quote are not judged",
                      "an empty cell of a streaming record whose field has an initialiser may keep it"]
