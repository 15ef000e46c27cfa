"""C26 CSV quoting round-trips, both interfaces agree, arbitrary bytes are safe."""
import csvgen as g
from csvgen import C, enc


def run(c):
    T, R = c.thorough, c.rng
    exe = c.build("csv.cc")
    c.model_check("Csv", "CsvMCt.cfg" if T else "CsvMC.cfg")
    cs = []
    names = ["A", "AB", "B"]
    # every short text as a cell, quoted, in every column position, in every interface
    for sep in g.SEPS:
        texts = c.enumerate("ArgOps", "SeqsUpTo({34, %d, 97}, %d)" % (sep, 4 if T else 3))
        for v in texts:
            for q in (True, False):
                if not q and (34 in v or sep in v):
                    continue
                for pos in (0, 2):
                    for eol in ([10], [13, 10]):
                        r = [C("x"), C("5"), C("y")]
                        r[pos] = {"v": v, "q": q}
                        nm = names[:]
                        if R.random() < 0.5:
                            k = R.sample(range(3), 3)
                            nm, r = [nm[j] for j in k], [r[j] for j in k]
                        fin = R.random() < 0.5
                        t = {"names": [C(n) for n in nm], "rows": [r], "sep": sep, "eol": eol, "fin": fin, "bom": False, "tail": 0, "blank": []}
                        if R.random() < 0.4:
                            t["rows"] = [r, [C("e"), C("6"), C("f")]]
                        for cfg in ("k3", "k1"):
                            for m in (R.sample(["vec", "into"], 1) + R.sample(g.STR[:4], 1) if not T else g.modes(cfg)):
                                cs.append(g.case(cfg, m, t, R))
                cs.append(split("k1", [{"v": v, "q": q}, C("5"), C("y")], sep))
                cs.append(split("k3", [C("x"), C("5"), {"v": v, "q": q}], sep))
    for _ in range(300 if not T else 5000):
        sep = R.choice(g.SEPS)

        def rc(n=12):
            v = [R.choice([34, 34, sep, 97, 98, 32, 0, 228, 44, 59, 9, 36]) for _ in range(R.randrange(n))]
            return {"v": v, "q": True if (34 in v or sep in v) else R.random() < 0.5}
        cfg = R.choice(["k1", "k2", "k3", "k4"])
        mid = {"k1": C("7"), "k2": C("2.5"), "k3": C("-8"), "k4": rc()}[cfg]
        rows = [[rc(), mid, rc() if cfg != "k2" else C("true")] for _ in range(R.randrange(1, 4))]
        fin = R.random() < 0.5
        t = {"names": [C(n) for n in names], "rows": rows, "sep": sep, "eol": R.choice([[10], [13, 10]]), "fin": fin, "bom": False, "tail": 0, "blank": []}
        for m in g.modes(cfg):
            cs.append(g.case(cfg, m, t, R))
        for k in range(4):
            cs.append(split(cfg, rows[0][:k] if k else [rows[0][0]], sep))
    # long cells full of quotes
    for n in (127, 128, 129, 255, 256, 257, 600):
        for cfg in ("k1", "k3", "k4"):
            sep = R.choice(g.SEPS)
            v = {"v": [R.choice([34, 97, sep]) if n < 600 else R.choice([34, 97, 98, 99, 100]) for _ in range(n)], "q": True}
            mid = {"k1": C("7"), "k3": C("-8"), "k4": C("m")}[cfg]
            t = {"names": [C(x) for x in names], "rows": [[v, mid, C("e")], [C("b"), mid, v]], "sep": sep, "eol": [10], "fin": False, "bom": False, "tail": 0, "blank": []}
            for m in R.sample(g.modes(cfg), 4):
                cs.append(g.case(cfg, m, t, R))
            cs.append(split(cfg, [v, mid, v], sep))
    # arbitrary bytes
    for t in c.enumerate("ArgOps", "SeqsUpTo({34, 44, 10, 13, 97}, %d)" % (6 if T else 4)):
        for m in ("vec", "lines", "split") if T or len(t) < 4 else (R.choice(["vec", "lines", "split"]),):
            cs.append(raw("k4", m, enc('A,"AB",B\n') + t if m != "split" else t, 44, 1))
            if R.random() < 0.3:
                cs.append(raw("k4", m, t, 44, 1))
    for _ in range(1500 if not T else 20000):
        sep = R.choice(g.SEPS)
        n = R.choice([3, 8, 20, 60, 200])
        b = [R.choice([34, 34, sep, sep, 10, 13, 97, 65, 66, 0, 255, 239, 187, 191, 32, 48]) for _ in range(R.randrange(n))]
        h = R.choice([[], [65, sep, 66, 10], [65, 13, 10], [239, 187, 191, 65, sep, 65, 66, sep, 66, 10], [34, 65, 34, sep, 66]])
        cfg = R.choice(["k4", "k4", "k1", "k2", "k3"])
        for m in (R.choice(["vec", "into"]), R.choice(["lines", "walk", "each"]), "split"):
            cs.append(raw(cfg, m, h + b, sep, 1 if cfg == "k4" else 0))
    c.conform("quoting", exe, cs, "CsvConf", "X.cfg", canaries=40, mutate=g.mut)
    c.assumptions += ["text after a closing quote and doubled quotes in cells written without quotes are only judged for memory safety and termination"]


def split(cfg, row, sep):
    t = {"names": [], "rows": [row], "sep": sep, "eol": [10], "fin": False, "bom": False, "tail": 0, "blank": []}
    return {"kind": "split", "cfg": cfg, "mode": "split", "sep": sep, "tab": t, "text": g.row(row, sep), "pieces": 0, "pre": 0}


def raw(cfg, mode, text, sep, pieces):
    return {"kind": "bytes", "cfg": cfg, "mode": mode, "sep": sep, "text": text, "pieces": pieces, "pre": 0, "tab": {}}
