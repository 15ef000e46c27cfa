"""Tables and their CSV text (the rendering is re-derived and compared by TLC for every case)."""
Q = 34


def dbl(v):
    return [y for x in v for y in ([Q, Q] if x == Q else [x])]


def cell(c):
    return [Q] + dbl(c["v"]) + [Q] if c["q"] else list(c["v"])


def row(cs, sep):
    o = []
    for k, c in enumerate(cs):
        o += ([sep] if k else []) + cell(c)
    return o


def render(t):
    o = ([239, 187, 191] if t["bom"] else []) + row(t["names"], t["sep"])
    for j, r in enumerate(t["rows"], 1):
        o += t["eol"] + (t["eol"] if j in t["blank"] else []) + row(r, t["sep"])
    if t["fin"]:
        o += t["eol"] * (1 + t["tail"])
    return o


enc = lambda s: [ord(x) for x in s]
C = lambda v, q=False: {"v": enc(v) if isinstance(v, str) else list(v), "q": q}
BUF = ["vec", "into", "file", "fileinto"]
STR = ["lines", "each", "xform", "walk", "mmap"]
SEPS = [44, 59, 9, 36]


def modes(cfg):
    return BUF + STR if cfg == "k3" else ["vec", "into", "lines", "each", "xform", "walk"]


def case(cfg, mode, t, R, pieces=0):
    return {"kind": "table", "cfg": cfg, "mode": mode, "sep": t["sep"], "tab": t, "text": render(t), "pieces": pieces, "pre": R.choice([0, 0, 1, 5])}


def mut(r, rng):
    o = r["out"]
    if r["in"]["kind"] == "bytes":
        if r["in"]["pieces"] and o["recs"]:
            x = rng.choice(o["recs"])
            k = rng.choice(range(3))
            x[k] = rng.choice([[-1, 2], [0, len(r["in"]["text"]) + 1]])
            return r
        o["same"] = False
        return r
    k = rng.choice(["thr", "drop", "val", "val", "val", "within", "same"])
    if k in ("within", "same"):
        o[k] = False
    elif k == "thr":
        o["thr"] = not o["thr"]
    elif not o["recs"]:
        o["recs"] = [[[], [48], []]]
    elif k == "drop":
        o["recs"].pop(rng.randrange(len(o["recs"])))
    else:
        x = rng.choice(o["recs"])
        j = rng.randrange(3)
        x[j] = x[j] + [57] if rng.random() < 0.5 or not x[j] else x[j][:-1]
    return r
