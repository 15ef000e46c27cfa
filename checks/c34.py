"""C34 text literals as types, thread names, type stripping."""
import os

MAXLEN = 30


def esc(b):
    return "".join("\\%03o" % x for x in b)


def mut(r, rng):
    o = r["out"]
    if r["in"]["fn"] == "lit":
        j = rng.randrange(len(o["texts"]))
        k = rng.choice(["texts", "same", "zero"])
        if k == "texts":
            o[k][j] = o[k][j][:-1] if o[k][j] and rng.random() < 0.5 else o[k][j] + [65]
        else:
            o[k][j] += 1 if k == "same" else -1
    elif r["in"]["fn"] == "names":
        x = rng.choice(o["obs"])
        j = rng.randrange(len(x))
        x[j] = x[j] + [66]
    else:
        x = rng.choice(o[rng.choice(["clear", "fwd"])])
        x["r"] = (x["r"] + 1) % 3
    return r


def run(c):
    T, R = c.thorough, c.rng
    lits = []
    for n in range(MAXLEN + 1):
        for _ in range(3 if not T else 12):
            lits.append([R.randrange(97, 123) for _ in range(n)])
        lits.append([R.choice([1, 9, 10, 32, 34, 92, 37, 63, 48, 127, 128, 255]) for _ in range(n)])
        if n:  # neighbours: equal but for the last, the first or one character, or one character shorter
            b = [R.randrange(97, 123) for _ in range(n)]
            j = R.randrange(n)
            lits += [b, b[:-1] + [64], [64] + b[1:], b[:j] + [64] + b[j + 1:], b[:-1]]
    lits += c.enumerate("LitOps", "SeqsUpTo({65, 66}, 3)")
    table = [(k % 5, b) for k, b in enumerate(lits)] + [(R.randrange(5), b) for b in R.sample(lits, len(lits) // 2)]
    d = os.path.join(c.work, "gen")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "gen.inc"), "w") as f:
        f.write("static entry const table[] = {\n" + "".join('  E%d("%s"),\n' % (k, esc(b)) for k, b in table) + "};\n")
    exe = c.build("lit.cc", flags=("-I" + d,), opt="-O0")
    c.model_check_many([("Literal", "Literal_none.cfg")] + [("Literal", "Literal_%s.cfg" % f, r"Invariant \w+ is violated") for f in ("short", "blind", "late")])
    cs = []
    order = list(range(len(table)))
    for j in range(0, len(order), 12):
        p = order[j:j + 12]
        cs.append({"fn": "lit", "pick": p, "lits": [table[k][1] for k in p]})
    for _ in range(200 if not T else 2000):
        p = [R.randrange(len(table)) for _ in range(R.randrange(2, 16))]
        p += [k for k, x in enumerate(table) if x[1] == table[p[0]][1]]
        R.shuffle(p)
        cs.append({"fn": "lit", "pick": p, "lits": [table[k][1] for k in p]})
    for _ in range(150 if not T else 1000):
        n = R.randrange(1, 5)
        nm = lambda: [R.choice([R.randrange(97, 123), R.randrange(1, 256)]) for _ in range(R.choice([0, 1, 2, 7, 14, 15, 15]))]
        cs.append({"fn": "names", "start": [nm() for _ in range(n)], "ops": [[R.choice([0, -1, R.randrange(1, n + 1)]), R.randrange(1, n + 1), nm()] for _ in range(R.randrange(1, 7))]})
    ty = [{"c": a, "r": b} for a in (0, 1) for b in (0, 1, 2)]
    for b in range(4):
        cs.append({"fn": "types", "b": b, "types": ty})
    c.conform("literals", exe, cs, "LitConf", "X.cfg", canaries=30, mutate=mut)
    c.assumptions += ["literals of at most 30 characters without NUL, thread names of at most 15 bytes (the system's limit)"]
