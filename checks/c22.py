"""C22 cstr."""
import big

A = [0, 10, 13, 32, 97]


def queries(R, t, alpha, full):
    n = len(t)
    pos = list(range(n + 2)) + [-1, -2]
    ops = [[o, 0] for o in ("trf", "trb", "trim", "cr", "line", "copy", "len", "empty", "valid", "str", "sv", "bytes", "rev")]
    ops += [["until", 0, x] for x in alpha]
    ops += [["plus", 0, k] for k in range(n + 1)] + [["sub1", 0, k] for k in pos] + [["at", 0, k] for k in range(n + 1)]
    two = [[o, 0, a, b] for o in ("sub2", "subs") for a in pos for b in pos] + [["subf", 0, a, b] for a in pos for b in pos + [-3]]
    nd = [[]] + [[x] for x in alpha] + [[x, y] for x in alpha for y in alpha] + [t] + [t + [alpha[0]]]
    nd += [t[i:j] for i in range(n) for j in range(i + 1, n + 1)]
    nd += [t[:i] + [x] + t[i + 1:] for i in range(n) for x in alpha]
    nops = [[o, 0, x] for o in ("has", "starts", "soff", "eq", "ne", "lt", "gt") for x in nd]
    if not full:
        two = R.sample(two, min(len(two), 40))
        nops = R.sample(nops, min(len(nops), 60))
    return ops + two + nops


def rand_op(R, n, alpha):
    k = R.random()
    upd = 1 if R.random() < 0.4 else 0
    a = lambda: R.choice([0, 1, 2, n // 2, n, n + 1, -1, -2, R.randrange(n + 2)])
    nd = [R.choice(alpha) for _ in range(R.choice([0, 1, 1, 2, 3]))]
    if k < 0.15:
        return [R.choice(["inc", "trf", "trb", "trim", "cr", "line", "copy"]), upd]
    if k < 0.25:
        return [R.choice(["padd", "plus"]), upd, R.randrange(0, 3)]
    if k < 0.45:
        return R.choice([["sub2", upd, a(), a()], ["subs", upd, a(), a()], ["sub1", upd, a()], ["subf", upd, a(), R.choice([a(), -3])]])
    if k < 0.5:
        return ["until", upd, R.choice(alpha)]
    if k < 0.6:
        return [R.choice(["len", "empty", "valid", "str", "sv", "bytes", "rev"]), 0]
    if k < 0.65:
        return ["at", 0, R.randrange(n + 1)]
    return [R.choice(["has", "starts", "soff", "eq", "ne", "lt", "gt"]), 0, nd]


def run(c):
    T, R = c.thorough, c.rng
    exe = c.build("cstr.cc")
    big.run(c, 22)
    c.model_check("Cstr", "CstrMCt.cfg" if T else "CstrMC.cfg")
    texts = c.enumerate("CstrOps", "SeqsUpTo({0, 10, 13, 32, 97}, %d)" % (3 if T else 2))
    more = c.enumerate("CstrOps", "SeqsUpTo({0, 13, 32, 97}, 4)")
    ctors = ["str", "sv", "pl", "ul", "be", "asg", "null", "def", "cz"]
    cs = []
    for t in texts:
        for k in ctors:
            if k in ("null", "def") and t:
                continue
            full = k == "pl"
            cs.append({"t": t, "ctor": k, "ops": queries(R, t, A, full)})
    for t in R.sample(more, 250 if not T else len(more)):
        cs.append({"t": t, "ctor": R.choice(ctors[:6]), "ops": queries(R, t, A, False)})
    for x in range(256):
        cs.append({"t": [x, 97, x], "ctor": "sv", "ops": [["space", 0, x], ["trim", 0], ["cr", 0], ["line", 0], ["until", 0, x], ["eq", 0, [x, 97, x]], ["soff", 0, [97, x]], ["has", 0, [x ^ 128]], ["str", 0]]})
    for _ in range(2500 if not T else 30000):
        al = R.choice([[97, 98], [0, 97], [10, 13, 97], [32, 97], [32, 10], [0, 1, 2, 127], A])
        n = R.choice([0, 1, 3, 6, 12, 40])
        t = [R.choice(al) for _ in range(n)]
        cs.append({"t": t, "ctor": R.choice(ctors[:6] + ["cz"]), "ops": [rand_op(R, n, al) for _ in range(R.randrange(1, 14))]})
    for n in (130, 257, 300, 520):
        for al in ([97, 98], [32, 97], [32, 10], [13, 97]):
            t = [R.choice(al) for _ in range(n)]
            w = R.randrange(n)
            cs.append({"t": t, "ctor": "pl", "ops": [rand_op(R, n, al) for _ in range(12)] + [["has", 0, t[w:w + 140]], ["soff", 0, t[w:]], ["eq", 0, t], ["eq", 0, t[:-1] + [1]], ["lt", 0, t[:-1] + [1]]]})
    W = [0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 66000, -1, -2]   # widths of narrower counters
    t = [97] * 66000
    for k in ("sv", "pl"):
        ops = [[o, 0, a, b] for o in ("sub2", "subs", "subf") for a in W for b in W + [-3]] + [[o, 0, a] for o in ("sub1", "plus") for a in W if o == "sub1" or a >= 0]
        cs.append({"t": t, "ctor": k, "ops": R.sample(ops, 120) + [["subf", 0, 7, w] for w in W + [-3]] + [["len", 0], ["at", 0, 65990]]})
    c.conform("views", exe, cs, "CstrHist", "CstrHist.cfg", canaries=40, mutate=mut)
    c.assumptions += ["++, += and + stay inside the view (documented precondition of raw views); operator< is compared on bytes below 128",
                      "substr_offset of an empty needle in an empty view is unspecified"]


def mut(r, rng):
    o = r["out"]
    x = rng.choice(o["res"])
    if x[0] == "i":
        x[1] += 1
    elif x[0] == "v":
        x[2] += 1
    elif x[0] == "s":
        x[1].append(9)
    else:
        return None
    return r
