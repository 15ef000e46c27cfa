"""C30 generators."""
import big


def sim_ok(body, ops):
    """Drops reads of an exhausted generator (not specified)."""
    flat = []

    def fl(b):
        for x in b:
            fl(x[1]) if x[0] == "g" else flat.append(x[0])
    fl(body)
    p, held, over, out = 0, False, False, []

    def adv():
        nonlocal p, held, over
        while p < len(flat):
            k = flat[p]
            p += 1
            if k == "y":
                held = True
                return "y"
            if k == "t":
                over = True
                return "t"
        over = True
        return "r"
    for o in ops:
        if o == "n":
            if not held:
                if over or not any(k in "yt" for k in flat[p:]):
                    continue
                adv()
            held = False
        elif o == "b" and not held and not over:
            adv()
        elif o == "v":
            held = False
            while not over:
                adv()
            held = False
        out.append(o)
    return out


def run(c):
    T, R = c.thorough, c.rng
    exe = c.build("gen.cc")
    big.run(c, 30)
    c.model_check("Generator", "GeneratorMC.cfg")
    cs = []
    scripts = c.enumerate("GenOps", 'SeqsUpTo({<<"y", 1>>, <<"e", 3>>, <<"t">>, <<"g", << <<"y", 7>>, <<"e", 8>> >> >>}, 3)')
    for b in scripts:
        pr = c_progs(b, 4 if not T else 5, R, 40 if not T else 400)
        for k, ops in enumerate(pr):
            cs.append({"ty": ["int", "str", "ptr"][k % 3], "how": R.randrange(3), "body": b, "ops": ops})
    # all valid operation sequences, enumerated by the specification, on a few bodies
    for b, e in (([["y", 1], ["e", 2], ["y", 2]], '<< <<"y", 1>>, <<"e", 2>>, <<"y", 2>> >>'), ([["e", 1], ["y", 3], ["t"], ["y", 4]], '<< <<"e", 1>>, <<"y", 3>>, <<"t">>, <<"y", 4>> >>'), ([], "<<>>")):
        for ops in c.enumerate("GenOps", "Progs(%s, %d)" % (e, 6 if T else 5)):
            cs.append({"ty": R.choice(["int", "str", "ptr"]), "how": R.randrange(3), "body": b, "ops": ops})
    for _ in range(1500 if not T else 20000):
        b = body(R, 0)
        ops = sim_ok(b, [R.choice("bbbnnnnvma" if R.random() < 0.9 else "bn") for _ in range(R.randrange(1, 25))])
        if R.random() < 0.5:
            ops = sim_ok(b, [o for o in ops if o != "v"] + ["v", "b", "v"])
        cs.append({"ty": R.choice(["int", "str", "ptr"]), "how": R.randrange(3), "body": b, "ops": ops})
    for n in (130, 257, 300):
        for _ in range(6 if not T else 30):
            b = [["y", k] if R.random() < 0.9 else ["e", k] for k in range(n)] + R.choice([[], [["t"]], [["g", [["y", 1]] * 3]]])
            for _ in range(R.choice([0, 0, 3, 6])):
                b = [["g", b], ["y", 5]]          # the same, deep inside other generators
            k = R.random()
            ops = ["v", "b"] if k < 0.3 else ["b", "n"] * (n + 8) if k < 0.7 else [R.choice("bnnnma") for _ in range(2 * n)]
            cs.append({"ty": R.choice(["int", "str", "ptr"]), "how": R.randrange(3), "body": b, "ops": sim_ok(b, ops)})
    c.conform("generators", exe, cs, "GenHist", "GenHist.cfg", canaries=40)
    c.assumptions += ["reading a generator that is exhausted, and using one that was moved from, is not specified"]


def body(R, d):
    o = []
    for _ in range(R.choice([0, 1, 2, 3, 5, 9])):
        k = R.random()
        o.append(["y", R.randrange(1000)] if k < 0.55 else ["e", R.randrange(100)] if k < 0.85 else ["t"] if k < 0.9 or d > 2 else ["g", body(R, d + 1)])
    return o


def c_progs(b, n, R, cap):
    out = []
    for _ in range(cap):
        out.append(sim_ok(b, [R.choice("bbnnvma") for _ in range(n)]))
    u = {"".join(o): o for o in out}
    return list(u.values())
