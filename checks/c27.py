"""C27 number and boolean parsing."""
BOUND = {"i8": (-2**7, 2**7 - 1), "u8": (0, 2**8 - 1), "i16": (-2**15, 2**15 - 1), "u16": (0, 2**16 - 1), "i32": (-2**31, 2**31 - 1),
         "u32": (0, 2**32 - 1), "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1)}


def run(c):
    T, R = c.thorough, c.rng
    exe = c.build("arg.cc")
    c.model_check("Arg", "ArgMC.cfg")
    cs = []
    enc = lambda s: [ord(x) for x in s]
    ints = c.enumerate("ArgOps", "SeqsUpTo({43, 45, 47, 48, 57, 58}, %d)" % (5 if T else 3))
    ints += R.sample(c.enumerate("ArgOps", "SeqsUpTo({45, 48, 50, 57, 44}, 5)"), 600 if not T else 3000)
    apis = ["arg", "argd", "shift", "parse", "parsed", "verify"]

    def addint(t, ty, api):
        lo, hi = BOUND[ty]
        cs.append({"fn": "int", "ty": ty, "api": api, "t": t, "def": enc(str(R.choice([0, 1, 42, lo, hi])))})
    for t in ints:
        for ty in BOUND:
            addint(t, ty, R.choice(apis))
        addint(t, "i32", "arg")
    for ty, (lo, hi) in BOUND.items():
        for v in [lo, lo + 1, lo + 2, lo // 2, lo // 10, -1, 0, 1, 9, 10, 99, 100, 101, hi // 10, hi // 10 + 1, hi // 2, hi // 2 + 1, hi - 9, hi - 8, hi - 1, hi]:
            if lo <= v <= hi:
                for pre in ("", "+", "0", "000"):
                    if v < 0 and pre == "+":
                        continue
                    for post in ("", ";", "x1", " "):
                        s = ("-" + pre + str(-v) if v < 0 else pre + str(v)) + post
                        for api in apis:
                            addint(enc(s), ty, api)
        for _ in range(150 if not T else 2000):
            v = R.randrange(lo, hi + 1) if R.random() < 0.5 else max(lo, min(hi, R.randrange(-10**R.randrange(1, 20), 10**R.randrange(1, 20))))
            addint(enc(str(v) + R.choice(["", "", ".", "e5", "-", " 1"])), ty, R.choice(apis))
    # every byte value before, between and behind the digits: nothing but signs and digits counts
    for b in range(256):
        for t in ([b, 55], [45, b, 55], [43, b, 52], [55, b], [49, b, 50], [b], [48, b], [b, b, 49]):
            for ty in (BOUND if T else R.sample(list(BOUND), 2)):
                addint(t, ty, R.choice(["arg", "argd"]))
            cs.append({"fn": "fp", "ty": R.choice(["float", "double"]), "api": "arg", "t": t, "def": 0})
        for t in ([49, 46, b], [49, 46, 53, b], [49, 46, b, 53], [45, 49, b, 53]):
            cs.append({"fn": "fp", "ty": "double", "api": "arg", "t": t, "def": 0})
        for w in ("true", "false"):
            for k in range(len(w) + 1):
                t = enc(w)
                cs.append({"fn": "bool", "ty": "bool", "api": "arg", "t": t[:k] + [b] + t[k + 1:], "def": 0, "v0": 0})
                cs.append({"fn": "bool", "ty": "bool", "api": "argd", "t": t[:k] + [b] + t[k:], "def": R.randrange(2), "v0": 0})
    # truth values
    bools = []
    for w in ("true", "false"):
        for m in range(1 << len(w)):
            bools.append("".join(x.upper() if m >> k & 1 else x for k, x in enumerate(w)))
        for k in range(len(w)):
            bools += [w[:k], w[:k] + "x" + w[k + 1:], w[:k] + w[k + 1:], w[:k] + "\x00" + w[k:]]
        bools += [w + "x", w + " ", " " + w, w + w, w + ","]
    bools += ["", "1", "0", "yes", "t", "f", "T", "F", "ttrue", "ftrue", "trues", "\xff", "\xf4rue"]
    for w in bools:
        for api in apis:
            for v0 in (0, 1):
                for d in (0, 1):
                    cs.append({"fn": "bool", "ty": "bool", "api": api, "t": enc(w), "def": d, "v0": v0})
    # decimals
    fps = ["".join(map(chr, x)) for x in c.enumerate("ArgOps", "SeqsUpTo({43, 45, 46, 48, 55, 120}, %d)" % (5 if T else 4))]
    for _ in range(600 if not T else 6000):
        i = R.choice(["", "0", str(R.randrange(10)), str(R.randrange(1000)), str(R.randrange(100000))])
        f = "".join(R.choice("0123456789") for _ in range(R.choice([0, 1, 2, 3, 3, 5, 9, 17])))
        if i or f:
            fps.append(R.choice(["", "-", "+"]) + i + ("." + f if f or R.random() < 0.3 else "") + R.choice(["", "", "", "x", "e1", ".", " "]))
    for n in list(range(5, 16)) * (6 if not T else 60):
        i = str(R.randrange(10**(n - 1), 10**n))
        fps.append(R.choice(["", "-", "+"]) + i + R.choice(["", ".", ".5", ".%d" % R.randrange(1000), ".0%d" % R.randrange(100), "x", ".25 "]))
    fps += ["2147483648", "4294967296.5", "-2147483649", "16777216", "16777215", "-8388607", "999999999999.999", "1./5", "1.5:", "3/"]
    for w in fps:
        for ty in ("float", "double"):
            if ty == "float" and len(w.lstrip("+-0").split(".")[0]) > 3 and "." in w:
                continue
            cs.append({"fn": "fp", "ty": ty, "api": R.choice(["arg", "arg", "shift", "parse", "verify"]), "t": enc(w), "def": 0})
    for ty in ("string", "cstr", "gen", "path", "parse"):
        for t in ([], [97], [97, 0, 98], [34, 97, 34], [200, 201], [97] * 40):
            cs.append({"fn": "str", "ty": ty, "api": "", "t": t, "def": 0})
    for t in c.enumerate("ArgOps", "SeqsUpTo({10, 13, 97}, 4)"):
        cs.append({"fn": "skip", "ty": "", "api": "", "t": t, "def": 0})
    for _ in range(200):
        cs.append({"fn": "chain", "ty": "", "api": "", "t": enc("%d,%d%s" % (R.randrange(-10**9, 10**9), R.randrange(10**9), R.choice(["", ",", "x", ";3"]))), "def": 0})
    c.conform("parsing", exe, cs, "ArgConf", "X.cfg", canaries=40, mutate=mut)
    c.assumptions += ["values outside the type's range, several signs in a row and decimals beyond 10^15 are not judged",
                      "rounding is bounded by 32 units in the last place of the nearest representable value"]


def mut(r, rng):
    o = r["out"]
    k = rng.choice([x for x in o if x != "st"])
    if k in ("whole", "milli"):
        k = "m"
    if isinstance(o[k], bool):
        o[k] = not o[k]
    elif isinstance(o[k], int):
        if k == "val":
            o[k] = 1 - o[k]
        else:
            o[k] += 60
    else:
        o[k] = [57] + o[k] if k == "val" else o[k] + [48]
    if r["in"]["fn"] in ("int", "fp") and rng.random() < 0.5 and "ok" in o:
        o["ok"] = not o["ok"]
    return r
