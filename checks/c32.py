"""C32 checks, match, overloaded, printable enums, bits."""
import itertools, os, string
CL = ["Base", "A", "B", "C", "D", "M"]
TY = ["int", "long", "double", "string", "Bs", "Dv", "pc"]


def text(R, n=12, alpha=None):
    return [R.choice(alpha or [123, 125, 37, 32, 58, 48, 97, 98, 122, 34, 92, 195, 164, 10, 63]) for _ in range(R.randrange(n))]


def arg(R):
    ty = R.choice("iicbusvp")
    n, t = 0, []
    if ty == "i":
        n = R.choice([0, 1, -1, 9, 10, 99, 100, -100, 2147483647, -2147483647, R.randrange(-10**9, 10**9)])
    elif ty == "c":
        n = R.choice([97, 123, 125, 32, 48, 90])
    elif ty == "b":
        n = R.randrange(2)
    elif ty == "u":
        t = [ord(x) for x in str(R.choice([0, 1, 2**31, 2**32, 2**63, 2**64 - 1, R.randrange(2**64)]))]
    else:
        t = text(R, R.choice([2, 12, 12, 200]))
    return {"ty": ty, "n": n, "t": t}


def check_case(R, api, cond, nargs, ex="re"):
    args = [arg(R) for _ in range(nargs)]
    expl = R.random() < 0.5
    used = [R.randrange(nargs) + 1 for _ in range(R.randrange(5))] if expl and nargs else list(range(1, nargs + 1 if R.random() < 0.8 else R.randrange(nargs + 1) + 1))
    ps = []
    for u in used:
        if R.random() < 0.7:
            ps.append({"k": "lit", "t": text(R), "n": 0})
        ps.append({"k": "arg", "n": u, "t": []})
    if R.random() < 0.6 or not ps:
        ps.append({"k": "lit", "t": text(R, R.choice([3, 12, 600])), "n": 0})
    return {"fn": "check", "api": api, "cond": cond, "pieces": ps, "args": args, "explicit": expl, "ex": ex, "n": R.randrange(-1000, 1000),
            "day": R.choice([0, 1, 58, 59, 364, 10956, 11016, 19782, 20000, R.randrange(0, 47000), R.randrange(0, 90000)]), "sec": R.choice([0, 1, 59, 60, 3599, 3600, 43199, 86399, R.randrange(86400)])}


def declare(R, n):
    names = []
    while len(names) < n:
        k = R.choice([1, 1, 2, 3, 8, 30])
        x = R.choice(string.ascii_letters + "_" if k > 1 else "abcxyzABC") + "".join(R.choice(string.ascii_letters + string.digits + "_") for _ in range(k - 1))
        if R.random() < 0.5 and names:
            x = (R.choice(names) + R.choice("aX_1"))[:40]
        if x.startswith("_") or "__" in x or x in names or x in KW:
            continue
        names.append(x)
    return names


KW = {"if", "do", "or", "and", "int", "new", "try", "for", "asm", "not", "xor", "v", "s", "c", "i"}


def run(c):
    T, R = c.thorough, c.rng
    decls = [declare(R, n) for n in list(range(1, 12)) + [20, 33, 40, 64] + [R.randrange(1, 9) for _ in range(60 if T else 25)]]
    decls += [["a"], ["a", "ab", "abc", "b"], ["abc", "ab", "a"], ["x1", "x11", "x111"]]
    d = os.path.join(c.work, "gen")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "enums.inc"), "w") as f:
        styles = [", ", ",", " ,", " , ", ",\n  ", "\n , ", ",   ", ", /* , */ "]
        for k, names in enumerate(decls):
            f.write("namespace en%d {\nPRINTABLE_ENUM(%s, %s%s)\n}\n" % (k, "color", "".join(n + (styles[k % 8] if k < 16 else R.choice(styles)) for n in names[:-1]) + names[-1], R.choice(["", "", ",", " ,", "\n"])))
        f.write("static void enum_names(int k, J& a, J& b) {\n  switch (k) {\n")
        for k, names in enumerate(decls):
            f.write("  case %d: for (auto const v : {%s}) { a.push(hj::bytes(as_string(v))); std::ostringstream o; o << v; b.push(hj::bytes(o.str())); } break;\n" % (k, ", ".join("en%d::color::%s" % (k, n) for n in names)))
        f.write("  default: _exit(95);\n  }\n}\n")
    ex = c.build_all([dict(src="helpers.cc", name="helpers%d" % k, flags=("-I" + d, "-DPART=%d" % k), opt="-O0") for k in range(1, 6)])
    mc = [("Calendar", "CalendarMC.cfg"), ("Match", "Match_none.cfg"), ("Match", "Match_on.cfg", "Invariant AtMostOne is violated"), ("Match", "Match_last.cfg", "Invariant NoneOnlyIfNone is violated"),
          ("EnumScan", "EnumScan_none.cfg"), ("EnumScan", "EnumScan_blank.cfg", "Invariant Right is violated"), ("EnumScan", "EnumScan_trim.cfg", "Invariant Right is violated"),
          ("BitScan", "BitScan_none.cfg"), ("BitScan", "BitScan_top.cfg", "Invariant All is violated"),
          ("CheckFlow", "CheckFlow_none.cfg"), ("CheckFlow", "CheckFlow_eager.cfg", "Invariant Once is violated"), ("CheckFlow", "CheckFlow_twice.cfg", "Invariant Once is violated")]
    c.model_check_many(mc)
    cs = []
    for _ in range(40 if not T else 400):
        for cond in (False, True):
            for n in range(4):
                for api in ("verify", "silent") + (("utlv",) if n else ()):
                    cs.append(check_case(R, api, cond, n))
        for tag in ("re", "int", "my", "sub"):
            cs.append(check_case(R, "ex", R.random() < 0.4, 0, tag))
    c.conform("checks", ex[0], cs, "HelperConf", "X.cfg", canaries=30)
    cs = []
    for n in (1, 2, 3):
        for hs in itertools.product(CL, repeat=n):
            if hs.count("B") > 1:
                continue
            for dyn in CL + ["null"]:
                if n == 3 and not T and R.random() < 0.4:
                    continue
                cs.append({"fn": "match", "hs": list(hs), "dyn": dyn, "par": "Base"})
                if n < 3:
                    cs.append({"fn": "match", "hs": list(hs), "dyn": dyn, "par": "CBase"})
                    if dyn not in ("Base", "B"):
                        cs.append({"fn": "match", "hs": list(hs), "dyn": dyn, "par": "A"})
    c.conform("match", ex[1], cs, "HelperConf", "X.cfg", canaries=30)
    cs = [[], []]
    for n in (1, 2, 3):
        for hs in itertools.combinations(TY, n):
            for t in TY:
                for how in ["lv", "rv", "clv"] + (["mut", "visit"] if n < 3 else []) + (["arr"] if t == "pc" else []):
                    cs[how in ("mut", "visit")].append({"fn": "over", "hs": list(hs), "t": t, "how": how})
    c.conform("overloaded", ex[2], cs[0], "HelperConf", "X.cfg", canaries=30)
    c.conform("visitors", ex[3], cs[1], "HelperConf", "X.cfg", canaries=30)
    cs = [{"fn": "enum", "n": k, "names": [[ord(x) for x in n] for n in names]} for k, names in enumerate(decls)]
    c.conform("enums", ex[4], cs, "HelperConf", "X.cfg", canaries=10)
    cs = []
    for ty, w in (("u8", 8), ("i8", 8), ("u16", 16), ("i16", 16)):
        ms = list(range(1 << w))
        if w == 16 and not T:
            ms = sorted(set(R.sample(ms, 6000)) | {1 << k for k in range(16)} | {65535 ^ (1 << k) for k in range(16)})
        for k in range(0, len(ms), 256):
            cs.append({"fn": "narrow", "ty": ty, "masks": ms[k:k + 256]})
    for ty, w in (("u8", 8), ("i8", 8), ("u16", 16), ("i16", 16), ("u32", 32), ("i32", 32), ("u64", 64), ("i64", 64)):
        ms = [[]] + [[k] for k in range(w)] + [[j for j in range(w) if j != k] for k in range(w)] + [list(range(w))] + [list(range(k)) for k in range(w)] + [list(range(k, w)) for k in range(w)]
        ms += [sorted(R.sample(range(w), R.randrange(w + 1))) for _ in range(100 if not T else 2000)]
        for m in ms:
            R.shuffle(m)
        for k in range(0, len(ms), 32):
            cs.append({"fn": "bits", "ty": ty, "masks": ms[k:k + 32]})
    c.conform("bits", ex[4], cs, "HelperConf", "X.cfg", canaries=10)
    c.assumptions += ["messages without NUL bytes, arguments of integer, character, truth value and text types", "enumerators without initialisers", "bit positions within the type's width", "wall clock from 1970 to 2216"]
