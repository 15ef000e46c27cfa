"""C28 command line flags."""
enc = lambda s: [ord(x) for x in s]
NAMES = {"o1": ["-n", "--num", "--name", "-v", "-d", "--dist"], "o2": ["-r", "--req", "-b", "--bool", "--on", "-c", "--a_very_long_option_name"],
         "o3": ["-a", "--a", "-ab", "--ab", "-A", "--aba"],
         "o4": ["-c", "-p", "--path"]}
BOOL = {"-v", "-b", "--bool", "--on", "-A", "--aba"}
NEED = {"o1": [["-n", "4"]], "o2": [["-r", "x"], ["--req", "8"], ["-b"]], "o3": [], "o4": [["-p", "/x y"]]}


def run(c):
    T, R = c.thorough, c.rng
    exe = c.build("cmdline.cc")
    for k in (1, 2, 3):
        c.model_check("Cmd", "CmdMC_o%d.cfg" % k)
    cs = []
    for cfg, names in NAMES.items():
        words = names + ["7", "-5"] + (["x y"] if cfg == "o2" else [])
        for ix in c.enumerate("Seqs", "SeqsUpTo(1..%d, %d)" % (len(words), 4 if T else 3)):
            if len(ix) == 3 and not T and R.random() > 0.6:
                continue
            a = [words[k - 1] for k in ix]
            for need in ([], sum(NEED[cfg], [])):
                if need or not NEED[cfg]:
                    k = R.choice([0, len(a)])
                    cs.append(case(cfg, a[:k] + need + a[k:]))
                elif R.random() < 0.5:
                    cs.append(case(cfg, a))
        for _ in range(600 if not T else 8000):
            groups = [g for g in NEED[cfg] if R.random() < 0.85]
            for _ in range(R.randrange(0, 7)):
                n = R.choice(names)
                v = R.choice(["0", "12", "-3", "2147483647", "-2147483648", "+6"])
                if n in ("--name", "-r", "-c", "-p", "--path", "--a_very_long_option_name"):
                    v = R.choice([v, "hello", "a b", "-x", "--nam", "nam", "\xe4", "x" * 40, "-", "--", "true"])
                if n in ("-d", "--dist"):
                    v = R.choice([v if len(v) < 5 else "3", "1.25", "-0.5", "1000", ".125"])
                groups.append([n] if n in BOOL else [n, v])
                if R.random() < 0.2:
                    groups.append([R.choice(["--unknown", "-z", "word", "-", "--", n + "x", n[:-1], n.upper(), "=" + n, n + "=4", "-" + n, " " + n])])
            R.shuffle(groups)
            a = ["./exe"] * (R.random() < 0.7) + sum(groups, [])
            if R.random() < 0.1:
                a.append(R.choice(names))
            if R.random() < 0.1:
                a.insert(R.randrange(len(a) + 1), "")
            cs.append(case(cfg, a))
        for n in (130, 257, 300):
            groups = [["--unknown"]] * n + sum(([[x] if x in BOOL else [x, "5"]] for x in R.sample(names, 2)), []) + [list(x) for x in NEED[cfg]]
            if R.random() < 0.5:
                R.shuffle(groups)
            cs.append(case(cfg, sum(groups, [])))
            cs.append(case(cfg, sum([[R.choice(names)] for _ in range(3)], []) + ["w"] * n + sum(NEED[cfg], [])))
    c.conform("flags", exe, cs, "CmdConf", "X.cfg", canaries=40, mutate=mut)
    c.assumptions += ["empty values, and a last use without a value after uses with one, are not judged; nor are numbers that are not numbers",
                      "a value that looks like an option name also counts as a use of that option, as documented in the specification"]


def case(cfg, a):
    return {"cfg": cfg, "args": [enc(x) for x in a]}


def mut(r, rng):
    o = r["out"]
    k = rng.choice(["thr", "vals", "vals", "desc", "print"])
    if k == "thr" or not o.get("vals"):
        o["thr"] = not o["thr"]
        if not o["thr"]:
            return r
        o["what"] = [45]
    elif k == "vals" or not o[k]:
        j = rng.randrange(len(o["vals"]))
        o["vals"][j] = o["vals"][j] + [50]
    else:
        p = rng.randrange(len(o[k]))
        o[k][p] = o[k][p] % 100 + 1
    return r
