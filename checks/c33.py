"""C33 log lines and timers."""
SITES = [("plain.cc", 7), ("deep file.h", 12345), ("x", 1), ("", 99)]
enc = lambda s: [ord(x) for x in s]


def text(R, n=10):
    return [R.choice([32, 37, 40, 41, 48, 49, 58, 91, 93, 97, 98, 109, 115, 123, 125, 92, 195, 164, 9]) for _ in range(R.randrange(n))]


def piece(R):
    ty = R.choice("iicbusvpl")
    n, t = 0, []
    if ty == "i":
        n = R.choice([0, 1, -1, 10, 2147483647, -2147483647, R.randrange(-10**9, 10**9)])
    elif ty == "c":
        n = R.choice([97, 91, 32, 37])
    elif ty == "b":
        n = R.randrange(2)
    elif ty == "u":
        t = enc(str(R.choice([0, 2**32, 2**64 - 1, R.randrange(2**64)])))
    else:
        t = text(R, R.choice([3, 10, 300]))
    return {"ty": ty, "n": n, "t": t}


def wall(R):
    return {"op": "wall", "day": R.choice([0, 58, 59, 60, 364, 365, 10956, 11016, 11015, 19782, 24837, 47482, 47540, 47541, R.randrange(0, 60000), R.randrange(0, 2932800), R.randrange(-60000, 0)]),
            "sec": R.choice([0, 1, 59, 60, 61, 3599, 3600, 43199, 43200, 86399, R.randrange(86400)])}


def adv(R, short=False):
    k = R.random()
    if k < 0.15:
        return {"op": "adv", "s": 0, "ns": R.choice([0, 1, 499, 500, 999, 1000, 1001, 1999, 999999, 1000000, 999999999])}
    if k < 0.75 or short:
        return {"op": "adv", "s": R.choice([0, 0, 0, 0, R.randrange(60), R.randrange(300)]), "ns": R.randrange(10**R.choice([3, 4, 5, 6, 7, 8, 9]))}
    return {"op": "adv", "s": R.choice([999, 1000, 3600, 86400, R.randrange(10**R.randrange(1, 7))]), "ns": R.randrange(10**9)}


def logop(R, lvl=None, site=None, n=None):
    site = R.randrange(4) if site is None else site
    return {"op": "log", "lvl": R.randrange(8) if lvl is None else lvl, "site": site, "file": enc(SITES[site][0]), "line": SITES[site][1],
            "pieces": [piece(R) for _ in range(R.randrange(4) if n is None else n)]}


def history(R):
    t, marks, ops, total = {1: "-", 2: "-", 3: "-"}, {1: 0, 2: 0}, [wall(R)], 0
    short = R.random() < 0.6
    for _ in range(R.randrange(3, 16)):
        k = R.randrange(1, 4)
        x = R.random()
        if x < 0.3:
            a = adv(R, short)
            total += a["s"] + 1
            ops.append(a)
        elif x < 0.37:
            ops.append(wall(R))
        elif x < 0.45:
            ops.append(logop(R))
        elif x < 0.5:
            ops.append({"op": "now"})
        elif x < 0.6:
            j = R.randrange(1, 3)
            y = R.choice(["tstart", "tstop", "tget", "tread"])
            if y == "tread" and not marks[j]:
                y = "tstop"
            if y == "tstart":
                marks[j] = 0
            if y == "tstop":
                marks[j] = 1
            o = {"op": y, "k": j, "u": R.choice(["ms", "us"]) if total < 2000 else "ms"}
            if total > 2000000 and y in ("tget", "tread"):
                continue
            ops.append(o)
        elif t[k] == "-":
            t[k] = R.choice(["scoped", "manual"])
            ops.append({"op": "new", "k": k, "kind": t[k], "name": text(R, R.choice([1, 5, 12, 80]))})
        else:
            y = R.random()
            if y < 0.4:
                ops.append({"op": "print", "k": k, "msg": text(R, R.choice([1, 10, 100]))})
            elif y < 0.6 and t[k] == "manual":
                ops.append({"op": "stop", "k": k})
            elif y < 0.7 and t[k] == "manual" and "-" in t.values():
                j = next(q for q in t if t[q] == "-")
                t[j] = "manual"
                ops.append({"op": "copy", "k": k, "j": j})
            elif y < 0.8 and t[k] == "scoped":
                t[k] = "-"
                ops.append({"op": "unwind", "k": k})
            else:
                t[k] = "-"
                ops.append({"op": "del", "k": k})
    for k in t:
        if t[k] != "-":
            ops.append({"op": "del", "k": k})
    return ops


def run(c):
    T, R = c.thorough, c.rng
    exe = c.build("log.cc", flags=("-w",), opt="-O0", repo_srcs=("src/timer.cc",))
    c.model_check_many([("Calendar", "CalendarMC.cfg"), ("Timers", "Timers_none.cfg"), ("Timers", "Timers_wall.cfg", "is violated"), ("Timers", "Timers_quiet.cfg", "GoneSaid is violated")])
    cs = []
    for lvl in range(8):
        for site in range(4):
            for n in range(4):
                cs.append({"base": 5, "ops": [wall(R), logop(R, lvl, site, n), logop(R, lvl, site, n)]})
    for kind in ("scoped", "manual"):
        for s in [0, 1, 59, 60, 99, 100, 999, 1000, 1001, 9999, 10000, 99999, 1000000, 10000000]:
            for ns in [0, 1, 999, 1000, 1001, 10000, 100000, 123000, 123456, 500000, 999999, 1000000, 10000000, 100000000, 123456789, 500500500, 999999999]:
                cs.append({"base": R.choice([0, 1, 10**6]), "ops": [{"op": "new", "k": 1, "kind": kind, "name": enc("t")}, {"op": "adv", "s": s, "ns": ns}, {"op": "print", "k": 1, "msg": enc("m")},
                                                                 {"op": "stop", "k": 1} if kind == "manual" else {"op": "now"}, {"op": "del", "k": 1}]})
    for d in range(0, 60 if not T else 2000):
        cs.append({"base": 0, "ops": [{"op": "time", "day": (x := wall(R))["day"], "sec": x["sec"]} for _ in range(20)]})
    for _ in range(1500 if not T else 20000):
        cs.append({"base": R.choice([0, 1, 1000, 10**9]), "ops": history(R)})
    c.conform("log", exe, cs, "LogHist", "LogHist.cfg", canaries=40)
    c.assumptions += ["the log stream's formatting flags are the default ones", "one thread logs at a time", "elapsed times are compared in their leading six digits (the stream's precision)", "years 1 to 9999"]
