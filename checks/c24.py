"""C24 line readers."""
import huge



def run(c):
    T, R = c.thorough, c.rng
    exe = c.build("readers.cc")
    c.model_check("Readers", "ReadersMC.cfg")
    texts = c.enumerate("CstrOps", "SeqsUpTo({10, 13, 97}, %d)" % (6 if T else 4))
    cs = []

    def add(kind, t, ops=(), v=0):
        if not t and (kind == "mmap" or (kind == "range" and v == 1)):
            return
        cs.append({"kind": kind, "t": t, "ops": [list(o) for o in ops], "v": v})

    def rops(t, mm):
        o = []
        for _ in range(R.randrange(1, 3 + min(12, len(t)))):
            k = R.random()
            o.append(["mv"] if k < 0.1 else ["ma"] if k < 0.2 else ["rn", R.choice([0, 1, 2, 3, len(t), len(t) + 5, -1, -1, R.randrange(len(t) + 1)])] if k < 0.5 and mm else ["ln"])
        return o

    def allof(t):
        n = t.count(10) + 3
        for k in ("buf", "bufp", "mmap"):
            add(k, t, [["ln"]] * n, 0)
            for _ in range(3):
                add(k, t, rops(t, k == "mmap"), R.randrange(2))
        for k in ("range", "pipe"):
            add(k, t, v=0)
            add(k, t, v=1)
        add("file", t, v=len(t) % 7)
        add("stdin", t)
    for t in texts:
        allof(t)
    for _ in range(150 if not T else 2000):
        allof([R.choice([10, 10, 13, 97, 98, 0, 255, 32]) for _ in range(R.choice([7, 12, 40, 100]))])
    for n in (4095, 4096, 4097, 8192):
        for nl in ([], [n - 1], [0, 1, n - 2], [100, 4000, 4094]):
            t = [97] * n
            for p in nl:
                t[p] = 10
            add("mmap", t, [["ln"]] * (len(nl) + 2))
            add("buf", t, [["ln"]] * (len(nl) + 2))
            add("mmap", t, [["rn", n - 3], ["ln"], ["rn", 9], ["ln"]])
            add("mmap", t, [["ln"], ["rn", n], ["rn", 1], ["ln"]])
            add("file", t)
            add("range", t, v=1)
    # many lines, and lines longer than narrow counters
    for n in (130, 257, 300):
        t = sum(([R.choice([97, 98, 13])] * R.choice([0, 1, 1, 3]) + [10] for _ in range(n)), [])
        t = t[:-1] if R.random() < 0.5 else t
        for k in ("buf", "bufp", "mmap"):
            add(k, t, [["ln"]] * (n + 2), R.randrange(2))
            add(k, t, rops(t, k == "mmap"), R.randrange(2))
        for k in ("range", "pipe"):
            add(k, t, v=0)
            add(k, t, v=1)
        add("file", t)
        add("stdin", t)
    for n in (255, 256, 65535, 65536, 70000):
        t = [97] * n + [10] + [98] * 300 + [10, 99]
        for k in ("buf", "bufp", "mmap"):
            add(k, t, [["ln"]] * 4, R.randrange(2))
        add("mmap", t, [["rn", n], ["ln"], ["rn", n + 5], ["ln"]])
        add("mmap", t, [["rn", n - 1], ["ln"], ["ln"], ["rn", 1], ["ln"]])
        add("range", t, v=n % 2)
        add("file", t)
        add("stdin", t)
    c.conform("readers", exe, cs, "ReadersHist", "ReadersHist.cfg", canaries=40, mutate=mut)
    big = c.build("huge.cc", asan=False, opt="-O2")
    c.conform("huge", big, huge.files(R, T, ["lines", "lines", "chunks"], []), "HugeConf", "X.cfg", canaries=12, per_case=120, jobs=2, min_kill=0.3)
    c.assumptions += ["an empty file cannot be mapped (refused with an exception, see C31)", "a missing file is not asked for its lines"]


def mut(r, rng):
    o = r["out"]
    k = rng.choice(["res", "prog", "rate", "lines"])
    if not o.get(k):
        return None
    x = rng.choice(o[k])
    if k == "rate":
        if r["in"]["kind"] != "mmap":
            return None
        o[k][-1] += 5
    elif isinstance(x, list) and x:
        x[-1] += 1
    else:
        return None
    return r
