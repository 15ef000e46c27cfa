"""C31 file access."""
import huge

NO = ["-"]


def data(R, big=True):
    n = R.choice([0, 1, 2, 3, 10, 100, 511, 512, 513, 4095, 4096, 4097, 8191, 8192, 8193, 20000] + ([65535, 65536, 65537, 200000, 1 << 20, (1 << 20) + 1, 5000000] if big else []))
    o, left = [], n
    while left:
        k = min(left, R.choice([1, 1, 2, 7, 100, 4096, left, left]))
        b = R.choice([0, 10, 13, 26, 97, 255, 128, R.randrange(256)])
        if len(o) > 40:
            k = left
        if o and o[-1][0] == b:
            b = (b + 1) % 256
        o.append([b, k])
        left -= k
    return o, n


def rfault(R, n):
    return R.choice([NO, NO, NO, ["seek"], ["tell"], [R.choice(["short", "sheof"]), R.choice([0, 1, max(0, n - 1), n // 2, n, n + 1, 4096])]])


def rffault(R, n):
    k = R.choice([0, 1, max(0, n - 1), n // 2, n, 4096])
    return R.choice([NO, NO, ["rd", k], ["rerr", k], ["chunk", R.choice([1000, 4096, 8191])] if n > 100000 else ["chunk", R.choice([1, 3, 100, 4096])], ["eintr", R.choice([1, 2, 5])], ["lseek", R.randrange(3)]])


def mmfault(R):
    return R.choice([NO, NO, NO, ["open"], ["fstat"], ["mmap"]])


def run(c):
    T, R = c.thorough, c.rng
    exe = c.build("files.cc", flags=("-ldl",))
    c.model_check_many([("FileRead", "FileRead_a.cfg"), ("FileRead", "FileRead_b.cfg"), ("FileRead", "FileRead_F_seek.cfg", "Invariant ExactOrLoud is violated"), ("FileRead", "FileRead_F_read.cfg", "Invariant ExactOrLoud is violated")])
    cs = []
    # every size around the block sizes through every way of reading, in one go
    for n in [0, 1, 2, 255, 256, 257, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 131072, 1 << 20, (1 << 20) + 3] + ([(1 << 24) + 1] if T else []):
        d = [[0, n]] if n % 2 and n > 2 else ([[255, n - 1], [10, 1]] if n > 1 else [[7, n]] if n else [])
        cs.append({"ops": [["open", 1, "w+"], ["wr", d, NO], ["get", NO], ["gets", NO], ["size", NO], ["get", NO], ["close"],
                           ["open", 1, "r"], ["get", NO], ["gets", NO], ["get", NO], ["close"], ["rf", 1, NO], ["mm", 1, NO], ["mm", 1, NO], ["rf", 1, NO]]})
        for ft in (["seek"], ["tell"], ["short", n - 1], ["short", n // 2], ["short", 0], ["short", n], ["sheof", n - 1], ["sheof", n // 2], ["sheof", 0]):
            for op in ("get", "gets", "size"):
                if ft[0] in ("short", "sheof") and (ft[1] < 0 or op == "size"):
                    continue
                cs.append({"ops": [["open", 2, "w"], ["wr", d, NO], ["close"], ["open", 2, R.choice(["r", "r+", "a+"])], [op, ft], [op, NO], ["close"]]})
        for ft in (["rd", n - 1], ["rd", 0], ["rerr", n - 1], ["rerr", n // 2], ["rerr", 0], ["chunk", 1 + n // 20], ["eintr", 3], ["lseek", 0], ["lseek", 1], ["lseek", 2]):
            if ft[1] >= 0:
                cs.append({"ops": [["open", 2, "w"], ["wr", d, NO], ["close"], ["rf", 2, ft], ["rf", 2, NO]]})
        for ft in (["open"], ["fstat"], ["mmap"]):
            cs.append({"ops": [["open", 2, "w"], ["wr", d, NO], ["close"], ["mm", 2, ft], ["mm", 2, NO]]})
        for k in {0, 1, n // 2, max(0, n - 1)}:
            if k < n:
                cs.append({"ops": [["open", 3, "w+"], ["wr", [[9, 5]], NO], ["wr", d, ["wshort", k]], ["close"], ["rm", 3]]})
    for f in (0, -1, -2, 1):
        for m in ("r", "r+", "w+", "w", "a+"):
            if (f == 0 and m != "r") or f != 0:
                if f == 1 and m[0] != "r":
                    continue
                cs.append({"ops": [["open", f, m], ["rf", f, NO], ["mm", f, NO]]})
    cs.append({"ops": [["open", 0, "r"], ["get", NO], ["gets", NO], ["close"]]})
    for _ in range(800 if not T else 10000):
        cs.append({"ops": history(R)})
    c.conform("files", exe, cs, "FileHist", "FileHist.cfg", canaries=40, mutate=mut)
    big = c.build("huge.cc", asan=False, opt="-O2")
    deep = [(1 << 31) + 3, (1 << 32) + 7]
    c.conform("huge", big, huge.files(R, T, ["size", "mm", "chunks"], []) + huge.files(R, T, ["get", "gets", "rf"], deep if T else deep[:1]),
              "HugeConf", "X.cfg", canaries=12, per_case=120, jobs=2, min_kill=0.3)
    c.assumptions += ["failures that stdio reports only when buffered data is flushed on close, and writes after reading through the same handle, are not specified",
                      "system call failures are produced by replacing the libc entry points for the duration of one operation"]


def history(R):
    ops, size, ex, h = [], {1: 0, 2: 0, 3: 0}, {1: False, 2: False, 3: False}, None
    for _ in range(R.randrange(3, 14)):
        if h is None:
            f = R.randrange(1, 4)
            k = R.random()
            if k < 0.5:
                m = R.choice(["r", "r", "w+", "w", "a+", "a", "r+"])
                ops.append(["open", f, m])
                if m in ("r", "r+") and not ex[f]:
                    continue
                if m in ("w", "w+") or not ex[f]:
                    ex[f], size[f] = True, 0
                h = [f, m, True]
            elif k < 0.7:
                ops.append(["rf", f, rffault(R, size[f])])
            elif k < 0.9:
                ops.append(["mm", f, mmfault(R)])
            elif ex[f]:
                ops.append(["rm", f])
                ex[f], size[f] = False, 0
        else:
            f, m, clean = h
            k = R.random()
            if k < 0.4 and clean and m in ("w", "w+", "a", "a+"):
                d, n = data(R, R.random() < 0.2)
                ft = NO if R.random() < 0.9 or not n else ["wshort", R.choice([0, 1, n - 1, n, n + 5])]
                ops.append(["wr", d, ft])
                size[f] += n
                if ft is not NO and ft[1] < n:
                    h[2] = False
            elif k < 0.5 and m in ("r",):
                d, n = data(R, False)
                ops.append(["wr", d, NO])
                if n:
                    h[2] = False
                    ops.append(["close"])
                    ops.append(["rm", f])
                    ex[f], size[f], h = False, 0, None
            elif k < 0.85:
                ops.append([R.choice(["get", "gets", "size"]), rfault(R, size[f])])
                h[2] = False
            else:
                ops.append(["close"])
                h = None
    if h:
        ops.append(["close"])
        ops.append(["rf", h[0], NO])
    return ops


def mut(r, rng):
    ks = [k for k, o in enumerate(r["in"]["ops"]) if o[0] in ("get", "gets", "rf", "mm")]
    if not ks:
        return None
    k = rng.choice(ks)
    o = r["out"]["res"][k]
    if rng.random() < 0.3 or not o["dat"]:
        o["x"] = not o["x"]
    else:
        x = rng.choice(o["dat"])
        x[1] = x[1] - 1
        o["n"] -= 1
    return r
