"""C17 pipelines compute what eager evaluation computes."""
import pipegen

# type: (value bits below the sign, signed, scales)
TYPES = {"i8": (7, 1, (0, 4)), "u8": (8, 0, (0, 4)), "i16": (15, 1, (0, 11)), "u16": (16, 0, (0, 12)), "i32": (31, 1, (0, 8, 27)), "u32": (32, 0, (0, 28)),
         "i64": (63, 1, (0, 31, 40)), "u64": (64, 0, (0, 31, 41)), "flt": (24, 1, (-3, 0)), "dbl": (53, 1, (-10, 0, 33))}


def numbers(R, T):
    cs = []
    base = {"s": 0, "rep": 1, "k": 0, "mask": 0, "init": 0, "stage": 0, "base": 0, "variant": 0}

    def add(**k):
        cs.append({**base, **k})
    for t, (bits, sg, scales) in TYPES.items():
        fl = t in ("flt", "dbl")
        for s in scales:
            top = min(7, 2 ** max(0, bits - s - 1) - 1) if not fl else 7
            lo = -top if sg else 0
            for q in range(14 if not T else 120):
                a = [R.randrange(lo, top + 1) for _ in range(R.choice([1, 2, 3, 5, 7]))]
                pos = [abs(x) for x in a]
                big = R.choice([1, 1, 2, 300, 9400, 14000])
                while (big * len(a) * 7 if t != "flt" else big * len(a) * 7 * 8) > 2 ** min(24 if t == "flt" else 19, 63 - max(s, 0)):
                    big = max(1, big // 2)
                k = q % 3
                add(t=t, op="sum", s=s, a=a if fl else pos, rep=big, k=k)
                add(t=t, op="wide", s=s, a=a, rep=big)
                add(t=t, op="avg", s=s, a=a, rep=big, k=k % 2)
                add(t=t, op="max", s=s, a=a, rep=R.choice([0, 1, 2]), init=R.choice([lo, lo, 0, top, R.randrange(lo, top + 1)]), k=k % 2)
                add(t=t, op="max", s=s, a=[-abs(x) for x in a] if sg else a, rep=1, init=lo, k=k % 2)
        for q in range(6 if not T else 30):
            a = [R.randrange(4) for _ in range(R.choice([1, 2, 5, 7]))]
            rep = R.choice([9400, 14000, 66000 // len(a), 66000 // len(a) + 1, 70000])
            add(t=t, op="count", a=a, rep=rep, mask=R.choice([15, 15, R.randrange(16)]), k=q % 2)
            for st in range(7):
                if t not in ("i8", "u8", "flt", "i64") or T or st < 3:
                    add(t=t, op="len", a=a, rep=rep, mask=R.choice([15, 15, 0, R.randrange(16)]), stage=st)
        if not fl:
            for b in (-1, 0, 1):
                for f in range(-6, 7):
                    for to in range(-6, 7):
                        if (b < 0 and min(f, to) < 0) or (b > 0 and max(f, to) > 0) or (b == 0 and not sg and min(f, to) < 0):
                            continue
                        if t == "u64" and b > 0:
                            continue
                        if T or (f + to) % 3 == 0 or f == to or max(f, to) == 0:
                            add(t=t, op="iota", a=[f, to], base=b, variant=(f + 2 * to) % 4)
    return cs


def run(c):
    T = c.thorough
    R = c.rng
    # (tag, SRC, ELEM, LV)
    kinds = [("v", 0, 0, 0), ("cl", 1, 0, 0), ("own", 2, 0, 0), ("it", 3, 0, 0), ("iota", 4, 0, 0), ("bare", 5, 0, 0),
             ("vh", 0, 1, 0), ("ownh", 2, 1, 0), ("vlv", 0, 0, 1), ("ownlv", 2, 1, 1), ("iotalv", 4, 0, 1)]
    if T:
        kinds += [("ith", 3, 1, 0), ("itlv", 3, 0, 1), ("cllv", 1, 0, 1), ("vhlv", 0, 1, 1), ("clh", 1, 1, 0)]
    exes = c.build_all([dict(src="pipes.cc", name="pipes_" + k[0], flags=("-DSRC=%d" % k[1], "-DELEM=%d" % k[2], "-DLV=%d" % k[3]), opt="-O0") for k in kinds])
    c.model_check("Pipes", "PipesMCt.cfg" if T else "PipesMC.cfg")
    srcs = c.enumerate("PipesOps", "SeqsUpTo(0..2, 4)")
    one = c.enumerate("PipesOps", "Stages")
    two = c.enumerate("PipesOps", "{<<s, t>> : s \\in {<<0, 2>>, <<0, 6>>, <<0, 15>>, <<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 0>>, <<3, 3>>, <<3, 5>>, <<3, 0>>}, "
                      "t \\in {<<0, 2>>, <<0, 6>>, <<0, 15>>, <<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 0>>, <<3, 3>>, <<3, 5>>, <<3, 0>>}}")
    for (tag, src, elem, lv), exe in zip(kinds, exes):
        allt = [t for t in range(15) if not (elem and t in (5, 6, 7))]
        cs = []

        def case(a, stages, term, arg, s=src):
            if s == 5:
                if stages and stages[0][0] != 3:
                    s = R.choice([9, 10])
                else:
                    s = R.choice([5, 6, 7, 8, 9, 10])
                if s in (5, 6, 7, 8) and not stages:
                    term = R.choice([2, 3, 4, 5, 7, 9, 10, 14])
                if s == 8 and stages:
                    s = 5
                if s in (9, 10):
                    a = (list(a) + [R.randrange(4) for _ in range(3)])[:3]
            if s == 4:
                a = [R.randrange(0, 6), R.randrange(0, 12)] if R.random() < 0.8 else [R.choice([0, 3, 7])] * 2
            if len(stages) == 3:
                term = R.choice([0, 1, 13])
            if term == 7:
                arg = R.choice([0, 2, 9])
            cs.append({"src": s, "a": list(a), "stages": stages, "term": term, "arg": arg, "lv": lv})
        k = 0
        for a in srcs:
            for st in one:
                k += 1
                if T or k % 3 == 0:
                    case(a, [st], allt[k % len(allt)], R.randrange(16))
        for st in two:
            for a in srcs:
                k += 1
                if T or k % 5 == 0:
                    case(a, st, allt[k % len(allt)], R.randrange(16))
        for a in srcs:
            for t in allt:
                case(a, [], t, R.randrange(16))
        for _ in range(1500 if not T else 20000):
            n = R.choice([0, 1, 2, 3, 5, 8, 13, 40])
            m = R.choice([2, 3, 4, 9])
            case([R.randrange(m) for _ in range(n)], [pipegen.stage(R) for _ in range(R.choice([0, 1, 2, 2, 3, 3, 3]))], R.choice(allt), R.randrange(16))
        for n in (130, 257, 300):      # longer than narrow counters
            for _ in range(12 if not T else 60):
                m = R.choice([2, 3, 4, 9])
                z = src
                if z == 4:
                    cs.append({"src": 4, "a": [R.randrange(4), n], "stages": [pipegen.stage(R) for _ in range(R.choice([0, 1, 2]))], "term": R.choice([t for t in allt if t not in (7, 14)]), "arg": R.randrange(16), "lv": lv})
                else:
                    case([R.randrange(m) for _ in range(n)], [pipegen.stage(R) for _ in range(R.choice([0, 1, 2, 2, 3]))], R.choice(allt), R.randrange(16))
        c.conform(tag, exe, cs, "PipesConf", "X.cfg", canaries=30)
    exe = c.build("nums.cc", opt="-O1")
    c.conform("numbers", exe, numbers(R, T), "NumConf", "X.cfg", canaries=30)
    c.assumptions += ["stage functions are pure", "sources with proxy references (vector<bool>) under unique are not used",
                      "avg of an empty range is only required to be NaN; sum is used on non-negative values"]
