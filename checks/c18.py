"""C18 pipelines are lazy and never touch more of the source than the result needs."""
import pipegen


def run(c):
    T = c.thorough
    R = c.rng
    names = ["ref", "val", "gen", "cont", "bare"]
    exes = c.build_all([dict(src="pipes_trace.cc", name="ptrace_" + n, flags=("-DSRC=%d" % k,), opt="-O0") for k, n in enumerate(names)])
    c.model_check("Pipes", "PipesMCt.cfg" if T else "PipesMC.cfg")
    srcs = c.enumerate("PipesOps", "SeqsUpTo(0..2, 4)")
    one = c.enumerate("PipesOps", "Stages")
    deep = (0, 1, 4, 15)
    for src, exe in enumerate(exes):
        cs = []

        def case(a, stages, term, arg):
            if len(stages) == 3 and term not in deep:
                term = R.choice(deep)
            if term == 15:
                arg = arg % 4
            how = 0
            if src == 4:
                how = R.randrange(4)
                if not stages or stages[0][0] != 3:
                    stages = [[3, R.choice([15, 15, 14, R.randrange(16)])]] + stages[:2] if stages else []
                if not stages and term not in (2, 3, 4, 5, 7, 9, 10):
                    term = R.choice([2, 3, 4, 5, 7, 9, 10])
                if len(stages) == 3 and term not in deep:
                    term = R.choice(deep)
                if term == 15:
                    arg = arg % 4
            if src == 2:
                if term == 15 and arg == 0:
                    arg = 1
                if not pipegen.decided(a, stages, term == 4, arg, arg if term == 15 else None):
                    return
            cs.append({"a": list(a), "stages": stages, "term": term, "arg": arg, "how": how})
        k = 0
        for a in srcs:
            for st in one:
                k += 1
                if T or k % 4 == src or src == 2:
                    case(a, [st], k % 16 if k % 16 != 14 else 4, R.randrange(16))
            for t in range(16):
                if t != 14:
                    case(a, [], t, R.randrange(16))
        n0 = len(cs)
        while len(cs) < n0 + (2500 if not T else 30000):
            n = R.choice([0, 1, 2, 3, 5, 8, 13])
            m = R.choice([2, 3, 4])
            t = R.choice([x for x in range(16) if x != 14])
            case([R.randrange(m) for _ in range(n)], [pipegen.stage(R) for _ in range(R.choice([0, 1, 2, 2, 3, 3]))], t, R.randrange(16))
        for n in (130, 257, 300):
            for _ in range(6 if not T else 30):
                st = [R.choice([[0, R.choice([1, 2, 4, 8])], [1, R.randrange(4)], [2, 0], [3, 15], pipegen.stage(R)]) for _ in range(R.choice([0, 1, 2, 3]))]
                case([R.randrange(4) for _ in range(n)], st, R.choice([x for x in range(16) if x != 14]), R.randrange(16))
        c.conform(names[src], exe, cs, "PipesTrace", "X.cfg", canaries=40, min_kill=0.3)
    c.assumptions += ["an element may be read, and a stage function called, more than once for the same element; only order, extent and reachability are judged"]
