"""Choice of pipeline cases (which inputs to run; never a verdict)."""


def bit(m, v):
    return (m >> (v % 4)) & 1


def fun(k, v):
    return [v + 1, v // 2, 3 - v % 4, 2, 3 * v][k]


def decided(a, stages, find, arg, stop_after=None):
    """does the pipeline stop before running out of a (so that it may run on an infinite source)?"""
    mem = {}
    n = 0
    for v in a:
        ok = True
        for k, (t, p) in enumerate(stages):
            if t == 0 and bit(p, v):
                ok = False
                break
            if t == 1:
                v = fun(p, v)
            if t == 2:
                if mem.get(k) == v:
                    ok = False
                    break
                mem[k] = v
            if t == 3 and not bit(p, v):
                return True
        if ok:
            n += 1
            if find and bit(arg, v):
                return True
            if stop_after is not None and n == stop_after:
                return True
    return False


def stage(R):
    t = R.randrange(4)
    if t in (0, 3):
        m = R.randrange(16)
        if R.random() < 0.5:
            m = R.choice([1, 2, 4, 8]) ^ (15 if t == 3 else 0)
        return [t, m]
    return [t, R.randrange(4) if t == 1 else 0]
