"""Random valid iterator programs (which inputs to run; never a verdict)."""


def program(R, caps, n, init, length, comps):
    pos = list(init)
    nr = len(pos)
    out = []
    tries = 0
    while len(out) < length and tries < length * 20:
        tries += 1
        c = R.choice(caps)
        r = R.randrange(nr)
        q = R.randrange(nr)
        p = pos[r]
        if c in ("inc", "vinc"):
            if p < n:
                pos[r] += 1
                out.append([c, r + 1])
        elif c == "dec":
            if p > 0:
                pos[r] -= 1
                out.append([c, r + 1])
        elif c == "pinc":
            if p < n:
                pos[r] += 1
                pos[q] = p
                out.append([c, r + 1, q + 1])
        elif c == "pdec":
            if p > 0:
                pos[r] -= 1
                pos[q] = p
                out.append([c, r + 1, q + 1])
        elif c in ("get", "arr"):
            if p < n:
                out.append([c, r + 1])
        elif c in ("add", "sub", "uadd", "usub", "plus", "kplus", "minus"):
            t = R.randrange(0, n + 1)
            k = t - p if c in ("add", "uadd", "plus", "kplus") else p - t
            if c[0] == "u" and k < 0:
                continue
            if c in ("plus", "kplus", "minus"):
                pos[q] = t
                out.append([c, r + 1, k, q + 1])
            else:
                pos[r] = t
                out.append([c, r + 1, k])
        elif c == "at":
            if n:
                out.append([c, r + 1, R.randrange(n) - p])
        elif c in ("atend", "sdiff"):
            out.append([c, r + 1])
        elif c == "set":
            if p < n and comps:
                out.append([c, r + 1, R.choice(comps), R.randrange(50, 99)])
        elif c == "copy":
            pos[q] = p
            out.append([c, r + 1, q + 1])
        else:
            out.append([c, r + 1, q + 1])
    return out


def tla_set(caps):
    return "{" + ", ".join('"%s"' % x for x in caps) + "}"


def mutate(r, rng):
    o = r["out"]
    k = rng.choice(["rets", "all", "after", "cat"])
    if k == "rets":
        ls = [x for x in o["rets"] if x]
        if not ls:
            return None
        rng.choice(ls)[0] += 1
    elif k == "cat":
        o["cat"] += 1
    elif k == "all":
        if not o["all"]:
            return None
        rng.choice(o["all"])[0] += 1
    else:
        if not o["after"][-1]:
            return None
        o["after"][-1][0] += 1
    return r


def long_cases(c, kind, variants, w=1, lens=(300, 70000), per=2):
    """ranges longer than an 8 or 16 bit counter, observed around the wrap-around points"""
    R, cs = c.rng, []
    for v, (cols, caps, wr, cat, owned, con) in variants.items():
        if con:
            continue
        for n in lens:
            for _ in range(per if n < 1000 else 1):
                d = [[R.randrange(50) for _ in range(R.choice([5, 7, 11]))] for _ in range(cols)]
                m = n - w + 1
                samp = sorted({p for p in (0, 1, 127, 128, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, m - 2, m - 1) if p < m})
                init = [R.choice([0, m, m, m - 1, R.choice(samp)]) for _ in range(3)]
                cs.append({"kind": kind, "variant": v, "d": d, "init": init, "ops": program(R, caps, m, init, 12, wr), "cat": cat, "owned": owned, "w": w, "len": n, "samp": samp})
    return cs


def cases(c, kind, variants, small, w=1):
    """variants: {number: (columns, caps, writable columns, category, owned, column constraint)}"""
    T, R = c.thorough, c.rng
    cs = []
    for v, (cols, caps, wr, cat, owned, con) in variants.items():
        def data(n):
            d = []
            for k in range(cols):
                col = [R.randrange(50) for _ in range(n)]
                if con == "set" and k == cols - 1:
                    col = sorted(R.sample(range(100), n))
                d.append(col)
            return d
        n = 3 if con == "3" else 1 + w
        d = [[10 * (k + 1) + j for j in range(n)] for k in range(cols)]
        key = (tuple(caps), n, tuple(wr), cols, w)
        if key not in small:
            small[key] = c.enumerate("CursorOps", "{b[1] : b \\in Programs(\"%s\", %s, <<0, %d>>, %s, {%s}, %d, %d)}" % (
                kind, str(d).replace("[", "<<").replace("]", ">>"), n - w + 1, tla_set(caps), ", ".join(map(str, wr)), w, 2 if not T or len(caps) > 12 else 3))
        progs = small[key]
        if len(progs) > (700 if not T else 20000):
            progs = R.sample(progs, 700 if not T else 20000)
        for p in progs:
            cs.append({"kind": kind, "variant": v, "d": d, "init": [0, n - w + 1], "ops": [list(x) for x in p], "cat": cat, "owned": owned, "w": w})
        for _ in range(250 if not T else 4000):
            n = 3 if con == "3" else R.choice([0, 1, 2, 3, 4, 6, 9])
            dd = data(n)
            m = max(0, n - w + 1)
            init = [R.randrange(m + 1) for _ in range(3)]
            cs.append({"kind": kind, "variant": v, "d": dd, "init": init, "ops": program(R, caps, m, init, R.randrange(1, 16), wr), "cat": cat, "owned": owned, "w": w})
    return cs
