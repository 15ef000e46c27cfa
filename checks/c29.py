"""C29 init_from."""
import itertools, os
import initgen


def run(c):
    T, R = c.thorough, c.rng
    parts = []
    n = 8
    scs = [[] for _ in range(n)]
    wide = list(range(1, 32))
    R.shuffle(wide)
    for k, w in enumerate(wide):
        scs[k % n].append(initgen.schema(R, w))
    for k in range(160 if not T else 800):
        scs[k % n].append(initgen.schema(R))
    for k in range(n):
        d = os.path.join(c.work, "gen%d" % k)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "gen.inc"), "w").write(initgen.cpp(scs[k]))
        parts.append(dict(src="init.cc", name="init%d" % k, flags=("-I" + d,)))
    exes = c.build_all(parts)
    c.model_check("InitFrom", "InitMC.cfg")
    for k in range(n):
        cs = []
        for i, s in enumerate(scs[k]):
            ptr = [j for j, m in enumerate(s["src"]) if m["c"] != "v"]
            masks = list(itertools.product((0, 1), repeat=len(ptr))) if len(ptr) <= 4 else [[0] * len(ptr)] + [[int(a == b) for a in range(len(ptr))] for b in range(len(ptr))] + [[R.randrange(2) for _ in ptr] for _ in range(6)]
            for m in masks:
                v = [R.randrange(1, 1000) for _ in s["src"]]
                for b, j in zip(m, ptr):
                    if b:
                        v[j] = -1
                cs.append({"n": i, "src": s["src"], "tgt": s["tgt"], "in": v})
        c.conform("structs%d" % k, exes[k], cs, "InitConf", "X.cfg", canaries=12)
    c.notes["schemas"] = sum(map(len, scs))
    c.assumptions += ["pointers are raw, unique_ptr or shared_ptr", "cista's reflection is replaced by a stand-in (cista is not available offline)"]
