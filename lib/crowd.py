"""Runs with many jobs and many workers on free-running threads, judged by sums (spec/CrowdOps.tla)."""
BATCHES = [[300], [70000], [66000, 3, 0, 300], [1, 131, 257, 65537], [256, 255, 256, 1], [65536, 65536], [2] * 40, [1000, 0, 0, 1000], [40000] * 3]


def pool(c, exe, what):
    T = c.thorough
    cs = []
    for j, b in enumerate(BATCHES):
        for w in (1, 2, 8, 16):
            for q in range(1 if not T else 6):
                cs.append({"fn": "pool", "what": what, "w": w, "hooks": 1 if what == "life" else (j + w) % 2, "nest": 1 if what == "life" else (j + w // 8) % 2, "batches": b})
    for w in (1, 3, 8, 9, 16, 33):
        cs.append({"fn": "pool", "what": what, "w": w, "hooks": 1, "nest": 0, "batches": []})
        cs.append({"fn": "pool", "what": what, "w": w, "hooks": 1, "nest": 0, "batches": [w * 4] * 30})
    c.conform("crowd", exe, cs, "CrowdConf", "X.cfg", per_case=30, jobs=2, canaries=16 if what != "ends" else 0, min_kill=0.2)


def loops(c, exe, strat):
    T = c.thorough
    cs = []
    k = 0
    for over in range(7):
        for n in (130, 300, 5000) if over == 6 else (129, 300, 40000, 70000):
            for q in range(2 if not T else 10):
                k += 1
                fm, fr, pm, pr = [(0, 0, 0, 0), (1, 0, 0, 0), (7, 3, 0, 0), (0, 0, 5, 2), (300, 299, 0, 0), (2, 1, 3, 0)][k % 6 if strat == 0 else (0 if q == 0 else 1 + k % 5)]
                if n >= 40000 and fm == 1:
                    fm = 9
                cs.append({"fn": "pf", "what": "loop", "w": [8, 2, 16, 1][k % 4], "over": over, "n": n, "strat": strat, "fm": fm, "fr": fr % max(1, fm), "pm": pm, "pr": pr, "mod": [1, 7, 64, 100000][k % 4]})
    c.conform("crowd", exe, cs, "CrowdConf", "X.cfg", per_case=30, jobs=2, canaries=16, min_kill=0.3)
