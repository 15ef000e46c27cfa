"""Programs over one shared progress tracker."""
import itertools
from conc import case

SETTINGS = [(0, 800, 8, 8), (0, 800, 8, 100), (80, 480, 160, 6), (0, 800, 800, 9), (240, 240, 8, 4), (0, 400, 20, 7)]


def values(c):
    T = c.thorough
    shapes = [[[[2, 1], [2, 2]], [[2, 3]]], [[[1, 2], [1, 5]], [[1, 4]]], [[[1, 5]], [[1, 3]], [[1, 4]]], [[[2, 1]], [[2, 1]], [[2, 1]]],
              [[[4, 1], [4, 1]], [[2, 2]]], [[[3, 4]], [[1, 2], [1, 6]]], [[[0, 3]], [[0, 5]]], [[[0, 7], [2, 1]], [[1, 3]]],
              [[[2, 2]], [[1, 3]]], [[[1, 1], [2, 4]], [[2, 1], [1, 2]]], [[[0, 2]], [[2, 3]], [[1, 4]]], [[[2, 0]], [[1, 0]]],
              [[[2, 1], [2, 1], [2, 1]], [[2, 1], [2, 1]]], [[[1, 8]], [[0, 2]]], [[[4, 1]], [[3, 2]], [[4, 1]]]]
    cs = []
    for k, th in enumerate(shapes):
        for j, (lo, hi, mod, ih) in enumerate(SETTINGS):
            if not T and (k + j) % 2 and j > 2:
                continue
            P = dict(prog="tr", threads=th, low=lo, high=hi, mod=mod, in_high=ih, in0=(k + j) % 3 if k % 2 else 0, workers=3, seed=c.seed * 10 + j)
            cs.append(case(runs=250 if not T else 4000, cap=400 if not T else 4000, **P))
            if len(th) == 2 and j in (0, 3):
                cs.append(case(mode="delay", delays=2, runs=1500 if not T else 20000, cap=1500, **P))
    return cs


def settings(c):
    T = c.thorough
    shapes = [[[[5, 1], [5, 2]], [[5, 1]]], [[[6, 0]], [[6, 0]]], [[[6, 0], [6, 1]], [[6, 1]]], [[[5, 1], [6, 0]], [[6, 0], [5, 2]]], [[[5, 1]], [[5, 1]], [[5, 1]]],
              [[[5, 3], [5, 3]], [[6, 1], [5, 3]]]]
    cs = []
    for k, th in enumerate(shapes):
        P = dict(prog="tr", threads=th, low=0, high=800, mod=8, in_high=8, in0=0, workers=3, seed=c.seed * 10 + k)
        cs.append(case(runs=300 if not T else 5000, cap=500 if not T else 5000, **P))
        cs.append(case(mode="delay", delays=2, runs=800 if not T else 20000, cap=1500, **P))
    return cs
