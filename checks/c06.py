"""C06 no data races: happens-before machine over recorded executions of the real code."""
import conc
from conc import case
from poolprogs import B


def run(c):
    exe = conc.build(c)
    T = c.thorough
    c.model_check_many([("HappensBefore", "HappensBefore_2.cfg"), ("HappensBefore", "HappensBefore_3.cfg"), ("HappensBefore", "HappensBefore_4.cfg")] +
                       ([("HappensBefore", "HappensBefore_2t.cfg"), ("HappensBefore", "HappensBefore_3t.cfg"), ("HappensBefore", "HappensBefore_4t.cfg")] if T else []))
    R = dict(mem=1, cap=1, memcap=12 if not T else 80, runs=300 if not T else 2500, seed=c.seed)
    cs = []
    for W in (1, 2, 3):
        for bs in ([], [B(1)], [B(3), B(2)], [B(2), B(0), B(1)], [B(2, [(0, 2)])], [B(4), B(1), B(2)]):
            cs.append(case(prog="pool", batches=bs, hooks=1, workers=W, **R))
        for over in range(8):
            for strat in (0, 1):
                cs.append(case(prog="pf", n=4, over=over, strat=strat, progress=(over + W) % 2, fail=[0, 1, 2 if (over + W) % 2 else 3, 0], workers=W, **dict(R, runs=R["runs"] // 2, memcap=R["memcap"] // 3)))
    TR = dict(prog="tr", low=0, high=800, mod=8, in_high=8, in0=0, workers=3)
    for th in ([[[2, 1], [2, 2]], [[2, 1]]], [[[1, 3], [1, 5]], [[3, 4]], [[1, 2]]], [[[0, 3], [4, 1]], [[5, 2], [5, 3]], [[6, 0]]], [[[5, 1], [6, 0], [6, 1]], [[5, 2]], [[2, 8]]]):
        cs.append(case(threads=th, **dict(TR, **R)))
    for th in ([[[0, 0, 0], [4, 0, 30], [7, 0, 0]], [[1, 1, 0], [5, 1, 3], [3, 0, 0]]],
               [[[2, 0, 0], [8, 0, 50]], [[2, 1, 0], [3, 0, 0]], [[7, 0, 0]]],
               [[[5, 0, 2], [6, 0, 0]], [[5, 0, 4], [4, 0, 77]]],
               [[[1, 0, 0], [1, 2, 0]], [[3, 0, 0], [3, 0, 0]], [[9, 2, 0]]],
               [[[7, 0, 0], [10, 0, 0]], [[0, 0, 0], [5, 1, 3]]]):
        for silent in (0, 1):
            cs.append(case(prog="rg", threads=th, silent=silent, workers=2, **dict(R, runs=60 if not T else 800, memcap=4 if not T else 20)))
    conc.judge_races(c, exe, cs, "races")
    c.assumptions += ["races are decided on the executed (sequentially consistent) schedules with the memory orders the code asked for; memory touched inside libstdc++'s compiled parts is not observed"]
