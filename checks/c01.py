"""C01 thread pool: every job exactly once, before execute() returns."""
import conc, crowd, poolprogs
from conc import case
from poolprogs import B


def models(c, extra=()):
    ok = ["a", "b", "c", "d"] + (["e", "f"] if c.thorough else [])
    c.model_check_many([("ThreadPoolMC", "ThreadPoolMC_%s.cfg" % k) for k in ok] +
                       [("ThreadPoolMC", "ThreadPoolMC_F_%s.cfg" % f, r"Invariant \w+ is violated") for f in extra])


def run(c):
    exe = conc.build(c)
    models(c, ("counter_only", "active_only", "no_counter_reset", "split_fetch_add"))
    progs = poolprogs.programs(c, nested=True, thorough=c.thorough, kinds=("pb", "xb", "js", "je", "xe", "db", "de"))
    conc.judge(c, exe, progs, "pool", "PoolTrace", "PoolTraceJobs.cfg", ("js", "je", "xe"), limit=200000 if c.thorough else 25000)
    # visibility: what caller and jobs exchange (the caller's data, every job's result) has to be ordered by the synchronisation actually performed
    W = dict(mem=2, cap=1, memcap=10 if not c.thorough else 80, runs=250 if not c.thorough else 2000, seed=c.seed)
    cs = [case(prog="pool", batches=bs, hooks=h, workers=w, **W) for w in (1, 2, 3) for h, bs in ((0, [B(1)]), (1, [B(2), B(3)]), (0, [B(4), B(0), B(1)]), (1, [B(1), B(1), B(2)]))]
    c.model_check("HappensBefore", "HappensBefore_3.cfg")
    conc.judge_races(c, exe, cs, "visible")
    crowd.pool(c, c.build("crowd.cc"), "jobs")   # many jobs, many workers
    c.assumptions += ["one caller at a time (documented use); sequentially consistent interleavings of synchronisation operations; 1..4 workers"]
