"""C03 thread pool: initializer/finalizer lifecycle, nested execute() refused."""
import conc, crowd, poolprogs
from checks.c01 import models


def run(c):
    exe = conc.build(c)
    models(c, ("no_nested_check",))
    progs = poolprogs.programs(c, nested=True, thorough=c.thorough, kinds=("pb", "tc", "in", "fi", "xb", "js", "je", "nb", "nx", "nj", "xe", "db", "de"))
    conc.judge(c, exe, progs, "pool", "PoolTrace", "PoolTraceLife.cfg", ("in", "fi", "nx"), limit=200000 if c.thorough else 25000)
    crowd.pool(c, c.build("crowd.cc"), "life")   # many jobs, many workers
    c.assumptions += ["one caller at a time (documented use); 1..4 workers"]
