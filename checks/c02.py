"""C02 thread pool: no deadlock, no lost wakeup."""
import conc, crowd, poolprogs
from checks.c01 import models


def run(c):
    exe = conc.build(c)
    models(c, ("no_start_notify", "no_end_notify", "stop_unlocked"))
    progs = poolprogs.programs(c, nested=False, thorough=c.thorough, kinds=("pb", "xb", "xe", "db", "de"), mult=4)
    conc.judge(c, exe, progs, "pool", "PoolTrace", "PoolTraceTerm.cfg", ("db", "de", "xe"), min_kill=1.0, endcan=True)
    crowd.pool(c, c.build("crowd.cc"), "ends")   # many jobs, many workers
    c.assumptions += ["condition variable waits may wake up spuriously (bounded number per run); fair scheduling"]
