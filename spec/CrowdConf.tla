---------------------------- MODULE CrowdConf ----------------------------
(* one property of a crowded run at a time: jobs (C01), returning (C02), lifecycle and refusal (C03), loops (C04, C05) *)
EXTENDS CrowdOps, Conf
XAccept(r) ==
  LET i == r.in  o == r.out IN
  CASE i.what = "jobs" -> PoolJobsOK(i, o)
    [] i.what = "life" -> PoolLifeOK(i, o) /\ PoolNestOK(i, o)
    [] i.what = "ends" -> Len(o.r) = Len(i.batches)
    [] i.what = "loop" -> PfOK(i, o)
=====================================================================
