---------------------------- MODULE PoolTrace ----------------------------
(* Traces of the real thread pool, recorded under the controlled scheduler, against PoolOps. *)
EXTENDS PoolOps, Hist
PLen(r) == Len(r.out.ev)
PStart(r) == {PoolStart(r.in.hooks = 1)}
PStepJobs(s, k, r) == IF JobsOK(s, r.out.ev[k]) THEN {PoolNext(s, r.out.ev[k])} ELSE {}
PEndJobs(s, r) == JobsEnd(s, r.out.end)
PStepLife(s, k, r) == IF LifeOK(s, r.out.ev[k]) THEN {PoolNext(s, r.out.ev[k])} ELSE {}
PEndLife(s, r) == LifeEnd(s, r.out.end)
PStepTerm(s, k, r) == {PoolNext(s, r.out.ev[k])}
PEndTerm(s, r) == TermEnd(s, r.out.end)
=====================================================================
