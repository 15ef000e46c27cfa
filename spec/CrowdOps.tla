----------------------------- MODULE CrowdOps -----------------------------
(* What a run with many jobs and many workers amounts to when every job is accounted for: the sums that the
   step-by-step specifications (PoolOps, ParForOps) imply for a finished run. A tally is
   <<how often, how many indices exactly once, how many outside [0, n)>>. *)
EXTENDS Integers, Sequences, FiniteSets
Exactly(n) == <<n, n, 0>>
CountIn(n, m, r) == IF m = 0 \/ n <= r THEN 0 ELSE ((n - 1 - r) \div m) + 1   \* how many i in [0, n) have i % m = r
\* ------------------------------------------------------------------ pool
BatchSum(n, nest) == Exactly(n) \o <<n, 0, IF nest = 1 THEN CountIn(n, 1000, 7) ELSE 0, 0>>
PoolJobsOK(i, o) == /\ Len(o.r) = Len(i.batches)
                    /\ \A b \in 1..Len(i.batches) : SubSeq(o.r[b], 1, 5) = SubSeq(BatchSum(i.batches[b], i.nest), 1, 5)
PoolNestOK(i, o) == \A b \in 1..Len(i.batches) : SubSeq(o.r[b], 6, 7) = SubSeq(BatchSum(i.batches[b], i.nest), 6, 7)
PoolLifeOK(i, o) == /\ o.odd = 0
                    /\ i.hooks = 1 => (Len(o.life) = i.w /\ \A k \in 1..i.w : o.life[k] = <<1, 1>>)
                    /\ i.hooks = 0 => o.life = <<>>
\* ------------------------------------------------------------------ parallel_for
FailsFn(i, k) == i.fm # 0 /\ k % i.fm = i.fr
FailsPg(i, k) == ~FailsFn(i, k) /\ i.pm # 0 /\ k % i.pm = i.pr
NFn(i) == CountIn(i.n, i.fm, i.fr)
NPg(i) == IF i.pm = 0 THEN 0 ELSE Cardinality({k \in 0..(i.n - 1) : FailsPg(i, k)})
Failing(i) == NFn(i) + NPg(i)
PfOK(i, o) ==
  /\ o.odd = 0
  /\ IF i.strat = 0 \/ Failing(i) = 0
     THEN /\ o.jobs = Exactly(i.n) /\ o.thrown = 0 - 1
          /\ o.prog = Exactly(i.n - NFn(i))
          /\ o.errs = Exactly(Failing(i)) /\ o.match = Failing(i)
     ELSE /\ o.errs = <<0, 0, 0>>
          /\ o.thrown \in 0..(i.n - 1)
          /\ o.where = (IF FailsFn(i, o.thrown) THEN 1 ELSE 2) /\ (FailsFn(i, o.thrown) \/ FailsPg(i, o.thrown))
          /\ o.jobs[1] = o.jobs[2] /\ o.jobs[3] = 0 /\ o.jobs[1] \in 1..i.n
          /\ o.prog[1] = o.prog[2] /\ o.prog[3] = 0 /\ o.prog[1] < o.jobs[1] + 1
===========================================================================
