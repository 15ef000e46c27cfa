---------------------------- MODULE GroupConf ----------------------------
EXTENDS GroupOps, Conf
XAccept(r) ==
  LET f == r.out.fin  v == r.in.variant
      d == IF v \in {0, 3, 10, 12, 14} THEN 1 ELSE r.in.div
      cl == Class(f, d)
  IN /\ r.out.ev = Runs(cl)
     /\ IF v >= 10 THEN Same(f, r.in.a)
        ELSE IsPermutationOf(f, r.in.a) /\ IsSorted(IF v = 4 THEN Reverse(cl) ELSE cl)
=====================================================================
