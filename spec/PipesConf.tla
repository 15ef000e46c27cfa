---------------------------- MODULE PipesConf ----------------------------
EXTENDS PipesOps, Conf
Sized(i) == Source(i)
PrefixMeaning(i, n) == Eager(Sized(i), SubSeq(i.stages, 1, n))
XAccept(r) ==
  LET i == r.in  n == Len(i.stages)  o == r.out.r IN
  /\ r.out.src = i.a
  /\ IF i.lv = 1
     THEN /\ Len(o) = n + 2
          /\ TermOK(i.term, i.arg, PrefixMeaning(i, n), o[1])
          /\ \A j \in 0..n : TermOK(i.term, i.arg, PrefixMeaning(i, n - j), o[2 + j])
     ELSE Len(o) = 1 /\ TermOK(i.term, i.arg, PrefixMeaning(i, n), o[1])
=====================================================================
