------------------------------ MODULE Bulk ------------------------------
(* One left-to-right pass computes what the declarative definitions demand. *)
EXTENDS BulkOps
CONSTANTS Vs, N, X
VARIABLES a, j, all, any, cnt, first, mx, mn, uni, srt
vars == <<a, j, all, any, cnt, first, mx, mn, uni, srt>>
Init == /\ a \in SeqsUpTo(Vs, N) /\ j = 1 /\ all = TRUE /\ any = FALSE /\ cnt = 0 /\ first = 0 /\ mx = 0 /\ mn = 0 /\ uni = TRUE /\ srt = <<>>
InsertIn(s, x) == LET n == Cardinality({k \in 1..Len(s) : s[k] <= x}) IN SubSeq(s, 1, n) \o <<x>> \o SubSeq(s, n + 1, Len(s))
Step == /\ j <= Len(a)
        /\ LET p == a[j] % 3 = X IN
           /\ all' = (all /\ p) /\ any' = (any \/ p) /\ cnt' = cnt + B(p)
           /\ first' = (IF first = j - 1 /\ ~p THEN j ELSE first)
        /\ mx' = (IF j = 1 THEN 0 ELSE IF a[mx + 1] < a[j] THEN j - 1 ELSE mx)
        /\ mn' = (IF j = 1 THEN 0 ELSE IF a[j] < a[mn + 1] THEN j - 1 ELSE mn)
        /\ uni' = (uni /\ a[j] = a[1])
        /\ srt' = InsertIn(srt, a[j])
        /\ j' = j + 1 /\ a' = a
Spec == Init /\ [][Step]_vars
Done == j > Len(a)
Agree == Done => /\ B(all) = Algo("all", a, <<>>, X) /\ B(any) = Algo("any", a, <<>>, X) /\ B(~any) = Algo("none", a, <<>>, X)
                 /\ cnt = Algo("count", a, <<>>, X) /\ first = Algo("findif", a, <<>>, X)
                 /\ mx = Algo("max", a, <<>>, X) /\ mn = Algo("min", a, <<>>, X)
                 /\ B(uni) = Algo("uniform", a, <<>>, X) /\ srt = SortedOf(a)
=====================================================================
