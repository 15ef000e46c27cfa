---------------------------- MODULE TokConf ----------------------------
(* Recorded token / line walks. r.out.ev: <<off, len>> (with a number appended for the numbered forms) in order *)
EXTENDS CstrOps, Conf
Num(P) == [j \in 1..Len(P) |-> <<P[j][1], P[j][2], j>>]
\* an empty piece may be reported at any place (its bytes are what counts), a non-empty one has its position
Same(P, Q) == Len(P) = Len(Q) /\ \A j \in 1..Len(P) : Len(P[j]) = Len(Q[j]) /\ P[j][2] = Q[j][2] /\ (P[j][2] > 0 => P[j][1] = Q[j][1])
                                  /\ (Len(P[j]) = 3 => P[j][3] = Q[j][3])
Ask(r) == LET T == r.in.t IN
  CASE r.in.fn = "tok" -> Pieces(T, 0, r.in.sep)
    [] r.in.fn = "toknum" -> Num(Pieces(T, 0, r.in.sep))
    [] r.in.fn = "tokbrk" -> Take(Pieces(T, 0, r.in.sep), r.in.k)
    [] r.in.fn \in {"line", "iter", "iterpost", "iterv"} -> Lines(T)
    [] r.in.fn = "linenum" -> Num(Lines(T))
    [] r.in.fn = "iterat" -> Drop(Lines(T), Min2(r.in.k, Len(Lines(T))))
XAccept(r) ==
  IF r.in.fn = "skip"
  THEN LET L == Lines(r.in.t)  M == [j \in 1..Len(L) |-> r.in.m[j] = 1]
           s == SkipTo(r.in.t, M)
           K == {j \in 1..Len(L) : ~M[j]}
           seen == IF K = {} THEN Len(L) ELSE SetMin(K)
       IN /\ r.out.rest[2] = Len(r.in.t) - s /\ (r.out.rest[2] > 0 => r.out.rest[1] = s)
          /\ Same(Take(L, seen), r.out.ev)
  ELSE Same(Ask(r), r.out.ev)
=====================================================================
