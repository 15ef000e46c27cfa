---------------------------- MODULE JoinOps ----------------------------
(* Sorted-range joins (utl/join.h).  State: positions ap, bp in the two sorted sequences and the
   events reported so far. One action per reported group. *)
EXTENDS Seqs
\* --- declarative meaning -------------------------------------------------------------
\* maximal groups of equal keys of a sorted sequence: <<lower, upper>>, 0-based, half open
GroupLo(s, j) == SetMin({k \in 1..Len(s) : s[k] = s[j]}) - 1
GroupHi(s, j) == SetMax({k \in 1..Len(s) : s[k] = s[j]})
RECURSIVE Groups(_, _)
Groups(s, j) == IF j > Len(s) THEN <<>>
                ELSE <<<<GroupLo(s, j), GroupHi(s, j)>>>> \o Groups(s, GroupHi(s, j) + 1)
\* the events concerning side X (own sequence s, other sequence t), in order
SideEvents(s, t, tag) ==
  LET G == Groups(s, 1) IN
  [j \in 1..Len(G) |->
     LET key == s[G[j][1] + 1]
     IN IF key \in RangeOf(t)
        THEN LET m == SetMin({k \in 1..Len(t) : t[k] = key})
             IN IF tag = "a" THEN <<"m", G[j][1], G[j][2], GroupLo(t, m), GroupHi(t, m)>>
                ELSE <<"m", GroupLo(t, m), GroupHi(t, m), G[j][1], G[j][2]>>
        ELSE <<tag, G[j][1], G[j][2]>>]
Reported(kind, f) == f = "m" \/ (f = "a" /\ kind \in {"left", "full"}) \/ (f = "b" /\ kind = "full")
ProjA(E) == SelectSeq(E, LAMBDA e : e[1] # "b")
ProjB(E) == SelectSeq(E, LAMBDA e : e[1] # "a")
CorrectJoin(kind, a, b, E) ==
  /\ ProjA(E) = SelectSeq(SideEvents(a, b, "a"), LAMBDA e : Reported(kind, e[1]))
  /\ ProjB(E) = SelectSeq(SideEvents(b, a, "b"), LAMBDA e : Reported(kind, e[1]))
=====================================================================
