------------------------------ MODULE Group ------------------------------
(* One pass over a sequence, reporting a run whenever it ends. *)
EXTENDS GroupOps
CONSTANTS Ks, N
VARIABLES a, lo, hi, E
vars == <<a, lo, hi, E>>
Init == a \in SeqsUpTo(Ks, N) /\ lo = 1 /\ hi = 1 /\ E = <<>>
Extend == lo <= Len(a) /\ hi <= Len(a) /\ a[hi] = a[lo] /\ hi' = hi + 1 /\ UNCHANGED <<a, lo, E>>
Report == /\ lo <= Len(a) /\ (IF hi > Len(a) THEN TRUE ELSE a[hi] # a[lo])
          /\ E' = Append(E, <<lo - 1, hi - 1>>) /\ lo' = hi /\ UNCHANGED <<a, hi>>
Next == Extend \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == lo > Len(a)
Correct == Done => E = Runs(a)
\* what maximal runs mean
Cover == Done => Flat([j \in 1..Len(E) |-> [k \in 1..(E[j][2] - E[j][1]) |-> E[j][1] + k]]) = Ident(Len(a))
NonEmpty == \A j \in 1..Len(E) : E[j][1] < E[j][2]
Uniform == \A j \in 1..Len(E) : \A k \in (E[j][1] + 1)..E[j][2] : a[k] = a[E[j][1] + 1]
Maximal == \A j \in 1..(Len(E) - 1) : a[E[j][2]] # a[E[j + 1][1] + 1]
SortedOnce == (IsSorted(a) /\ Done) => \A j, k \in 1..Len(E) : j # k => a[E[j][1] + 1] # a[E[k][1] + 1]
Term == <>Done
=====================================================================
