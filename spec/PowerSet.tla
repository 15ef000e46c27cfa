------------------------------ MODULE PowerSet ------------------------------
(* power_set_intersection: a zig-zag over the matrix of an equal group must visit every cell once. *)
EXTENDS DiffOps
CONSTANTS Ks, N
VARIABLES a, b, x, y, E
vars == <<a, b, x, y, E>>
Init == a \in SortedSeqsUpTo(Ks, N) /\ b \in SortedSeqsUpTo(Ks, N) /\ x = 1 /\ y = 1 /\ E = <<>>
Less == x <= Len(a) /\ y <= Len(b) /\ a[x] < b[y] /\ x' = x + 1 /\ UNCHANGED <<a, b, y, E>>
Greater == x <= Len(a) /\ y <= Len(b) /\ b[y] < a[x] /\ y' = y + 1 /\ UNCHANGED <<a, b, x, E>>
Row == [j \in 1..Cardinality({k \in y..Len(b) : b[k] = a[x]}) |-> <<x - 1, y + j - 2, a[x], a[x]>>]
Col == [j \in 1..Cardinality({k \in (x + 1)..Len(a) : a[k] = b[y]}) |-> <<x + j - 1, y - 1, b[y], b[y]>>]
Equal == /\ x <= Len(a) /\ y <= Len(b) /\ a[x] = b[y]
         /\ E' = E \o Row \o Col /\ x' = x + 1 /\ y' = y + 1 /\ UNCHANGED <<a, b>>
Next == Less \/ Greater \/ Equal
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == x > Len(a) \/ y > Len(b)
Correct == Done => RangeOf(E) = Pairs(a, b)
Once == Len(E) = Cardinality(RangeOf(E))
Term == <>Done
=====================================================================
