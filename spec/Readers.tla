------------------------------ MODULE Readers ------------------------------
(* All read programs over all small texts: what was consumed is a prefix of the text; line reads alone give the pieces. *)
EXTENDS ReadersOps
CONSTANTS Alpha, N
VARIABLES t, p, out, pure
vars == <<t, p, out, pure>>
Ops == {<<"ln">>} \cup {<<"rn", k>> : k \in 0..(N + 1)}
Init == t \in SeqsUpTo(Alpha, N) /\ p = 0 /\ out = <<>> /\ pure = TRUE
Next == \E o \in Ops : /\ Len(out) < N + 2
                       /\ LET q == Step(t, p, o) IN p' = q.p /\ out' = Append(out, q.piece)
                       /\ pure' = (pure /\ o[1] = "ln") /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
InFile == p \in 0..Len(t) /\ \A j \in 1..Len(out) : out[j] # <<>> => out[j][1] + out[j][2] <= p
Disjoint == \A j, k \in 1..Len(out) : (j < k /\ out[j] # <<>> /\ out[k] # <<>>) => out[j][1] + out[j][2] <= out[k][1]
AllLines == pure => LET P == Pieces(t, 0, 10) IN
              \A j \in 1..Len(out) : out[j] = (IF j <= Len(P) THEN P[j] ELSE <<>>)
Ends == (pure /\ Len(out) = N + 2) => p = Len(t)
=====================================================================
