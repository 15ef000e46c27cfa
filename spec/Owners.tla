------------------------------ MODULE Owners ------------------------------
(* Ownership as a state machine over all operations; history variables count releases. *)
EXTENDS OwnersOps
CONSTANTS NS, MaxRes, Ty
VARIABLES s, count, ran
vars == <<s, count, ran>>
Init == s = Own0(NS) /\ count = [k \in 1..MaxRes |-> 0] /\ ran = {}
Ops == {<<"mk", i, 0, 2>> : i \in 1..NS} \cup {<<"mc", i, j>> : i, j \in 1..NS} \cup {<<"ma", i, j>> : i, j \in 1..NS}
       \cup {<<"ds", i>> : i \in 1..NS} \cup {<<"da", i>> : i \in 1..NS}
Do(o) == /\ o[1] = "mk" => s.n < MaxRes
         /\ LET r == Step(Ty, s, o) IN
            /\ s' = r.s
            /\ count' = [k \in 1..MaxRes |-> count[k] + Count(r.rel, k)]
            /\ ran' = ran \cup (RangeOf(r.rel) \cap s.armed)
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars
AtMostOnce == \A k \in 1..MaxRes : count[k] <= 1
Exclusive == \A i, j \in 1..NS : i # j /\ s.id[i] # 0 => s.id[i] # s.id[j]
NoLeak == \A k \in 1..s.n : (k \in Owned(s)) # (count[k] = 1)
NeverWhileOwned == \A k \in Owned(s) : count[k] = 0
OnlyObjectsOwn == \A i \in 1..NS : s.id[i] # 0 => s.obj[i]
EmptyEnd == (\A i \in 1..NS : ~s.obj[i]) => \A k \in 1..s.n : count[k] = 1
DisarmedNeverRuns == \A k \in 1..s.n : k \in ran => k \in s.armed
=====================================================================
