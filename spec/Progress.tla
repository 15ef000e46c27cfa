------------------------------ MODULE Progress ------------------------------
(* Sequential life of one tracker: the invariants of ProgressOps. *)
EXTENDS ProgressOps
CONSTANTS Values, SetterSet, MaxIn
VARIABLES s, cbs, last
vars == <<s, cbs, last>>
Init == s = TrNew /\ cbs = 0 /\ last = TrNew
Calls == {<<k, v>> : k \in {"u", "m", "i"}, v \in Values}
DoCall == \E o \in Calls : \E r \in Call(s, o) : s' = r[1] /\ cbs' = r[2] /\ last' = s /\ r[1].in <= MaxIn
DoSet == \E o \in SetterSet : LET r == DoChain(s, <<o>>) IN s' = r.s /\ cbs' = r.cb /\ last' = s
Next == DoCall \/ DoSet
Spec == Init /\ [][Next]_vars
InBounds == s.low <= s.out /\ s.out <= s.high
Quantised == s.out = s.high \/ (s.out - s.low) % s.mod = 0
Matches == s.out \in OutVals(s, s.in)
Notified == (cbs = 0) => (s.out = last.out)
CbExactly == cbs \in {0, 1}
Complete == (s.in >= s.inhigh /\ s.in > 0 /\ s.inhigh > 0) => (s.high - s.out) * 2 <= s.mod
MonoOnly == \A v \in Values : \A r \in UpdateMonotonic(s, v) : r[1].in >= s.in /\ \A q \in OutVals(s, s.in) : r[1].out >= s.low
Set1 == {<<"bounds", 0, 800>>, <<"bounds", 160, 400>>, <<"bounds", 240, 240>>, <<"mod", 20, 0>>, <<"mod", 8, 0>>, <<"inhigh", 10, 0>>, <<"inhigh", 0, 0>>, <<"reset", 0, 0>>, <<"status", 1, 0>>, <<"show", 0, 0>>}
Vals1 == {0, 1, 3, 7, 10, 100}
=====================================================================
