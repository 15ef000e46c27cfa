------------------------------ MODULE Inplace ------------------------------
(* The associative helpers as state machines; insert_sorted over histories. *)
EXTENDS InplaceOps
CONSTANTS Ks, Vs, MaxLen
VARIABLES m, idx, used, calls, sorted, ref
vars == <<m, idx, used, calls, sorted, ref>>
Init == m = Empty /\ idx = Empty /\ used = <<>> /\ calls = [k \in Ks |-> 0] /\ sorted = <<>> /\ ref = {}
Create == \E k \in Ks, v \in Vs \cup {0 - 1} :
            LET r == GocStep(m, <<k, v, 0>>) IN m' = r.m /\ calls' = [calls EXCEPT ![k] = IF r.obs[2] = 0 THEN @ + r.obs[1] ELSE @]
                                             /\ UNCHANGED <<idx, used, sorted, ref>>
Index == \E k \in Ks : idx' = IndexStep(idx, k) /\ used' = (IF k \in RangeOf(used) THEN used ELSE Append(used, k)) /\ UNCHANGED <<m, calls, sorted, ref>>
Insert == \E x \in Vs : /\ Len(sorted) < MaxLen
                        /\ sorted' = Inserted(sorted, x)[4] /\ ref' = ref \cup {x} /\ UNCHANGED <<m, idx, used, calls>>
Next == Create \/ Index \/ Insert
Spec == Init /\ [][Next]_vars
FactoryOnce == \A k \in Ks : calls[k] = IF k \in DOMAIN m THEN 1 ELSE 0
FirstUse == \A j \in 1..Len(used) : idx[used[j]] = j - 1
Dense == {idx[k] : k \in DOMAIN idx} = 0..(Cardinality(DOMAIN idx) - 1)
SortedSetRep == sorted = AscendingOf(ref)
KeepsValue == [][\A k \in DOMAIN m : k \in DOMAIN m' /\ m'[k] = m[k]]_vars
=====================================================================
