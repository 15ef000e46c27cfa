---------------------------- MODULE BitScan ----------------------------
(* Visiting the set bits of a W bit mask from the lowest up. Fault "top": stops one bit early. *)
EXTENDS HelperOps
CONSTANTS W, Fault
VARIABLES mask, bit, seen
vars == <<mask, bit, seen>>
Init == mask \in SUBSET (0..(W - 1)) /\ bit = 0 /\ seen = <<>>
Last == IF Fault = "top" THEN W - 1 ELSE W
Step == bit # Last /\ bit' = bit + 1 /\ seen' = (IF bit \in mask THEN Append(seen, bit) ELSE seen) /\ UNCHANGED mask
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
Ascending == \A j \in 1..(Len(seen) - 1) : seen[j] < seen[j + 1]
All == bit = Last => seen = BitsUp(mask)
Only == RangeOf(seen) \subseteq mask
=====================================================================
