----------------------------- MODULE Match -----------------------------
(* Trying handlers from left to right until one fits. Fault "on": goes on after a hit; "last": gives up before the last. *)
EXTENDS HelperOps
CONSTANTS N, Fault
VARIABLES dyn, hs, i, called, st
vars == <<dyn, hs, i, called, st>>
Init == /\ dyn \in Classes \cup {"null"} /\ hs \in {s \in SeqsUpTo(Classes, N) : s # <<>>}
        /\ i = 1 /\ called = <<>> /\ st = "try"
Hit == /\ st = "try" /\ i <= Len(hs) /\ IsA(dyn, hs[i])
       /\ called' = Append(called, i) /\ i' = i + 1
       /\ st' = (IF Fault = "on" /\ i < Len(hs) THEN "try" ELSE "done") /\ UNCHANGED <<dyn, hs>>
Miss == /\ st = "try" /\ i <= Len(hs) /\ ~IsA(dyn, hs[i])
        /\ (IF i = (IF Fault = "last" THEN Max2(1, Len(hs) - 1) ELSE Len(hs)) THEN st' = "none" ELSE st' = "try")
        /\ i' = i + 1 /\ UNCHANGED <<dyn, hs, called>>
Next == Hit \/ Miss
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AtMostOne == Len(called) <= 1
FirstFits == st = "done" => called = <<First(dyn, hs)>>
NoneOnlyIfNone == st = "none" => First(dyn, hs) = 0
Exclusive == First(dyn, hs) = 0 => called = <<>>
Halts == <>(st \in {"done", "none"})
=====================================================================
