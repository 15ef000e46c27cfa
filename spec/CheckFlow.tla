--------------------------- MODULE CheckFlow ---------------------------
(* One checked condition: what is evaluated, what is logged, what is thrown. The macro is lazy, the functions get their
   arguments first. Fault "eager": the macro evaluates its arguments anyway; "twice": evaluates the condition again. *)
EXTENDS HelperOps
CONSTANTS Fault
VARIABLES api, cond, nargs, st, ce, ae, lines, thrown
vars == <<api, cond, nargs, st, ce, ae, lines, thrown>>
Init == /\ api \in {"verify", "silent", "utlv", "ex"} /\ cond \in BOOLEAN /\ nargs \in 0..3
        /\ st = "cond" /\ ce = 0 /\ ae = [j \in 1..nargs |-> 0] /\ lines = 0 /\ thrown = FALSE
Lazy == api = "utlv"
Eval == /\ st = "cond" /\ ce' = ce + 1
        /\ ae' = (IF Lazy /\ Fault # "eager" THEN ae ELSE [j \in 1..nargs |-> ae[j] + 1])
        /\ st' = (IF cond THEN "held" ELSE "failed") /\ UNCHANGED <<api, cond, nargs, lines, thrown>>
Message == /\ st = "failed" /\ st' = "made"
           /\ ae' = (IF Lazy /\ Fault # "eager" THEN [j \in 1..nargs |-> ae[j] + 1] ELSE ae)
           /\ ce' = (IF Fault = "twice" THEN ce + 1 ELSE ce)
           /\ lines' = (IF api \in Loud THEN lines + 1 ELSE lines) /\ UNCHANGED <<api, cond, nargs, thrown>>
Throw == st = "made" /\ st' = "gone" /\ thrown' = TRUE /\ UNCHANGED <<api, cond, nargs, ce, ae, lines>>
Next == Eval \/ Message \/ Throw
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
ThrowsIffFalse == /\ thrown => ~cond
                  /\ st = "held" => ~thrown /\ lines = 0
Once == st \in {"held", "gone"} => ce = 1 /\ \A j \in 1..nargs : ae[j] = Evals([api |-> api, cond |-> cond])
OneLine == st = "gone" => lines = (IF api \in Loud THEN 1 ELSE 0)
Decides == <>(IF cond THEN st = "held" ELSE st = "gone")
=====================================================================
