---------------------------- MODULE Conf ----------------------------
(* Generic conformance module for relational specifications: every record
   <<input, observation of the real code>> is one TLC state; the transition
   "Judge" evaluates the specification's acceptance relation on it. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT Accept(_)
VARIABLES c, verdict
cvars == <<c, verdict>>
Cases == ndJsonDeserialize(IOEnv.CASES)
CInit == c \in 1..Len(Cases) /\ verdict = "todo"
Judge == /\ verdict = "todo"
         /\ c' = c
         /\ verdict' = IF Cases[c].out.st = "ok" /\ Accept(Cases[c]) THEN "ok"
                 ELSE IF PrintT(<<"BAD", c>>) THEN "bad" ELSE "bad"
CSpec == CInit /\ [][Judge]_cvars
=====================================================================
