------------------------------ MODULE Cmd ------------------------------
(* The arguments are scanned once from left to right while every option keeps [given, value]; checked to end with what
   CmdOps defines, for every argument list; options not named stay untouched. *)
EXTENDS CmdOps
CONSTANTS Cfg, N, Words
VARIABLES a, i, st
vars == <<a, i, st>>
P == Opts(Cfg)
Alpha == UNION {Names(P[j]) : j \in 1..Len(P)} \cup Words
MCWords == {<<55>>, <<>>}
Init == a \in SeqsUpTo(Alpha, N) /\ i = 1 /\ st = [j \in 1..Len(P) |-> [given |-> FALSE, raw |-> <<>>]]
Step == /\ i <= Len(a) /\ i' = i + 1 /\ UNCHANGED a
        /\ st' = [j \in 1..Len(P) |->
             IF a[i] \notin Names(P[j]) THEN st[j]
             ELSE IF P[j].ty = "bool" THEN [given |-> TRUE, raw |-> <<>>]
             ELSE IF i < Len(a) /\ a[i + 1] # <<>> THEN [given |-> TRUE, raw |-> a[i + 1]] ELSE st[j]]
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
Done == i > Len(a)
Agrees == Done => \A j \in 1..Len(P) : st[j].given = Given(a, P[j]) /\ (st[j].given /\ P[j].ty # "bool" => st[j].raw = Raw(a, P[j]))
Untouched == \A j \in 1..Len(P) : Uses(a, P[j]) = {} => ~st[j].given /\ Value(a, P[j]) = P[j].def
Distinct == \A j, k \in 1..Len(P) : j # k => Names(P[j]) \cap Names(P[k]) = {}
OnlyMissingRefused == Done => (Missing(a, P) = {} <=> \A j \in 1..Len(P) : P[j].req => st[j].given)
Halts == <>Done
=====================================================================
