---------------------------- MODULE Join ----------------------------
(* Sorted-range joins (utl/join.h) as a transition system.  State: positions ap, bp in the two sorted
   sequences and the events reported so far. One action per reported group. *)
EXTENDS JoinOps
\* --- transition system -----------------------------------------------------------------
CONSTANTS Keys, MaxLen, Kinds
VARIABLES a, b, kind, ap, bp, E
jvars == <<a, b, kind, ap, bp, E>>
JInit == /\ a \in SortedSeqsUpTo(Keys, MaxLen) /\ b \in SortedSeqsUpTo(Keys, MaxLen)
         /\ kind \in Kinds /\ ap = 0 /\ bp = 0 /\ E = <<>>
Report(e) == E' = IF Reported(kind, e[1]) THEN Append(E, e) ELSE E
Match == /\ ap < Len(a) /\ bp < Len(b) /\ a[ap + 1] = b[bp + 1]
         /\ ap' = GroupHi(a, ap + 1) /\ bp' = GroupHi(b, bp + 1)
         /\ Report(<<"m", ap, ap', bp, bp'>>) /\ UNCHANGED <<a, b, kind>>
OnlyA == /\ ap < Len(a) /\ (bp < Len(b) => a[ap + 1] < b[bp + 1])
         /\ ap' = GroupHi(a, ap + 1)
         /\ Report(<<"a", ap, ap'>>) /\ UNCHANGED <<a, b, kind, bp>>
OnlyB == /\ bp < Len(b) /\ (ap < Len(a) => b[bp + 1] < a[ap + 1])
         /\ bp' = GroupHi(b, bp + 1)
         /\ Report(<<"b", bp, bp'>>) /\ UNCHANGED <<a, b, kind, ap>>
JNext == Match \/ OnlyA \/ OnlyB
JSpec == JInit /\ [][JNext]_jvars /\ WF_jvars(JNext)
Terminated == ap = Len(a) /\ bp = Len(b)
JTypeOK == ap \in 0..Len(a) /\ bp \in 0..Len(b)
JCorrect == Terminated => CorrectJoin(kind, a, b, E)
JProgress == ~Terminated => ENABLED JNext
JTerm == <>Terminated
=====================================================================
