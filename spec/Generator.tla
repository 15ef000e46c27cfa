------------------------------ MODULE Generator ------------------------------
(* The coroutine and the object that drives it, one step at a time: the body runs item by item while a call is in
   progress; the object remembers whether a value is waiting (full). Checked: values arrive once and in order whatever
   tests are interleaved, the body is never ahead of what was asked for, and exhaustion is reported exactly then. *)
EXTENDS GenOps
CONSTANTS N, M
VARIABLES B, pc, full, done, exc, val, busy, got, log, ops, last
vars == <<B, pc, full, done, exc, val, busy, got, log, ops, last>>
Items == {<<"y", 1>>, <<"y", 2>>, <<"e", 1>>, <<"t">>}
Init == B \in SeqsUpTo(Items, N) /\ pc = 0 /\ full = FALSE /\ done = FALSE /\ exc = FALSE /\ val = 0 /\ busy = "" /\ got = <<>> /\ log = <<>> /\ ops = 0 /\ last = ""
Keep == UNCHANGED <<B, ops>>
\* a call begins
CallB == /\ busy = "" /\ ops < M /\ ops' = ops + 1
         /\ IF done THEN last' = "f" /\ UNCHANGED busy
            ELSE IF full THEN last' = "t" /\ UNCHANGED busy ELSE busy' = "b" /\ last' = ""
         /\ UNCHANGED <<B, pc, full, done, exc, val, got, log>>
Left == \E k \in (pc + 1)..Len(B) : B[k][1] \in {"y", "t"}
CallN == /\ busy = "" /\ ops < M /\ ops' = ops + 1 /\ (full \/ (~done /\ Left))
         /\ IF full THEN got' = Append(got, val) /\ full' = FALSE /\ last' = "v" /\ UNCHANGED busy
            ELSE busy' = "n" /\ last' = "" /\ UNCHANGED <<got, full>>
         /\ UNCHANGED <<B, pc, done, exc, val, log>>
\* the body runs
Body == /\ busy # "" /\ pc < Len(B) /\ B[pc + 1][1] = "e" /\ pc' = pc + 1 /\ log' = Append(log, B[pc + 1][2])
        /\ UNCHANGED <<full, done, exc, val, busy, got, last>> /\ Keep
Yield == /\ busy # "" /\ pc < Len(B) /\ B[pc + 1][1] = "y" /\ pc' = pc + 1 /\ busy' = "" /\ val' = B[pc + 1][2]
         /\ IF busy = "b" THEN full' = TRUE /\ last' = "t" /\ UNCHANGED got
            ELSE got' = Append(got, B[pc + 1][2]) /\ last' = "v" /\ UNCHANGED full
         /\ UNCHANGED <<done, exc, log>> /\ Keep
Throw == /\ busy # "" /\ pc < Len(B) /\ B[pc + 1][1] = "t" /\ pc' = pc + 1 /\ busy' = "" /\ done' = TRUE /\ exc' = TRUE /\ last' = "x"
         /\ UNCHANGED <<full, val, got, log>> /\ Keep
Return == /\ busy = "b" /\ pc = Len(B) /\ busy' = "" /\ done' = TRUE /\ last' = "f" /\ UNCHANGED <<pc, full, exc, val, got, log>> /\ Keep
Next == CallB \/ CallN \/ Body \/ Yield \/ Throw \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Body \/ Yield \/ Throw \/ Return)
ValuesIn(b) == LET Y == SelectSeq(b, LAMBDA x : x[1] = "y") IN [j \in 1..Len(Y) |-> Y[j][2]]
EffectsIn(b) == LET Y == SelectSeq(b, LAMBDA x : x[1] = "e") IN [j \in 1..Len(Y) |-> Y[j][2]]
InOrderOnce == got \o (IF full THEN <<val>> ELSE <<>>) = ValuesIn(SubSeq(B, 1, pc))
Effects == log = EffectsIn(SubSeq(B, 1, pc))
\* at rest the body stands right behind the last value asked for, or at its end
Lazy == busy = "" => \/ pc = 0 \/ B[pc][1] \in {"y", "t"} \/ (pc = Len(B) /\ done)
AtMostOneAhead == busy = "" => Len(ValuesIn(SubSeq(B, 1, pc))) <= Len(got) + 1
Exhausted == last = "f" => (pc = Len(B) /\ ~full) \/ exc
Answered == (busy # "") ~> (busy = "")
\* the object agrees with the functional meaning GenOps gives to the same state
Abs == [pos |-> pc, held |-> IF full THEN <<val>> ELSE <<>>, over |-> done]
AgreesMore == busy = "" => More(B, Abs).ret[1] \in {"t", "f", "x"} /\ (full => More(B, Abs).ret = <<"t">>) /\ (done => More(B, Abs).ret = <<"f">>)
=====================================================================
