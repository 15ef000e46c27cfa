------------------------------ MODULE Arg ------------------------------
(* A left-to-right scanner for integers as a state machine, checked to compute what ArgOps defines, for every text. *)
EXTENDS ArgOps
CONSTANTS Alpha, N
VARIABLES x, signed, i, st, neg, acc
vars == <<x, signed, i, st, neg, acc>>
Init == x \in SeqsUpTo(Alpha, N) /\ signed \in BOOLEAN /\ i = 0 /\ st = "start" /\ neg = FALSE /\ acc = <<>>
Peek == IF i < Len(x) THEN x[i + 1] ELSE 0
Sign1 == st = "start" /\ IF signed /\ Peek = Minus THEN i' = i + 1 /\ neg' = TRUE /\ st' = "sign" /\ UNCHANGED <<x, signed, acc>>
                         ELSE st' = "sign" /\ UNCHANGED <<x, signed, i, neg, acc>>
Sign2 == st = "sign" /\ st' = "digits" /\ i' = (IF Peek = Plus THEN i + 1 ELSE i) /\ UNCHANGED <<x, signed, neg, acc>>
Eat == st = "digits" /\ Digit(Peek) /\ acc' = Append(acc, Peek) /\ i' = i + 1 /\ UNCHANGED <<x, signed, neg, st>>
Stop == st = "digits" /\ ~Digit(Peek) /\ st' = "done" /\ UNCHANGED <<x, signed, i, neg, acc>>
Next == Sign1 \/ Sign2 \/ Eat \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == st = "done" => LET s == IntScan(x, signed) IN s.neg = neg /\ s.digits = acc /\ s.rest = Len(x) - i
Longest == st = "done" => (i = Len(x) \/ ~Digit(x[i + 1]))
Halts == <>(st = "done")
\* canonical texts are fixed points; appending a non-digit changes success only
Canonical == \A ty \in {"i32", "u32"} : IntOk(x, ty) => IntValue(IntValue(x, ty, Zero), ty, Zero) = IntValue(x, ty, Zero)
Tail1 == \A ty \in {"i32", "u32"} : IntOk(x, ty) => ~IntOk(Append(x, 97), ty) /\ IntValue(Append(x, 97), ty, Zero) = IntValue(x, ty, Zero)
Bools == BoolOk(x) => ~IntOk(x, "i32") /\ ~FpOk(x)
IntsAreDecimals == IntOk(x, "i32") /\ IntScan(x, TRUE).signs <= 1 => FpOk(x) /\ FpScan(x).frac = <<>>
=====================================================================
