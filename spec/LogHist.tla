---------------------------- MODULE LogHist ----------------------------
EXTENDS LogOps, Hist
GLen(r) == Len(r.in.ops)
GStart(r) == {LS0(3, 2)}
GStep(s, i, r) == IF Allowed(s, r.in.ops[i]) THEN Step(s, r.in.ops[i], r.out.res[i]) ELSE {}
GEnd(s, r) == Len(r.out.res) = Len(r.in.ops) /\ r.out.tail = <<>>
=====================================================================
