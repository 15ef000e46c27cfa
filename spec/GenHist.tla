---------------------------- MODULE GenHist ----------------------------
(* r.in: body (script), ops; r.out: ret[i], log[i] *)
EXTENDS GenOps, Hist
GLen(r) == Len(r.in.ops)
GStart(r) == {G0}
GStep(s, i, r) == LET q == Do(FlatS(r.in.body), s, r.in.ops[i]) IN
                  IF Allowed(FlatS(r.in.body), s, r.in.ops[i]) /\ r.out.ret[i] = q.ret /\ r.out.log[i] = q.log THEN {q.s} ELSE {}
GEnd(s, r) == Len(r.out.ret) = Len(r.in.ops) /\ r.out.early = <<>>      \* nothing runs before the first use
=====================================================================
