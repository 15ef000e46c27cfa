--------------------------- MODULE ParForTrace ---------------------------
EXTENDS ParForOps, Hist
FLen(r) == Len(r.out.ev)
FStart(r) == {PfStart(r.in)}
FStep(s, k, r) == IF PfOK(s, r.out.ev[k]) THEN {PfNext(s, r.out.ev[k])} ELSE {}
FEnd(s, r) == PfEnd(s, r.out.end)
=====================================================================
