---------------------------- MODULE RegistryHist ----------------------------
EXTENDS RegistryOps, Hist
GLen(r) == Len(r.in.ops)
GStart(r) == {RNew}
\* a "begin" without argument means not silent
Norm(o) == IF o[1] = "begin" /\ o[2] = 2 THEN <<"begin", 0>> ELSE o
GStep(s, k, r) == {q.s : q \in {x \in ROp(s, Norm(r.in.ops[k])) : <<x.ret, x.out>> = r.out.obs[k]}}
GEnd(s, r) == TRUE
=====================================================================
