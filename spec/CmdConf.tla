---------------------------- MODULE CmdConf ----------------------------
(* r.in: cfg, args; r.out: thr, what, vals (values as text, numbers canonical), desc, print *)
EXTENDS CmdOps, Conf
\* how a value is listed: truth values as words, decimals with at most three places (no trailing zeros), the rest as is
Shown(o, v) == IF o.ty = "bool" THEN (IF v = <<49>> THEN True4 ELSE False5) ELSE v
PrintOk(o, line, v) == o.ty = "dbl" \/ LineOk(o, line, Shown(o, v))
XAccept(r) ==
  LET a == r.in.args  P == Opts(r.in.cfg)  miss == Missing(a, P)
      DL == Lines(r.out.desc, <<>>)  L == Lines(r.out.print, <<>>)
  IN /\ Len(DL) = Len(P) /\ \A j \in 1..Len(P) : LineOk(P[j], DL[j], P[j].desc)
     /\ IF \A j \in 1..Len(P) : Clear(a, P[j])
        THEN r.out.thr = (miss # {}) /\ (r.out.thr => \E j \in miss : r.out.what \in Names(P[j]))
        ELSE TRUE
     /\ \/ r.out.thr
        \/ /\ Len(r.out.vals) = Len(P)
           /\ \A j \in 1..Len(P) : ValueOk(a, P[j], r.out.vals[j])
           /\ \/ r.in.cfg = "o4"
              \/ \E j \in 1..Len(P) : 10 \in RangeOf(r.out.vals[j])
              \/ Len(L) = Len(P) /\ \A j \in 1..Len(P) : PrintOk(P[j], L[j], r.out.vals[j])
=====================================================================
