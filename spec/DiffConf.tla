---------------------------- MODULE DiffConf ----------------------------
EXTENDS DiffOps, Conf
XAccept(r) ==
  IF r.in.fn = "diff" THEN r.out.ev = Diff(r.in.a, r.in.b) /\ Applied(r.in.a, r.in.b, r.out.ev)
  ELSE RangeOf(r.out.ev) = Pairs(r.in.a, r.in.b) /\ Len(r.out.ev) = Cardinality(Pairs(r.in.a, r.in.b))
=====================================================================
