-------------------------- MODULE HelperConf --------------------------
EXTENDS HelperOps, Conf
CheckRec(r) ==
  /\ r.out.thrown = ~r.in.cond
  /\ r.out.log = Log(r.in)
  /\ r.out.ce = 1
  /\ \A j \in 1..Len(r.out.ae) : r.out.ae[j] = Evals(r.in)
  /\ r.out.fe = Evals(r.in)
  /\ ~r.in.cond => (IF r.in.api = "ex" THEN r.out.tag = r.in.ex /\ r.out.n = r.in.n ELSE r.out.tag = "re" /\ r.out.what = Render(r.in.pieces, r.in.args))
MatchRec(r) ==
  LET f == First(r.in.dyn, r.in.hs) IN
  IF f = 0 THEN r.out.called = <<>> /\ r.out.thr = "re" /\ r.out.ret = 0 ELSE r.out.called = <<f>> /\ r.out.same /\ r.out.thr = "" /\ r.out.ret = f * 7
OverRec(r) ==
  LET f == Exact(r.in.hs, r.in.t) IN
  IF f = 0 THEN r.out.called = <<>> /\ r.out.same /\ (r.in.how # "visit" => r.out.ret = 0 - 1) ELSE r.out.called = <<f>> /\ r.out.same /\ (r.in.how # "visit" => r.out.ret = f * 7)
EnumRec(r) == r.out.str = r.in.names /\ r.out.stream = r.in.names
BitsRec(r) == \A j \in 1..Len(r.in.masks) :
  LET S == RangeOf(r.in.masks[j])  g == r.out.seen[j] IN g.visited = BitsUp(S) /\ RangeOf(g.has) = S /\ g.plain
NarrowRec(r) == \A j \in 1..Len(r.in.masks) : r.out.seen[j].visited = BitsUp(BitsOf(r.in.masks[j], Width(r.in.ty)))
XAccept(r) == CASE r.in.fn = "check" -> CheckRec(r)
                [] r.in.fn = "match" -> MatchRec(r)
                [] r.in.fn = "over" -> OverRec(r)
                [] r.in.fn = "enum" -> EnumRec(r)
                [] r.in.fn = "bits" -> BitsRec(r)
                [] r.in.fn = "narrow" -> NarrowRec(r)
=====================================================================
