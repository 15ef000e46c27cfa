---------------------------- MODULE BulkConf ----------------------------
EXTENDS BulkOps, Conf
XAccept(r) ==
  LET i == r.in  o == r.out.r  f == i.fn IN
  CASE f = "conv" -> LET a == IF i.variant = 9 THEN <<4, 4, 1>> ELSE i.a IN
                     /\ o[1] = (IF i.variant = 6 THEN <<50>> ELSE <<>>) \o Image(a)
                     /\ o[2] = a /\ o[3] = a
    [] f = "copy" -> o = <<i.a, i.a>>
    [] f = "set" -> o = <<Asc({i.a[j] % i.m : j \in 1..Len(i.a)}), i.a>>
    [] f = "rep" -> o = [j \in 1..i.n |-> i.x]
    [] f = "sortby" -> SortByOK(i.a, o[1], i.variant) /\ o[2] = i.a /\ o[3] = [j \in 1..Len(i.a) |-> j - 1]
    [] f = "algo" -> o = <<Algo(i.op, i.a, i.b, i.x), After(i.op, i.a, i.x)>>
    [] f = "sorts" -> (CASE i.op \in {"sort", "sortdq"} -> o = SortedOf(i.a)
                         [] i.op = "sortdesc" -> o = Desc(SortedOf(i.a))
                         [] i.op = "nth" -> NthOK(i.a, o, i.x, FALSE)
                         [] i.op = "nthdesc" -> NthOK(i.a, o, i.x, TRUE))
=====================================================================
