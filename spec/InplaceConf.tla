---------------------------- MODULE InplaceConf ----------------------------
EXTENDS InplaceOps, Conf
XAccept(r) ==
  LET i == r.in  o == r.out.r  f == i.fn IN
  CASE f = "erase" -> o = (IF i.variant \in {7, 8} THEN AscendingOf(RangeOf(i.a) \ {i.x}) ELSE Erased(i.a, i.x))
    [] f = "erase_if" -> o = ErasedIf(i.a, i.m)
    [] f = "dup" -> (CASE i.variant \in {0, 3} -> DupOK(i.a, 0, Len(i.a), 1, FALSE, o)
                      [] i.variant = 1 -> DupOK(i.a, 0, Len(i.a), i.div, FALSE, o)
                      [] i.variant = 2 -> DupOK(i.a, 0, Len(i.a), i.div, TRUE, o)
                      [] i.variant \in {4, 5} -> DupOK(i.a, i.lo, i.hi, i.div, FALSE, o)
                      [] i.variant = 6 -> DupOK(i.a, i.lo, Len(i.a), i.div, TRUE, o))
    [] f = "insert" -> o = (IF i.variant \in {4, 7} THEN InsertedDesc(i.a, i.x) ELSE Inserted(i.a, i.x))
    [] f = "concat" -> o = <<1, i.a \o i.b>>
    [] f = "goc" -> o = GocAll(Empty, i.ops)
    [] f = "rec" -> o = MemoOut(i)
    [] f = "goci" -> o = IndexAll(Empty, i.ops)
=====================================================================
