----------------------------- MODULE NumOps -----------------------------
(* Pipelines over every arithmetic type. The input is the block a repeated rep times, every value scaled by 2^s: the
   specification computes in units of 2^s, so results of any magnitude stay within TLC's integers, and a result that is
   no multiple of the unit is wrong. <<q, 0>> is q units. *)
EXTENDS PipesOps
MaskBit(m, v) == (m \div (2 ^ ((v + 400) % 4))) % 2 = 1
Hits(a, m) == Cardinality({j \in 1..Len(a) : MaskBit(m, a[j])})
Period(a) == Len(Uniq(a \o a)) - Len(Uniq(a))          \* what one more repetition adds to unique
Head1(a, m) == LET B == {j \in 1..Len(a) : ~MaskBit(m, a[j])} IN IF B = {} THEN Len(a) ELSE SetMin(B) - 1
Through(i) == LET n == Len(i.a) IN
  CASE i.stage = 0 -> i.rep * (n - Hits(i.a, i.mask))
    [] i.stage = 1 -> (IF n = 0 \/ i.rep = 0 THEN 0 ELSE Len(Uniq(i.a)) + (i.rep - 1) * Period(i.a))
    [] i.stage = 2 -> (IF Head1(i.a, i.mask) = n THEN i.rep * n ELSE Head1(i.a, i.mask))
    [] OTHER -> i.rep * n
NumOK(i, o) ==
  CASE i.op = "iota" -> o = [j \in 1..Max2(0, i.a[2] - i.a[1]) |-> i.a[1] + j - 1]
    [] i.op \in {"sum", "wide"} -> o = <<i.rep * Sum(i.a), 0>>
    [] i.op = "max" -> o = <<(IF i.rep = 0 THEN i.init ELSE MaxOf(i.init, i.a)), 0>>
    [] i.op = "count" -> o = <<i.rep * Hits(i.a, i.mask), 0>>
    [] i.op = "avg" -> Len(o) = 2 /\ LET d == 2 * (o[1] * Len(i.a) - Sum(i.a) * 360) IN d <= Len(i.a) + 1 /\ d >= 0 - (Len(i.a) + 1)
    [] i.op = "len" -> o = <<Through(i), 0>>
=====================================================================
