----------------------------- MODULE PipesOps -----------------------------
(* Pipelines: a stage is <<kind, parameter>>: 0 remove_if (bit mask over value mod 4), 1 transform, 2 unique,
   3 take_while (bit mask). The meaning is eager: every stage maps a whole sequence to a whole sequence. *)
EXTENDS Seqs
Bit(m, v) == (m \div (2 ^ (v % 4))) % 2 = 1
Fun(k, v) == CASE k = 0 -> v + 1 [] k = 1 -> v \div 2 [] k = 2 -> 3 - (v % 4) [] k = 3 -> 2 [] OTHER -> 3 * v
Uniq(s) == LET K == {j \in 1..Len(s) : j = 1 \/ s[j] # s[j - 1]} IN
           LET RECURSIVE G(_) G(j) == IF j > Len(s) THEN <<>> ELSE (IF j \in K THEN <<s[j]>> ELSE <<>>) \o G(j + 1) IN G(1)
TakeWhile(s, m) == LET B == {j \in 1..Len(s) : ~Bit(m, s[j])} IN IF B = {} THEN s ELSE SubSeq(s, 1, SetMin(B) - 1)
Stage(s, st) == CASE st[1] = 0 -> SelectSeq(s, LAMBDA x : ~Bit(st[2], x))
                  [] st[1] = 1 -> [j \in 1..Len(s) |-> Fun(st[2], s[j])]
                  [] st[1] = 2 -> Uniq(s)
                  [] st[1] = 3 -> TakeWhile(s, st[2])
RECURSIVE Eager(_, _)
Eager(s, sts) == IF sts = <<>> THEN s ELSE Eager(Stage(s, Head(sts)), Tail(sts))
\* terminals
RECURSIVE AccFrom(_, _)
AccFrom(a, s) == IF s = <<>> THEN a ELSE AccFrom((a * 5 + Head(s) + 1) % 1009, Tail(s))
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE <<SetMin(S)>> \o Ascending(S \ {SetMin(S)})
FirstHit(s, m) == LET H == {j \in 1..Len(s) : Bit(m, s[j])} IN IF H = {} THEN <<>> ELSE <<s[SetMin(H)]>>
RECURSIVE MaxOf(_, _)
MaxOf(a, s) == IF s = <<>> THEN a ELSE MaxOf(Max2(a, Head(s)), Tail(s))
\* avg is observed as round(avg * 5040); a double is exact enough for that up to rounding of the last unit
TermOK(t, arg, s, o) ==
  CASE t \in {0, 1, 8, 12, 13, 14} -> o = s
    [] t = 2 -> o = <<AccFrom(7, s)>>
    [] t = 3 -> o = <<Cardinality({j \in 1..Len(s) : Bit(arg, s[j])})>>
    [] t = 4 -> o = FirstHit(s, arg)
    [] t = 5 -> o = <<Sum(s)>>
    [] t = 6 -> IF s = <<>> THEN o = <<>>
                ELSE Len(o) = 1 /\ LET d == 2 * (o[1] * Len(s) - Sum(s) * 5040) IN d <= Len(s) + 1 /\ d >= 0 - (Len(s) + 1)
    [] t = 7 -> o = <<MaxOf(arg, s)>>
    [] t \in {9, 11} -> o = Sorted(s)
    [] t = 10 -> o = Ascending(RangeOf(s))
Source(i) == IF i.src = 4 THEN [j \in 1..(IF i.a[2] > i.a[1] THEN i.a[2] - i.a[1] ELSE 0) |-> i.a[1] + j - 1] ELSE i.a
\* ------------------------------------------------------------------ demand-driven (element-wise) meaning
\* state of the stages: the last value let through by each unique stage (<<>> at the start)
\* Push one element through: result [ok, v, mem, stop, calls]; calls = <<stage number, value>> reached, in order
RECURSIVE Push(_, _, _, _, _)
Push(v, sts, k, mem, calls) ==
  IF k > Len(sts) THEN [ok |-> TRUE, v |-> v, mem |-> mem, stop |-> FALSE, calls |-> calls]
  ELSE LET st == sts[k]  c2 == IF st[1] = 2 THEN calls ELSE Append(calls, <<k, v>>) IN
       CASE st[1] = 0 -> (IF Bit(st[2], v) THEN [ok |-> FALSE, v |-> v, mem |-> mem, stop |-> FALSE, calls |-> c2] ELSE Push(v, sts, k + 1, mem, c2))
         [] st[1] = 1 -> Push(Fun(st[2], v), sts, k + 1, mem, c2)
         [] st[1] = 2 -> (IF mem[k] = <<v>> THEN [ok |-> FALSE, v |-> v, mem |-> mem, stop |-> FALSE, calls |-> c2]
                         ELSE Push(v, sts, k + 1, [mem EXCEPT ![k] = <<v>>], c2))
         [] st[1] = 3 -> (IF Bit(st[2], v) THEN Push(v, sts, k + 1, mem, c2) ELSE [ok |-> FALSE, v |-> v, mem |-> mem, stop |-> TRUE, calls |-> c2])
Mem0(sts) == [k \in 1..Len(sts) |-> <<>>]
\* hit: the terminal is find with mask arg and stops at the first hit
RECURSIVE WalkFrom(_, _, _, _, _, _)
WalkFrom(src, p, sts, mem, find, arg) ==
  IF p > Len(src) THEN <<>>
  ELSE LET r == Push(src[p], sts, 1, mem, <<>>) IN
       LET fin == r.stop \/ (find /\ r.ok /\ Bit(arg, r.v)) IN
       <<[pos |-> p, ok |-> r.ok, v |-> r.v, calls |-> r.calls, fin |-> fin]>>
       \o (IF fin THEN <<>> ELSE WalkFrom(src, p + 1, sts, r.mem, find, arg))
Walk(src, sts, find, arg) == WalkFrom(src, 1, sts, Mem0(sts), find, arg)
Emitted(w) == [j \in 1..Len(SelectSeq(w, LAMBDA x : x.ok)) |-> SelectSeq(w, LAMBDA x : x.ok)[j].v]
Stages == ({0, 3} \X (0..15)) \cup ({1} \X (0..3)) \cup {<<2, 0>>}
=====================================================================
