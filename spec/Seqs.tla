---------------------------- MODULE Seqs ----------------------------
(* Shared sequence vocabulary. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SeqsUpTo(A, n) == UNION {[1..k -> A] : k \in 0..n}
IsSorted(s) == \A j \in 1..(Len(s) - 1) : s[j] <= s[j + 1]
SortedSeqsUpTo(A, n) == {s \in SeqsUpTo(A, n) : IsSorted(s)}
Count(s, x) == Cardinality({j \in 1..Len(s) : s[j] = x})
RangeOf(s) == {s[j] : j \in 1..Len(s)}
IsPermOf(s, t) == Len(s) = Len(t) /\ \A x \in RangeOf(s) \cup RangeOf(t) : Count(s, x) = Count(t, x)
MapSeq(f(_), s) == [j \in 1..Len(s) |-> f(s[j])]
Ident(n) == [j \in 1..n |-> j]
Filter(s, P(_)) == SelectSeq(s, P)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, IF n > Len(s) THEN Len(s) ELSE n)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
IsPrefixOf(s, t) == Len(s) <= Len(t) /\ \A j \in 1..Len(s) : s[j] = t[j]
=====================================================================
