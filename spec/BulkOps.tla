---------------------------- MODULE BulkOps ----------------------------
(* Bulk conversions and whole-range algorithms as functions on sequences. *)
EXTENDS Seqs
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE <<SetMin(S)>> \o Asc(S \ {SetMin(S)})
RECURSIVE SortedOf(_)
SortedOf(a) == LET ks == Asc(RangeOf(a)) IN Flat([j \in 1..Len(ks) |-> [q \in 1..Count(a, ks[j]) |-> ks[j]]])
Image(a) == MapSeq(LAMBDA x : x * 3 + 1, a)
\* columns: keys, and the positions the elements came from
SortByOK(k, cols, variant) ==
  LET key == cols[1]  n == Len(k)  tag == cols[2]
  IN /\ key = SortedOf(k)
     /\ Len(tag) = n /\ {tag[j] : j \in 1..n} = 0..(n - 1)
     /\ \A j \in 1..n : key[j] = k[tag[j] + 1]
     /\ CASE variant = 1 -> Len(cols) = 4 /\ cols[3] = [j \in 1..n |-> tag[j] + 1000] /\ cols[4] = [j \in 1..n |-> 2 * tag[j]]
          [] variant = 3 -> Len(cols) = 3 /\ cols[3] = [j \in 1..n |-> tag[j] + 1000]
          [] OTHER -> Len(cols) = 2
FirstSuch(a, P(_)) == LET J == {j \in 1..Len(a) : P(a[j])} IN IF J = {} THEN Len(a) ELSE SetMin(J) - 1
B(x) == IF x THEN 1 ELSE 0
Uniform(a, f(_)) == \A i, j \in 1..Len(a) : f(a[i]) = f(a[j])
Algo(op, a, b, x) ==
  LET P(e) == e % 3 = x
      best(f(_), lt(_, _)) == IF a = <<>> THEN 0 ELSE SetMin({j \in 1..Len(a) : \A k \in 1..Len(a) : ~lt(f(a[k]), f(a[j]))}) - 1
      id(e) == e   half(e) == e \div 2   par(e) == e % 2
      less(p, q) == p < q   more(p, q) == p > q
  IN CASE op = "all" -> B(\A j \in 1..Len(a) : P(a[j]))
       [] op = "any" -> B(\E j \in 1..Len(a) : P(a[j]))
       [] op = "none" -> B(~ \E j \in 1..Len(a) : P(a[j]))
       [] op = "findif" -> FirstSuch(a, P)
       [] op = "find" -> FirstSuch(a, LAMBDA e : e = x)
       [] op = "count" -> Cardinality({j \in 1..Len(a) : P(a[j])})
       [] op = "min" -> best(id, less)
       [] op = "max" -> best(id, more)
       [] op = "minby" -> best(half, less)
       [] op = "maxby" -> best(half, more)
       [] op = "sorted" -> B(IsSorted(a))
       [] op = "sorteddesc" -> B(\A j \in 1..(Len(a) - 1) : a[j] >= a[j + 1])
       [] op = "fill" -> 0
       [] op = "equal" -> B(a = b)
       [] op \in {"uniform", "uniformit", "uniformlv"} -> B(Uniform(a, id))
       [] op = "uniformby" -> B(Uniform(a, par))
       [] op = "uniformbylv" -> B(Uniform(a, half))
After(op, a, x) == IF op = "fill" THEN [j \in 1..Len(a) |-> x] ELSE a
AlgoNames == {"all", "any", "none", "findif", "find", "count", "min", "max", "minby", "maxby", "sorted", "sorteddesc", "fill", "uniform", "uniformit", "uniformlv", "uniformby", "uniformbylv"}
Desc(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
NthOK(a, o, n, desc) ==
  LET s == IF desc THEN Desc(SortedOf(a)) ELSE SortedOf(a) IN
  /\ SortedOf(o) = SortedOf(a)
  /\ n < Len(a) => /\ o[n + 1] = s[n + 1]
                   /\ \A j \in 1..n : IF desc THEN o[j] >= o[n + 1] ELSE o[j] <= o[n + 1]
                   /\ \A j \in (n + 2)..Len(a) : IF desc THEN o[j] <= o[n + 1] ELSE o[j] >= o[n + 1]
=====================================================================
