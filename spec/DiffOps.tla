---------------------------- MODULE DiffOps ----------------------------
(* Differences and intersections of sorted sequences. Elements of the diff are <<key, content>>. *)
EXTENDS Seqs
Elems(Ks, Vs, n) == {s \in SeqsUpTo(Ks \X Vs, n) : \A j \in 1..(Len(s) - 1) : s[j][1] <= s[j + 1][1]}
KeysOf(s) == {s[j][1] : j \in 1..Len(s)}
RECURSIVE SortedKeys(_)
SortedKeys(S) == IF S = {} THEN <<>> ELSE <<SetMin(S)>> \o SortedKeys(S \ {SetMin(S)})
OfKey(s, k) == SelectSeq(s, LAMBDA e : e[1] = k)
\* the edits of one key group: elements aligned in order, the rest deleted or added
GroupEdits(x, y) ==
  LET m == Min2(Len(x), Len(y))
      chg == SelectSeq([j \in 1..m |-> <<"chg", x[j][1], x[j][2], y[j][1], y[j][2]>>], LAMBDA e : e[3] # e[5])
      del == [j \in 1..(Len(x) - m) |-> <<"del", x[m + j][1], x[m + j][2]>>]
      add == [j \in 1..(Len(y) - m) |-> <<"add", y[m + j][1], y[m + j][2]>>]
  IN chg \o del \o add
Diff(a, b) == LET K == SortedKeys(KeysOf(a) \cup KeysOf(b)) IN Flat([j \in 1..Len(K) |-> GroupEdits(OfKey(a, K[j]), OfKey(b, K[j]))])
\* applying edits, as bags
Bag(s) == [x \in RangeOf(s) |-> Count(s, x)]
At(B, x) == IF x \in DOMAIN B THEN B[x] ELSE 0
Dels(E) == MapSeq(LAMBDA e : <<e[2], e[3]>>, SelectSeq(E, LAMBDA e : e[1] \in {"del", "chg"}))
Adds(E) == MapSeq(LAMBDA e : IF e[1] = "add" THEN <<e[2], e[3]>> ELSE <<e[4], e[5]>>, SelectSeq(E, LAMBDA e : e[1] \in {"add", "chg"}))
Applied(a, b, E) == \A x \in RangeOf(a) \cup RangeOf(b) \cup RangeOf(Dels(E)) \cup RangeOf(Adds(E)) :
                       /\ Count(a, x) >= Count(Dels(E), x)
                       /\ Count(a, x) - Count(Dels(E), x) + Count(Adds(E), x) = Count(b, x)
\* pairs of positions (0-based) with equal elements
Pairs(a, b) == UNION {{<<i - 1, j - 1, a[i], b[j]>> : j \in {j \in 1..Len(b) : b[j] = a[i]}} : i \in 1..Len(a)}
=====================================================================
