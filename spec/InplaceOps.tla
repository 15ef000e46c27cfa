---------------------------- MODULE InplaceOps ----------------------------
(* Container helpers that work in place. *)
EXTENDS Seqs
SortedSet(S) == IF S = {} THEN <<>> ELSE CHOOSE s \in [1..Cardinality(S) -> S] : (\A j \in 1..(Cardinality(S) - 1) : s[j] < s[j + 1])
RECURSIVE AscendingOf(_)
AscendingOf(S) == IF S = {} THEN <<>> ELSE <<SetMin(S)>> \o AscendingOf(S \ {SetMin(S)})
Rev(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
Erased(a, x) == SelectSeq(a, LAMBDA e : e # x)
Bit(m, k) == (m \div (2 ^ k)) % 2 = 1
ErasedIf(a, m) == SelectSeq(a, LAMBDA e : ~Bit(m, e))
\* result elements <<key, original position>>; one representative per class, classes ascending (or descending)
DupOK(a, lo, hi, d, desc, res) ==
  LET pre == SubSeq(a, 1, lo)  mid == SubSeq(a, lo + 1, hi)  post == SubSeq(a, hi + 1, Len(a))
      cl == AscendingOf({mid[j] \div d : j \in 1..Len(mid)})
      want == IF desc THEN Rev(cl) ELSE cl
      n == Len(want)
  IN /\ Len(res) = lo + n + Len(post)
     /\ \A j \in 1..lo : res[j] = <<a[j], j - 1>>
     /\ \A j \in 1..n : /\ res[lo + j][1] \div d = want[j]
                        /\ res[lo + j][2] \in lo..(hi - 1)
                        /\ a[res[lo + j][2] + 1] = res[lo + j][1]
     /\ \A j \in 1..Len(post) : res[lo + n + j] = <<post[j], hi + j - 1>>
\* insertion into an ascending sequence: <<position, inserted, value, sequence>>
Below(a, x) == Cardinality({j \in 1..Len(a) : a[j] < x})
Inserted(a, x) == IF x \in RangeOf(a) THEN <<Below(a, x), 0, x, a>>
                  ELSE <<Below(a, x), 1, x, SubSeq(a, 1, Below(a, x)) \o <<x>> \o SubSeq(a, Below(a, x) + 1, Len(a))>>
InsertedDesc(a, x) == LET d == Rev(a)  n == Cardinality({j \in 1..Len(a) : a[j] > x}) IN
                      IF x \in RangeOf(a) THEN <<n, 0, x, d>> ELSE <<n, 1, x, SubSeq(d, 1, n) \o <<x>> \o SubSeq(d, n + 1, Len(d))>>
\* get_or_create: map state is a function from keys to values
\* op <<key, factory value (-1: the factory throws), value written through the reference (0: none)>>
GocStep(m, o) ==
  LET k == o[1] IN
  IF k \in DOMAIN m
  THEN [m |-> IF o[3] # 0 THEN [m EXCEPT ![k] = o[3]] ELSE m, obs |-> <<0, 0, m[k], 1, Cardinality(DOMAIN m)>>]
  ELSE IF o[2] = 0 - 1 THEN [m |-> m, obs |-> <<1, 1, 0 - 5, 0 - 1, Cardinality(DOMAIN m)>>]
  ELSE LET n == [q \in DOMAIN m \cup {k} |-> IF q = k THEN (IF o[3] # 0 THEN o[3] ELSE o[2]) ELSE m[q]]
       IN [m |-> n, obs |-> <<1, 0, o[2], 1, Cardinality(DOMAIN n)>>]
RECURSIVE GocAll(_, _)
GocAll(m, ops) == IF ops = <<>> THEN <<>> ELSE LET r == GocStep(m, Head(ops)) IN <<r.obs>> \o GocAll(r.m, Tail(ops))
\* memoised recursion: the factory of key k adds the values of its (smaller) dependencies, asking the same map
\* state <<map, number of factory calls>>
RECURSIVE Memo(_, _, _, _)  RECURSIVE MemoAll(_, _, _, _)
Memo(st, k, deps, w) ==
  IF k \in DOMAIN st[1] THEN st
  ELSE LET q == MemoAll(st, deps[k], deps, w)
           v == w[k] + Sum([j \in 1..Len(deps[k]) |-> q[1][deps[k][j]]])
       IN <<[x \in DOMAIN q[1] \cup {k} |-> IF x = k THEN v ELSE q[1][x]], q[2] + 1>>
MemoAll(st, ks, deps, w) == IF ks = <<>> THEN st ELSE MemoAll(Memo(st, Head(ks), deps, w), Tail(ks), deps, w)
RECURSIVE MemoObs(_, _, _, _)
MemoObs(m, ops, deps, w) ==
  IF ops = <<>> THEN [obs |-> <<>>, m |-> m]
  ELSE LET q == Memo(<<m, 0>>, Head(ops), deps, w)
           t == MemoObs(q[1], Tail(ops), deps, w)
       IN [obs |-> <<<<q[1][Head(ops)], q[2], Cardinality(DOMAIN q[1])>>>> \o t.obs, m |-> t.m]
MemoOut(i) == LET z == MemoObs([x \in {} |-> 0], i.ops, i.deps, i.w) IN <<z.obs, [k \in 1..Len(i.w) |-> IF k \in DOMAIN z.m THEN z.m[k] ELSE 0 - 1]>>
IndexStep(m, k) == IF k \in DOMAIN m THEN m ELSE [q \in DOMAIN m \cup {k} |-> IF q = k THEN Cardinality(DOMAIN m) ELSE m[q]]
RECURSIVE IndexAll(_, _)
IndexAll(m, ops) == IF ops = <<>> THEN <<>> ELSE LET n == IndexStep(m, Head(ops)) IN <<<<n[Head(ops)], Cardinality(DOMAIN n)>>>> \o IndexAll(n, Tail(ops))
Empty == [x \in {} |-> 0]
=====================================================================
