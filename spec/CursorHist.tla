---------------------------- MODULE CursorHist ----------------------------
(* Recorded iterator programs of the real code. r.out: rets per operation, all (range-for), size, idx (operator[]),
   after (final columns), thr (construction threw) *)
EXTENDS CursorOps, Hist
\* a long range (in.len elements, the columns repeating) is observed at the positions in.samp only
Long(r) == "samp" \in DOMAIN r.in
Unequal(r) == ~Long(r) /\ \E k \in 1..Len(r.in.d) : Len(r.in.d[k]) # Len(r.in.d[1])
GLen(r) == IF Unequal(r) THEN 0 ELSE Len(r.in.ops)
Data(r) == IF Long(r) THEN [k \in 1..Len(r.in.d) |-> [j \in 1..r.in.len |-> r.in.d[k][((j - 1) % Len(r.in.d[k])) + 1]]] ELSE r.in.d
See(r, s) == IF Long(r) THEN LET q == SelectSeq(r.in.samp, LAMBDA p : p < Len(s)) IN [j \in 1..Len(q) |-> s[q[j] + 1]] ELSE s
Cols(r, d) == [k \in 1..Len(d) |-> See(r, d[k])]
GStart(r) == {StartW(Data(r), r.in.init, r.in.w)}
GStep(s, i, r) ==
  LET q == Step(r.in.kind, s, r.in.ops[i]) IN IF Valid(s, r.in.ops[i]) /\ r.out.rets[i] = q.ret THEN {q.s} ELSE {}
Whole(r, d) == LET s == StartW(d, <<0>>, r.in.w)
                   q == IF Long(r) THEN SelectSeq(r.in.samp, LAMBDA p : p < Cells(s)) ELSE [j \in 1..Cells(s) |-> j - 1]
               IN [j \in 1..Len(q) |-> Elem(r.in.kind, s, q[j])]
Shortest(r) == LET n == SetMin({Len(r.in.d[k]) : k \in 1..Len(r.in.d)}) IN [j \in 1..n |-> [k \in 1..Len(r.in.d) |-> r.in.d[k][j]]]
GEnd(s, r) ==
  IF "un" \in DOMAIN r.in THEN r.out.thr = 0 /\ r.out.idx = Shortest(r)   \* the unchecked variants take containers as they are
  ELSE IF Unequal(r) THEN r.out.thr = 1
  ELSE /\ r.out.thr = 0
       /\ r.out.all = Whole(r, Data(r))
       /\ r.out.cnt = Cells(s)
       /\ Len(r.out.rets) = Len(r.in.ops)
       /\ r.out.after = Cols(r, CASE r.in.owned = 1 -> Data(r) [] r.in.owned = 2 -> <<Data(r)[1], s.d[2]>> [] OTHER -> s.d)
       /\ r.out.cat = r.in.cat
       /\ (r.in.kind = "zip" => r.out.size = Cells(s) /\ r.out.idx = Whole(r, Data(r)) /\ r.out.again = Whole(r, s.d))
       /\ (r.in.kind = "win" => r.out.size = Cells(s))
=====================================================================
