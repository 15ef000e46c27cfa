----------------------------- MODULE HugeOps -----------------------------
(* Files beyond 2 and 4 GiB. A number is <<MiB, rest>>, 0 <= rest < 2^20. i.len: file length; i.marks: <<MiB, rest, byte>>,
   ascending; every other byte is 0. *)
EXTENDS Seqs
MiB == 1048576
Le(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Add(a, b) == LET r == a[2] + b[2] IN <<a[1] + b[1] + (r \div MiB), r % MiB>>
Sub(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>> ELSE <<a[1] - b[1] - 1, a[2] + MiB - b[2]>>
Zero == <<0, 0>>
At(m) == <<m[1], m[2]>>
Whole(i, r) == r.len = i.len /\ r.m = [j \in 1..Len(i.marks) |-> i.marks[j][3]]
\* lines: cut at the newline marks, the newline itself left out, no empty piece after a final newline
RECURSIVE Cuts(_, _, _)
Cuts(i, p, j) == IF j > Len(i.marks)
                 THEN (IF p = i.len THEN <<>> ELSE <<<<p, Sub(i.len, p)>>>>)
                 ELSE IF i.marks[j][3] # 10 THEN Cuts(i, p, j + 1)
                 ELSE <<<<p, Sub(At(i.marks[j]), p)>>>> \o Cuts(i, Add(At(i.marks[j]), <<0, 1>>), j + 1)
RECURSIVE Chunks(_, _, _)
Chunks(i, p, j) == IF j > Len(i.take) THEN <<>>
                   ELSE LET rest == Sub(i.len, p)  n == IF Le(i.take[j], rest) THEN i.take[j] ELSE rest
                        IN <<<<(IF n = Zero THEN <<>> ELSE p), n>>>> \o Chunks(i, Add(p, n), j + 1)
HugeOK(i, r) ==
  CASE i.how = "size" -> r.len = i.len
    [] i.how \in {"get", "gets", "rf"} -> Whole(i, r)
    [] i.how = "mm" -> Whole(i, r) /\ r.next = Zero
    [] i.how = "lines" -> r.lines = Cuts(i, Zero, 1)
    [] i.how = "chunks" -> r.lines = Chunks(i, Zero, 1)
=====================================================================
