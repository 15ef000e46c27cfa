---------------------------- MODULE OwnersOps ----------------------------
(* Single ownership: slots hold objects, an object owns at most one resource, moving transfers it, destroying or
   overwriting the owner releases it, exactly once. Resources are numbered in creation order and carry data
   (bytes / values still to come) and a position.
   ops: <<"mk", i, kind, n>>, <<"mc", i, j>>, <<"ma", i, j>>, <<"ds", i>>, <<"da", i>> plus data operations *)
EXTENDS Seqs
Own0(ns) == [obj |-> [i \in 1..ns |-> FALSE], id |-> [i \in 1..ns |-> 0], n |-> 0, gone |-> {}, armed |-> {}, dat |-> <<>>, pos |-> <<>>]
Res(s, rel, ret) == [s |-> s, rel |-> rel, ret |-> ret]
Owned(s) == {s.id[i] : i \in DOMAIN s.id} \ {0}
Release(s, k) == [s EXCEPT !.gone = @ \cup {k}]
\* release what slot j owns, if anything: <<state, released ids>>
DropOwned(s, j) == IF s.id[j] = 0 THEN <<s, <<>>>> ELSE <<[Release(s, s.id[j]) EXCEPT !.id[j] = 0], <<s.id[j]>>>>
New(s, i, d) == [s EXCEPT !.obj[i] = TRUE, !.id[i] = s.n + 1, !.n = s.n + 1, !.armed = @ \cup {s.n + 1}, !.dat = Append(@, d), !.pos = Append(@, 0)]
MoveConstruct(s, i, j) == Res([s EXCEPT !.obj[j] = TRUE, !.id[j] = s.id[i], !.id[i] = 0], <<>>, <<>>)
MoveAssign(s, i, j) == IF i = j THEN Res(s, <<>>, <<>>)
                       ELSE LET d == DropOwned(s, j) IN Res([d[1] EXCEPT !.id[j] = s.id[i], !.id[i] = 0], d[2], <<>>)
Destroy(s, i) == LET d == DropOwned(s, i) IN Res([d[1] EXCEPT !.obj[i] = FALSE], d[2], <<>>)
Disarm(s, i) == Res([s EXCEPT !.armed = @ \ {s.id[i]}], <<>>, <<>>)
CanMC(s, i, j) == i # j /\ s.obj[i] /\ ~s.obj[j]
CanMA(s, i, j) == s.obj[i] /\ s.obj[j]
CanDS(s, i) == s.obj[i]
CanMK(s, i) == ~s.obj[i]
\* ------------------------------------------------------------------ typed operations
FileData(k) == [j \in 1..((k * 3) % 5) |-> (96 + ((k + j) % 26))]
LineData(k) == [j \in 1..(2 + (k % 4)) |-> IF (j % 2) = 0 THEN 10 ELSE 97 + (k % 26)]
Pattern(k, n) == [j \in 1..n |-> (k * 7 + j) % 251]
Resized(d, n) == [j \in 1..n |-> IF j <= Len(d) THEN d[j] ELSE 200]
TakeN(x, n) == SubSeq(x, 1, Min2(n, Len(x)))
LineLen(x) == LET B == {j \in 1..Len(x) : x[j] = 10} IN IF B = {} THEN Len(x) ELSE SetMin(B) - 1
Step(ty, s, o) ==
  LET i == o[2]  k == s.id[i] IN
  CASE o[1] = "mk" /\ ~CanMK(s, i) -> Res(s, <<>>, <<>>)
    [] o[1] = "mk" /\ CanMK(s, i) ->
       (CASE ty = "buffer" -> (IF o[3] = 3 THEN Res([s EXCEPT !.obj[i] = TRUE], <<>>, <<>>)
                               ELSE IF o[3] = 4 THEN Res(s, <<>>, <<1>>)                   \* construction fails
                               ELSE Res(New(s, i, Pattern(s.n + 1, o[4])), <<>>, <<>>))
          [] ty = "file" -> (IF o[3] = 1 THEN Res(s, <<>>, <<1>>) ELSE Res(New(s, i, IF o[3] = 3 THEN <<>> ELSE FileData(s.n + 1)), <<>>, <<>>))
          [] ty = "mfile" -> (IF o[3] = 1 THEN Res(s, <<>>, <<1>>) ELSE Res(New(s, i, IF o[3] = 3 THEN <<>> ELSE FileData(s.n + 1)), <<>>, <<>>))
          [] ty \in {"mmap", "mmem"} -> (IF o[3] \notin {0, 3} THEN Res(s, <<>>, <<1>>)
                             ELSE Res(New(s, i, LineData(s.n + 1) \o (IF o[3] = 3 THEN [j \in 1..o[4] |-> 122] ELSE <<>>)), <<>>, <<>>))
          [] ty = "gen" -> Res(New(s, i, [j \in 1..o[4] |-> (s.n + 1) * 10 + j] \o (IF o[3] = 1 THEN <<0 - 1>> ELSE <<>>)), <<>>, <<>>)
          [] ty = "fin" -> Res(New(s, i, <<>>), <<>>, <<>>)
          [] ty = "raii" -> Res(New(s, i, <<o[4]>>), <<>>, <<>>))
    [] o[1] = "mc" -> (IF CanMC(s, i, o[3]) THEN MoveConstruct(s, i, o[3]) ELSE Res(s, <<>>, <<>>))
    [] o[1] = "ma" -> (IF CanMA(s, i, o[3]) THEN MoveAssign(s, i, o[3]) ELSE Res(s, <<>>, <<>>))
    [] o[1] = "ds" -> (IF CanDS(s, i) THEN Destroy(s, i) ELSE Res(s, <<>>, <<>>))
    [] o[1] = "da" -> (IF k # 0 THEN Disarm(s, i) ELSE Res(s, <<>>, <<>>))
    [] o[1] \in {"rs", "rb"} /\ ~s.obj[i] -> Res(s, <<>>, <<>>)
    [] o[1] = "rb" /\ s.obj[i] -> Res(s, <<>>, <<1>>)                                       \* resize fails, nothing changes
    [] o[1] = "rs" /\ s.obj[i] /\ k = 0 -> Res(New(s, i, Resized(<<>>, o[3])), <<>>, <<>>)
    [] o[1] = "rs" /\ s.obj[i] /\ k # 0 -> Res([s EXCEPT !.dat[k] = Resized(@, o[3])], <<>>, <<>>)
    [] o[1] \in {"wr", "set", "gc", "ct", "ln", "rn", "nx", "bl", "sz"} /\ k = 0 -> Res(s, <<>>, <<>>)
    [] o[1] = "wr" /\ k # 0 -> Res(IF o[3] <= Len(s.dat[k]) /\ o[3] > 0 THEN [s EXCEPT !.dat[k][o[3]] = o[4]] ELSE s, <<>>, <<>>)
    [] o[1] = "set" /\ k # 0 -> Res([s EXCEPT !.dat[k] = <<o[3]>>], <<>>, <<>>)
    [] o[1] = "gc" /\ k # 0 -> (IF s.pos[k] < Len(s.dat[k]) THEN Res([s EXCEPT !.pos[k] = @ + 1], <<>>, <<s.dat[k][s.pos[k] + 1]>>) ELSE Res(s, <<>>, <<0 - 1>>))
    [] o[1] = "sz" /\ k # 0 -> Res(s, <<>>, <<Len(s.dat[k])>>)
    [] o[1] = "ct" /\ k # 0 -> Res([s EXCEPT !.pos[k] = Len(s.dat[k])], <<>>, s.dat[k])
    [] o[1] = "rn" /\ k # 0 -> (LET x == TakeN(SubSeq(s.dat[k], s.pos[k] + 1, Len(s.dat[k])), o[3]) IN Res([s EXCEPT !.pos[k] = @ + Len(x)], <<>>, x))
    [] o[1] = "ln" /\ k # 0 ->
       (LET x == SubSeq(s.dat[k], s.pos[k] + 1, Len(s.dat[k]))  l == LineLen(x) IN
        Res([s EXCEPT !.pos[k] = Min2(Len(s.dat[k]), @ + l + 1)], <<>>, TakeN(x, l)))
    [] o[1] = "nx" /\ k # 0 ->
       (IF s.pos[k] < Len(s.dat[k])
        THEN (IF s.dat[k][s.pos[k] + 1] = 0 - 1 THEN Res([s EXCEPT !.pos[k] = @ + 1], <<>>, <<0 - 7>>)
              ELSE Res([s EXCEPT !.pos[k] = @ + 1], <<>>, <<s.dat[k][s.pos[k] + 1]>>))
        ELSE Res(s, <<>>, <<0 - 8>>))
    [] o[1] = "bl" /\ k # 0 ->
       (IF s.pos[k] < Len(s.dat[k])
        THEN (IF s.dat[k][s.pos[k] + 1] = 0 - 1 THEN Res([s EXCEPT !.pos[k] = @ + 1], <<>>, <<0 - 7>>) ELSE Res(s, <<>>, <<1>>))
        ELSE Res(s, <<>>, <<0>>))
Common == {"mc", "ma", "ds"}
\* valid operation sequences of length n over ns slots, with the typed operations listed in X
RECURSIVE Behaviours(_, _, _, _, _)
Behaviours(ty, ns, mks, X, n) ==
  IF n = 0 THEN {<<<<>>, Own0(ns)>>}
  ELSE LET B == Behaviours(ty, ns, mks, X, n - 1) IN
       UNION {LET s == b[2]
                  O == {<<"mk", i>> \o m : i \in {q \in 1..ns : CanMK(s, q)}, m \in mks}
                       \cup (IF ty = "raii" THEN {} ELSE {<<"mc", i, j>> : i \in {q \in 1..ns : s.obj[q]}, j \in {q \in 1..ns : ~s.obj[q]}}
                                                    \cup {<<"ma", i, j>> : i \in {q \in 1..ns : s.obj[q]}, j \in {q \in 1..ns : s.obj[q]}})
                       \cup {<<"ds", i>> : i \in {q \in 1..ns : s.obj[q]}}
                       \cup {<<x[1], i>> \o Tail(x) : i \in {q \in 1..ns : s.id[q] # 0}, x \in X}
              IN {<<Append(b[1], o), Step(ty, s, o).s>> : o \in O} : b \in B}
=====================================================================
