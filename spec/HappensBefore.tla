--------------------------- MODULE HappensBefore ---------------------------
(* The vector clock machine of HBOps against the relational definition of happens-before
   (program order, lock order, release/acquire through release sequences, fork/join), on every
   execution of length <= MaxLen over the given event alphabet. *)
EXTENDS HBOps, FiniteSets
CONSTANTS NT, Alphabet, MaxLen
VARIABLES tr, m
Init == tr = <<>> /\ m = HBStart(NT)
Next == \E e \in Alphabet : Len(tr) < MaxLen /\ tr' = Append(tr, e) /\ m' = HBNext(m, e)
Spec == Init /\ [][Next]_<<tr, m>>
\* --- relational definition ---
IsW(e) == e[1] \in {AS, AM}
SameLoc(i, j) == tr[i][3] = tr[j][3]
LastStore(i) == LET S == {j \in 1..(i - 1) : IsW(tr[j]) /\ SameLoc(i, j)} IN
                IF S = {} THEN 0 ELSE CHOOSE j \in S : \A q \in S : q <= j
\* release heads a read of location x at i may synchronise with: walk back through read-modify-writes
RECURSIVE Heads(_)
Heads(i) == LET j == LastStore(i) IN
            IF j = 0 THEN {}
            ELSE (IF Rel(tr[j][4]) THEN {j} ELSE {}) \cup (IF tr[j][1] = AM THEN Heads(j) ELSE {})
SW == {<<i, j>> \in (1..Len(tr)) \X (1..Len(tr)) :
         /\ i < j
         /\ \/ tr[i][1] = UL /\ tr[j][1] = LK /\ SameLoc(i, j)
            \/ tr[j][1] \in {AL, AM} /\ Acq(tr[j][4]) /\ i \in Heads(j)
            \/ tr[i][1] = FK /\ tr[j][1] = ST /\ tr[i][3] = tr[j][2]
            \/ tr[i][1] = EN /\ tr[j][1] = JN /\ tr[j][3] = tr[i][2]}
PO == {<<i, j>> \in (1..Len(tr)) \X (1..Len(tr)) : i < j /\ tr[i][2] = tr[j][2]}
RECURSIVE Closure(_)
Closure(R) == LET R2 == R \cup {<<i, j>> \in (1..Len(tr)) \X (1..Len(tr)) : \E k \in 1..Len(tr) : <<i, k>> \in R /\ <<k, j>> \in R}
              IN IF R2 = R THEN R ELSE Closure(R2)
HB == Closure(PO \cup SW)
IsAcc(e) == e[1] <= AM
RaceRel == LET H == HB IN \E i, j \in 1..Len(tr) :
             /\ i < j /\ IsAcc(tr[i]) /\ IsAcc(tr[j]) /\ SameLoc(i, j) /\ tr[i][2] # tr[j][2]
             /\ (tr[i][1] \in {WR, AS, AM} \/ tr[j][1] \in {WR, AS, AM})
             /\ (tr[i][1] < AL \/ tr[j][1] < AL)
             /\ <<i, j>> \notin H
Agree == m.race = RaceRel
\* the interesting prefix only: races are monotone
Bound == ~m.race
A2 == {<<k, t, 0, 0>> : k \in {RD, WR}, t \in {0, 1}} \cup {<<AL, t, 1, mo>> : t \in {0, 1}, mo \in {0, 2}}
      \cup {<<AS, t, 1, mo>> : t \in {0, 1}, mo \in {0, 3}} \cup {<<AM, t, 1, mo>> : t \in {0, 1}, mo \in {0, 4}}
      \cup {<<k, t, 0, 0>> : k \in {LK, UL}, t \in {0, 1}}
A3 == {<<WR, t, 0, 0>> : t \in 0..2} \cup {<<k, t, 1, 4>> : k \in {AL, AM}, t \in 0..2} \cup {<<AM, t, 1, 0>> : t \in 0..2}
      \cup {<<AS, t, 1, 3>> : t \in 0..2}
A4 == {<<k, t, 0, 0>> : k \in {RD, WR}, t \in {0, 1}} \cup {<<FK, 0, 1, 0>>, <<ST, 1, 0, 0>>, <<EN, 1, 0, 0>>, <<JN, 0, 1, 0>>, <<AS, 0, 0, 3>>, <<AL, 1, 0, 2>>}
=====================================================================
