---------------------------- MODULE GroupOps ----------------------------
(* Grouping a sequence into maximal runs. Elements of a result are <<key, original position>>. *)
EXTENDS Seqs
\* maximal runs of equal classes: <<lo, hi>>, 0-based, half open
RECURSIVE RunsFrom(_, _)
RunsFrom(s, j) == IF j > Len(s) THEN <<>>
                  ELSE LET D == {h \in (j + 1)..Len(s) : s[h] # s[j]}
                           h == IF D = {} THEN Len(s) + 1 ELSE SetMin(D)
                       IN <<<<j - 1, h - 1>>>> \o RunsFrom(s, h)
Runs(s) == RunsFrom(s, 1)
Keys(f) == [j \in 1..Len(f) |-> f[j][1]]
Tags(f) == [j \in 1..Len(f) |-> f[j][2]]
IsPermutationOf(f, a) == /\ Len(f) = Len(a)
                         /\ {f[j][2] : j \in 1..Len(f)} = 0..(Len(a) - 1)
                         /\ \A j \in 1..Len(f) : a[f[j][2] + 1] = f[j][1]
Same(f, a) == IsPermutationOf(f, a) /\ \A j \in 1..Len(f) : f[j][2] = j - 1
Class(f, d) == [j \in 1..Len(f) |-> f[j][1] \div d]
Reverse(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
=====================================================================
