---------------------------- MODULE LitOps ----------------------------
(* Text literals as type arguments: a literal (without NUL) is spread over Cap character positions, one after the other;
   positions behind its end hold NUL. Thread names; reference/const stripping of types. *)
EXTENDS Seqs
Stored(lit, cap) == [k \in 1..cap |-> IF k <= Len(lit) THEN lit[k] ELSE 0]
Text(st) == LET Z == {k \in 1..Len(st) : st[k] = 0} IN IF Z = {} THEN st ELSE SubSeq(st, 1, SetMin(Z) - 1)
\* number of the first literal equal to the k-th
FirstSame(lits, k) == SetMin({j \in 1..k : lits[j] = lits[k]})
\* types: [c |-> const?, r |-> 0 value, 1 lvalue reference, 2 rvalue reference]
Clear(t) == [c |-> 0, r |-> 0]
Forward(t) == IF t.r = 2 THEN [t EXCEPT !.r = 0] ELSE t
\* thread names: op <<who, thread, name>>; who renames does not matter
Rename(s, o) == [s EXCEPT ![o[2]] = o[3]]
=====================================================================
