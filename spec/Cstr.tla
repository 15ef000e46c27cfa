------------------------------ MODULE Cstr ------------------------------
(* Views over every small text: every chain of view operations stays inside the text; laws relating the operations;
   the pieces of a text partition it. *)
EXTENDS CstrOps
CONSTANTS Alpha, N
VARIABLES t, v
vars == <<t, v>>
As == {0, 1, 2, N, N + 1, NPos, Near}
Moves == {<<"inc", 1>>, <<"trf", 1>>, <<"trb", 1>>, <<"trim", 1>>, <<"cr", 1>>, <<"line", 1>>, <<"copy", 1>>}
         \cup {<<x, 1, a>> : x \in {"padd", "plus"}, a \in 0..N} \cup {<<"sub1", 1, a>> : a \in As} \cup {<<"until", 1, c>> : c \in Alpha}
         \cup {<<x, 1, a, b>> : x \in {"sub2", "subs"}, a \in As, b \in As} \cup {<<"subf", 1, a, b>> : a \in As, b \in As \cup {IMax}}
R(o) == Result(t, v, o)
Init == t \in SeqsUpTo(Alpha, N) /\ v \in {<<0, Len(t)>>, <<0 - 1, 0>>}
Next == \E o \in Moves : Valid(t, v, o) /\ v' = <<R(o).off, R(o).len>> /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
InBounds == IF v[1] < 0 THEN v[2] = 0 ELSE v[1] + v[2] <= Len(t) /\ v[2] >= 0
X == Viewed(t, v)
RV(o) == Viewed(t, <<R(o).off, R(o).len>>)
Shrinks == \A o \in Moves : Valid(t, v, o) => R(o).len <= v[2] /\ (v[1] >= 0 => R(o).off >= v[1] /\ R(o).off + R(o).len <= v[1] + v[2])
SubstrLaw == \A a \in 0..N, b \in 0..N : a <= b => R(<<"sub2", 0, a, b>>) = R(<<"subs", 0, a, b - a>>)
TrimLaw == LET y == RV(<<"trim", 0>>) IN /\ (y # <<>> => ~Space(y[1]) /\ ~Space(y[Len(y)]))
                                         /\ Len(SelectSeq(y, LAMBDA c : ~Space(c))) = Len(SelectSeq(X, LAMBDA c : ~Space(c)))
FindLaw == \A y \in SeqsUpTo(Alpha, 2) : /\ (R(<<"has", 0, y>>).x = 1) = (R(<<"soff", 0, y>>).x # NPos)
                                         /\ (R(<<"starts", 0, y>>).x = 1) = (R(<<"soff", 0, y>>).x = 0)
OrderLaw == \A y \in SeqsUpTo(Alpha, 2) : R(<<"eq", 0, y>>).x + R(<<"lt", 0, y>>).x + R(<<"gt", 0, y>>).x = 1
\* the pieces, with one separator after each (the last one optionally), are the text
RECURSIVE Glue(_, _)
Glue(P, c) == IF P = <<>> THEN <<>> ELSE BytesOf(t, Head(P)) \o <<c>> \o Glue(Tail(P), c)
Partition == \A c \in Alpha : LET P == Pieces(t, 0, c)  g == Glue(P, c) IN
               /\ (g = t \/ (t # <<>> /\ Take(g, Len(g) - 1) = t))
               /\ \A j \in 1..Len(P) : c \notin RangeOf(BytesOf(t, P[j]))
SkipLaw == \A k \in 0..N : LET P == Pieces(t, 0, 10)  M == [j \in 1..Len(P) |-> j <= k]  s == SkipTo(t, M) IN
             Pieces(SubSeq(t, s + 1, Len(t)), 0, 10) = [j \in 1..Max2(0, Len(P) - k) |-> <<P[j + k][1] - s, P[j + k][2]>>]
=====================================================================
