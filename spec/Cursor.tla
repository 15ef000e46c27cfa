------------------------------ MODULE Cursor ------------------------------
(* The iterator laws, checked on the position semantics over all programs. *)
EXTENDS CursorOps
CONSTANTS N
VARIABLES s, last
vars == <<s, last>>
Cols == << [j \in 1..N |-> j * 10] >>
Caps == {"inc", "dec", "pinc", "pdec", "add", "sub", "plus", "minus", "get", "at", "diff", "eq", "lt", "copy"}
Init == s = Start(Cols, <<0, N>>) /\ last = <<>>
Next == \E o \in AllOps(Caps, N, {1}) : Valid(s, o) /\ s' = Step("fac", s, o).s /\ last' = o
Spec == Init /\ [][Next]_vars
InRange == \A r \in 1..2 : s.pos[r] \in 0..N
Q(st, o) == Step("fac", st, o)
IncDec == \A r \in 1..2 : Valid(s, <<"inc", r>>) => Q(Q(s, <<"inc", r>>).s, <<"dec", r>>).s = s
AddSub == \A k \in 0 - N..N : Valid(s, <<"add", 1, k>>) => /\ Q(Q(s, <<"add", 1, k>>).s, <<"sub", 1, k>>).s = s
                                                         /\ Q(s, <<"add", 1, k>>).s = Q(s, <<"sub", 1, 0 - k>>).s
                                                         /\ (Valid(s, <<"at", 1, k>>) => Q(s, <<"at", 1, k>>).ret = Q(Q(s, <<"add", 1, k>>).s, <<"get", 1>>).ret)
DiffLaw == LET k == Q(s, <<"diff", 2, 1>>).ret[1] IN Q(s, <<"add", 1, k>>).s.pos[1] = s.pos[2]
OrderLaw == /\ Q(s, <<"lt", 1, 2>>).ret[1] = B(Q(s, <<"diff", 2, 1>>).ret[1] > 0)
            /\ Q(s, <<"eq", 1, 2>>).ret[1] + Q(s, <<"lt", 1, 2>>).ret[1] + Q(s, <<"gt", 1, 2>>).ret[1] = 1
=====================================================================
