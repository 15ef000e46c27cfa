---------------------------- MODULE RegistryOps ----------------------------
(* The global registry of progress trackers and what it prints (utl/progress_tracker.h).
   Names are numbers in name order; trackers are numbered in the order of creation.          *)
EXTENDS ProgressOps, Seqs
NameBytes == <<<<65, 98>>, <<97, 108, 112, 104, 97>>, <<98, 101, 116, 97>>, <<98, 101, 116, 97, 45, 108, 111, 110, 103, 45, 110, 97, 109, 101>>, <<99>>, <<100, 32, 100>>, <<101, 123, 125>>, <<102, 37, 115>>, <<103, 92, 116>>, <<108, 111, 110, 103>> \o [j \in 1..70 |-> 103], <<109, 58, 109>>, <<110, 110, 110, 110, 110, 110, 110, 110, 110, 110, 110, 110, 110>>, <<120>>, <<122, 122>>>>
Names == 1..Len(NameBytes)
RNew == [reg |-> [n \in Names |-> 0], trk |-> <<>>, active |-> 0, silent |-> 1, height |-> 0, scopes |-> <<>>]
\* --- terminal output ----------------------------------------------------------------------
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Spaces(n) == [j \in 1..n |-> 32]
PadL(b, w) == (IF Len(b) < w THEN Spaces(w - Len(b)) ELSE <<>>) \o b
Up(n) == IF n = 0 THEN <<>> ELSE <<27, 91>> \o Dec(n) \o <<65>>
Cell(j, out) == IF ((j * 100) \div 55) * 8 <= out THEN <<226, 150, 160>> ELSE <<32>>
Bar(out) == Flat([j \in 1..55 |-> Cell(j - 1, out)])
Status(k) == [j \in 1..k |-> IF j % 3 = 0 THEN 123 ELSE 115]   \* s and {
Line(n, t) == <<27, 91, 75>> \o PadL(NameBytes[n], 12) \o <<58, 32>> \o
              (IF t.show = 1
               THEN <<91>> \o Bar(t.out) \o <<32, 93, 32>> \o PadL(Dec(t.out \div 8), 3) \o <<37>> \o
                    (IF t.status # 0 THEN <<32, 124, 32>> \o Status(t.status) ELSE <<>>)
               ELSE Status(t.status)) \o <<10>>
Shown(s) == SelectSeq([n \in Names |-> n], LAMBDA n : s.reg[n] # 0)
Frame(s) == Up(s.height) \o Flat([j \in 1..Len(Shown(s)) |-> Line(Shown(s)[j], s.trk[s.reg[Shown(s)[j]]])])
\* --- operations: [s, ret, out] ------------------------------------------------------------------
\* ret: tracker number, 0 nothing, -2 refused
Ret(s, x) == [s |-> s, ret |-> x, out |-> <<>>]
Ensure(s, n) == IF s.reg[n] # 0 THEN s
                ELSE [s EXCEPT !.trk = Append(@, TrNew), !.reg[n] = Len(s.trk) + 1]
PrintAll(s, x) == IF s.silent = 1 THEN Ret(s, x)
               ELSE [s |-> [s EXCEPT !.height = Len(Shown(s))], ret |-> x, out |-> Frame(s)]
\* the tracker's callback prints
Notify(s, cb, x) == IF cb = 1 THEN PrintAll(s, x) ELSE Ret(s, x)
Value(s, h, rs) == {Notify([s EXCEPT !.trk[h] = q[1]], q[2], 0) : q \in rs}
SetT(s, h, o) == LET r == DoChain(s.trk[h], <<o>>) IN {Notify([s EXCEPT !.trk[h] = r.s], r.cb, IF r.thrown = 1 THEN 0 - 2 ELSE 0)}
ROp(s, o) ==
  CASE o[1] = "get" -> LET q == Ensure(s, o[2]) IN {Ret(q, q.reg[o[2]])}
    [] o[1] = "act" -> LET q == Ensure(s, o[2]) IN {Ret([q EXCEPT !.active = q.reg[o[2]]], q.reg[o[2]])}
    [] o[1] = "actp" -> {Ret([s EXCEPT !.active = o[2]], o[2])}
    [] o[1] = "actnull" -> {Ret([s EXCEPT !.active = 0], 0)}
    [] o[1] = "getact" -> {Ret(s, IF s.active = 0 THEN 0 - 2 ELSE s.active)}
    [] o[1] = "goa" -> IF s.active # 0 THEN {Ret(s, s.active)}
                       ELSE LET q == Ensure(s, o[2]) IN {Ret([q EXCEPT !.active = q.reg[o[2]]], q.reg[o[2]])}
    [] o[1] = "u" -> Value(s, o[2], Update(s.trk[o[2]], o[3]))
    [] o[1] = "m" -> Value(s, o[2], UpdateMonotonic(s.trk[o[2]], o[3]))
    [] o[1] = "i" -> Value(s, o[2], Increment(s.trk[o[2]], o[3]))
    [] o[1] \in {"status", "show", "mod", "inhigh"} -> SetT(s, o[2], <<o[1], o[3], 0>>)
    [] o[1] = "bounds" -> SetT(s, o[2], <<"bounds", o[3], o[4]>>)
    [] o[1] = "print" -> {PrintAll(s, 0)}
    [] o[1] = "clear" -> {Ret([s EXCEPT !.reg = [n \in Names |-> 0], !.height = 0, !.active = 0], 0)}
    [] o[1] = "begin" -> {Ret([s EXCEPT !.scopes = Append(@, s.silent), !.silent = o[2]], 0)}
    [] o[1] = "end" -> {Ret([s EXCEPT !.silent = s.scopes[Len(s.scopes)], !.scopes = SubSeq(@, 1, Len(@) - 1),
                                      !.reg = [n \in Names |-> 0], !.height = 0, !.active = 0], 0)}
\* an operation on a tracker that does not exist, or ending a scope that was not begun, is not part of a history
Possible(s, o) == /\ o[1] \in {"actp", "u", "m", "i", "status", "show", "mod", "inhigh", "bounds"} => o[2] <= Len(s.trk)
                  /\ o[1] = "end" => s.scopes # <<>>
=====================================================================
