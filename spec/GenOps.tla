---------------------------- MODULE GenOps ----------------------------
(* A coroutine body is a script of items <<"y", v>> (yield v), <<"e", k>> (an observable effect), <<"t">> (throw) and
   <<"g", body>> (yield everything another generator with that body yields). The generator is [pos: items already run,
   held: <<>> or <<value>> computed but not yet handed out, over: body has returned or thrown]. *)
EXTENDS Seqs
RECURSIVE FlatS(_)
FlatS(b) == IF b = <<>> THEN <<>> ELSE (IF Head(b)[1] = "g" THEN FlatS(Head(b)[2]) ELSE <<Head(b)>>) \o FlatS(Tail(b))
G0 == [pos |-> 0, held |-> <<>>, over |-> FALSE]
\* run the body until it yields, throws or returns: [s, log, res: "y", "t" or "r"]
RECURSIVE RunFrom(_, _, _)
RunFrom(B, p, log) ==
  IF p >= Len(B) THEN [s |-> [pos |-> p, held |-> <<>>, over |-> TRUE], log |-> log, res |-> "r"]
  ELSE CASE B[p + 1][1] = "e" -> RunFrom(B, p + 1, Append(log, B[p + 1][2]))
         [] B[p + 1][1] = "y" -> [s |-> [pos |-> p + 1, held |-> <<B[p + 1][2]>>, over |-> FALSE], log |-> log, res |-> "y"]
         [] B[p + 1][1] = "t" -> [s |-> [pos |-> p + 1, held |-> <<>>, over |-> TRUE], log |-> log, res |-> "t"]
\* operations: "b" (more?), "n" (next value), "v" (all the rest), "m"/"a" (moved elsewhere). Result [s, log, ret]
Ret(s, log, ret) == [s |-> s, log |-> log, ret |-> ret]
More(B, s) == IF s.over THEN Ret(s, <<>>, <<"f">>) ELSE IF s.held # <<>> THEN Ret(s, <<>>, <<"t">>)
              ELSE LET r == RunFrom(B, s.pos, <<>>) IN Ret(r.s, r.log, CASE r.res = "y" -> <<"t">> [] r.res = "r" -> <<"f">> [] r.res = "t" -> <<"x">>)
CanNext(B, s) == s.held # <<>> \/ (~s.over /\ RunFrom(B, s.pos, <<>>).res # "r")
Nxt(B, s) == IF s.held # <<>> THEN Ret([s EXCEPT !.held = <<>>], <<>>, <<"v", s.held[1]>>)
             ELSE LET r == RunFrom(B, s.pos, <<>>) IN
                  IF r.res = "y" THEN Ret([r.s EXCEPT !.held = <<>>], r.log, <<"v", r.s.held[1]>>) ELSE Ret(r.s, r.log, <<"x">>)
RECURSIVE AllOf(_, _, _, _)
AllOf(B, s, log, vs) ==
  LET m == More(B, s) IN
  IF m.ret[1] = "f" THEN Ret(m.s, log \o m.log, <<"l", vs>>)
  ELSE IF m.ret[1] = "x" THEN Ret(m.s, log \o m.log, <<"x">>)
  ELSE LET n == Nxt(B, m.s) IN AllOf(B, n.s, log \o m.log, Append(vs, n.ret[2]))
Do(B, s, o) == CASE o = "b" -> More(B, s)
                 [] o = "n" -> Nxt(B, s)
                 [] o = "v" -> AllOf(B, s, <<>>, <<>>)
                 [] o \in {"m", "a"} -> Ret(s, <<>>, <<"k">>)
Allowed(B, s, o) == o = "n" => CanNext(B, s)
\* all valid operation sequences of length n
RECURSIVE Runs(_, _)
Runs(B, n) == IF n = 0 THEN {<<<<>>, G0>>}
              ELSE UNION {{<<Append(x[1], o), Do(B, x[2], o).s>> : o \in {o \in {"b", "n", "v", "m", "a"} : Allowed(B, x[2], o)}} : x \in Runs(B, n - 1)}
Progs(B, n) == {x[1] : x \in Runs(B, n)}
=====================================================================
