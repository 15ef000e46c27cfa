---------------------------- MODULE CstrHist ----------------------------
(* Recorded programs over a view: per operation the result (r.out.res) and the view afterwards (r.out.view). Operations
   with o[2] = 1 replace the view by their result. *)
EXTENDS CstrOps, Hist
GLen(r) == Len(r.in.ops)
CStrLen(t) == Until(t, 0)
GStart(r) == LET n == Len(r.in.t)
                 v == CASE r.in.ctor \in {"null", "def"} -> <<0 - 1, 0>>
                        [] r.in.ctor = "cz" -> <<0, CStrLen(r.in.t)>>
                        [] OTHER -> <<0, n>>
             IN IF r.out.v0 = v THEN {v} ELSE {}
GStep(v, i, r) ==
  LET o == r.in.ops[i]  g == r.out.res[i]  w == r.out.view[i]
      changes == o[2] = 1 \/ o[1] \in {"inc", "padd"}
  IN IF ~Valid(r.in.t, v, o) THEN (IF g = <<"skip">> /\ w = v THEN {v} ELSE {})
     ELSE IF Agrees(v, Result(r.in.t, v, o), g) /\ w = (IF changes THEN <<g[2], g[3]>> ELSE v) THEN {w} ELSE {}
GEnd(v, r) == Len(r.out.res) = Len(r.in.ops)
=====================================================================
