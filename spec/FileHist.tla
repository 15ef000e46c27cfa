---------------------------- MODULE FileHist ----------------------------
(* r.in: ops (over files 1..3, none of which exists at first); r.out: res[i] = [x, dat, n, hit] *)
EXTENDS FileOps, Hist
GLen(r) == Len(r.in.ops)
GStart(r) == {FS0(3)}
GStep(s, i, r) == IF Allowed(s, r.in.ops[i]) THEN Step(s, r.in.ops[i], r.out.res[i], r.out.res[i].hit) ELSE {}
GEnd(s, r) == Len(r.out.res) = Len(r.in.ops)
=====================================================================
