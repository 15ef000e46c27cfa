---------------------------- MODULE ProgressHist ----------------------------
(* Recorded histories of the real progress_tracker against ProgressOps.
   op: <<"u"|"m"|"i", v>> or <<"c", setters>>; observation per op: [in, out, cb, seen, thrown, free, low, high, mod, inhigh, status, show] *)
EXTENDS ProgressOps, Hist
GLen(r) == Len(r.in.ops)
GStart(r) == {TrNew}
Obs(i, r) == r.out.obs[i]
Of(x) == [in |-> x.in, out |-> x.out, low |-> x.low, high |-> x.high, mod |-> x.mod, inhigh |-> x.inhigh, status |-> x.status, show |-> x.show]
\* C07: value updates judged, setting chains taken as observed
GStepVal(s, i, r) ==
  LET o == r.in.ops[i]  x == Obs(i, r) IN
  IF o[1] = "c" THEN {Of(x)}
  ELSE {q[1] : q \in {p \in Call(s, o) : /\ Of(x) = p[1] /\ x.cb = p[2] /\ x.thrown = 0
                                         /\ p[2] = 1 => x.seen = p[1].out}}
\* C08: chains judged, value updates taken as observed
GStepSet(s, i, r) ==
  LET o == r.in.ops[i]  x == Obs(i, r) IN
  IF o[1] # "c" THEN {[s EXCEPT !.in = x.in, !.out = x.out]}
  ELSE LET q == DoChain(s, o[2]) IN
       IF Of(x) = q.s /\ x.cb = q.cb /\ x.thrown = q.thrown /\ x.free = 1 /\ (q.cb = 1 => x.seen = q.s.out) THEN {q.s} ELSE {}
GEnd(s, r) == TRUE
=====================================================================
