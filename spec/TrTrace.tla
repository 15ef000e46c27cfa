---------------------------- MODULE TrTrace ----------------------------
(* Concurrent calls on one real progress_tracker, recorded under the controlled scheduler: the calls must be
   linearisable between their begin and end events.
   events <<name, thread, a, b, c, d>>: go(in, out)  ob(kind, v)  cb(out)  oe(kind, v, in, out)  fn(in, out)
   kinds 0 update, 1 update_monotonic, 2 increment, 3 update_fn, 4 increment_fn, 5 status, 6 show_progress *)
EXTENDS ProgressOps, Hist
TLen(r) == Len(r.out.ev)
Tr(r) == [TrNew EXCEPT !.low = r.in.low, !.high = r.in.high, !.mod = r.in.mod, !.inhigh = r.in.in_high]
Outs(r, V) == UNION {OutVals(Tr(r), v) : v \in V}
\* ---------------------------------------------------------------- value updates (C07)
\* in: the input; pend: calls not yet effective <<thread, kind, v>>; vals: inputs since the start; cbs: shown outputs
TStart(r) == {[in |-> 0, out0 |-> 0, pend |-> {}, vals |-> {}, cbs |-> {}]}
Eff(in, k, v) == CASE k = 0 -> v
                   [] k \in {1, 3} -> IF v > in THEN v ELSE in
                   [] k = 2 -> in + v
                   [] k = 4 -> in + 1
                   [] OTHER -> in
Fire(s, p) == LET n == Eff(s.in, p[2], p[3]) IN [s EXCEPT !.in = n, !.vals = @ \cup {n}, !.pend = @ \ {p}]
RECURSIVE Clo(_)
Clo(S) == LET N == S \cup UNION {{Fire(s, p) : p \in s.pend} : s \in S} IN IF N = S THEN S ELSE Clo(N)
TEv(s, e, r) ==
  CASE e[1] = "go" -> IF e[3] = r.in.in0 /\ e[4] \in Outs(r, {e[3]}) THEN {[s EXCEPT !.in = e[3], !.out0 = e[4], !.vals = {e[3]}]} ELSE {}
    [] e[1] = "ob" -> {[s EXCEPT !.pend = @ \cup {<<e[2], e[3], e[4]>>}]}
    [] e[1] = "cb" -> IF s.vals = {} THEN {s}   \* set-up
                      ELSE IF e[3] \in Outs(r, s.vals) \cup {s.out0} THEN {[s EXCEPT !.cbs = @ \cup {e[3]}]} ELSE {}
    [] e[1] = "oe" -> IF e[6] \in Outs(r, s.vals) \cup {s.out0} /\ <<e[2], e[3], e[4]>> \notin s.pend THEN {s} ELSE {}
    [] e[1] = "fn" -> IF /\ e[3] = s.in /\ e[4] \in Outs(r, {s.in})
                         /\ e[4] # s.out0 => e[4] \in s.cbs
                         /\ (Outs(r, s.vals) = {s.out0} => s.cbs = {})
                      THEN {s} ELSE {}
    [] OTHER -> {s}
TStep(s, i, r) == UNION {TEv(q, r.out.ev[i], r) : q \in Clo({s})}
TEnd(s, r) == r.out.end = "ok" /\ s.pend = {}
\* ---------------------------------------------------------------- setting changes (C08)
\* note: threads whose change took effect but whose callback has not run yet
SStart(r) == {[status |-> 0 - 1, show |-> 1, pend |-> {}, note |-> {}, live |-> FALSE]}
SFire(s, p) == LET ch == CASE p[2] = 5 -> s.status # p[3]
                           [] p[2] = 6 -> s.show # (IF p[3] = 0 THEN 0 ELSE 1)
                           [] OTHER -> FALSE
                   q == [s EXCEPT !.pend = @ \ {p}, !.note = IF ch THEN @ \cup {p[1]} ELSE @]
               IN CASE p[2] = 5 -> [q EXCEPT !.status = p[3]]
                    [] p[2] = 6 -> [q EXCEPT !.show = IF p[3] = 0 THEN 0 ELSE 1]
                    [] OTHER -> q
RECURSIVE SClo(_)
SClo(S) == LET N == S \cup UNION {{SFire(s, p) : p \in s.pend} : s \in S} IN IF N = S THEN S ELSE SClo(N)
SEv(s, e) ==
  CASE e[1] = "go" -> {[s EXCEPT !.live = TRUE]}
    [] e[1] = "ob" -> {[s EXCEPT !.pend = @ \cup {<<e[2], e[3], e[4]>>}]}
    [] e[1] = "cb" -> IF ~s.live THEN {s} ELSE IF e[2] \in s.note THEN {[s EXCEPT !.note = @ \ {e[2]}]} ELSE {}
    [] e[1] = "oe" -> IF e[2] \notin s.note /\ <<e[2], e[3], e[4]>> \notin s.pend THEN {s} ELSE {}
    [] OTHER -> {s}
SStep(s, k, r) == UNION {SEv(q, r.out.ev[k]) : q \in SClo({s})}
SEnd(s, r) == r.out.end = "ok" /\ s.pend = {} /\ s.note = {}
=====================================================================
