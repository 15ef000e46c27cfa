---------------------------- MODULE ProgressOps ----------------------------
(* utl::progress_tracker as a state machine over its public calls. Output values, bounds and the
   modulus are in eighths (all exactly representable as float).                                    *)
EXTENDS Integers, Sequences, FiniteSets
TrNew == [in |-> 0, out |-> 0, low |-> 0, high |-> 800, mod |-> 8, inhigh |-> 100, status |-> 0, show |-> 1]
Clamp(x, l, h) == IF x < l THEN l ELSE IF x > h THEN h ELSE x
\* rounding to the nearest multiple; a tie (up to the precision of binary floating point) may go either way
Near(num, den) == LET k == (2 * num + den) \div (2 * den)
                      rem == (2 * num + den) % (2 * den)
                      eps == num \div 250000
                  IN {k} \cup (IF rem <= eps THEN {k - 1} ELSE {}) \cup (IF 2 * den - rem <= eps THEN {k + 1} ELSE {})
OutVals(s, in) ==
  IF in = 0 THEN {s.low}
  ELSE IF s.inhigh = 0 THEN {s.high}
  ELSE {Clamp(s.low + k * s.mod, s.low, s.high) : k \in Near((s.high - s.low) * in, s.inhigh * s.mod)}
\* --- calls: each yields a set of <<state, number of callbacks>> -------------------------------
SetIn(s, in) == {<<[s EXCEPT !.in = in, !.out = o], IF o = s.out THEN 0 ELSE 1>> : o \in OutVals(s, in)}
Update(s, v) == SetIn(s, v)
UpdateMonotonic(s, v) == SetIn(s, IF v > s.in THEN v ELSE s.in)
Increment(s, v) == SetIn(s, s.in + v)
\* setter <<name, a, b>>: result [s, st (status or visibility changed), b (a bound changed), bad]
Setter(s, o) ==
  LET k == o[1] IN
  CASE k = "status" -> [s |-> [s EXCEPT !.status = o[2]], st |-> s.status # o[2], b |-> FALSE, bad |-> FALSE]
    [] k = "show" -> [s |-> [s EXCEPT !.show = o[2]], st |-> s.show # o[2], b |-> FALSE, bad |-> FALSE]
    [] k = "reset" -> [s |-> [s EXCEPT !.low = 0, !.high = 800, !.mod = 8, !.inhigh = 100], st |-> FALSE,
                       b |-> <<s.low, s.high, s.mod, s.inhigh>> # <<0, 800, 8, 100>>, bad |-> FALSE]
    [] k = "bounds" -> [s |-> IF o[2] > o[3] THEN s ELSE [s EXCEPT !.low = o[2], !.high = o[3]], st |-> FALSE,
                        b |-> o[2] <= o[3] /\ <<s.low, s.high>> # <<o[2], o[3]>>, bad |-> o[2] > o[3]]
    [] k = "mod" -> [s |-> IF o[2] <= 0 THEN s ELSE [s EXCEPT !.mod = o[2]], st |-> FALSE, b |-> o[2] > 0 /\ s.mod # o[2], bad |-> o[2] <= 0]
    [] k = "inhigh" -> [s |-> [s EXCEPT !.inhigh = o[2]], st |-> FALSE, b |-> s.inhigh # o[2], bad |-> FALSE]
RECURSIVE Chain(_, _, _, _)
\* the chain ends at its last setter or at the first refused one; then at most one callback
Chain(s, ops, st, b) ==
  IF ops = <<>> THEN [s |-> IF b THEN [s EXCEPT !.in = 0, !.out = s.low] ELSE s, cb |-> IF st \/ b THEN 1 ELSE 0, thrown |-> 0]
  ELSE LET r == Setter(s, Head(ops)) IN
       IF r.bad THEN [s |-> IF b THEN [s EXCEPT !.in = 0, !.out = s.low] ELSE s, cb |-> IF st \/ b THEN 1 ELSE 0, thrown |-> 1]
       ELSE Chain(r.s, Tail(ops), st \/ r.st, b \/ r.b)
DoChain(s, ops) == Chain(s, ops, FALSE, FALSE)
Call(s, o) ==
  CASE o[1] = "u" -> Update(s, o[2])
    [] o[1] = "m" -> UpdateMonotonic(s, o[2])
    [] o[1] = "i" -> Increment(s, o[2])
Setters == {<<"status", 0, 0>>, <<"status", 1, 0>>, <<"show", 0, 0>>, <<"show", 1, 0>>, <<"reset", 0, 0>>, <<"bounds", 0, 800>>,
            <<"bounds", 160, 400>>, <<"bounds", 400, 160>>, <<"bounds", 240, 240>>, <<"mod", 8, 0>>, <<"mod", 20, 0>>, <<"mod", 0, 0>>,
            <<"mod", 0 - 8, 0>>, <<"inhigh", 100, 0>>, <<"inhigh", 10, 0>>}
=====================================================================
