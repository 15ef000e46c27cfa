---------------------------- MODULE RgTrace ----------------------------
(* Concurrent use of the global registry, recorded under the controlled scheduler.
   r.in.threads[t][n]: <<kind, name, value>>; events <<name, thread, a, b, c, d>>:
   ob(t, n)  oe(t, n, r)  fr(up, final)  ln(name, shown, percent, status)  bx: malformed output
   kinds 0 get, 1 activate, 2 get-or-activate, 3 get active, 4 update, 5 status, 6 show, 7 print, 8 increment,
   9 activate by pointer, 10 clear. Every operation is a get (or nothing) followed by an effect.          *)
EXTENDS ProgressOps, Hist
TLen(r) == Len(r.out.ev)
NM == 0..2
\* reg: name -> tracker; trk: trackers; map: <<tracker, observed number>>; pend: <<t, n, phase, tracker/result>>
TStart(r) == {[reg |-> [n \in NM |-> 0], trk |-> <<>>, active |-> 0, map |-> {}, pend |-> {}, up |-> 0, lines |-> <<>>, frames |-> 0, open |-> 0]}
Op(r, p) == r.in.threads[p[1] + 1][p[2] + 1]
NoGet(k) == k \in {3, 7, 10}
Ensure(s, n) == IF s.reg[n] # 0 THEN s ELSE [s EXCEPT !.trk = Append(@, TrNew), !.reg[n] = Len(s.trk) + 1]
Value(in) == CHOOSE o \in OutVals(TrNew, in) : TRUE
SetVal(s, h, in) == [s EXCEPT !.trk[h].in = in, !.trk[h].out = Value(in)]
\* one atomic step of a pending operation
Fire(s, p, r) ==
  LET o == Op(r, p)  k == o[1]  n == o[2]  v == o[3]
      q == [s EXCEPT !.pend = @ \ {p}]
      to(x, h) == [x EXCEPT !.pend = @ \cup {<<p[1], p[2], 2, h>>}]
      nxt(x, h) == [x EXCEPT !.pend = @ \cup {<<p[1], p[2], 1, h>>}]
  IN IF p[3] = 2 THEN s
     ELSE IF p[3] = 0 THEN
       CASE k = 0 -> LET e == Ensure(q, n) IN to(e, e.reg[n])
         [] k = 1 -> LET e == Ensure(q, n) IN to([e EXCEPT !.active = e.reg[n]], e.reg[n])
         [] k = 2 -> IF q.active # 0 THEN to(q, q.active) ELSE LET e == Ensure(q, n) IN to([e EXCEPT !.active = e.reg[n]], e.reg[n])
         [] k = 3 -> to(q, IF q.active = 0 THEN 0 - 2 ELSE q.active)
         [] k = 7 -> to(q, 0)
         [] k = 10 -> to([q EXCEPT !.reg = [m \in NM |-> 0], !.active = 0], 0)
         [] OTHER -> LET e == Ensure(q, n) IN nxt(e, e.reg[n])
     ELSE CASE k = 4 -> to(SetVal(q, p[4], v), 0)
            [] k = 8 -> to(SetVal(q, p[4], q.trk[p[4]].in + v), 0)
            [] k = 5 -> to([q EXCEPT !.trk[p[4]].status = v], 0)
            [] k = 6 -> to([q EXCEPT !.trk[p[4]].show = IF v = 0 THEN 0 ELSE 1], 0)
            [] k = 9 -> to([q EXCEPT !.active = p[4]], p[4])
RECURSIVE Clo(_, _)
Clo(S, r) == LET N == S \cup UNION {{Fire(s, p, r) : p \in s.pend} : s \in S} IN IF N = S THEN S ELSE Clo(N, r)
\* the returned identity: 0 -> none (-1 observed), refused -> -2
Returned(s, h, x) ==
  IF h = 0 THEN IF x = 0 - 1 THEN {s} ELSE {}
  ELSE IF h = 0 - 2 THEN IF x = 0 - 2 THEN {s} ELSE {}
  ELSE IF x >= 0 /\ \A m \in s.map : (m[1] = h) <=> (m[2] = x) THEN {[s EXCEPT !.map = @ \cup {<<h, x>>}]} ELSE {}
HasClear(r) == \E t \in 1..Len(r.in.threads) : \E n \in 1..Len(r.in.threads[t]) : r.in.threads[t][n][1] = 10
\* lines in name order, each name once; a frame goes up by the height of the one before (or none after a clear)
Sorted(L) == \A j \in 1..(Len(L) - 1) : L[j][1] < L[j + 1][1]
FinalLines(s) == LET N == SelectSeq(<<0, 1, 2>>, LAMBDA n : s.reg[n] # 0)
                     one(n) == LET t == s.trk[s.reg[n]] IN <<n, t.show, IF t.show = 1 THEN t.out \div 8 ELSE 0 - 1, t.status>>
                 IN [j \in 1..Len(N) |-> one(N[j])]
CloseOK(s, r) == HasClear(r) \/ Sorted(s.lines)   \* after a clear the next frame does not move up, so frames cannot be told apart
TEv(s, e, r) ==
  CASE e[1] = "ob" -> {[s EXCEPT !.pend = @ \cup {<<e[3], e[4], 0, 0>>}]}
    [] e[1] = "oe" -> UNION {Returned([s EXCEPT !.pend = @ \ {p}], p[4], e[5]) : p \in {x \in s.pend : x[1] = e[3] /\ x[2] = e[4] /\ x[3] = 2}}
    [] e[1] = "fr" -> IF r.in.silent = 0 /\ s.pend = {} /\ CloseOK(s, r) /\ s.open < 2
                         /\ (e[3] = Len(s.lines) \/ (HasClear(r) /\ e[3] <= Len(s.lines)))
                      THEN {[s EXCEPT !.lines = <<>>, !.frames = @ + 1, !.open = IF e[4] = 1 THEN 2 ELSE 1]} ELSE {}
    [] e[1] = "ln" -> IF s.open > 0 THEN {[s EXCEPT !.lines = Append(@, <<e[3], e[4], e[5], e[6]>>)]} ELSE {}
    [] e[1] = "bx" -> {}
    [] OTHER -> {s}
TStep(s, k, r) == IF r.out.ev[k][1] \in {"ob", "oe"} THEN UNION {TEv(q, r.out.ev[k], r) : q \in Clo({s}, r)} ELSE TEv(s, r.out.ev[k], r)
TEnd(s, r) == /\ r.out.end = "ok" /\ s.pend = {}
              /\ IF r.in.silent = 1 THEN s.frames = 0
                 ELSE (IF s.open = 2 THEN s.lines ELSE <<>>) = FinalLines(s)
=====================================================================
