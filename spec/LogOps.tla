---------------------------- MODULE LogOps ----------------------------
(* Log lines and timers under a clock [s, ns] (steady) and a wall time [day, sec]. An operation's observation is the text it
   appended to the log, and a number where it answers one.
   s: mono [s, ns], wall [day, sec], t (slots of timers: [kind, name, s, ns] or kind "-"), m (slots of time marks [s, ns] start/stop) *)
EXTENDS DateOps
Nil == [kind |-> "-", name |-> <<>>, s |-> 0, ns |-> 0]
LS0(nt, nm) == [mono |-> [s |-> 0, ns |-> 0], wall |-> [day |-> 0, sec |-> 0], t |-> [j \in 1..nt |-> Nil], m |-> [j \in 1..nm |-> [s0 |-> 0, n0 |-> 0, s1 |-> 0, n1 |-> 0]]]
Levels == <<<<101,109,114,103>>, <<97,108,114,116>>, <<99,114,105,116>>, <<101,114,114,111>>, <<119,97,114,110>>, <<110,111,116,101>>, <<105,110,102,111>>, <<100,101,98,103>>>>
Info == 7
LB == 91
RB == 93
Zone == <<43,48,48,48,48>>
\* the text x starts with p: what follows, as a set (empty: it does not)
After(x, p) == IF IsPrefixOf(p, x) THEN {Drop(x, Len(p))} ELSE {}
AfterAll(X, p) == UNION {After(x, p) : x \in X}
\* a timestamp may name its zone
AfterStamp(X, w) == LET A == AfterAll(X, <<LB>> \o Stamp(w.day, w.sec)) IN AfterAll(A, <<RB>>) \cup AfterAll(A, Zone \o <<RB>>)
Digit(b) == b \in 48..57
\* [file:line], whatever file and line
AfterPos(X) == UNION {LET E == {k \in 1..Len(x) : x[k] = RB} IN
                      IF E = {} THEN {} ELSE LET e == SetMin(E)  C == {k \in 1..(e - 1) : x[k] = 58} IN
                      IF x[1] = LB /\ C # {} /\ SetMax(C) > 2 /\ SetMax(C) < e - 1 /\ (\A k \in (SetMax(C) + 1)..(e - 1) : Digit(x[k])) THEN {Drop(x, e)} ELSE {} : x \in X}
Head3(x, lvl, w) == AfterStamp(After(x, <<LB>> \o Levels[lvl] \o <<RB>>), w)
\* --- elapsed times: a number of microseconds as digits; what is printed (in milliseconds) has to agree in the leading six
RECURSIVE NoZeros(_)
NoZeros(d) == IF d # <<>> /\ Head(d) = 48 THEN NoZeros(Tail(d)) ELSE d
Pad(n, k) == LET d == Nat2(n) IN [j \in 1..(k - Len(d)) |-> 48] \o d
Elapsed(a, b) == IF b.ns >= a.ns THEN [s |-> b.s - a.s, ns |-> b.ns - a.ns] ELSE [s |-> b.s - a.s - 1, ns |-> b.ns + 1000000000 - a.ns]
Micros(e) == NoZeros(Nat2(e.s) \o Pad(e.ns \div 1000, 6))
RECURSIVE Val(_)
Val(d) == IF d = <<>> THEN 0 ELSE Val(SubSeq(d, 1, Len(d) - 1)) * 10 + (d[Len(d)] - 48)
Zeros(n) == [j \in 1..n |-> 48]
\* a decimal literal d+[.d+][e+dd|e-dd] -> [ok, dig, exp]: its value is dig * 10^exp
Literal(x) ==
  LET E == {k \in 1..Len(x) : x[k] = 101}
      man == IF E = {} THEN x ELSE SubSeq(x, 1, SetMin(E) - 1)
      ex == IF E = {} THEN <<>> ELSE Drop(x, SetMin(E))
      P == {k \in 1..Len(man) : man[k] = 46}
      int == IF P = {} THEN man ELSE SubSeq(man, 1, SetMin(P) - 1)
      frac == IF P = {} THEN <<>> ELSE Drop(man, SetMin(P))
      num(d) == d # <<>> /\ \A k \in 1..Len(d) : Digit(d[k])
      ok == num(int) /\ (P # {} => num(frac)) /\ (E # {} => Len(ex) \in 2..4 /\ ex[1] \in {43, 45} /\ num(Tail(ex)))
  IN IF ~ok THEN [ok |-> FALSE, dig |-> <<>>, exp |-> 0]
     ELSE [ok |-> TRUE, dig |-> NoZeros(int \o frac), exp |-> (IF E = {} THEN 0 ELSE IF ex[1] = 45 THEN 0 - Val(Tail(ex)) ELSE Val(Tail(ex))) - Len(frac)]
\* the value dig * 10^exp in units of 10^u, rounded down, for a result of at most nine digits (else -1)
InUnits(dig, exp, u) == LET k == exp - u IN
  IF dig = <<>> THEN 0 ELSE IF k >= 0 THEN (IF Len(dig) + k > 9 THEN 0 - 1 ELSE Val(dig \o Zeros(k)))
  ELSE IF Len(dig) + k > 9 THEN 0 - 1 ELSE IF Len(dig) + k <= 0 THEN 0 ELSE Val(SubSeq(dig, 1, Len(dig) + k))
Exact(dig, exp, u) == exp >= u \/ dig = <<>> \/ \A j \in (Len(dig) + (exp - u) + 1)..Len(dig) : j < 1 \/ dig[j] = 48
MsText(x, us) == LET l == Literal(x) IN
  l.ok /\ (IF Len(us) <= 6 THEN Val(us) = InUnits(l.dig, l.exp, 0 - 3) /\ Exact(l.dig, l.exp, 0 - 3)
           ELSE LET u == Len(us) - 7                       \* compare seven digits
                    p == InUnits(l.dig, l.exp, u - 3)  w == Val(SubSeq(us, 1, 7))
                IN p >= 0 /\ p \in (w - 5)..(w + 6))
\* " (<number>ms)\n" closes a timer's line
AfterElapsed(X, us) == UNION {LET n == Len(x) IN
   IF n > 6 /\ SubSeq(x, 1, 2) = <<32, 40>> /\ SubSeq(x, n - 3, n) = <<109, 115, 41, 10>> /\ MsText(SubSeq(x, 3, n - 4), us) THEN {<<>>} ELSE {} : x \in X}
TimerHead(x, s, name) == AfterAll(AfterPos(Head3(x, Info, s.wall)), <<32, LB>> \o name \o <<RB, 32>>)
Starting == <<115,116,97,114,116,105,110,103,10>>
Finished == <<102,105,110,105,115,104,101,100>>
StartLine(x, s, name) == <<>> \in AfterAll(TimerHead(x, s, name), Starting)
TimedLine(x, s, t, msg) == <<>> \in AfterElapsed(AfterAll(TimerHead(x, s, t.name), msg), Micros(Elapsed([s |-> t.s, ns |-> t.ns], s.mono)))
\* --- streamed values
PieceText(p) == CASE p.ty = "i" -> Dec(p.n) [] p.ty = "c" -> <<p.n>> [] p.ty = "b" -> <<48 + p.n>> [] OTHER -> p.t
RECURSIVE Streamed(_)
Streamed(ps) == IF ps = <<>> THEN <<>> ELSE PieceText(Head(ps)) \o Streamed(Tail(ps))
LogLine(x, s, o) == <<>> \in AfterAll(Head3(x, o.lvl + 1, s.wall), <<LB>> \o o.file \o <<58>> \o Nat2(o.line) \o <<RB, 32>> \o Streamed(o.pieces) \o <<10>>)
Plus(a, d) == IF a.ns + d.ns >= 1000000000 THEN [s |-> a.s + d.s + 1, ns |-> a.ns + d.ns - 1000000000] ELSE [s |-> a.s + d.s, ns |-> a.ns + d.ns]
Unit(e, u) == IF u = "ms" THEN e.s * 1000 + e.ns \div 1000000 ELSE e.s * 1000000 + e.ns \div 1000
Mark0(k) == [s |-> k.s0, ns |-> k.n0]
Mark1(k) == [s |-> k.s1, ns |-> k.n1]
\* o: [op, ...], g: [text, n]
Step(s, o, g) ==
  CASE o.op = "adv" -> (IF g.text = <<>> THEN {[s EXCEPT !.mono = Plus(s.mono, o)]} ELSE {})
    [] o.op = "wall" -> (IF g.text = <<>> THEN {[s EXCEPT !.wall = [day |-> o.day, sec |-> o.sec]]} ELSE {})
    [] o.op = "log" -> (IF LogLine(g.text, s, o) THEN {s} ELSE {})
    [] o.op = "time" -> (IF g.text \in {Stamp(o.day, o.sec), Stamp(o.day, o.sec) \o Zone} THEN {s} ELSE {})
    [] o.op = "now" -> (IF g.text \in {Stamp(s.wall.day, s.wall.sec), Stamp(s.wall.day, s.wall.sec) \o Zone} THEN {s} ELSE {})
    [] o.op = "new" -> (IF StartLine(g.text, s, o.name) THEN {[s EXCEPT !.t[o.k] = [kind |-> o.kind, name |-> o.name, s |-> s.mono.s, ns |-> s.mono.ns]]} ELSE {})
    [] o.op = "print" -> (IF TimedLine(g.text, s, s.t[o.k], o.msg) THEN {s} ELSE {})
    [] o.op = "stop" -> (IF TimedLine(g.text, s, s.t[o.k], Finished) THEN {s} ELSE {})
    [] o.op \in {"del", "unwind"} -> (IF (IF s.t[o.k].kind = "scoped" THEN TimedLine(g.text, s, s.t[o.k], Finished) ELSE g.text = <<>>) THEN {[s EXCEPT !.t[o.k] = Nil]} ELSE {})
    [] o.op = "copy" -> (IF g.text = <<>> THEN {[s EXCEPT !.t[o.j] = s.t[o.k]]} ELSE {})
    [] o.op = "tstart" -> (IF g.text = <<>> THEN {[s EXCEPT !.m[o.k].s0 = s.mono.s, !.m[o.k].n0 = s.mono.ns]} ELSE {})
    [] o.op = "tstop" -> (IF g.text = <<>> THEN {[s EXCEPT !.m[o.k].s1 = s.mono.s, !.m[o.k].n1 = s.mono.ns]} ELSE {})
    [] o.op = "tget" -> (IF g.text = <<>> /\ g.n = Unit(Elapsed(Mark0(s.m[o.k]), s.mono), o.u) THEN {s} ELSE {})
    [] o.op = "tread" -> (IF g.text = <<>> /\ g.n = Unit(Elapsed(Mark0(s.m[o.k]), Mark1(s.m[o.k])), o.u) THEN {s} ELSE {})
Allowed(s, o) == CASE o.op \in {"print", "del"} -> s.t[o.k].kind # "-"
                   [] o.op = "unwind" -> s.t[o.k].kind = "scoped"
                   [] o.op \in {"stop", "copy"} -> s.t[o.k].kind = "manual" /\ (o.op = "copy" => s.t[o.j].kind = "-")
                   [] o.op = "new" -> s.t[o.k].kind = "-"
                   [] OTHER -> TRUE
=====================================================================
