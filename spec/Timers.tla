----------------------------- MODULE Timers -----------------------------
(* The lines timers write, as a state machine over a coarse clock: what is logged per object and in which order.
   Fault "wall": elapsed times are taken from the wall clock; "quiet": a scope left by an exception says nothing. *)
EXTENDS Seqs
CONSTANTS NT, MaxTime, MaxOps, Fault
VARIABLES now, wall, objs, log, n
vars == <<now, wall, objs, log, n>>
None == [kind |-> "-", start |-> 0, id |-> 0]
Init == now = 0 /\ wall = 2 /\ objs = [k \in 1..NT |-> None] /\ log = <<>> /\ n = 0
Clock == IF Fault = "wall" THEN wall ELSE now
Line(k, what) == [id |-> objs[k].id, what |-> what, t |-> Clock - objs[k].start, at |-> now]
Say(l) == log' = Append(log, l) /\ n' = n + 1
Ids == {log[j].id : j \in 1..Len(log)}
Fresh == Cardinality(Ids) + 1
New(k, kind) == /\ objs[k].kind = "-" /\ objs' = [objs EXCEPT ![k] = [kind |-> kind, start |-> Clock, id |-> Fresh]]
                /\ Say([id |-> Fresh, what |-> "starting", t |-> 0, at |-> now]) /\ UNCHANGED <<now, wall>>
Mention(k) == objs[k].kind # "-" /\ Say(Line(k, "message")) /\ UNCHANGED <<now, wall, objs>>
Stop(k) == objs[k].kind = "manual" /\ Say(Line(k, "finished")) /\ UNCHANGED <<now, wall, objs>>
Leave(k, byException) ==
  /\ objs[k].kind # "-" /\ objs' = [objs EXCEPT ![k] = None]
  /\ IF objs[k].kind = "scoped" /\ ~(byException /\ Fault = "quiet") THEN Say(Line(k, "finished")) ELSE log' = log /\ n' = n + 1
  /\ UNCHANGED <<now, wall>>
Tick == now < MaxTime /\ now' = now + 1 /\ UNCHANGED <<wall, objs, log, n>>
SetWall == wall' \in 0..3 /\ wall' # wall /\ UNCHANGED <<now, objs, log, n>>
Next == \/ Tick \/ SetWall
        \/ (n < MaxOps /\ \E k \in 1..NT : New(k, "scoped") \/ New(k, "manual") \/ Mention(k) \/ Stop(k) \/ Leave(k, TRUE) \/ Leave(k, FALSE))
Spec == Init /\ [][Next]_vars
Of(i) == Filter(log, LAMBDA l : l.id = i)
Alive(i) == \E k \in 1..NT : objs[k].kind # "-" /\ objs[k].id = i
\* per timer: one start line, first; never a line after a scoped timer's finish; elapsed times are right and never go back
OneStart == \A i \in Ids : Of(i)[1].what = "starting" /\ \A j \in 2..Len(Of(i)) : Of(i)[j].what # "starting"
Elapsed == \A i \in Ids : \A j \in 2..Len(Of(i)) : Of(i)[j].t = Of(i)[j].at - Of(i)[1].at
NeverBack == \A i \in Ids : \A j \in 1..(Len(Of(i)) - 1) : Of(i)[j].t <= Of(i)[j + 1].t
\* every scoped timer that is gone has said so, exactly once and last
ScopedDone == \A k \in 1..NT : objs[k].kind = "scoped" => \A j \in 1..Len(Of(objs[k].id)) : Of(objs[k].id)[j].what # "finished"
GoneSaid == [][\A k \in 1..NT : objs[k].kind = "scoped" /\ objs'[k].kind = "-" => Len(log') = Len(log) + 1 /\ log'[Len(log')].what = "finished" /\ log'[Len(log')].id = objs[k].id]_vars
=====================================================================
