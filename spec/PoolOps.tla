----------------------------- MODULE PoolOps -----------------------------
(* API-level (abstract) specification of utl::thread_pool as a deterministic labelled transition
   system.  Labels are the externally visible events of one pool life:
     pb/pc     construction begins / is complete         tc t      worker thread t created
     in/fi     initializer / finalizer runs              xb b n    execute() of batch b with n jobs called
     js/je b i job i of batch b starts / ends            xe b w    execute() of batch b returned (w results missing)
     nb/nx     nested execute() begins / is over         nj        a job of a nested batch runs
     db/de     destructor begins / returned              tx        thread exits            zz  program over
   An event is <<kind, thread, a, b, c, d>>.
   One step operator per property; all three together are the abstract pool.                        *)
EXTENDS Integers, Sequences, FiniteSets
PoolStart(hooks) == [ph |-> "none", b |-> 0 - 1, todo |-> {}, run |-> {}, wk |-> {}, ini |-> {}, fin |-> {},
                     nest |-> {}, refused |-> {}, hooks |-> hooks]
\* bookkeeping part of a step, common to all properties
PoolNext(s, e) ==
  LET k == e[1]  t == e[2] IN
  CASE k = "pb" -> [s EXCEPT !.ph = "idle"]
    [] k = "tc" -> [s EXCEPT !.wk = @ \cup {e[3]}]
    [] k = "in" -> [s EXCEPT !.ini = @ \cup {t}]
    [] k = "fi" -> [s EXCEPT !.fin = @ \cup {t}]
    [] k = "xb" -> [s EXCEPT !.ph = "exec", !.b = e[3], !.todo = 0..(e[4] - 1), !.run = {}]
    [] k = "js" -> [s EXCEPT !.todo = @ \ {e[4]}, !.run = @ \cup {<<t, e[3], e[4]>>}]
    [] k = "je" -> [s EXCEPT !.run = @ \ {<<t, e[3], e[4]>>}]
    [] k = "nb" -> [s EXCEPT !.nest = @ \cup {<<t, e[3], e[4]>>}]
    [] k = "nx" -> [s EXCEPT !.nest = @ \ {<<t, e[3], e[4]>>}]
    [] k = "xe" -> [s EXCEPT !.ph = "idle"]
    [] k = "db" -> [s EXCEPT !.ph = "closing"]
    [] k = "de" -> [s EXCEPT !.ph = "closed"]
    [] OTHER -> s
\* C01: exactly once, inside its own execute(), results visible
JobsOK(s, e) ==
  LET k == e[1]  t == e[2] IN
  CASE k = "js" -> /\ s.ph = "exec" /\ e[3] = s.b /\ e[4] \in s.todo
                   /\ \A x \in s.run : x[1] # t
    [] k = "je" -> <<t, e[3], e[4]>> \in s.run /\ s.ph = "exec"
    [] k = "xe" -> s.ph = "exec" /\ e[3] = s.b /\ s.todo = {} /\ s.run = {} /\ e[4] = 0
    [] OTHER -> TRUE
\* a run that got stuck (or died) while jobs of a batch were outstanding has lost them
JobsEnd(s, end) == end = "ok" \/ s.ph # "exec" \/ (s.todo = {} /\ s.run = {})
\* C03: lifecycle and nested calls
LifeOK(s, e) ==
  LET k == e[1]  t == e[2] IN
  CASE k = "in" -> t \in s.wk /\ t \notin s.ini /\ s.ph # "closed"
    [] k = "fi" -> t \in s.ini /\ t \notin s.fin /\ s.ph # "closed" /\ \A x \in s.run : x[1] # t
    [] k = "js" -> s.hooks => (t \in s.ini /\ t \notin s.fin)
    [] k = "de" -> s.hooks => (s.wk \subseteq s.ini /\ s.wk \subseteq s.fin)
    [] k = "nj" -> FALSE
    [] k = "nx" -> (e[6] = 1) = (e[5] > 0)
    [] k = "xe" -> s.todo = {} /\ s.run = {}
    [] OTHER -> TRUE
LifeEnd(s, end) == end = "ok" \/ s.nest = {}
\* C02: everything returns
TermEnd(s, end) == end = "ok" /\ s.ph = "closed"
=====================================================================
