---------------------------- MODULE ParForOps ----------------------------
(* API-level specification of utl::parallel_for / parallel_for_run / parallel_for_run_threadlocal.
   Events <<kind, thread, a, b, c, d>>:
     cb n     the call begins                      tc t     worker t created        tl x   thread-local state x constructed
     js i x   the function starts on index i (with thread-local state x, or -1)
     je i     the function returned                jf i     the function / the progress callback of i throws
     pg i     the progress callback is called with i
     rt k     the call returns with k errors       er i j q entry: index i, exception thrown by job j (q: 1,3 function, 2 callback)
     th j q   the call throws the exception of job j
     tx       a worker's thread ends                tb       a thread-local state changed hands
   strat: 0 continue, otherwise quit.                                                               *)
EXTENDS Integers, Sequences, FiniteSets
PfStart(p) == [ph |-> "none", p |-> p, todo |-> 0..(p.n - 1), run |-> {}, ended |-> {}, pgd |-> {}, prun |-> {},
               failed |-> {}, thrower |-> {}, rec |-> FALSE, late |-> {}, tls |-> {}, own |-> {}, ers |-> {}, k |-> 0]
Quit(s) == s.p.strat # 0
KindOf(s, i) == s.p.fail[i + 1]
PfNext(s, e) ==
  LET k == e[1]  t == e[2] IN
  CASE k = "cb" -> [s EXCEPT !.ph = "run"]
    [] k = "tl" -> [s EXCEPT !.tls = @ \cup {e[3]}]
    [] k = "js" -> [s EXCEPT !.todo = @ \ {e[3]}, !.run = @ \cup {<<t, e[3], e[4]>>},
                             !.late = IF s.rec THEN @ \cup {t} ELSE @,
                             !.own = IF e[4] >= 0 THEN @ \cup {<<t, e[4]>>} ELSE @]
    [] k = "je" -> [s EXCEPT !.run = {x \in @ : x[1] # t}, !.ended = @ \cup {e[3]}]
    [] k = "pg" -> [s EXCEPT !.pgd = @ \cup {e[3]}, !.prun = @ \cup {<<t, e[3]>>}]
    [] k = "jf" -> [s EXCEPT !.run = {x \in @ : x[1] # t}, !.failed = @ \cup {e[3]}, !.thrower = @ \cup {t}]
    [] k = "tx" -> [s EXCEPT !.rec = @ \/ t \in s.thrower]
    [] k = "rt" -> [s EXCEPT !.ph = "returned", !.k = e[3]]
    [] k = "th" -> [s EXCEPT !.ph = "thrown"]
    [] k = "er" -> [s EXCEPT !.ers = @ \cup {e[3]}]
    [] OTHER -> s
PfOK(s, e) ==
  LET k == e[1]  t == e[2] IN
  CASE k = "js" -> /\ s.ph = "run" /\ e[3] \in s.todo /\ \A x \in s.run : x[1] # t
                   /\ Quit(s) => (t \notin s.thrower /\ (s.rec => t \notin s.late))
                   /\ (s.p.over = 1) = (e[4] >= 0)
                   /\ e[4] >= 0 => /\ e[4] \in s.tls
                                   /\ \A x \in s.run : x[3] # e[4]
                                   /\ \A x \in s.own : (x[1] = t) = (x[2] = e[4])
    [] k = "je" -> s.ph = "run" /\ \E x \in s.run : x[1] = t /\ x[2] = e[3]
    [] k = "pg" -> s.ph = "run" /\ s.p.progress = 1 /\ e[3] \in s.ended /\ e[3] \notin s.pgd
    [] k = "jf" -> s.ph = "run"
    [] k = "tl" -> s.ph = "run" /\ e[3] \notin s.tls
    [] k = "tb" -> FALSE
    [] k = "rt" -> /\ s.ph = "run" /\ s.todo = {} /\ s.run = {}
                   /\ s.p.progress = 1 => s.pgd = s.ended
                   /\ e[3] = Cardinality(s.failed)
                   /\ Quit(s) => s.failed = {}
    [] k = "er" -> /\ s.ph = "returned" /\ e[3] \in s.failed /\ e[3] \notin s.ers
                   /\ e[4] = e[3] /\ e[5] = KindOf(s, e[3])
    [] k = "th" -> /\ s.ph = "run" /\ Quit(s) /\ s.run = {} /\ e[3] \in s.failed /\ e[4] = KindOf(s, e[3])
                   /\ s.p.progress = 1 => s.pgd = s.ended
    [] OTHER -> TRUE
PfEnd(s, end) == /\ end = "ok" /\ s.ph \in {"returned", "thrown"}
                 /\ s.ph = "returned" => s.ers = s.failed
=====================================================================
