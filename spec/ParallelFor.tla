---------------------------- MODULE ParallelFor ----------------------------
(* utl::parallel_for_run(_threadlocal), one action per shared access of the worker loop of
   include/utl/parallel_for.h.  Thread 0 is the caller, 1..W are the workers. Refines ParForOps. *)
EXTENDS ParForOps, TLC, Json
CONSTANTS W, N, FailKinds, Strat, Progress, Over, Fault, Gen
VARIABLES pc, counter, quit, emu, errors, idx, P, abs, bad, sched
vars == <<pc, counter, quit, emu, errors, idx, P, abs, bad, sched>>
view == <<pc, counter, quit, emu, errors, idx, P, abs, bad>>
T == 0..W
Workers == 1..W
Params == {[n |-> N, strat |-> Strat, progress |-> Progress, over |-> Over, fail |-> f] : f \in [1..N -> FailKinds]}
Emit(e) == abs' = PfNext(abs, e) /\ bad' = (bad \/ ~PfOK(abs, e))
Silent == UNCHANGED <<abs, bad>>
Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
Sched(t) == sched' = IF Gen THEN Append(sched, t) ELSE sched
Init == /\ P \in Params
        /\ pc = [t \in T |-> IF t = 0 THEN "spawn" ELSE "none"]
        /\ counter = 0 /\ quit = FALSE /\ emu = 0 - 1 /\ errors = <<>> /\ idx = [t \in T |-> 0]
        /\ abs = PfNext(PfStart(P), <<"cb", 0, N>>) /\ bad = FALSE /\ sched = <<>>
Spawn == /\ pc[0] = "spawn"
         /\ LET n == Cardinality({t \in Workers : pc[t] # "none"}) + 1 IN
            IF n <= W THEN pc' = [pc EXCEPT ![n] = IF Over = 1 THEN "local" ELSE "loop"]
            ELSE Goto(0, "join")
         /\ Silent /\ UNCHANGED <<counter, quit, emu, errors, idx, P>>
Join == /\ pc[0] = "join" /\ (Fault = "no_join" \/ \A t \in Workers : pc[t] = "gone")
        /\ IF Strat # 0 /\ errors # <<>>
           THEN Emit(<<"th", 0, errors[1][2], P.fail[errors[1][2] + 1]>>) /\ Goto(0, "done")
           ELSE Emit(<<"rt", 0, Len(errors)>>) /\ Goto(0, "list")
        /\ UNCHANGED <<counter, quit, emu, errors, idx, P>>
List == /\ pc[0] = "list"
        /\ IF errors = <<>> THEN Goto(0, "done") /\ Silent /\ errors' = errors
           ELSE /\ Emit(<<"er", 0, errors[1][1], errors[1][2], P.fail[errors[1][2] + 1]>>)
                /\ errors' = Tail(errors) /\ pc' = pc
        /\ UNCHANGED <<counter, quit, emu, idx, P>>
Local(t) == /\ pc[t] = "local" /\ Emit(<<"tl", t, t>>) /\ Goto(t, "loop")
            /\ UNCHANGED <<counter, quit, emu, errors, idx, P>>
Loop(t) == /\ pc[t] = "loop" /\ Goto(t, IF quit /\ Fault # "no_quit_check" THEN "exit" ELSE "take") /\ Silent
           /\ UNCHANGED <<counter, quit, emu, errors, idx, P>>
Take(t) == /\ pc[t] = "take" /\ idx' = [idx EXCEPT ![t] = counter]
           /\ counter' = counter + 1
           /\ Goto(t, IF counter >= N THEN "exit" ELSE "start") /\ Silent
           /\ UNCHANGED <<quit, emu, errors, P>>
Start(t) == /\ pc[t] = "start" /\ Emit(<<"js", t, idx[t], IF Over = 1 THEN (IF Fault = "shared_local" THEN 1 ELSE t) ELSE 0 - 1>>)
            /\ Goto(t, "body") /\ UNCHANGED <<counter, quit, emu, errors, idx, P>>
Fails(t, q) == P.fail[idx[t] + 1] \in q
Body(t) == /\ pc[t] = "body"
           /\ IF Fails(t, {1, 3}) THEN Emit(<<"jf", t, idx[t]>>) /\ Goto(t, "elock")
              ELSE Emit(<<"je", t, idx[t]>>) /\ Goto(t, IF Progress = 1 THEN "prog" ELSE "loop")
           /\ UNCHANGED <<counter, quit, emu, errors, idx, P>>
Prog(t) == /\ pc[t] = "prog" /\ Emit(<<"pg", t, idx[t]>>)
           /\ Goto(t, IF Fails(t, {2}) THEN "pfail" ELSE "loop")
           /\ UNCHANGED <<counter, quit, emu, errors, idx, P>>
PFail(t) == /\ pc[t] = "pfail" /\ Emit(<<"jf", t, idx[t]>>) /\ Goto(t, "elock")
            /\ UNCHANGED <<counter, quit, emu, errors, idx, P>>
ELock(t) == /\ pc[t] = "elock" /\ emu = 0 - 1 /\ emu' = t /\ Goto(t, "epush") /\ Silent
            /\ UNCHANGED <<counter, quit, errors, idx, P>>
EPush(t) == /\ pc[t] = "epush"
            /\ errors' = Append(errors, <<IF Fault = "counter_index" THEN counter - 1 ELSE idx[t], idx[t]>>)
            /\ IF Strat # 0 THEN quit' = (Fault # "no_quit_set") /\ Goto(t, "exit") ELSE quit' = quit /\ Goto(t, "loop")
            /\ emu' = 0 - 1 /\ Silent
            /\ UNCHANGED <<counter, idx, P>>
Exit(t) == /\ pc[t] = "exit" /\ Emit(<<"tx", t>>) /\ Goto(t, "gone")
           /\ UNCHANGED <<counter, quit, emu, errors, idx, P>>
Caller == Spawn \/ Join \/ List
Worker(t) == Local(t) \/ Loop(t) \/ Take(t) \/ Start(t) \/ Body(t) \/ Prog(t) \/ PFail(t) \/ ELock(t) \/ EPush(t) \/ Exit(t)
Next == \/ Caller /\ Sched(0)
        \/ \E t \in Workers : Worker(t) /\ Sched(t)
Fair == WF_vars(Caller /\ Sched(0)) /\ \A t \in Workers : SF_vars(Worker(t) /\ Sched(t))
Spec == Init /\ [][Next]_vars /\ Fair
Refines == ~bad
AtEnd == pc[0] = "done" => PfEnd(abs, "ok")
Returns == <>(pc[0] = "done")
GenOut == (Gen /\ pc[0] = "done") => PrintT("GEN" \o ToJson([s |-> sched, fail |-> P.fail]))
=====================================================================
