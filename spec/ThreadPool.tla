---------------------------- MODULE ThreadPool ----------------------------
(* utl::thread_pool, one action per synchronisation operation of include/utl/thread_pool.h:
   mutex lock/unlock, condition wait (release, sleep, spurious or real wakeup, reacquire),
   fetch_add and load on the shared counter.  Thread 0 is the caller, 1..W are the workers.
   The API-level events of every step feed the abstract pool (PoolOps): `abs` is the abstract
   state, `bad` records an event the abstract pool does not allow, so INVARIANT ~bad is refinement. *)
EXTENDS PoolOps, TLC, Json
CONSTANTS W,           \* number of workers
          Batches,     \* sequence of batch sizes
          Nest,        \* set of <<batch, job, size>>: nested execute() of that size from inside that job
          Fault,       \* "none" or the name of a deliberate fault (vacuity tests)
          Gen          \* TRUE: print finished behaviours (for replay on the real code)
VARIABLES pc, mu, waiting, counter, jobcount, active, stop, fnb, idx, b, abs, bad, sched
vars == <<pc, mu, waiting, counter, jobcount, active, stop, fnb, idx, b, abs, bad, sched>>
view == <<pc, mu, waiting, counter, jobcount, active, stop, fnb, idx, b, abs, bad>>
T == 0..W
Workers == 1..W
Emit(e) == /\ abs' = PoolNext(abs, e)
           /\ bad' = (bad \/ ~JobsOK(abs, e) \/ ~LifeOK(abs, e))
Silent == UNCHANGED <<abs, bad>>
Init == /\ pc = [t \in T |-> IF t = 0 THEN "spawn" ELSE "none"]
        /\ mu = 0 - 1 /\ waiting = {} /\ counter = 0 /\ jobcount = 0 /\ active = 0
        /\ stop = FALSE /\ fnb = 0 /\ idx = [t \in T |-> 0] /\ b = 0
        /\ abs = PoolNext(PoolStart(TRUE), <<"pb", 0>>) /\ bad = FALSE /\ sched = <<>>
Sched(t) == sched' = IF Gen THEN Append(sched, t) ELSE sched
Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
\* --- mutex and condition variable ---------------------------------------------------------
Acquire(t, l) == mu = 0 - 1 /\ mu' = t /\ Goto(t, l)
NotifyAll == waiting' = {}
WorkerPred == stop \/ counter < jobcount
CallerPred == IF Fault = "counter_only" THEN counter >= jobcount
              ELSE IF Fault = "active_only" THEN active = 0
              ELSE active = 0 /\ counter >= jobcount
\* --- caller -------------------------------------------------------------------------------
Spawn == /\ pc[0] = "spawn"
         /\ LET n == Cardinality(abs.wk) + 1 IN
            IF n <= W
            THEN /\ pc' = [pc EXCEPT ![n] = "init"] /\ Emit(<<"tc", 0, n>>)
            ELSE /\ Goto(0, "next") /\ Silent
         /\ UNCHANGED <<mu, waiting, counter, jobcount, active, stop, fnb, idx, b>>
Call == /\ pc[0] = "next"
        /\ IF b < Len(Batches)
           THEN /\ b' = b + 1
                /\ Emit(<<"xb", 0, b + 1, Batches[b + 1]>>)
                /\ Goto(0, IF Batches[b + 1] = 0 THEN "ret" ELSE "xlock")
           ELSE /\ b' = b /\ Emit(<<"db", 0>>) /\ Goto(0, IF Fault = "stop_unlocked" THEN "dset" ELSE "dlock")
        /\ UNCHANGED <<mu, waiting, counter, jobcount, active, stop, fnb, idx>>
XLock == pc[0] = "xlock" /\ Acquire(0, "xset") /\ Silent
         /\ UNCHANGED <<waiting, counter, jobcount, active, stop, fnb, idx, b>>
XSet == /\ pc[0] = "xset"
        /\ counter' = IF Fault = "no_counter_reset" THEN counter ELSE 0
        /\ jobcount' = Batches[b] /\ fnb' = b
        /\ mu' = 0 - 1 /\ Goto(0, "xnotify") /\ Silent
        /\ UNCHANGED <<waiting, active, stop, idx, b>>
XNotify == /\ pc[0] = "xnotify"
           /\ IF Fault = "no_start_notify" THEN waiting' = waiting ELSE NotifyAll
           /\ Goto(0, "xlock2") /\ Silent
           /\ UNCHANGED <<mu, counter, jobcount, active, stop, fnb, idx, b>>
XLock2 == pc[0] = "xlock2" /\ Acquire(0, "xtest") /\ Silent
          /\ UNCHANGED <<waiting, counter, jobcount, active, stop, fnb, idx, b>>
XTest == /\ pc[0] = "xtest"
         /\ IF CallerPred THEN Goto(0, "ret") /\ mu' = 0 - 1 ELSE Goto(0, "xwait") /\ mu' = mu
         /\ Silent /\ UNCHANGED <<waiting, counter, jobcount, active, stop, fnb, idx, b>>
XWait == /\ pc[0] = "xwait" /\ mu' = 0 - 1 /\ waiting' = waiting \cup {0} /\ Goto(0, "xsleep")
         /\ Silent /\ UNCHANGED <<counter, jobcount, active, stop, fnb, idx, b>>
XWake == pc[0] = "xsleep" /\ 0 \notin waiting /\ Acquire(0, "xtest") /\ Silent
         /\ UNCHANGED <<waiting, counter, jobcount, active, stop, fnb, idx, b>>
Ret == /\ pc[0] = "ret" /\ Emit(<<"xe", 0, b, 0>>) /\ Goto(0, "next")
       /\ UNCHANGED <<mu, waiting, counter, jobcount, active, stop, fnb, idx, b>>
DLock == pc[0] = "dlock" /\ Acquire(0, "dset") /\ Silent
         /\ UNCHANGED <<waiting, counter, jobcount, active, stop, fnb, idx, b>>
DSet == /\ pc[0] = "dset" /\ stop' = TRUE /\ mu' = (IF mu = 0 THEN 0 - 1 ELSE mu) /\ Goto(0, "dnotify") /\ Silent
        /\ UNCHANGED <<waiting, counter, jobcount, active, fnb, idx, b>>
DNotify == /\ pc[0] = "dnotify" /\ NotifyAll /\ Goto(0, "join") /\ Silent
           /\ UNCHANGED <<mu, counter, jobcount, active, stop, fnb, idx, b>>
Join == /\ pc[0] = "join" /\ \A t \in Workers : pc[t] = "gone"
        /\ Emit(<<"de", 0>>) /\ Goto(0, "done")
        /\ UNCHANGED <<mu, waiting, counter, jobcount, active, stop, fnb, idx, b>>
\* --- workers ------------------------------------------------------------------------------
WInit(t) == /\ pc[t] = "init" /\ Emit(<<"in", t>>) /\ Goto(t, "wlock")
            /\ UNCHANGED <<mu, waiting, counter, jobcount, active, stop, fnb, idx, b>>
WLock(t) == /\ pc[t] = "wlock" /\ Acquire(t, "wtest") /\ Silent
            /\ UNCHANGED <<waiting, counter, jobcount, active, stop, fnb, idx, b>>
WTest(t) == /\ pc[t] = "wtest"
            /\ IF WorkerPred
               THEN /\ mu' = 0 - 1
                    /\ IF stop THEN Goto(t, "fin") /\ active' = active
                       ELSE Goto(t, "take") /\ active' = active + 1
               ELSE Goto(t, "wwait") /\ mu' = mu /\ active' = active
            /\ Silent /\ UNCHANGED <<waiting, counter, jobcount, stop, fnb, idx, b>>
WWait(t) == /\ pc[t] = "wwait" /\ mu' = 0 - 1 /\ waiting' = waiting \cup {t} /\ Goto(t, "wsleep")
            /\ Silent /\ UNCHANGED <<counter, jobcount, active, stop, fnb, idx, b>>
WWake(t) == /\ pc[t] = "wsleep" /\ t \notin waiting /\ Acquire(t, "wtest") /\ Silent
            /\ UNCHANGED <<waiting, counter, jobcount, active, stop, fnb, idx, b>>
Take(t) == /\ pc[t] = "take"
           /\ idx' = [idx EXCEPT ![t] = counter]
           /\ counter' = IF Fault = "split_fetch_add" THEN counter ELSE counter + 1
           /\ Goto(t, IF Fault = "split_fetch_add" THEN "take2" ELSE "check") /\ Silent
           /\ UNCHANGED <<mu, waiting, jobcount, active, stop, fnb, b>>
Take2(t) == /\ pc[t] = "take2" /\ counter' = idx[t] + 1 /\ Goto(t, "check") /\ Silent
            /\ UNCHANGED <<mu, waiting, jobcount, active, stop, fnb, idx, b>>
Check(t) == /\ pc[t] = "check"
            /\ IF idx[t] >= jobcount
               THEN Goto(t, "alock") /\ Silent
               ELSE Goto(t, "job") /\ Emit(<<"js", t, fnb, idx[t]>>)
            /\ UNCHANGED <<mu, waiting, counter, jobcount, active, stop, fnb, idx, b>>
NestOf(t) == {x \in Nest : x[1] = abs.b /\ x[2] = idx[t]}
Job(t) == /\ pc[t] = "job"
          /\ IF NestOf(t) = {}
             THEN Emit(<<"je", t, fnb, idx[t]>>) /\ Goto(t, "take")
             ELSE /\ Emit(<<"nb", t, fnb, idx[t], (CHOOSE x \in NestOf(t) : TRUE)[3]>>)
                  /\ Goto(t, IF (CHOOSE x \in NestOf(t) : TRUE)[3] = 0 THEN "nret" ELSE "nlock")
          /\ UNCHANGED <<mu, waiting, counter, jobcount, active, stop, fnb, idx, b>>
NLock(t) == pc[t] = "nlock" /\ Acquire(t, "ncheck") /\ Silent
            /\ UNCHANGED <<waiting, counter, jobcount, active, stop, fnb, idx, b>>
NCheck(t) == /\ pc[t] = "ncheck" /\ mu' = 0 - 1
             /\ LET m == (CHOOSE x \in NestOf(t) : TRUE)[3] IN
                IF active # 0 /\ Fault # "no_nested_check"
                THEN /\ Emit(<<"nx", t, fnb, idx[t], m, 1>>) /\ Goto(t, "endjob")
                     /\ UNCHANGED <<counter, jobcount>>
                ELSE /\ Silent /\ counter' = 0 /\ jobcount' = m /\ Goto(t, "nwait")
             /\ UNCHANGED <<waiting, active, stop, fnb, idx, b>>
NRet(t) == /\ pc[t] = "nret" /\ Emit(<<"nx", t, fnb, idx[t], 0, 0>>) /\ Goto(t, "endjob")
           /\ UNCHANGED <<mu, waiting, counter, jobcount, active, stop, fnb, idx, b>>
EndJob(t) == /\ pc[t] = "endjob" /\ Emit(<<"je", t, fnb, idx[t]>>) /\ Goto(t, "take")
             /\ UNCHANGED <<mu, waiting, counter, jobcount, active, stop, fnb, idx, b>>
ALock(t) == /\ pc[t] = "alock" /\ Acquire(t, "adec") /\ Silent
            /\ UNCHANGED <<waiting, counter, jobcount, active, stop, fnb, idx, b>>
ADec(t) == /\ pc[t] = "adec" /\ active' = active - 1
           /\ IF Fault = "no_end_notify" THEN waiting' = waiting ELSE NotifyAll
           /\ mu' = 0 - 1 /\ Goto(t, "wlock") /\ Silent
           /\ UNCHANGED <<counter, jobcount, stop, fnb, idx, b>>
Fin(t) == /\ pc[t] = "fin" /\ Emit(<<"fi", t>>) /\ Goto(t, "gone")
          /\ UNCHANGED <<mu, waiting, counter, jobcount, active, stop, fnb, idx, b>>
Spurious(t) == /\ t \in waiting /\ waiting' = waiting \ {t} /\ Silent
               /\ UNCHANGED <<pc, mu, counter, jobcount, active, stop, fnb, idx, b>>
Caller == Spawn \/ Call \/ XLock \/ XSet \/ XNotify \/ XLock2 \/ XTest \/ XWait \/ XWake \/ Ret \/ DLock \/ DSet \/ DNotify \/ Join
Worker(t) == WInit(t) \/ WLock(t) \/ WTest(t) \/ WWait(t) \/ WWake(t) \/ Take(t) \/ Take2(t) \/ Check(t) \/ Job(t)
             \/ NLock(t) \/ NCheck(t) \/ NRet(t) \/ EndJob(t) \/ ALock(t) \/ ADec(t) \/ Fin(t)
Next == \/ Caller /\ Sched(0)
        \/ \E t \in Workers : (Worker(t) /\ Sched(t))
        \/ \E t \in T : Spurious(t) /\ UNCHANGED sched
\* lock acquisition is only weakly fair per thread if the lock is free infinitely often: strong fairness
Fair == /\ SF_vars(Caller /\ Sched(0))
        /\ \A t \in Workers : SF_vars(Worker(t) /\ Sched(t))
Spec == Init /\ [][Next]_vars /\ Fair
Refines == ~bad
Stuck == pc[0] # "done" => ENABLED (Caller \/ \E t \in Workers : Worker(t))
Returns == <>(pc[0] = "done")
TypeOK == /\ mu \in -1..W /\ waiting \subseteq T /\ active \in 0..W /\ counter >= 0
GenOut == (Gen /\ pc[0] = "done") => PrintT("GEN" \o ToJson([s |-> sched]))
=====================================================================
