---------------------------- MODULE ProgressConc ----------------------------
(* Concurrent increments / monotonic updates of one tracker, one action per atomic operation of
   src/progress_tracker.cc: the input is changed, read, the output computed and exchanged, the
   callback run, the input read again and the whole repeated if it changed in between.          *)
EXTENDS ProgressOps, TLC
CONSTANTS Threads, Ops,      \* Ops[t]: sequence of <<"m"|"i", v>>
          Tr,                \* settings
          Fault
VARIABLES pc, k, in, out, seen, shown, hist
vars == <<pc, k, in, out, seen, shown, hist>>
Init == /\ pc = [t \in Threads |-> "call"] /\ k = [t \in Threads |-> 1]
        /\ in = 0 /\ out = Tr.low /\ seen = [t \in Threads |-> 0] /\ shown = Tr.low /\ hist = 0
Op(t) == Ops[t][k[t]]
Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
Out1(i) == CHOOSE o \in OutVals(Tr, i) : TRUE
CallOp(t) == /\ pc[t] = "call" /\ k[t] <= Len(Ops[t])
             /\ IF Op(t)[1] = "i" /\ Fault # "split_increment" THEN in' = in + Op(t)[2] /\ Goto(t, "read") /\ UNCHANGED seen
                ELSE in' = in /\ seen' = [seen EXCEPT ![t] = in] /\ Goto(t, "cas")
             /\ UNCHANGED <<k, out, shown, hist>>
Cas(t) == /\ pc[t] = "cas"
          /\ IF Op(t)[1] = "i" THEN in' = seen[t] + Op(t)[2] /\ Goto(t, "read") /\ UNCHANGED seen
             ELSE IF seen[t] >= Op(t)[2] THEN in' = in /\ Goto(t, "read") /\ UNCHANGED seen
             ELSE IF in = seen[t] \/ Fault = "mono_store" THEN in' = Op(t)[2] /\ Goto(t, "read") /\ UNCHANGED seen
             ELSE in' = in /\ seen' = [seen EXCEPT ![t] = in] /\ Goto(t, "cas")
          /\ UNCHANGED <<k, out, shown, hist>>
Read(t) == /\ pc[t] = "read" /\ seen' = [seen EXCEPT ![t] = in] /\ Goto(t, "xchg") /\ UNCHANGED <<k, in, out, shown, hist>>
Xchg(t) == /\ pc[t] = "xchg" /\ out' = Out1(seen[t])
           /\ Goto(t, IF out # Out1(seen[t]) THEN "cb" ELSE "reread") /\ UNCHANGED <<k, in, seen, shown, hist>>
Cb(t) == /\ pc[t] = "cb" /\ shown' = out /\ Goto(t, "reread") /\ UNCHANGED <<k, in, out, seen, hist>>
Reread(t) == /\ pc[t] = "reread"
             /\ IF in = seen[t] \/ Fault = "no_reread"
                THEN Goto(t, "call") /\ k' = [k EXCEPT ![t] = @ + 1] /\ seen' = seen
                ELSE Goto(t, "xchg") /\ k' = k /\ seen' = [seen EXCEPT ![t] = in]
             /\ UNCHANGED <<in, out, shown, hist>>
Next == \E t \in Threads : CallOp(t) \/ Cas(t) \/ Read(t) \/ Xchg(t) \/ Cb(t) \/ Reread(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(CallOp(t) \/ Cas(t) \/ Read(t) \/ Xchg(t) \/ Cb(t) \/ Reread(t))
Done == \A t \in Threads : pc[t] = "call" /\ k[t] > Len(Ops[t])
RECURSIVE SumTo(_, _)
SumTo(q, n) == IF n = 0 THEN 0 ELSE (IF q[n][1] = "i" THEN q[n][2] ELSE 0) + SumTo(q, n - 1)
RECURSIVE SumAll(_)
SumAll(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE x \in S : TRUE IN SumTo(Ops[t], Len(Ops[t])) + SumAll(S \ {t})
OnlyInc == \A t \in Threads : \A j \in 1..Len(Ops[t]) : Ops[t][j][1] = "i"
OnlyMono == \A t \in Threads : \A j \in 1..Len(Ops[t]) : Ops[t][j][1] = "m"
Total == IF OnlyInc THEN SumAll(Threads)
         ELSE LET V == {Ops[x[1]][x[2]][2] : x \in {y \in Threads \X (1..5) : y[2] <= Len(Ops[y[1]])}} IN CHOOSE v \in V : \A w \in V : w <= v
Final == Done => /\ (OnlyInc \/ OnlyMono) => in = Total
                 /\ out \in OutVals(Tr, in)
                 /\ shown = out
Bounds == Tr.low <= out /\ out <= Tr.high
Returns == <>Done
OI == [t \in Threads |-> IF t = 1 THEN <<<<"i", 1>>, <<"i", 2>>>> ELSE <<<<"i", 3>>>>]
OM == [t \in Threads |-> IF t = 1 THEN <<<<"m", 2>>, <<"m", 5>>>> ELSE IF t = 2 THEN <<<<"m", 4>>>> ELSE <<<<"m", 1>>, <<"m", 3>>>>]
OX == [t \in Threads |-> IF t = 1 THEN <<<<"m", 2>>, <<"i", 2>>>> ELSE <<<<"i", 1>>, <<"m", 3>>>>]
TrA == [TrNew EXCEPT !.inhigh = 6]
TrB == [TrNew EXCEPT !.inhigh = 6, !.low = 80, !.high = 480, !.mod = 160]
=====================================================================
