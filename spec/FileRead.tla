------------------------------ MODULE FileRead ------------------------------
(* Reading a whole file through a stream: measure (seek to the end, tell, back to the start), then read that many bytes
   in pieces. Any call may fail, a read may deliver fewer bytes, and somebody else may shorten or lengthen the file in
   between. Result: exactly the bytes of the file as it was measured, or failure. Check1/Check2/Check3 say which results
   are checked; leaving one out must break the invariant (self-test). *)
EXTENDS Integers, Sequences
CONSTANTS N, CheckSeek, CheckRead, Loop
VARIABLES disk, pos, want, buf, pc, res, moved
vars == <<disk, pos, want, buf, pc, res, moved>>
Data(n) == [j \in 1..n |-> j]
Init == disk \in {Data(n) : n \in 0..N} /\ pos = 0 /\ want = 0 /\ buf = <<>> /\ pc = "seek" /\ res = "" /\ moved = FALSE
Goto(p) == pc' = p
Fail == res' = "x" /\ pc' = "end"
Seek == pc = "seek" /\ \/ pos' = Len(disk) /\ Goto("tell") /\ UNCHANGED <<res, buf, want, disk, moved>>
                       \/ UNCHANGED <<pos, buf, want, disk, moved>> /\ IF CheckSeek THEN Fail ELSE Goto("tell") /\ UNCHANGED res
Tell == pc = "tell" /\ want' = pos /\ Goto("rewind") /\ UNCHANGED <<pos, buf, res, disk, moved>>
Rewind == pc = "rewind" /\ pos' = 0 /\ Goto("read") /\ UNCHANGED <<want, buf, res, disk, moved>>
Rest == Len(disk) - pos
Read == /\ pc = "read"
        /\ \E k \in 0..want - Len(buf) :
             /\ k <= (IF Rest > 0 THEN Rest ELSE 0)
             /\ buf' = buf \o SubSeq(disk, pos + 1, pos + k) /\ pos' = pos + k
             /\ IF Len(buf') = want THEN res' = "ok" /\ pc' = "end"
                ELSE IF Loop /\ k > 0 THEN UNCHANGED <<pc, res>>
                ELSE IF CheckRead THEN Fail ELSE res' = "ok" /\ pc' = "end"
        /\ UNCHANGED <<want, disk, moved>>
Shrink == pc # "end" /\ disk # <<>> /\ disk' = SubSeq(disk, 1, Len(disk) - 1) /\ moved' = TRUE /\ UNCHANGED <<pos, want, buf, pc, res>>
Grow == pc # "end" /\ Len(disk) < N /\ disk' = Data(Len(disk) + 1) /\ moved' = TRUE /\ UNCHANGED <<pos, want, buf, pc, res>>
Next == Seek \/ Tell \/ Rewind \/ Read \/ Shrink \/ Grow
Spec == Init /\ [][Next]_vars /\ WF_vars(Seek) /\ WF_vars(Tell) /\ WF_vars(Rewind) /\ WF_vars(Read)
ExactOrLoud == res = "ok" => Len(buf) = want /\ buf = Data(want) /\ (~moved => buf = disk)
Ends == <>(pc = "end")
=====================================================================
