---------------------------- MODULE Hist ----------------------------
(* Generic trace validation for state-machine specifications: a record holds a history and
   what was observed along it. The validator steps the specification's transition relation
   along the recorded events; S is the set of specification states compatible with everything
   observed so far (the specification may be nondeterministic). A record is rejected at the
   first event that leaves S empty, or at the end if no state in S is an acceptable end. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS HLen(_),          \* record -> number of events
          HStart(_),        \* record -> set of initial specification states
          HStep(_, _, _),   \* state, event number, record -> set of successor states
          HEnd(_, _)        \* state, record -> BOOLEAN, at the end of the history
VARIABLES c, pos, sts
hvars == <<c, pos, sts>>
Cases == ndJsonDeserialize(IOEnv.CASES)
HInit == c \in 1..Len(Cases) /\ pos = 0 /\ sts = {}
HBegin == /\ pos = 0
          /\ c' = c
          /\ IF Cases[c].out.st = "ok"
             THEN pos' = 1 /\ sts' = HStart(Cases[c])
             ELSE pos' = -1 /\ sts' = {} /\ PrintT(<<"BAD", c, 0>>)
HOp == /\ pos > 0 /\ pos <= HLen(Cases[c])
       /\ c' = c
       /\ LET r == Cases[c]
              N == UNION {HStep(s, pos, r) : s \in sts}
          IN IF N # {}
             THEN pos' = pos + 1 /\ sts' = N
             ELSE pos' = -1 /\ sts' = {} /\ PrintT(<<"BAD", c, pos>>)
HFin == /\ pos > 0 /\ pos = HLen(Cases[c]) + 1
        /\ c' = c
        /\ pos' = -2
        /\ sts' = {}
        /\ IF \E s \in sts : HEnd(s, Cases[c]) THEN TRUE ELSE PrintT(<<"BAD", c, pos>>)
HNext == HBegin \/ HOp \/ HFin
HSpec == HInit /\ [][HNext]_hvars
=====================================================================
