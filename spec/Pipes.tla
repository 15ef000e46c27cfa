------------------------------ MODULE Pipes ------------------------------
(* The pull machine: range objects stacked on a source, driven by a terminal through begin / valid / read / next.
   Every primitive access to the source (read or advance) is one transition of the machine. The stack of pending
   protocol calls is explicit, so that evaluation order and the number of source accesses are those of a lazy
   pipeline; values are read from the source again whenever they are needed.
   Checked: the machine delivers exactly the eager meaning, never touches an element beyond the one that decides
   the result, never advances past the end, and terminates. *)
EXTENDS PipesOps
CONSTANTS Src, Stgs, MaxStages, FindMasks
VARIABLES a, sts, find, arg, it, mem, out, pc, maxread, moves
vars == <<a, sts, find, arg, it, mem, out, pc, maxread, moves>>
N == Len(sts)
\* value read at stage k and validity at stage k for source position p (pure: stage functions have no effects)
RECURSIVE RD(_, _)
RD(k, p) == IF k = 0 THEN a[p] ELSE IF sts[k][1] = 1 THEN Fun(sts[k][2], RD(k - 1, p)) ELSE RD(k - 1, p)
RECURSIVE VALID(_, _)
VALID(k, p) == IF k = 0 THEN p <= Len(a) ELSE IF sts[k][1] = 3 THEN VALID(k - 1, p) /\ Bit(sts[k][2], RD(k - 1, p)) ELSE VALID(k - 1, p)
\* pc: <<"begin", k>> finishing begin() of stage k; <<"find", k>> the skip loop of stage k (after which the
\* stages above continue), <<"loop">> the terminal's loop head, <<"next">> advance, <<"done">>
Init == /\ a \in SeqsUpTo(Src, 3) /\ sts \in SeqsUpTo(Stgs, MaxStages) /\ find \in BOOLEAN /\ arg \in FindMasks
        /\ (find \/ arg = SetMin(FindMasks))
        /\ it = 1 /\ mem = [k \in 1..Len(sts) |-> <<>>] /\ out = <<>> /\ pc = <<"idle">> /\ maxread = 0 /\ moves = 0
Touch(p) == maxread' = Max2(maxread, p)
Start == pc = <<"idle">> /\ pc' = <<"begin", 1>> /\ UNCHANGED <<a, sts, find, arg, it, mem, out, maxread, moves>>
\* begin() of stage k, from the source upwards
Begin(k) ==
  /\ pc = <<"begin", k>>
  /\ IF k > N THEN pc' = <<"loop">> /\ UNCHANGED <<a, sts, find, arg, it, mem, out, maxread, moves>>
     ELSE IF sts[k][1] = 0 /\ VALID(k - 1, it)
     THEN /\ IF Bit(sts[k][2], RD(k - 1, it)) THEN pc' = <<"adv", 1, k, "begin">> ELSE pc' = <<"begin", k + 1>>
          /\ Touch(it) /\ UNCHANGED <<a, sts, find, arg, it, mem, out, moves>>
     ELSE IF sts[k][1] = 2 /\ VALID(k - 1, it)
     THEN /\ mem' = [mem EXCEPT ![k] = <<RD(k - 1, it)>>] /\ pc' = <<"begin", k + 1>>
          /\ Touch(it) /\ UNCHANGED <<a, sts, find, arg, it, out, moves>>
     ELSE pc' = <<"begin", k + 1>> /\ (IF it <= Len(a) THEN Touch(it) ELSE UNCHANGED maxread) /\ UNCHANGED <<a, sts, find, arg, it, mem, out, moves>>
\* next() below stage top, then resume with mode: source first, then the skip loops of stages 1..top-1
Advance == /\ pc[1] = "adv" /\ pc[2] = 1
           /\ it' = it + 1 /\ moves' = moves + 1
           /\ pc' = <<"skip", 1, pc[3], pc[4]>>
           /\ UNCHANGED <<a, sts, find, arg, mem, out, maxread>>
Skip ==
  /\ pc[1] = "skip"
  /\ LET k == pc[2]  top == pc[3] IN
     IF k = top
     THEN pc' = (IF pc[4] = "begin" THEN <<"begin", top>> ELSE <<"loop">>) /\ UNCHANGED <<mem, maxread>>
     ELSE IF ~VALID(k - 1, it) \/ sts[k][1] \in {1, 3}
     THEN pc' = <<"skip", k + 1, top, pc[4]>> /\ UNCHANGED mem /\ (IF it <= Len(a) THEN Touch(it) ELSE UNCHANGED maxread)
     ELSE LET v == RD(k - 1, it) IN
          /\ Touch(it)
          /\ IF sts[k][1] = 0
             THEN (IF Bit(sts[k][2], v) THEN pc' = <<"adv1", k, top, pc[4]>> ELSE pc' = <<"skip", k + 1, top, pc[4]>>) /\ UNCHANGED mem
             ELSE IF mem[k] = <<v>> THEN pc' = <<"adv1", k, top, pc[4]>> /\ UNCHANGED mem
             ELSE mem' = [mem EXCEPT ![k] = <<v>>] /\ pc' = <<"skip", k + 1, top, pc[4]>>
  /\ UNCHANGED <<a, sts, find, arg, it, out, moves>>
\* a skip loop inside stage k advances everything below it and starts again from the bottom
AdvanceAgain == /\ pc[1] = "adv1"
                /\ it' = it + 1 /\ moves' = moves + 1 /\ pc' = <<"skip", 1, pc[3], pc[4]>>
                /\ UNCHANGED <<a, sts, find, arg, mem, out, maxread>>
Loop == /\ pc = <<"loop">>
        /\ (IF it <= Len(a) THEN Touch(it) ELSE UNCHANGED maxread)
        /\ IF VALID(N, it)
           THEN IF find
                THEN IF Bit(arg, RD(N, it)) THEN out' = <<RD(N, it)>> /\ pc' = <<"done">> ELSE out' = out /\ pc' = <<"adv", 1, N + 1, "loop">>
                ELSE out' = Append(out, RD(N, it)) /\ pc' = <<"adv", 1, N + 1, "loop">>
           ELSE out' = out /\ pc' = <<"done">>
        /\ UNCHANGED <<a, sts, find, arg, it, mem, moves>>
Next == Start \/ (\E k \in 1..(MaxStages + 1) : Begin(k)) \/ Advance \/ Skip \/ AdvanceAgain \/ Loop
MCStgs == {<<0, 2>>, <<0, 5>>, <<1, 0>>, <<1, 1>>, <<2, 0>>, <<3, 3>>, <<3, 6>>}
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
W == Walk(a, sts, find, arg)
Deciding == IF W = <<>> THEN 0 ELSE W[Len(W)].pos
ResultIsEager == pc = <<"done">> => out = (IF find THEN FirstHit(Eager(a, sts), arg) ELSE Eager(a, sts))
WalkIsEager == pc = <<"idle">> => (Emitted(Walk(a, sts, FALSE, 0)) = Eager(a, sts))
Laziness == maxread <= Deciding
NoOverrun == it <= Len(a) + 1 /\ moves = it - 1
Idle == pc = <<"idle">> => maxread = 0 /\ moves = 0
StopsAtDecision == W # <<>> /\ W[Len(W)].fin => it <= Deciding
Terminates == <>(pc = <<"done">>)
=====================================================================
