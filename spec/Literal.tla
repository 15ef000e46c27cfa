---------------------------- MODULE Literal ----------------------------
(* Spreading a literal position by position, looking only at characters before its terminator.
   Faults: "short" forgets the last position, "blind" does not notice the end (reads on), "late" notices it one too late *)
EXTENDS LitOps, TLC
CONSTANTS Cap, Chars, Fault
VARIABLES lit, k, out, ended, outside
vars == <<lit, k, out, ended, outside>>
At(j) == IF j <= Len(lit) THEN lit[j] ELSE IF j = Len(lit) + 1 THEN 0 ELSE 99   \* 99: beyond the terminator
Init == lit \in SeqsUpTo(Chars, Cap) /\ k = 1 /\ out = <<>> /\ ended = FALSE /\ outside = FALSE
Look == (~ended \/ Fault = "blind") /\ k <= (IF Fault = "short" THEN Cap - 1 ELSE Cap)
Step == /\ k <= Cap
        /\ out' = Append(out, IF Look THEN At(k) ELSE 0)
        /\ outside' = (outside \/ (Look /\ At(k) = 99))
        /\ ended' = (ended \/ (IF Fault = "late" THEN k > 1 /\ At(k - 1) = 0 ELSE Look /\ At(k) = 0))
        /\ k' = k + 1 /\ UNCHANGED lit
Spec == Init /\ [][Step]_vars
Inside == ~outside
Result == k = Cap + 1 => out = Stored(lit, Cap) /\ Text(out) = lit
Distinct == k = 1 => \A other \in SeqsUpTo(Chars, Cap) : (Stored(other, Cap) = Stored(lit, Cap)) = (other = lit)
=====================================================================
