---------------------------- MODULE Calendar ----------------------------
(* A calendar turned page by page, against the closed form of DateOps. *)
EXTENDS DateOps
CONSTANTS StartYears, Days
VARIABLES n, y, m, d, k
vars == <<n, y, m, d, k>>
\* day number of the 1st of January, by counting
RECURSIVE Jan1(_)
Jan1(yy) == IF yy = 1970 THEN 0 ELSE IF yy > 1970 THEN Jan1(yy - 1) + (IF Leap(yy - 1) THEN 366 ELSE 365) ELSE Jan1(yy + 1) - (IF Leap(yy) THEN 366 ELSE 365)
Init == /\ y \in StartYears /\ m = 1 /\ d = 1 /\ n = Jan1(y) /\ k = 0
Turn == /\ k < Days /\ k' = k + 1 /\ n' = n + 1
        /\ IF d < MonthLen(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
           ELSE /\ d' = 1
                /\ IF m < 12 THEN m' = m + 1 /\ y' = y ELSE m' = 1 /\ y' = y + 1
Next == Turn
Spec == Init /\ [][Next]_vars
Agrees == Civil(n) = <<y, m, d>>
Wellformed == Len(Stamp(n, k % 86400)) = 20
=====================================================================
