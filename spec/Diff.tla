------------------------------ MODULE Diff ------------------------------
(* sorted_diff and power_set_intersection as transition systems over two cursors. *)
EXTENDS DiffOps
CONSTANTS Ks, Vs, N
VARIABLES a, b, x, y, E
vars == <<a, b, x, y, E>>
Init == a \in Elems(Ks, Vs, N) /\ b \in Elems(Ks, Vs, N) /\ x = 1 /\ y = 1 /\ E = <<>>
Del == /\ x <= Len(a) /\ (IF y > Len(b) THEN TRUE ELSE a[x][1] < b[y][1])
       /\ x' = x + 1 /\ E' = Append(E, <<"del", a[x][1], a[x][2]>>) /\ UNCHANGED <<a, b, y>>
Add == /\ y <= Len(b) /\ (IF x > Len(a) THEN TRUE ELSE b[y][1] < a[x][1])
       /\ y' = y + 1 /\ E' = Append(E, <<"add", b[y][1], b[y][2]>>) /\ UNCHANGED <<a, b, x>>
Both == /\ x <= Len(a) /\ y <= Len(b) /\ a[x][1] = b[y][1]
        /\ x' = x + 1 /\ y' = y + 1
        /\ E' = (IF a[x][2] = b[y][2] THEN E ELSE Append(E, <<"chg", a[x][1], a[x][2], b[y][1], b[y][2]>>)) /\ UNCHANGED <<a, b>>
Next == Del \/ Add \/ Both
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == x > Len(a) /\ y > Len(b)
Correct == Done => E = Diff(a, b)
Apply == Done => Applied(a, b, E)
Same == Done /\ a = b => E = <<>>
Term == <>Done
=====================================================================
