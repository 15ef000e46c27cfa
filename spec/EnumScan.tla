--------------------------- MODULE EnumScan ---------------------------
(* Finding the v-th name by walking over the text of the declaration. Fault "blank": stays on blanks; "trim":
   keeps blanks at the end of the name. *)
EXTENDS HelperOps
CONSTANTS Names, Seps, N, Fault
VARIABLES names, text, v, i, c, start, st
vars == <<names, text, v, i, c, start, st>>
MCNames == {<<97>>, <<98>>, <<97, 98>>, <<97, 97>>}
MCSeps == {<<44>>, <<44, 32>>, <<32, 44, 32>>}
Init == /\ names \in {s \in SeqsUpTo(Names, N) : s # <<>>}
        /\ \E ss \in [1..(Len(names) - 1) -> Seps] : text = Listing(names, ss)
        /\ v \in 0..(Len(names) - 1) /\ i = 0 /\ c = 1 /\ start = 1 /\ st = "skip"
At(p) == IF p <= Len(text) THEN text[p] ELSE 0
Skip == /\ st = "skip"
        /\ IF At(c) = 44 \/ (At(c) = 32 /\ Fault # "blank") THEN c' = c + 1 /\ UNCHANGED <<start, st>> ELSE start' = c /\ c' = c /\ st' = "walk"
        /\ UNCHANGED <<names, text, v, i>>
Walk == /\ st = "walk" /\ st' = "seek"
        /\ c' = c + 1 /\ UNCHANGED <<names, text, v, i, start>>
Seek == /\ st = "seek"
        /\ IF c <= Len(text) /\ text[c] # 44 THEN c' = c + 1 /\ UNCHANGED <<i, st>>
           ELSE c' = c /\ (IF i = v THEN st' = "trim" /\ i' = i ELSE st' = "skip" /\ i' = i + 1)
        /\ UNCHANGED <<names, text, v, start>>
Trim == /\ st = "trim"
        /\ IF c # start /\ text[c - 1] = 32 /\ Fault # "trim" THEN c' = c - 1 /\ st' = st ELSE c' = c /\ st' = "done"
        /\ UNCHANGED <<names, text, v, i, start>>
Next == Trim \/ Skip \/ Walk \/ Seek
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Result == SubSeq(text, start, c - 1)
Right == st = "done" => Result = names[v + 1]
InText == start <= c /\ c <= Len(text) + 1
Halts == <>(st = "done")
=====================================================================
