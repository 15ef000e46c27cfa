------------------------------ MODULE Csv ------------------------------
(* A byte-at-a-time reader as a state machine: on the rendering of every well-formed table it ends with exactly that
   table's header and rows (so the rendering is unambiguous and quoting round-trips). *)
EXTENDS CsvOps
CONSTANTS Alpha, CellN, RowN, Sep, Eols
VARIABLES t, x, i, mode, cell, row, rows
vars == <<t, x, i, mode, cell, row, rows>>
Cells == [v : SeqsUpTo(Alpha, CellN), q : BOOLEAN]
GoodCells == {c \in Cells : CellOk(c, Sep)}
Names == <<[v |-> <<65>>, q |-> FALSE], [v |-> <<66>>, q |-> TRUE]>>
Tables == {[names |-> Names, rows |-> r, sep |-> Sep, eol |-> e, fin |-> f, bom |-> FALSE, tail |-> n, blank |-> <<>>] :
             r \in UNION {[1..m -> UNION {[1..k -> GoodCells] : k \in 1..2}] : m \in 0..RowN}, e \in Eols, f \in BOOLEAN, n \in 0..1}
Init == /\ t \in {y \in Tables : WellFormed(y, {<<65>>, <<66>>})}
        /\ x = Render(t) /\ i = 1 /\ mode = "start" /\ cell = <<>> /\ row = <<>> /\ rows = <<>>
C == IF i <= Len(x) THEN x[i] ELSE 0
Next1 == IF i + 1 <= Len(x) THEN x[i + 1] ELSE 0
More == i <= Len(x)
KeepT == UNCHANGED <<t, x>>
Open == More /\ mode = "start" /\ C = Q /\ mode' = "quoted" /\ i' = i + 1 /\ UNCHANGED <<cell, row, rows>> /\ KeepT
Pair == More /\ mode = "quoted" /\ C = Q /\ Next1 = Q /\ cell' = Append(cell, Q) /\ i' = i + 2 /\ UNCHANGED <<mode, row, rows>> /\ KeepT
Close == More /\ mode = "quoted" /\ C = Q /\ Next1 # Q /\ mode' = "closed" /\ i' = i + 1 /\ UNCHANGED <<cell, row, rows>> /\ KeepT
Char == /\ More /\ ((mode = "quoted" /\ C # Q) \/ (mode \in {"start", "plain"} /\ C \notin {Q, Sep, 10, 13}))
        /\ cell' = Append(cell, C) /\ i' = i + 1 /\ mode' = (IF mode = "quoted" THEN "quoted" ELSE "plain") /\ UNCHANGED <<row, rows>> /\ KeepT
EndCell == More /\ mode # "quoted" /\ C = Sep /\ row' = Append(row, cell) /\ cell' = <<>> /\ mode' = "start" /\ i' = i + 1 /\ UNCHANGED rows /\ KeepT
Blank == row = <<>> /\ cell = <<>> /\ mode = "start"
Cr == More /\ mode # "quoted" /\ C = 13 /\ i' = i + 1 /\ UNCHANGED <<cell, row, rows, mode>> /\ KeepT
EndRow == /\ ((More /\ mode # "quoted" /\ C = 10) \/ (i = Len(x) + 1)) /\ mode # "done"
          /\ rows' = (IF Blank THEN rows ELSE Append(rows, Append(row, cell))) /\ row' = <<>> /\ cell' = <<>>
          /\ mode' = (IF i > Len(x) THEN "done" ELSE "start") /\ i' = (IF i > Len(x) THEN i ELSE i + 1) /\ KeepT
Next == Open \/ Pair \/ Close \/ Char \/ EndCell \/ Cr \/ EndRow
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
MCEols == {<<10>>, <<13, 10>>}
Texts(cells) == [k \in 1..Len(cells) |-> cells[k].v]
RoundTrip == mode = "done" => rows = <<Texts(t.names)>> \o [j \in 1..Len(t.rows) |-> Texts(t.rows[j])]
Halts == <>(mode = "done")
\* the header-name mapping recovers each value by name whatever the order of the columns
ByName == LET sw == [t EXCEPT !.names = <<@[2], @[1]>>, !.rows = [j \in 1..Len(t.rows) |-> IF Len(t.rows[j]) = 2 THEN <<t.rows[j][2], t.rows[j][1]>> ELSE t.rows[j]]]
          IN \A j \in 1..Len(t.rows) : Len(t.rows[j]) = 2 => \A n \in {<<65>>, <<66>>} :
               t.rows[j][SetMin(Column(t, n))] = sw.rows[j][SetMin(Column(sw, n))]
=====================================================================
