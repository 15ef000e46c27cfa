---------------------------- MODULE CsvConf ----------------------------
(* r.in: cfg, mode, text, kind ("table" with r.in.tab, "split" with tab of one row, "bytes"); r.out: thr, recs, within, same *)
EXTENDS CsvOps, Conf
Bytes(r) == /\ Len(r.out.recs) <= Cardinality({j \in 1..Len(r.in.text) : r.in.text[j] = 10}) + 1
            /\ r.out.thr => Cardinality({j \in 1..Len(r.in.text) : r.in.text[j] = r.in.sep}) >= MaxColumns
            /\ IF r.in.pieces = 1 THEN \A j \in 1..Len(r.out.recs) : \A k \in 1..3 : PieceOk(r.out.recs[j][k], Len(r.in.text))
               ELSE \A j \in 1..Len(r.out.recs) : \A k \in {k \in 1..3 : Fields(r.in.cfg)[k].ty = "str"} :
                      r.out.recs[j][k] = Fields(r.in.cfg)[k].def \/ RangeOf(r.out.recs[j][k]) \subseteq RangeOf(r.in.text)
Table(r) ==
  LET t == r.in.tab IN
  \/ ~(WellFormed(t, Known(r.in.cfg)) /\ InterfaceOk(t, r.in.mode))
  \/ /\ r.in.text = Render(t)              \* the text given to the code is the table's rendering
     /\ IF Len(t.names) > MaxColumns THEN r.out.thr
        ELSE ~r.out.thr /\ RecordsOk(t, r.in.cfg, r.in.mode, r.out.recs)
Split(r) ==
  LET t == r.in.tab IN
  \/ ~(\A k \in 1..Len(t.rows[1]) : CellOk(t.rows[1][k], t.sep))
  \/ /\ r.in.text = RowText(t.rows[1], t.sep)
     /\ ~r.out.thr /\ SplitOk(t.rows[1], r.in.cfg, r.out.recs)
XAccept(r) == /\ r.out.within /\ r.out.same
              /\ CASE r.in.kind = "table" -> Table(r)
                   [] r.in.kind = "split" -> Split(r)
                   [] r.in.kind = "bytes" -> Bytes(r)
=====================================================================
