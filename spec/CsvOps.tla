---------------------------- MODULE CsvOps ----------------------------
(* CSV tables: how a table is written as text (Render), and what reading that text by column name has to yield.
   Texts are sequences of bytes. A cell is [v: text, q: written with quotes]. A table is
   [names: header cells, rows: sequences of cells, sep, eol, fin: final line end, bom, tail: blank lines at the end,
    blank: set of rows preceded by a blank line]. *)
EXTENDS ArgOps
Q == 34
BOM == <<239, 187, 191>>
RECURSIVE Double(_)
Double(v) == IF v = <<>> THEN <<>> ELSE (IF Head(v) = Q THEN <<Q, Q>> ELSE <<Head(v)>>) \o Double(Tail(v))
CellText(c) == IF c.q THEN <<Q>> \o Double(c.v) \o <<Q>> ELSE c.v
RECURSIVE RowText(_, _)
RowText(cells, sep) == IF Len(cells) = 0 THEN <<>> ELSE IF Len(cells) = 1 THEN CellText(cells[1])
                       ELSE CellText(cells[1]) \o <<sep>> \o RowText(Tail(cells), sep)
RECURSIVE Rep(_, _)
Rep(x, n) == IF n = 0 THEN <<>> ELSE x \o Rep(x, n - 1)
Render(t) ==
  (IF t.bom THEN BOM ELSE <<>>) \o RowText(t.names, t.sep)
  \o Flat([j \in 1..Len(t.rows) |-> t.eol \o (IF j \in RangeOf(t.blank) THEN t.eol ELSE <<>>) \o RowText(t.rows[j], t.sep)])
  \o (IF t.fin THEN t.eol \o Rep(t.eol, t.tail) ELSE <<>>)
\* ---------------------------------------------------------------- well-formed tables
CellOk(c, sep) == /\ RangeOf(c.v) \cap {10, 13} = {}
                  /\ ~c.q => RangeOf(c.v) \cap {sep, Q} = {}
NameOk(c, sep) == CellOk(c, sep) /\ Q \notin RangeOf(c.v)
Stream == {"lines", "each", "xform", "walk", "mmap"}
Column(t, n) == {j \in 1..Len(t.names) : t.names[j].v = n}
WellFormed(t, known) ==
  /\ t.eol \in {<<10>>, <<13, 10>>} /\ t.sep \notin {10, 13, Q}
  /\ Len(t.names) >= 1 /\ \A j \in 1..Len(t.names) : NameOk(t.names[j], t.sep)
  /\ \A n \in known : Cardinality(Column(t, n)) <= 1
  /\ t.names[Len(t.names)] # [v |-> <<>>, q |-> FALSE]
  /\ ~IsPrefixOf(BOM, t.names[1].v)
  /\ \A j \in 1..Len(t.rows) : /\ Len(t.rows[j]) \in 1..Len(t.names)
                               /\ \A k \in 1..Len(t.rows[j]) : CellOk(t.rows[j][k], t.sep)
                               /\ RowText(t.rows[j], t.sep) # <<>>
\* blank lines between rows and the byte order mark are for the streaming interface only
InterfaceOk(t, mode) == mode \in Stream \/ (~t.bom /\ t.blank = <<>> /\ t.tail <= 1)
\* ---------------------------------------------------------------- the records
F(n, ty, def) == [n |-> n, ty |-> ty, def |-> def]
Fields(cfg) == CASE cfg = "k1" -> <<F(<<65>>, "str", <<122, 122>>), F(<<65, 66>>, "int", <<55>>), F(<<66>>, "cstr", <<100, 100>>)>>
                 [] cfg = "k2" -> <<F(<<65>>, "str", <<>>), F(<<65, 66>>, "dbl", <<49, 53, 48, 48>>), F(<<66>>, "bool", <<49>>)>>
                 [] cfg = "k3" -> <<F(<<65>>, "str", <<>>), F(<<65, 66>>, "int", <<48>>), F(<<66>>, "str", <<>>)>>
                 [] cfg = "k5" -> <<F(<<65>>, "flt", Zero), F(<<65, 66>>, "i64", Zero), F(<<66>>, "u32", <<51>>)>>
                 [] cfg = "k4" -> <<F(<<65>>, "cstr", <<>>), F(<<65, 66>>, "cstr", <<>>), F(<<66>>, "cstr", <<>>)>>
Known(cfg) == {Fields(cfg)[j].n : j \in 1..Len(Fields(cfg))}
ZeroOf(ty) == CASE ty \in {"str", "cstr"} -> <<>> [] OTHER -> Zero
RECURSIVE SkipSp(_)
SkipSp(v) == IF v # <<>> /\ Head(v) = 32 THEN SkipSp(Tail(v)) ELSE v
\* a cell of a column of that type whose meaning is specified
Meant(ty, v) == CASE ty = "int" -> LET x == SkipSp(v) IN v = <<>> \/ (IntOk(x, "i32") /\ IntDomain(x, "i32"))
                  [] ty = "dbl" -> LET x == SkipSp(v) IN v = <<>> \/ (FpOk(x) /\ FpDomain(x) /\ Len(FpScan(x).frac) <= 3 /\ Len(FpScan(x).int) <= 5)
                  [] ty = "flt" -> LET x == SkipSp(v) IN v = <<>> \/ (FpOk(x) /\ FpDomain(x) /\ Len(FpScan(x).frac) <= 3 /\ Len(FpScan(x).int) <= 3)
                  [] ty \in {"i64", "u32"} -> LET x == SkipSp(v) IN v = <<>> \/ (IntOk(x, ty) /\ IntDomain(x, ty))
                  [] ty = "bool" -> v = <<>> \/ BoolOk(SkipSp(v))
                  [] OTHER -> TRUE
Conv(ty, c) == CASE ty = "str" -> c.v
                 [] ty = "cstr" -> IF c.q THEN Double(c.v) ELSE c.v      \* a piece of the input: quotes inside stay doubled
                 [] ty = "int" -> IntValue(SkipSp(c.v), "i32", Zero)
                 [] ty \in {"i64", "u32"} -> IntValue(SkipSp(c.v), ty, Zero)
                 [] ty \in {"dbl", "flt"} -> LET s == FpScan(SkipSp(c.v)) IN MilliText([s EXCEPT !.int = <<48>> \o @])
                 [] ty = "bool" -> IF BoolValue(SkipSp(c.v)) THEN <<49>> ELSE <<48>>
FieldOk(t, row, f, stream, got) ==
  LET J == Column(t, f.n)  def == IF stream THEN f.def ELSE ZeroOf(f.ty)
  IN IF J = {} \/ SetMin(J) > Len(row) THEN got = def
     ELSE LET c == row[SetMin(J)] IN
          \/ ~Meant(f.ty, c.v)
          \/ got = Conv(f.ty, c)
          \/ (stream /\ c.v = <<>> /\ got = def)
RowOk(t, row, cfg, stream, got) == Len(got) = Len(Fields(cfg)) /\ \A k \in 1..Len(got) : FieldOk(t, row, Fields(cfg)[k], stream, got[k])
RecordsOk(t, cfg, mode, recs) == Len(recs) = Len(t.rows) /\ \A j \in 1..Len(recs) : RowOk(t, t.rows[j], cfg, mode \in Stream, recs[j])
\* split reads by position and keeps doubled quotes as written
SplitField(f, row, k, got) ==
  IF k > Len(row) THEN got = ZeroOf(f.ty)
  ELSE \/ ~(Meant(f.ty, row[k].v) /\ (f.ty \in {"str", "cstr"} \/ SkipSp(row[k].v) = row[k].v))
       \/ got = Conv(IF f.ty = "str" THEN "cstr" ELSE f.ty, row[k])
SplitOk(row, cfg, recs) == Len(recs) = 1 /\ \A k \in 1..Len(Fields(cfg)) : SplitField(Fields(cfg)[k], row, k, recs[1][k])
MaxColumns == 64
\* ---------------------------------------------------------------- arbitrary bytes
PieceOk(p, n) == p = <<>> \/ (Len(p) = 2 /\ p[1] >= 0 /\ p[2] >= 0 /\ p[1] + p[2] <= n)
=====================================================================
