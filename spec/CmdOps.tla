---------------------------- MODULE CmdOps ----------------------------
(* Command line options. An option is [s: short name, l: long name (<<>>: none), ty, req, def: text of the default,
   desc]. Values are texts (bytes); see ArgOps for numbers. *)
EXTENDS ArgOps
O(s, l, ty, req, def, desc) == [s |-> s, l |-> l, ty |-> ty, req |-> req, def |-> def, desc |-> desc]
Opts(cfg) ==
  CASE cfg = "o1" -> << O(<<45,110>>, <<45,45,110,117,109>>, "int", TRUE, Zero, <<104,111,119,32,109,97,110,121>>),
                        O(<<>>, <<45,45,110,97,109,101>>, "str", FALSE, <<100,101,102>>, <<110,97,109,101,32,111,102,32,105,116>>),
                        O(<<45,118>>, <<>>, "bool", FALSE, <<48>>, <<98,101,32,118,101,114,98,111,115,101>>),
                        O(<<45,100>>, <<45,45,100,105,115,116>>, "dbl", FALSE, <<50,53,48,48>>, <<100,105,115,116,97,110,99,101>>) >>
    [] cfg = "o2" -> << O(<<45,114>>, <<>>, "str", TRUE, <<>>, <<114,111,111,116>>),
                        O(<<>>, <<45,45,114,101,113>>, "i64", TRUE, <<53>>, <<110,101,101,100,101,100>>),
                        O(<<45,98>>, <<45,45,98,111,111,108>>, "bool", TRUE, <<48>>, <<109,117,115,116>>),
                        O(<<>>, <<45,45,111,110>>, "bool", FALSE, <<49>>, <<100,101,102,97,117,108,116,32,111,110>>),
                        O(<<45,99>>, <<45,45,97,95,118,101,114,121,95,108,111,110,103,95,111,112,116,105,111,110,95,110,97,109,101>>, "str", FALSE, <<99,100>>, <<118,105,101,119>>) >>
    [] cfg = "o4" -> << O(<<45,99>>, <<>>, "str", FALSE, <<99,100>>, <<118,105,101,119>>),
                        O(<<45,112>>, <<45,45,112,97,116,104>>, "str", TRUE, <<>>, <<119,104,101,114,101>>) >>
    [] cfg = "o3" -> << O(<<45,97>>, <<45,45,97>>, "int", FALSE, <<49>>, <<102,105,114,115,116>>),
                        O(<<45,97,98>>, <<45,45,97,98>>, "int", FALSE, <<50>>, <<115,101,99,111,110,100>>),
                        O(<<45,65>>, <<45,45,97,98,97>>, "bool", FALSE, <<48>>, <<116,104,105,114,100>>) >>
Names(o) == {o.s, o.l} \ {<<>>}
Uses(a, o) == {j \in 1..Len(a) : a[j] \in Names(o)}
Valued(a, o) == {j \in Uses(a, o) : j < Len(a) /\ a[j + 1] # <<>>}
\* an empty value, or a last use without one after earlier uses with one, is not specified
Clear(a, o) == LET U == Uses(a, o)  V == Valued(a, o) IN
  o.ty = "bool" \/ U = {} \/ ((\A j \in U : j = Len(a) \/ a[j + 1] # <<>>) /\ (V = {} \/ SetMax(U) \in V))
Given(a, o) == IF o.ty = "bool" THEN Uses(a, o) # {} ELSE Valued(a, o) # {}
Raw(a, o) == a[SetMax(Valued(a, o)) + 1]
\* numbers: the text has to be one
Meant(o, v) == CASE o.ty \in {"int", "i64"} -> LET ty == IF o.ty = "int" THEN "i32" ELSE "i64" IN IntOk(v, ty) /\ IntDomain(v, ty)
                 [] o.ty = "dbl" -> FpOk(v) /\ FpDomain(v) /\ Len(FpScan(v).frac) <= 3 /\ FpSmall(FpScan(v))
                 [] OTHER -> TRUE
Value(a, o) == IF ~Given(a, o) THEN o.def
               ELSE CASE o.ty = "bool" -> <<49>>
                      [] o.ty = "int" -> IntValue(Raw(a, o), "i32", Zero)
                      [] o.ty = "i64" -> IntValue(Raw(a, o), "i64", Zero)
                      [] o.ty = "dbl" -> MilliText(FpScan(Raw(a, o)))
                      [] o.ty = "str" -> Raw(a, o)
ValueOk(a, o, got) == ~Clear(a, o) \/ (Given(a, o) /\ o.ty # "bool" /\ ~Meant(o, Raw(a, o))) \/ got = Value(a, o)
Missing(a, opts) == {j \in 1..Len(opts) : opts[j].req /\ ~Given(a, opts[j])}
\* ---------------------------------------------------------------- listings
RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN <<>> ELSE <<32>> \o Spaces(n - 1)
Front(o) == <<32, 32>> \o (IF o.l = <<>> THEN <<>> ELSE Spaces(14 - Len(o.l)) \o o.l \o <<32>>)
            \o (IF o.s = <<>> THEN <<32, 32>> ELSE o.s) \o <<32, 32, 32, 32>> \o (IF o.req THEN <<42>> ELSE <<32>>) \o <<32>>
RECURSIVE Tokens(_, _)
Tokens(x, cur) == IF x = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
                  ELSE IF Head(x) = 32 THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o Tokens(Tail(x), <<>>)
                  ELSE Tokens(Tail(x), Append(cur, Head(x)))
RECURSIVE Lines(_, _)
Lines(x, cur) == IF x = <<>> THEN <<cur>> ELSE IF Head(x) = 10 THEN <<cur>> \o Lines(Tail(x), <<>>) ELSE Lines(Tail(x), Append(cur, Head(x)))
\* options with a long name are laid out in columns; for the others the words and their order are specified
LineOk(o, line, end) == IF o.l # <<>> THEN line = Front(o) \o end ELSE Tokens(line, <<>>) = Tokens(Front(o) \o end, <<>>)
=====================================================================
