---------------------------- MODULE ArgConf ----------------------------
(* r.in: fn, api, ty, t, def; r.out: val (text of the value), ok, rest (unread bytes), thr *)
EXTENDS ArgOps, Conf
InDom(r) == CASE r.in.fn = "int" -> IntDomain(r.in.t, r.in.ty)
              [] r.in.fn = "fp" -> FpDomain(r.in.t)
              [] OTHER -> TRUE
IntRec(r) ==
  LET def == IF r.in.api \in {"argd", "parsed"} THEN r.in.def ELSE Zero
      v == IntValue(r.in.t, r.in.ty, def)
  IN CASE r.in.api \in {"arg", "argd"} -> r.out.val = v /\ r.out.ok = IntOk(r.in.t, r.in.ty) /\ r.out.rest = IntScan(r.in.t, Signed(r.in.ty)).rest
       [] r.in.api = "shift" -> r.out.val = v /\ r.out.rest = IntScan(r.in.t, Signed(r.in.ty)).rest
       [] r.in.api \in {"parse", "parsed"} -> r.out.val = v
       [] r.in.api = "verify" -> r.out.thr = ~IntOk(r.in.t, r.in.ty) /\ (IntOk(r.in.t, r.in.ty) => r.out.val = v)
BoolRec(r) ==
  LET ok == BoolOk(r.in.t)  def == r.in.api \in {"argd", "parsed"} /\ r.in.def = 1  v == r.out.val = 1
      okVal == IF ok THEN v = BoolValue(r.in.t)
               ELSE v = def \/ (r.in.t # <<>> /\ Lower(r.in.t[1]) \in {116, 102})      \* garbled words: value not specified
  IN CASE r.in.api \in {"arg", "argd"} -> okVal /\ r.out.ok = ok /\ (ok => r.out.rest = 0) /\ r.out.rest \in 0..Len(r.in.t)
       [] r.in.api = "shift" -> okVal /\ (ok => r.out.rest = 0) /\ r.out.rest \in 0..Len(r.in.t)
       [] r.in.api \in {"parse", "parsed"} -> okVal
       [] r.in.api = "verify" -> r.out.thr = ~ok /\ (ok => v = BoolValue(r.in.t))
FpRec(r) ==
  LET s == FpScan(r.in.t)  ok == FpOk(r.in.t)
      want == IF s.neg THEN 0 - Milli(s) ELSE Milli(s)
      dbl == r.in.ty = "double"
      okVal == /\ FpSmall(s) => (IF Len(s.frac) <= 3 /\ dbl THEN r.out.m = want ELSE r.out.m \in (want - 1)..(want + 1))
               /\ Len(s.frac) <= 3 /\ dbl /\ Len(NoZeros(s.int)) <= 12 => r.out.milli = MilliText(s)
               /\ s.frac = <<>> /\ (dbl \/ Len(NoZeros(s.int)) <= 7) => r.out.whole = WholeText(s)
               /\ r.out.ulp <= 32
  IN CASE r.in.api = "arg" -> okVal /\ r.out.ok = ok /\ r.out.rest = s.rest
       [] r.in.api = "shift" -> okVal /\ r.out.rest = s.rest
       [] r.in.api = "parse" -> okVal
       [] r.in.api = "verify" -> r.out.thr = ~ok /\ (ok => okVal)
StrRec(r) == r.out.val = r.in.t /\ r.out.rest = Len(r.in.t)
\* a , b read by  s >> a >> expect_char<','>{} >> b
ChainRec(r) ==
  LET a == IntScan(r.in.t, TRUE)  x == Drop(r.in.t, Len(r.in.t) - a.rest + 1)  b == IntScan(x, FALSE)
  IN r.out.a = IntValue(r.in.t, "i32", Zero) /\ r.out.b = IntValue(x, "u32", Zero) /\ r.out.rest = b.rest
Named(r) == (r.in.fn \in {"int", "bool", "fp"} /\ r.in.api = "verify" /\ r.out.thr) => r.out.named
XAccept(r) == InDom(r) => Named(r) /\ CASE r.in.fn = "int" -> IntRec(r)
                            [] r.in.fn = "bool" -> BoolRec(r)
                            [] r.in.fn = "fp" -> FpRec(r)
                            [] r.in.fn = "str" -> StrRec(r)
                            [] r.in.fn = "skip" -> r.out.rest = SkipLine(r.in.t)
                            [] r.in.fn = "chain" -> ChainRec(r)
=====================================================================
