---------------------------- MODULE ArgOps ----------------------------
(* Reading numbers and truth values from the front of a text (bytes). Integers are decimal digit strings (TLC's own
   integers are too small), so the whole 64 bit range is covered. *)
EXTENDS Seqs
Plus == 43
Minus == 45
Dot == 46
Digit(c) == c \in 48..57
Types == {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"}
Signed(ty) == ty \in {"i8", "i16", "i32", "i64"}
D(n) == [j \in 1..Len(n) |-> n[j] + 48]
MaxDigits(ty) == D(CASE ty = "i8" -> <<1,2,7>> [] ty = "u8" -> <<2,5,5>> [] ty = "i16" -> <<3,2,7,6,7>> [] ty = "u16" -> <<6,5,5,3,5>>
                     [] ty = "i32" -> <<2,1,4,7,4,8,3,6,4,7>> [] ty = "u32" -> <<4,2,9,4,9,6,7,2,9,5>>
                     [] ty = "i64" -> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>> [] ty = "u64" -> <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>)
\* magnitude of the smallest value of a signed type: the largest one plus one (its last digit is 7)
MinDigits(ty) == LET m == MaxDigits(ty) IN [m EXCEPT ![Len(m)] = 56]
RECURSIVE NoZeros(_)
NoZeros(d) == IF Len(d) > 1 /\ Head(d) = 48 THEN NoZeros(Tail(d)) ELSE d
LexLeq(a, b) == LET N == {j \in 1..Len(a) : a[j] # b[j]} IN IF N = {} THEN TRUE ELSE a[SetMin(N)] < b[SetMin(N)]
DigLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLeq(a, b))     \* without leading zeros
Prefix(x) == LET N == {j \in 1..Len(x) : ~Digit(x[j])} IN IF N = {} THEN Len(x) ELSE SetMin(N) - 1
\* [neg, digits (as written), rest (number of unread bytes)]
IntScan(x, signed) ==
  LET neg == signed /\ x # <<>> /\ x[1] = Minus
      k0 == IF neg THEN 1 ELSE 0
      k1 == IF Len(x) > k0 /\ x[k0 + 1] = Plus THEN k0 + 1 ELSE k0
      n == Prefix(Drop(x, k1))
  IN [neg |-> neg, digits |-> SubSeq(x, k1 + 1, k1 + n), rest |-> Len(x) - k1 - n, signs |-> k1]
IntDomain(x, ty) == LET s == IntScan(x, Signed(ty)) IN
  /\ s.signs <= 1
  /\ (s.digits # <<>> => DigLeq(NoZeros(s.digits), IF s.neg THEN MinDigits(ty) ELSE MaxDigits(ty)))
IntText(s) == LET c == NoZeros(s.digits) IN IF s.neg /\ c # <<48>> THEN <<Minus>> \o c ELSE c
IntValue(x, ty, def) == LET s == IntScan(x, Signed(ty)) IN IF s.digits = <<>> THEN def ELSE IntText(s)
IntOk(x, ty) == LET s == IntScan(x, Signed(ty)) IN s.digits # <<>> /\ s.rest = 0
Zero == <<48>>
\* ---------------------------------------------------------------- truth values
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
LowerAll(x) == [j \in 1..Len(x) |-> Lower(x[j])]
True4 == <<116, 114, 117, 101>>
False5 == <<102, 97, 108, 115, 101>>
BoolOk(x) == LowerAll(x) = True4 \/ LowerAll(x) = False5
BoolValue(x) == LowerAll(x) = True4
\* ---------------------------------------------------------------- decimal numbers
\* sign, integer digits, optionally a dot and digits; value in thousandths
FpScan(x) ==
  LET neg == x # <<>> /\ x[1] = Minus
      k == IF x # <<>> /\ x[1] \in {Plus, Minus} THEN 1 ELSE 0
      y == Drop(x, k)
      n == Prefix(y)
      dot == Len(y) > n /\ y[n + 1] = Dot
      m == IF dot THEN Prefix(Drop(y, n + 1)) ELSE 0
  IN [neg |-> neg, int |-> SubSeq(y, 1, n), dot |-> dot, frac |-> IF dot THEN SubSeq(y, n + 2, n + 1 + m) ELSE <<>>,
      rest |-> Len(y) - n - (IF dot THEN 1 + m ELSE 0), sign |-> k]
RECURSIVE Num(_)
Num(d) == IF d = <<>> THEN 0 ELSE Num(SubSeq(d, 1, Len(d) - 1)) * 10 + d[Len(d)] - 48
Pad3(d) == [j \in 1..3 |-> IF j <= Len(d) THEN d[j] ELSE 48]
Milli(s) == Num(s.int) * 1000 + Num(Pad3(s.frac))
MilliText(s) == IntText([neg |-> s.neg, digits |-> s.int \o Pad3(s.frac)])
WholeText(s) == IntText([neg |-> s.neg, digits |-> <<48>> \o s.int])
FpSmall(s) == Len(NoZeros(s.int)) <= 5
FpDomain(x) == LET s == FpScan(x) IN Len(NoZeros(s.int)) <= 15 /\ (s.int # <<>> \/ s.frac # <<>> \/ (s.sign = 0 /\ ~s.dot))
                                     /\ (Len(x) >= 2 => ~(x[1] \in {Plus, Minus} /\ x[2] \in {Plus, Minus}))
FpOk(x) == LET s == FpScan(x) IN (s.int # <<>> \/ s.frac # <<>>) /\ s.rest = 0
\* ---------------------------------------------------------------- lines
SkipLine(x) == LET N == {j \in 1..Len(x) : x[j] = 10} IN IF N = {} THEN 0 ELSE Len(x) - SetMin(N)
=====================================================================
