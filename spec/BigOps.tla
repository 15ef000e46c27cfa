----------------------------- MODULE BigOps -----------------------------
(* Long ranges in closed form. Ranges are given by parameters: Blocks(n, g): n elements, the j-th is j div g (n a multiple
   of g); results are reduced to a few numbers:
   pieces <<how many, smallest, largest, covered, gaps>>, sequences <<length, first, last, ascents, equal neighbours, descents>>.
   Positions beyond 32 bits are <<MiB, rest>> (HugeOps). *)
EXTENDS HugeOps
B(x) == IF x THEN 1 ELSE 0
\* ---- shapes
Seq1(len, first, last, up, eq) == <<len, first, last, up, eq, 0>>
Nothing == <<0, -1, -1, 0, 0, 0>>
\* d different values o, o+1, ..., each g times
Steps(d, g, o) == IF d = 0 THEN Nothing ELSE Seq1(d * g, o, o + d - 1, d - 1, d * (g - 1))
Even(k, len) == IF k = 0 THEN <<0, 0, 0, 0, 0>> ELSE <<k, len, len, k * len, 0>>      \* k pieces of equal length, no gaps
\* ---- C11: keys 0..ka-1 on the left, o + s*t (t < kb) on the right
Common(ka, kb, s, o) == IF o >= ka THEN 0 ELSE Min2(kb, ((ka - 1 - o) \div s) + 1)
JoinOK(i, r) ==
  LET ka == i.n \div i.g  kb == i.m \div i.h  nm == Common(ka, kb, i.s, i.o) IN
  /\ r[1] = nm /\ r[2] = (IF i.k = 0 THEN 0 ELSE ka - nm) /\ r[3] = (IF i.k = 2 THEN kb - nm ELSE 0) /\ r[4] = 0
  /\ IF i.k = 0 THEN r[5][1] = nm /\ (nm > 0 => r[5][2] = i.g /\ r[5][3] = i.g) ELSE r[5] = Even(ka, i.g)
  /\ IF i.k = 2 THEN r[6] = Even(kb, i.h) ELSE r[6][1] = nm /\ (nm > 0 => r[6][2] = i.h /\ r[6][3] = i.h)
\* ---- C12: multiples of g (n of them) against multiples of h (m of them); common ones divisible by s were changed
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a, b) == (a \div Gcd(a, b)) * b
UpTo(top, q) == IF top < 0 THEN 0 ELSE (top \div q) + 1                    \* multiples of q in 0..top
DiffOK(i, r) ==
  LET top == Min2((i.n - 1) * i.g, (i.m - 1) * i.h)
      both == IF i.n = 0 \/ i.m = 0 THEN 0 ELSE UpTo(top, Lcm(i.g, i.h))
      chg == IF i.n = 0 \/ i.m = 0 THEN 0 ELSE UpTo(top, Lcm(Lcm(i.g, i.h), i.s))
  IN r = <<i.m - both, i.n - both, chg, 0, 0>>
\* ---- C13
PowOK(i, r) == LET ka == i.n \div i.g  kb == i.m \div i.h IN r = <<Min2(ka, kb) * i.g * i.h, 0, 0, 0>>
\* ---- C14
GroupOK(i, r) == r[1] = Even(i.n \div i.g, i.g) /\ r[2] = 0
\* ---- C15
InplaceOK(i, r) ==
  LET d == i.n \div i.g  key == i.pos \div i.g IN
  CASE i.op = "erase" -> r = (IF d = 1 THEN Nothing ELSE Seq1(i.n - i.g, IF key = 0 THEN 1 ELSE 0, IF key = d - 1 THEN d - 2 ELSE d - 1, d - 2, (d - 1) * (i.g - 1)))
    [] i.op = "eraseif" -> r = Steps(key, i.g, 0)
    [] i.op = "dup" -> r = Steps(d, 1, 0)
    [] i.op = "insert" -> IF i.k = 0 THEN r = <<i.n, 0, 2 * (i.n - 1), i.n - 1, 0, 0, i.pos, 0>>
                          ELSE r = <<i.n + 1, 0, Max2(2 * (i.n - 1), 2 * i.pos + 1), i.n, 0, 0, i.pos + 1, 1>>
    [] i.op = "concat" -> r = <<i.n + i.m, 0, d - 1 + i.m, d - 1 + i.m, d * (i.g - 1), 0>>
    [] i.op \in {"index", "create"} -> r = Append(Steps(d, i.g, 0), d)
\* ---- C16
BulkOK(i, r) ==
  LET d == i.n \div i.g  key == i.pos \div i.g IN
  CASE i.op = "tovec" -> r = Steps(d, i.g, 0)
    [] i.op = "toset" -> r = Steps(d, 1, 0)
    [] i.op = "rep" -> r = <<i.n, 7, 7, 0, i.n - 1, 0>>
    [] i.op = "sortby" -> r = Append(Steps(d, i.g, 0), 1)
    [] i.op = "scan" -> r = <<key * i.g, key * i.g, i.g, 1, 0, 0>>
    [] i.op = "flaw" -> LET less == i.k < 5 IN
         r = <<0, 0, 0, 0, B(IF less THEN i.pos = 0 ELSE i.pos = i.n - 1),
               (IF less THEN (IF i.pos = 0 THEN 1 ELSE 0) ELSE i.pos),
               (IF less THEN i.pos ELSE (IF i.pos = 0 THEN 1 ELSE 0)), 1>>
    [] i.op = "sort" -> IF i.k < 2 THEN r = Steps(d, i.g, 0) ELSE r = <<key, 0>>
\* ---- C19, C20, C21
ZipOK(i, r) == IF i.op = "zip" THEN r = <<i.n, 0, i.n, i.pos>> ELSE (LET t == B(i.la # i.lb) IN r = <<t, t, t, t>>)
WalkOK(i, r) ==
  CASE i.op = "enum" -> r = <<i.n, i.n, 0, i.n>>
    [] i.op = "far" -> r = <<Add(i.la, <<0, 1>>), Add(i.la, <<0, 1>>), Add(i.la, <<0, 2>>), i.la, 2, Add(i.la, <<0, 2>>), Add(i.la, <<0, 9>>)>>
    [] i.op = "win" -> r = <<i.n - 2, i.n - 1, 0, i.n - 2, i.n - 1, i.n - 3>>
FarOK(i, r) ==
  LET A == i.la  C == i.lb  lt == ~Le(C, A)  gt == ~Le(A, C) IN
  r = <<A, C, Zero, (IF lt THEN Sub(C, A) ELSE Sub(A, C)), B(lt), B(lt), B(gt), B(A = C), A, B(~gt), B(~lt), B(A # C), Zero>>
\* ---- C22: a view of length la, all zero except the marks
MinL(a, b) == IF Le(a, b) THEN a ELSE b
View(p, n) == <<(IF n = Zero THEN Zero ELSE p), n>>       \* an empty view has no place
Cut(i, p, n) == LET f == MinL(p, i.la) IN View(f, MinL(n, Sub(i.la, f)))
FirstMark(i, b) == LET H == {j \in 1..Len(i.marks) : i.marks[j][3] = b} IN IF H = {} THEN i.la ELSE At(i.marks[SetMin(H)])
\* is the view its own suffix from p on? only if p = 0 (the marks say otherwise; lengths differ)
ViewOK(i, r) ==
  LET lo == MinL(i.p, i.q)  hi == IF lo = i.p THEN i.q ELSE i.p  f == MinL(i.p, i.la)  w == View(f, Sub(i.la, f)) IN
  r = <<Cut(i, i.p, i.q), LET a == MinL(lo, i.la) IN View(a, Sub(MinL(hi, i.la), a)), w,
        (IF i.q = <<2047, 1048575>> THEN w ELSE Cut(i, i.p, i.q)),      \* field::MAX_SIZE: the whole rest
        w, w, i.la, i.la, i.la,
        View(Zero, FirstMark(i, i.k)), 1, B(f = Zero), 1, <<Zero, i.la>>,
        B(i.marks = <<>>), B(i.marks # <<>>), B(i.marks = <<>>)>>
\* ---- C23: cut at the marks holding the separator
RECURSIVE Split(_, _, _, _)
Split(i, sep, p, j) == IF j > Len(i.marks) THEN (IF p = i.la THEN <<>> ELSE <<View(p, Sub(i.la, p))>>)
                       ELSE IF i.marks[j][3] # sep THEN Split(i, sep, p, j + 1)
                       ELSE <<View(p, Sub(At(i.marks[j]), p))>> \o Split(i, sep, Add(At(i.marks[j]), <<0, 1>>), j + 1)
TextOK(i, r) ==
  CASE i.op \in {"tok", "tokb", "num"} -> r = Split(i, 44, Zero, 1)
    [] i.op \in {"line", "iter"} -> r = Split(i, 10, Zero, 1)
    [] i.op = "skip" -> LET L == Split(i, 10, Zero, 1)  f == IF i.k >= Len(L) THEN i.la ELSE L[i.k + 1][1] IN r = <<View(f, Sub(i.la, f))>>
    [] i.op = "many" -> r = <<<<i.n, 0, 0>>>>
\* ---- C25, C30
CsvOK(i, r) == r = <<i.n, 0, i.n - 1, i.n - 1, 0, 0, 0, Max2(i.m, i.g - 1)>>
GenOK(i, r) == r = Steps(i.n, 1, 0)
BigOK(i, r) ==
  CASE i.part = 11 -> JoinOK(i, r) [] i.part = 12 -> DiffOK(i, r) [] i.part = 13 -> PowOK(i, r) [] i.part = 14 -> GroupOK(i, r)
    [] i.part = 15 -> InplaceOK(i, r) [] i.part = 16 -> BulkOK(i, r) [] i.part = 19 -> ZipOK(i, r) [] i.part = 20 -> WalkOK(i, r)
    [] i.part = 21 -> FarOK(i, r) [] i.part = 22 -> ViewOK(i, r) [] i.part = 23 -> TextOK(i, r) [] i.part = 25 -> CsvOK(i, r) [] i.part = 30 -> GenOK(i, r)
=====================================================================
