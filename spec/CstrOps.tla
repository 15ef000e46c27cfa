---------------------------- MODULE CstrOps ----------------------------
(* String views: a view is a window <<off, len>> into a text T (bytes). off = -1: the null view (empty).
   Every operation is defined on the viewed bytes. Result descriptors:
     [k |-> "v", off, len]  a view of T; an empty result may sit anywhere inside the operand
     [k |-> "i", x]         a number / truth value
     [k |-> "s", x]         bytes *)
EXTENDS Seqs
NPos == 0 - 1          \* SIZE_MAX as an argument
Near == 0 - 2          \* SIZE_MAX - 1
IMax == 0 - 3          \* field::MAX_SIZE
Big == 1000000
Arg(a) == IF a < 0 THEN Big ELSE a
Viewed(T, v) == IF v[2] = 0 THEN <<>> ELSE SubSeq(T, v[1] + 1, v[1] + v[2])
B(x) == IF x THEN 1 ELSE 0
V(v, b, n) == [k |-> "v", off |-> (IF v[1] < 0 THEN v[1] ELSE v[1] + b), len |-> n]
I(x) == [k |-> "i", x |-> x]
SB(x) == [k |-> "s", x |-> x]
Space(c) == c = 32 \/ c = 10
Front(x) == LET N == {j \in 1..Len(x) : ~Space(x[j])} IN IF N = {} THEN Len(x) ELSE SetMin(N) - 1
Back(x) == LET N == {j \in 1..Len(x) : ~Space(x[j])} IN IF N = {} THEN 0 ELSE SetMax(N)
Until(x, c) == LET N == {j \in 1..Len(x) : x[j] = c} IN IF N = {} THEN Len(x) ELSE SetMin(N) - 1
NoCr(x, n) == IF n > 0 /\ x[n] = 13 THEN n - 1 ELSE n       \* length of the first n bytes of x without one trailing CR
StartsAt(x, y, p) == p + Len(y) <= Len(x) /\ \A j \in 1..Len(y) : x[p + j] = y[j]
FindAll(x, y) == {p \in 0..Len(x) : StartsAt(x, y, p)}
Less(x, y) == LET D == {j \in 1..Min2(Len(x), Len(y)) : x[j] # y[j]} IN IF D = {} THEN Len(x) < Len(y) ELSE x[SetMin(D)] < y[SetMin(D)]
Range2(v, b, e) == LET bb == Min2(Arg(b), v[2])  ee == Max2(bb, Min2(Arg(e), v[2])) IN V(v, bb, ee - bb)
RangeN(v, p, n) == LET bb == Min2(Arg(p), v[2]) IN V(v, bb, Min2(Arg(n), v[2] - bb))
Valid(T, v, o) ==
  CASE o[1] \in {"inc"} -> v[2] > 0
    [] o[1] \in {"padd", "plus"} -> o[3] <= v[2]
    [] o[1] = "at" -> o[3] < v[2]
    [] o[1] = "soff" -> ~(o[3] = <<>> /\ v[2] = 0)
    [] OTHER -> TRUE
Result(T, v, o) ==
  LET x == Viewed(T, v) IN
  CASE o[1] = "inc" -> V(v, 1, v[2] - 1)
    [] o[1] \in {"padd", "plus"} -> V(v, o[3], v[2] - o[3])
    [] o[1] = "sub2" -> Range2(v, o[3], o[4])
    [] o[1] = "subs" -> RangeN(v, o[3], o[4])
    [] o[1] = "sub1" -> Range2(v, o[3], NPos)
    [] o[1] = "subf" -> (IF o[4] = IMax THEN Range2(v, o[3], NPos) ELSE RangeN(v, o[3], o[4]))
    [] o[1] = "trf" -> V(v, Front(x), v[2] - Front(x))
    [] o[1] = "trb" -> V(v, 0, Back(x))
    [] o[1] = "trim" -> (IF Back(x) = 0 THEN V(v, 0, 0) ELSE V(v, Front(x), Back(x) - Front(x)))
    [] o[1] = "cr" -> V(v, 0, NoCr(x, Len(x)))
    [] o[1] = "until" -> V(v, 0, Until(x, o[3]))
    [] o[1] = "line" -> V(v, 0, NoCr(x, Until(x, 10)))
    [] o[1] = "copy" -> V(v, 0, v[2])
    [] o[1] = "at" -> I(x[o[3] + 1])
    [] o[1] = "len" -> I(v[2])
    [] o[1] = "empty" -> I(B(v[2] = 0))
    [] o[1] = "valid" -> I(B(v[2] # 0))
    [] o[1] = "has" -> I(B(FindAll(x, o[3]) # {}))
    [] o[1] = "starts" -> I(B(StartsAt(x, o[3], 0)))
    [] o[1] = "soff" -> I(IF FindAll(x, o[3]) = {} THEN NPos ELSE SetMin(FindAll(x, o[3])))
    [] o[1] = "eq" -> I(B(x = o[3]))
    [] o[1] = "ne" -> I(B(x # o[3]))
    [] o[1] = "lt" -> I(B(Less(x, o[3])))
    [] o[1] = "gt" -> I(B(Less(o[3], x)))
    [] o[1] \in {"str", "bytes", "sv", "rev"} -> SB(x)
    [] o[1] = "space" -> I(B(Space(o[3])))
\* does an observed result agree?
Agrees(v, want, got) ==
  CASE want.k = "v" -> /\ got[1] = "v" /\ got[3] = want.len
                       /\ (IF want.len > 0 THEN got[2] = want.off
                           ELSE IF v[1] < 0 THEN got[2] = v[1] ELSE got[2] \in v[1]..(v[1] + v[2]))
    [] want.k = "i" -> got = <<"i", want.x>>
    [] want.k = "s" -> got = <<"s", want.x>>
\* ---------------------------------------------------------------- pieces of a text
RECURSIVE Pieces(_, _, _)
Pieces(T, p, c) == IF p >= Len(T) THEN <<>>
                   ELSE LET n == Until(SubSeq(T, p + 1, Len(T)), c) IN <<<<p, n>>>> \o Pieces(T, p + n + 1, c)
Stripped(T, q) == <<q[1], NoCr(SubSeq(T, q[1] + 1, q[1] + q[2]), q[2])>>
Lines(T) == LET P == Pieces(T, 0, 10) IN [j \in 1..Len(P) |-> Stripped(T, P[j])]
BytesOf(T, q) == SubSeq(T, q[1] + 1, q[1] + q[2])
\* first piece whose predicate value is false; mask = what the predicate says about each line
SkipTo(T, M) == LET P == Pieces(T, 0, 10)  K == {j \in 1..Len(P) : ~M[j]} IN IF K = {} THEN Len(T) ELSE P[SetMin(K)][1]
=====================================================================
