--------------------------- MODULE HelperOps ---------------------------
(* What the small helpers declare: checks that throw, dispatch on types, names of enumerators, bits of a mask. *)
EXTENDS DateOps
\* --- checks: a message is a sequence of pieces; an argument piece names the argument printed there
ArgText(a) == CASE a.ty = "i" -> Dec(a.n) [] a.ty = "c" -> <<a.n>> [] a.ty = "b" -> (IF a.n = 1 THEN <<116,114,117,101>> ELSE <<102,97,108,115,101>>)
                [] OTHER -> a.t                                          \* texts, and numbers beyond TLC's integers as their digits
RECURSIVE Render(_, _)
Render(ps, args) == IF ps = <<>> THEN <<>> ELSE (IF Head(ps).k = "lit" THEN Head(ps).t ELSE ArgText(args[Head(ps).n])) \o Render(Tail(ps), args)
Loud == {"verify", "utlv"}
FailLine(r) == Stamp(r.day, r.sec) \o <<32,91,86,69,82,73,70,89,32,70,65,73,76,93,32>> \o Render(r.pieces, r.args) \o <<10>>
Log(r) == IF r.api \in Loud /\ ~r.cond THEN FailLine(r) ELSE <<>>
\* how often each argument expression is evaluated: the macro touches its arguments only when it has to
Evals(r) == IF r.api = "utlv" /\ r.cond THEN 0 ELSE 1
\* --- match: the first handler whose class is the dynamic class or one of its bases
Classes == {"Base", "A", "B", "C", "D", "M"}
Parents(c) == CASE c = "Base" -> {} [] c \in {"A", "B"} -> {"Base"} [] c = "C" -> {"A"} [] c = "D" -> {"C"} [] c = "M" -> {"A", "B"} [] OTHER -> {}
RECURSIVE Up(_)
Up(c) == {c} \cup UNION {Up(p) : p \in Parents(c)}
IsA(c, h) == c # "null" /\ h \in Up(c)
First(dyn, hs) == LET S == {i \in 1..Len(hs) : IsA(dyn, hs[i])} IN IF S = {} THEN 0 ELSE SetMin(S)     \* 0: none fits
\* --- overloaded: the handler of exactly this type
Exact(hs, t) == LET S == {i \in 1..Len(hs) : hs[i] = t} IN IF S = {} THEN 0 ELSE SetMin(S)
\* --- bits
BitsUp(S) == SelectSeq([j \in 1..64 |-> j - 1], LAMBDA b : b \in S)
BitsOf(m, W) == {b \in 0..(W - 1) : (m \div (2 ^ b)) % 2 = 1}
Width(ty) == CASE ty \in {"u8", "i8"} -> 8 [] ty \in {"u16", "i16"} -> 16 [] ty \in {"u32", "i32"} -> 32 [] OTHER -> 64
\* --- enumerators: their declaration list as the preprocessor writes it (names, commas, blanks)
RECURSIVE Listing(_, _)
Listing(names, seps) == IF Len(names) = 1 THEN names[1] ELSE names[1] \o seps[1] \o Listing(Tail(names), Tail(seps))
=====================================================================
