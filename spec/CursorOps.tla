---------------------------- MODULE CursorOps ----------------------------
(* Iterators denote positions. A program works on registers holding iterators over one sequence (given as a list of
   component columns of equal length); every operation has its meaning on positions.
   kind: "zip" (element = tuple of components), "enum" (element = <<index, component>>), "fac" (element = component),
   "win" (element = window of s.w adjacent components) *)
EXTENDS Seqs
Cells(s) == IF Len(s.d[1]) < s.w - 1 THEN 0 ELSE Len(s.d[1]) - s.w + 1
Elem(kind, s, p) == IF kind = "win" THEN SubSeq(s.d[1], p + 1, p + s.w) ELSE IF kind = "enum" THEN <<p, s.d[1][p + 1]>> ELSE [k \in 1..Len(s.d) |-> s.d[k][p + 1]]
B(x) == IF x THEN 1 ELSE 0
R2(s, ret) == [s |-> s, ret |-> ret]
Jump(s, r, p) == [s EXCEPT !.pos[r] = p]
\* does the operation stay inside its domain?
Valid(s, o) ==
  LET n == Cells(s)  p == s.pos[o[2]] IN
  CASE o[1] \in {"inc", "pinc", "get", "arr", "vinc"} -> p < n
    [] o[1] \in {"dec", "pdec"} -> p > 0
    [] o[1] \in {"add", "plus", "kplus", "uadd"} -> p + o[3] \in 0..n
    [] o[1] \in {"sub", "minus", "usub"} -> p - o[3] \in 0..n
    [] o[1] = "at" -> p + o[3] \in 0..(n - 1)
    [] o[1] = "set" -> p < n
    [] OTHER -> TRUE
Step(kind, s, o) ==
  LET r == o[2]  p == s.pos[r] IN
  CASE o[1] \in {"inc", "vinc"} -> R2(Jump(s, r, p + 1), <<>>)
    [] o[1] = "dec" -> R2(Jump(s, r, p - 1), <<>>)
    [] o[1] = "pinc" -> R2([s EXCEPT !.pos = [[@ EXCEPT ![r] = p + 1] EXCEPT ![o[3]] = p]], <<>>)     \* q := r++
    [] o[1] = "pdec" -> R2([s EXCEPT !.pos = [[@ EXCEPT ![r] = p - 1] EXCEPT ![o[3]] = p]], <<>>)     \* q := r--
    [] o[1] \in {"add", "uadd"} -> R2(Jump(s, r, p + o[3]), <<>>)
    [] o[1] \in {"sub", "usub"} -> R2(Jump(s, r, p - o[3]), <<>>)
    [] o[1] \in {"plus", "kplus"} -> R2(Jump(s, o[4], p + o[3]), <<>>)
    [] o[1] = "minus" -> R2(Jump(s, o[4], p - o[3]), <<>>)
    [] o[1] \in {"get", "arr"} -> R2(s, Elem(kind, s, p))
    [] o[1] = "at" -> R2(s, Elem(kind, s, p + o[3]))
    [] o[1] = "diff" -> R2(s, <<p - s.pos[o[3]]>>)
    [] o[1] = "eq" -> R2(s, <<B(p = s.pos[o[3]])>>)
    [] o[1] = "ne" -> R2(s, <<B(p # s.pos[o[3]])>>)
    [] o[1] = "lt" -> R2(s, <<B(p < s.pos[o[3]])>>)
    [] o[1] = "le" -> R2(s, <<B(p <= s.pos[o[3]])>>)
    [] o[1] = "gt" -> R2(s, <<B(p > s.pos[o[3]])>>)
    [] o[1] = "ge" -> R2(s, <<B(p >= s.pos[o[3]])>>)
    [] o[1] = "atend" -> (LET e == B(p = Cells(s)) IN R2(s, <<e, e, 1 - e, 1 - e>>))
    [] o[1] = "sdiff" -> R2(s, <<Cells(s) - p>>)
    [] o[1] = "set" -> R2(IF kind = "win" THEN [s EXCEPT !.d[1][p + o[3]] = o[4]] ELSE [s EXCEPT !.d[o[3]][p + 1] = o[4]], <<>>)
    [] o[1] = "copy" -> R2(Jump(s, o[3], p), <<>>)
StartW(d, init, w) == [d |-> d, pos |-> init, w |-> w]
Start(d, init) == StartW(d, init, 1)
\* all operations over two registers for a set of capabilities
AllOps(C, n, K) ==
     ({<<c, r>> : c \in C \cap {"inc", "dec", "get", "arr", "atend", "sdiff", "vinc"}, r \in 1..2})
  \cup ({<<c, r, q>> : c \in C \cap {"pinc", "pdec", "diff", "eq", "ne", "lt", "le", "gt", "ge", "copy"}, r \in 1..2, q \in 1..2})
  \cup ({<<c, r, k>> : c \in C \cap {"add", "sub", "at"}, r \in 1..2, k \in (0 - n)..n})
  \cup ({<<c, r, k>> : c \in C \cap {"uadd", "usub"}, r \in 1..2, k \in 0..n})
  \cup ({<<c, r, k, q>> : c \in C \cap {"plus", "kplus", "minus"}, r \in 1..2, k \in (0 - n)..n, q \in 1..2})
  \cup (IF "set" \in C THEN {<<"set", r, k, 77>> : r \in 1..2, k \in K} ELSE {})
\* valid programs of length l: <<program, state>>
RECURSIVE Programs(_, _, _, _, _, _, _)
Programs(kind, d, init, C, K, w, l) ==
  IF l = 0 THEN {<<<<>>, StartW(d, init, w)>>}
  ELSE UNION {{<<Append(b[1], o), Step(kind, b[2], o).s>> : o \in {x \in AllOps(C, Cells(b[2]), K) : Valid(b[2], x)}} : b \in Programs(kind, d, init, C, K, w, l - 1)}
=====================================================================
