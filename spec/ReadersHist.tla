---------------------------- MODULE ReadersHist ----------------------------
(* Recorded read programs. r.out.res[i]: <<>> (null view) or <<off, len>>; prog[i]: progress reports during the operation;
   rate[i]: 1000 * progress() of a mapped reader *)
EXTENDS ReadersOps, Hist
Walk(r) == r.in.kind \in {"range", "pipe", "file", "stdin"}
GLen(r) == IF Walk(r) THEN 0 ELSE Len(r.in.ops)
GStart(r) == {0}
Mono(s) == \A j \in 1..(Len(s) - 1) : s[j] <= s[j + 1]
GStep(p, i, r) ==
  LET T == r.in.t  o == r.in.ops[i]  q == Step(T, p, o)  g == r.out.res[i]  pr == r.out.prog[i]
      okRes == IF o[1] = "rn" /\ q.piece[2] = 0 THEN g = <<>> \/ g[2] = 0
               ELSE IF o[1] \in {"ln", "rn"} THEN g = q.piece ELSE TRUE
      okProg == IF r.in.kind # "bufp" \/ o[1] # "ln" THEN pr = <<>>
                ELSE /\ (q.piece # <<>> => pr # <<>>)
                     /\ Mono(pr) /\ (pr # <<>> => pr[1] >= p /\ pr[Len(pr)] = q.p)
      okRate == r.in.kind = "mmap" => LET x == (q.p * 1000) \div Len(T) IN r.out.rate[i] \in (x - 1)..(x + 1) /\ (q.p = Len(T) => r.out.rate[i] = 1000)
  IN IF okRes /\ okProg /\ okRate THEN {q.p} ELSE {}
\* whole-input readers: the lines' bytes (files) or positions (ranges)
GEnd(p, r) ==
  IF ~Walk(r) THEN Len(r.out.res) = Len(r.in.ops)
  ELSE LET P == Pieces(r.in.t, 0, 10) IN
       IF r.in.kind \in {"file", "stdin"} THEN r.out.lines = [j \in 1..Len(P) |-> BytesOf(r.in.t, P[j])]
       ELSE r.out.lines = P
=====================================================================
