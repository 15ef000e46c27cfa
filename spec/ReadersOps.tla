---------------------------- MODULE ReadersOps ----------------------------
(* A reader is a position in a text. ln: the next line (up to and without the newline) or the end; rn: the next bytes. *)
EXTENDS CstrOps
Start == 0
\* result of an operation at position p: [p |-> new position, line |-> <<off, len>> or <<>> for the end]
Step(T, p, o) ==
  CASE o[1] = "ln" -> (IF p = Len(T) THEN [p |-> p, piece |-> <<>>]
                       ELSE LET n == Until(SubSeq(T, p + 1, Len(T)), 10) IN [p |-> Min2(Len(T), p + n + 1), piece |-> <<p, n>>])
    [] o[1] = "rn" -> (LET n == Min2(Arg(o[2]), Len(T) - p) IN [p |-> p + n, piece |-> <<p, n>>])
    [] OTHER -> [p |-> p, piece |-> <<>>]
=====================================================================
