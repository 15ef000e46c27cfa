---------------------------- MODULE PipesTrace ----------------------------
(* Laziness of a recorded execution: events are
   <<1>> the terminal is about to run, <<2, p>> element p of the source read, <<3, p>> advanced from p to p+1,
   <<4, p>> generator produced its p-th element, <<5, k, v>> the function of stage k called with v,
   <<6, v>> the terminal's function called with v, <<7>> the source container copied or moved as a whole. *)
EXTENDS PipesOps, Conf
W(i) == LET w == Walk(i.a, i.stages, i.term = 4, i.arg) IN
        IF i.term # 15 THEN w
        ELSE LET K == {j \in 1..Len(w) : w[j].ok /\ Cardinality({q \in 1..j : w[q].ok}) = i.arg}
             IN IF K = {} THEN w ELSE SubSeq(w, 1, SetMin(K))    \* the consumer leaves the loop at this element
RECURSIVE LastRead(_, _)
LastRead(e, j) == IF j = 0 THEN 0 ELSE IF e[j][1] \in {2, 4} THEN e[j][2] ELSE LastRead(e, j - 1)
XAccept(r) ==
  LET i == r.in  e == r.out.ev  w == W(i)  b == Len(w)
      stopped == b > 0 /\ (w[b].fin \/ (i.term = 15 /\ Cardinality({j \in 1..b : w[j].ok}) = i.arg))
      marks == {j \in 1..Len(e) : e[j][1] = 1}
      Pos(t) == SelectSeq(e, LAMBDA x : x[1] = t)
  IN /\ marks = {1}                                              \* nothing happened before the terminal
     /\ r.out.src = i.a
     /\ Pos(7) = <<>>
     /\ LET R == Pos(2) IN /\ \A j \in 1..Len(R) : R[j][2] \in 1..b
                           /\ \A j \in 1..(Len(R) - 1) : R[j][2] <= R[j + 1][2]
     /\ LET A == Pos(3) IN /\ \A j \in 1..Len(A) : A[j][2] = j
                           /\ Len(A) <= IF stopped THEN b - 1 ELSE Len(i.a)
     /\ LET G == Pos(4) IN /\ \A j \in 1..Len(G) : G[j][2] = j
                           /\ Len(G) <= b
     /\ \A j \in 1..Len(e) : e[j][1] = 5 =>
           LET p == LastRead(e, j) IN p \in 1..b /\ <<e[j][2], e[j][3]>> \in RangeOf(w[p].calls)
     /\ LET V == Pos(6)  O == Emitted(w) IN
        IF i.term \in {1, 2, 3, 4, 13} THEN [j \in 1..Len(V) |-> V[j][2]] = O
        ELSE IF i.term = 15 THEN [j \in 1..Len(V) |-> V[j][2]] = SubSeq(O, 1, Min2(i.arg, Len(O)))
        ELSE V = <<>>
=====================================================================
