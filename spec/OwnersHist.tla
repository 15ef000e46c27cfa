---------------------------- MODULE OwnersHist ----------------------------
(* Recorded histories of the real owner types.
   observation per operation: acts (released / executed resources, in order), live (resources alive in the system),
   fds (extra descriptors), closed (descriptors closed: file number, -1 not open, -2 somebody else's), sz (sizes), ret, view (contents per slot that owns, <<-1>> otherwise) *)
EXTENDS OwnersOps, Hist
GLen(r) == Len(r.in.ops)
GStart(r) == {Own0(r.in.ns)}
Executed(s, rel) == SelectSeq(rel, LAMBDA k : k \in s.armed)
Asc(S) == LET RECURSIVE A(_) A(Q) == IF Q = {} THEN <<>> ELSE <<SetMin(Q)>> \o A(Q \ {SetMin(Q)}) IN A(S)
GStep(s, i, r) ==
  LET o == r.in.ops[i]  x == r.out.obs[i]  ty == r.in.ty
      q == Step(ty, s, o)
      own == Owned(q.s)
      big == {k \in own : q.s.dat[k] # <<>>}
      okLive == CASE ty = "buffer" -> x.live \in Cardinality(big)..Cardinality(own)
                  [] ty \in {"file", "mfile"} -> x.live = Asc(own)
                  [] ty \in {"mmap", "mmem"} -> x.live = Asc(own) /\ RangeOf(x.fds) \subseteq own /\ Len(x.fds) = Cardinality(RangeOf(x.fds))
                  [] ty = "gen" -> x.live = Asc(own)
                  [] OTHER -> x.live = <<>>
      okActs == CASE ty = "gen" -> x.acts = q.rel
                  [] ty = "fin" -> x.acts = Executed(s, q.rel)
                  [] ty = "raii" -> x.acts = (IF Executed(s, q.rel) = <<>> THEN <<>> ELSE <<q.rel[1], s.dat[q.rel[1]][1]>>)
                  [] OTHER -> x.acts = <<>>
      okView == \A j \in 1..r.in.ns :
                  IF ty \in {"buffer", "raii"} /\ q.s.id[j] # 0 THEN x.view[j] = q.s.dat[q.s.id[j]]
                  ELSE IF ty = "buffer" /\ q.s.obj[j] /\ o[1] = "mk" /\ o[2] = j THEN x.view[j] = <<>>
                  ELSE TRUE
      okSize == \A j \in 1..r.in.ns : (ty = "buffer" /\ q.s.obj[j]) => x.sz[j] = (IF q.s.id[j] = 0 THEN 0 ELSE Len(q.s.dat[q.s.id[j]]))
      \* only descriptors of resources released or opened by this operation are closed; a descriptor not needed after mapping may be closed early
      failed == o[1] = "mk" /\ q.ret = <<1>>
      okClosed == \A k \in RangeOf(x.closed) : k \in RangeOf(q.rel) \/ (o[1] = "mk" /\ (k = s.n + 1 \/ (failed /\ k = 99)))
  IN IF okSize /\ okClosed /\ okLive /\ okActs /\ okView /\ x.ret = q.ret THEN {q.s} ELSE {}
GEnd(s, r) == Owned(s) = {}
=====================================================================
