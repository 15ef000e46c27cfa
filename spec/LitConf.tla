---------------------------- MODULE LitConf ----------------------------
(* r.in: fn, lits / ops / types; r.out: texts, sizes, same / obs / clear, fwd *)
EXTENDS LitOps, Conf
LitRec(r) ==
  LET n == Len(r.in.lits) IN
  /\ Len(r.out.texts) = n /\ Len(r.out.same) = n
  /\ \A k \in 1..n : r.out.texts[k] = r.in.lits[k] /\ r.out.same[k] = FirstSame(r.in.lits, k) /\ r.out.zero[k] = 1
NameRec(r) ==
  LET RECURSIVE Go(_, _)
      Go(s, j) == j > Len(r.in.ops) \/ LET q == Rename(s, r.in.ops[j]) IN r.out.obs[j] = q /\ Go(q, j + 1)
  IN Len(r.out.obs) = Len(r.in.ops) /\ Go(r.in.start, 1)
TypeRec(r) == \A k \in 1..Len(r.in.types) : r.out.clear[k] = Clear(r.in.types[k]) /\ r.out.fwd[k] = Forward(r.in.types[k])
XAccept(r) == CASE r.in.fn = "lit" -> LitRec(r) [] r.in.fn = "names" -> NameRec(r) [] r.in.fn = "types" -> TypeRec(r)
=====================================================================
