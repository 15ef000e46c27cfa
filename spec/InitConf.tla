---------------------------- MODULE InitConf ----------------------------
(* r.in: src, tgt, in; r.out: has, fields, same (source untouched) *)
EXTENDS InitOps, Conf
XAccept(r) == /\ \A k \in 1..Len(r.in.tgt) : Usable(r.in.src, r.in.tgt[k])
              /\ r.out.same
              /\ r.out.has = Has(r.in.src, r.in.tgt, r.in.in)
              /\ r.out.has => r.out.fields = Result(r.in.src, r.in.tgt, r.in.in)
=====================================================================
