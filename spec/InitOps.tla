---------------------------- MODULE InitOps ----------------------------
(* init_from: a source is a list of members [c, k]: c = "v" value, "p" raw, "u" unique, "s" shared pointer; k: the value
   type. A target is a list of fields [c, k]: "v" own value, "r" reference, "p" raw pointer, "s" shared pointer.
   in: the members' values, -1: null pointer. *)
EXTENDS Seqs
Null == 0 - 1
IsPtr(m) == m.c \in {"p", "u", "s"}
Fits(m, f) == m.k = f.k /\ (f.c \in {"v", "r"} \/ IsPtr(m))
Cand(src, f) == {j \in 1..Len(src) : Fits(src[j], f)}
First(src, f) == SetMin(Cand(src, f))
Usable(src, f) == Cand(src, f) # {} /\ (f.c = "s" => src[First(src, f)].c = "s")
\* a value or reference needs something to refer to; a pointer field may be null
Needs(src, in, f) == f.c \in {"v", "r"} /\ IsPtr(src[First(src, f)]) /\ in[First(src, f)] = Null
Has(src, tgt, in) == \A k \in 1..Len(tgt) : ~Needs(src, in, tgt[k])
Field(src, in, f) == LET j == First(src, f) IN
  IF f.c = "v" THEN [val |-> in[j], at |-> 0]
  ELSE IF in[j] = Null THEN [val |-> Null, at |-> 0] ELSE [val |-> in[j], at |-> j]
Result(src, tgt, in) == IF Has(src, tgt, in) THEN [k \in 1..Len(tgt) |-> Field(src, in, tgt[k])] ELSE <<>>
=====================================================================
