------------------------------ MODULE InitFrom ------------------------------
(* Fields are filled one after the other, each by a search over the members from the first on; a null pointer in the way
   of a value gives up. Checked against InitOps for all small schemas. *)
EXTENDS InitOps
CONSTANTS NS, NT, K
VARIABLES src, tgt, in, k, j, out, st
vars == <<src, tgt, in, k, j, out, st>>
Members == [c : {"v", "p", "u", "s"}, k : K]
FieldsOf == [c : {"v", "r", "p", "s"}, k : K]
Init == /\ src \in UNION {[1..n -> Members] : n \in 1..NS}
        /\ tgt \in UNION {[1..n -> FieldsOf] : n \in 1..NT}
        /\ \A x \in 1..Len(tgt) : Usable(src, tgt[x])
        /\ in \in {f \in [1..Len(src) -> {Null} \cup 1..NS] : \A x \in 1..Len(src) : f[x] \in (IF IsPtr(src[x]) THEN {Null, x} ELSE {x})}
        /\ k = 1 /\ j = 1 /\ out = <<>> /\ st = "run"
Skip == st = "run" /\ k <= Len(tgt) /\ ~Fits(src[j], tgt[k]) /\ j' = j + 1 /\ UNCHANGED <<src, tgt, in, k, out, st>>
Null1 == in[j] = Null
GiveUp == st = "run" /\ k <= Len(tgt) /\ Fits(src[j], tgt[k]) /\ Null1 /\ tgt[k].c \in {"v", "r"} /\ st' = "none" /\ UNCHANGED <<src, tgt, in, k, j, out>>
Put(x) == out' = Append(out, x) /\ k' = k + 1 /\ j' = 1 /\ UNCHANGED <<src, tgt, in, st>>
Fill == /\ st = "run" /\ k <= Len(tgt) /\ Fits(src[j], tgt[k]) /\ ~(Null1 /\ tgt[k].c \in {"v", "r"})
        /\ Put(IF Null1 THEN [val |-> Null, at |-> 0] ELSE [val |-> in[j], at |-> IF tgt[k].c = "v" THEN 0 ELSE j])
Finish == st = "run" /\ k > Len(tgt) /\ st' = "some" /\ UNCHANGED <<src, tgt, in, k, j, out>>
Next == Skip \/ GiveUp \/ Fill \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == /\ st = "some" => Has(src, tgt, in) /\ out = Result(src, tgt, in)
         /\ st = "none" => ~Has(src, tgt, in)
NoCopyOfPointers == st = "some" => \A x \in 1..Len(tgt) : tgt[x].c \in {"p", "s", "r"} /\ out[x].val # Null => out[x].at # 0
Halts == <>(st # "run")
=====================================================================
