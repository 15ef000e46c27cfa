------------------------------ MODULE HBConf ------------------------------
(* Recorded memory accesses and synchronisation operations of the real code: no execution has a race. *)
EXTENDS HBOps, Conf
HBAccept(r) == ~Racy(r.out.m, r.in.n)
=====================================================================
