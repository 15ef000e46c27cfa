---------------------------- MODULE HugeConf ----------------------------
EXTENDS HugeOps, Conf
XAccept(r) == r.out.no \/ HugeOK(r.in, r.out.r)
=====================================================================
