---------------------------- MODULE NumConf ----------------------------
EXTENDS NumOps, Conf
XAccept(r) == NumOK(r.in, r.out.r)
=====================================================================
