---------------------------- MODULE BigConf ----------------------------
EXTENDS BigOps, Conf
XAccept(r) == "no" \in DOMAIN r.out \/ BigOK(r.in, r.out.r)
=====================================================================
