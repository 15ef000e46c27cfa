---------------------------- MODULE JoinConf ----------------------------
EXTENDS JoinOps, Conf
JoinAccept(r) == CorrectJoin(r.in.kind, r.in.a, r.in.b, r.out.ev)
=====================================================================
