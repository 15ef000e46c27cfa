------------------------------ MODULE Registry ------------------------------
(* All histories of the registry, bounded. *)
EXTENDS RegistryOps
CONSTANTS OpSet, MaxTrk, MaxScopes
VARIABLES s, last, ret, out
rvars == <<s, last, ret, out>>
RInit == s = RNew /\ last = <<"none">> /\ ret = 0 /\ out = <<>>
RNext == \E o \in OpSet : /\ Possible(s, o)
                          /\ \E r \in ROp(s, o) : s' = r.s /\ ret' = r.ret /\ out' = r.out /\ last' = o
                          /\ (\A k \in 1..Len(s'.trk) : s'.trk[k].in <= 40 /\ (s'.trk[k].in < 40 => s'.trk[k].in <= 7))
                          /\ Len(s'.trk) <= MaxTrk /\ Len(s'.scopes) <= MaxScopes
RSpec == RInit /\ [][RNext]_rvars
Distinct == \A n, m \in Names : n # m /\ s.reg[n] # 0 => s.reg[n] # s.reg[m]
Known == \A n \in Names : s.reg[n] \in 0..Len(s.trk)
ActiveKnown == s.active \in 0..Len(s.trk)
\* a frame has one line per registered tracker and goes up by the lines of the frame before
Lines == Len(SelectSeq(out, LAMBDA b : b = 10))
OneLineEach == out # <<>> => Lines = Len(Shown(s)) /\ s.height = Lines
SilentNothing == last[1] # "begin" /\ last[1] # "end" /\ s.silent = 1 => out = <<>>
PrintPrints == last[1] = "print" /\ s.silent = 0 /\ Shown(s) # <<>> => out # <<>>
LastActivated == last[1] \in {"act", "actp", "goa"} => s.active = ret /\ ret # 0
GetStable == last[1] = "get" => s.reg[last[2]] = ret
ClearedForgets == last[1] \in {"clear", "end"} => s.active = 0 /\ Shown(s) = <<>> /\ s.height = 0
Ops1 == {<<"get", 2>>, <<"get", 3>>, <<"act", 2>>, <<"act", 4>>, <<"actp", 1>>, <<"getact">>, <<"goa", 3>>, <<"u", 1, 40>>, <<"i", 2, 7>>,
         <<"status", 1, 2>>, <<"show", 1, 0>>, <<"show", 2, 0>>, <<"bounds", 1, 80, 400>>, <<"print">>, <<"clear">>, <<"begin", 0>>, <<"begin", 1>>, <<"end">>}
\* one step of a property that survives: the same name gives the same tracker until it is cleared
Stable == [][last'[1] \notin {"clear", "end"} => \A n \in Names : s.reg[n] # 0 => s'.reg[n] = s.reg[n]]_rvars
=====================================================================
