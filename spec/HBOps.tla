------------------------------ MODULE HBOps ------------------------------
(* The C++ happens-before relation as a vector clock machine over recorded executions.
   An event is <<kind, thread, object, memory order>>:
     0 read  1 write (plain)   2 load  3 store  4 read-modify-write (atomic)
     5 lock  6 unlock          7 fork  8 start  9 end  10 join (object = thread)
     11 fence                  12 shared lock  13 shared unlock
   memory orders: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst.
   A data race is a pair of accesses to one cell by different threads, at least one of them a write,
   at least one of them not atomic, neither happening before the other.                           *)
EXTENDS Integers, Sequences, SequencesExt, TLC
RD == 0  WR == 1  AL == 2  AS == 3  AM == 4  LK == 5  UL == 6  FK == 7  ST == 8  EN == 9  JN == 10  FE == 11  RL == 12  RU == 13
Acq(mo) == mo \in {1, 2, 4, 5}
Rel(mo) == mo \in {3, 4, 5}
Zero(n) == [u \in 0..(n - 1) |-> 0]
VJoin(a, b) == [u \in DOMAIN a |-> IF a[u] >= b[u] THEN a[u] ELSE b[u]]
Get(m, k, n) == IF k \in DOMAIN m THEN m[k] ELSE Zero(n)
Put(m, k, v) == IF k \in DOMAIN m THEN [m EXCEPT ![k] = v] ELSE (k :> v) @@ m
Cell0(n) == [w |-> Zero(n), r |-> Zero(n), aw |-> Zero(n), ar |-> Zero(n)]
HBStart(n) == [n |-> n, V |-> [t \in 0..(n - 1) |-> [u \in 0..(n - 1) |-> IF u = t THEN 1 ELSE 0]],
               FR |-> [t \in 0..(n - 1) |-> Zero(n)], FA |-> [t \in 0..(n - 1) |-> Zero(n)],
               S |-> [t \in 0..(n - 1) |-> Zero(n)], E |-> [t \in 0..(n - 1) |-> Zero(n)],
               L |-> <<>>, X |-> <<>>, C |-> <<>>, race |-> FALSE]
Unordered(c, v, t) == \E u \in DOMAIN c : u # t /\ c[u] > v[u]
Access(s, e) ==
  LET k == e[1]  t == e[2]  x == e[3]  n == s.n
      c == IF x \in DOMAIN s.C THEN s.C[x] ELSE Cell0(n)
      v == s.V[t]
      wr == k \in {WR, AS, AM}   at == k >= AL
      bad == \/ Unordered(c.w, v, t)
             \/ wr /\ Unordered(c.r, v, t)
             \/ ~at /\ Unordered(c.aw, v, t)
             \/ ~at /\ wr /\ Unordered(c.ar, v, t)
      c2 == IF at THEN IF wr THEN [c EXCEPT !.aw[t] = v[t]] ELSE [c EXCEPT !.ar[t] = v[t]]
            ELSE IF wr THEN [c EXCEPT !.w[t] = v[t]] ELSE [c EXCEPT !.r[t] = v[t]]
  IN [s EXCEPT !.race = @ \/ bad, !.C = Put(@, x, c2)]
Tick(s, t) == [s EXCEPT !.V[t][t] = @ + 1]
\* the acquire half of an atomic operation comes before the access, the release half after it
AtomicAcquire(s, e) ==
  LET k == e[1]  t == e[2]  x == e[3]  mo == e[4]  n == s.n IN
  IF k \in {AL, AM}
  THEN IF Acq(mo) THEN [s EXCEPT !.V[t] = VJoin(@, Get(s.X, x, n))] ELSE [s EXCEPT !.FA[t] = VJoin(@, Get(s.X, x, n))]
  ELSE s
Sync(s, e) ==
  LET k == e[1]  t == e[2]  x == e[3]  mo == e[4]  n == s.n IN
  CASE k = AS -> LET s1 == [s EXCEPT !.X = Put(@, x, IF Rel(mo) THEN s.V[t] ELSE s.FR[t])] IN IF Rel(mo) THEN Tick(s1, t) ELSE s1
    [] k = AM -> LET s1 == [s EXCEPT !.X = Put(@, x, VJoin(Get(s.X, x, n), IF Rel(mo) THEN s.V[t] ELSE s.FR[t]))] IN IF Rel(mo) THEN Tick(s1, t) ELSE s1
    [] k \in {LK, RL} -> [s EXCEPT !.V[t] = VJoin(@, Get(s.L, x, n))]
    [] k \in {UL, RU} -> Tick([s EXCEPT !.L = Put(@, x, VJoin(Get(s.L, x, n), s.V[t]))], t)
    [] k = FK -> Tick([s EXCEPT !.S[x] = VJoin(@, s.V[t])], t)
    [] k = ST -> [s EXCEPT !.V[t] = VJoin(@, s.S[t])]
    [] k = EN -> Tick([s EXCEPT !.E[t] = VJoin(@, s.V[t])], t)
    [] k = JN -> [s EXCEPT !.V[t] = VJoin(@, s.E[x])]
    [] k = FE -> LET s1 == IF Acq(mo) THEN [s EXCEPT !.V[t] = VJoin(@, s.FA[t])] ELSE s IN
                 IF Rel(mo) THEN Tick([s1 EXCEPT !.FR[t] = s1.V[t]], t) ELSE s1
    [] OTHER -> s
HBNext(s, e) == Sync(IF e[1] <= AM THEN Access(AtomicAcquire(s, e), e) ELSE s, e)
Racy(tr, n) == FoldLeft(HBNext, HBStart(n), tr).race
=====================================================================
