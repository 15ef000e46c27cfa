---------------------------- MODULE FileOps ----------------------------
(* Files and handles. Contents are runs <<byte, count>> (normalised: counts positive, neighbours differ), so files of
   millions of bytes stay small. Disk: sequence of contents, "none": no such file. A handle is [f: file, mode, clean]:
   clean as long as nothing was read or measured through it (writes are specified only then). A fault armed for one
   operation makes the underlying call fail; hit says whether that call happened. *)
EXTENDS Seqs
RECURSIVE Norm(_)
Norm(r) == IF r = <<>> THEN <<>>
           ELSE IF Head(r)[2] = 0 THEN Norm(Tail(r))
           ELSE LET t == Norm(Tail(r)) IN
                IF t # <<>> /\ t[1][1] = Head(r)[1] THEN <<<<t[1][1], t[1][2] + Head(r)[2]>>>> \o Tail(t) ELSE <<Head(r)>> \o t
RECURSIVE Size(_)
Size(r) == IF r = <<>> THEN 0 ELSE Head(r)[2] + Size(Tail(r))
Nil == [f |-> 0, mode |-> "", clean |-> FALSE]
FS0(n) == [disk |-> [j \in 1..n |-> [ex |-> FALSE, dat |-> <<>>, known |-> TRUE]], h |-> Nil]
Readable(m) == m \in {"r", "w+", "r+", "a+"}
Writable(m) == m \in {"w", "w+", "a+", "a"}
Put(s, f, d) == [s EXCEPT !.disk[f] = [ex |-> TRUE, dat |-> d, known |-> TRUE]]
\* One operation o with observation g = [x: failed loudly, dat: runs, n: number] and hit; set of possible next states.
\* o: <<"open", f, mode>>, <<"wr", runs, fault>>, <<"size", fault>>, <<"get", fault>>, <<"gets", fault>>, <<"close">>,
\*    <<"rf", f, fault>> (read_file), <<"mm", f, fault>> (mapped), <<"rm", f>>; files 0: a directory, -1: an impossible path
Step(s, o, g, hit) ==
  CASE o[1] = "open" ->
         (IF o[2] <= 0 \/ (o[3] \in {"r", "r+"} /\ ~s.disk[o[2]].ex)
          THEN (IF g.x \/ (o[2] = 0 /\ o[3] = "r") THEN {[s EXCEPT !.h = IF g.x THEN Nil ELSE [f |-> 0, mode |-> "dir", clean |-> FALSE]]} ELSE {})
          ELSE IF g.x THEN {}
          ELSE LET t == IF o[3] \in {"w", "w+"} \/ ~s.disk[o[2]].ex THEN Put(s, o[2], <<>>) ELSE s
               IN {[t EXCEPT !.h = [f |-> o[2], mode |-> o[3], clean |-> TRUE]]})
    [] o[1] = "close" -> {[s EXCEPT !.h = Nil]}
    [] o[1] = "rm" -> {[s EXCEPT !.disk[o[2]] = [ex |-> FALSE, dat |-> <<>>, known |-> TRUE]]}
    [] o[1] = "wr" ->
         (LET f == s.h.f  d == s.disk[f] IN
          IF hit \/ (~Writable(s.h.mode) /\ Size(o[2]) > 0)
          THEN (IF g.x THEN {[s EXCEPT !.disk[f].known = FALSE, !.h.clean = FALSE]} ELSE {})
          ELSE IF g.x THEN {} ELSE {[s EXCEPT !.disk[f].dat = Norm(d.dat \o o[2])]})
    [] o[1] \in {"size", "get", "gets"} ->
         (IF s.h.mode = "dir" THEN (IF o[1] = "size" \/ g.x THEN {s} ELSE {})      \* whatever a directory's size is
          ELSE LET d == s.disk[s.h.f]  t == [s EXCEPT !.h.clean = FALSE] IN
          IF ~d.known THEN {t}
          ELSE IF hit THEN (IF g.x \/ (o[1] = "size" /\ o[2][1] = "tell") THEN {t} ELSE {})
          ELSE IF o[1] = "size" THEN (IF ~g.x /\ g.n = Size(d.dat) THEN {t} ELSE {})
          ELSE IF ~Readable(s.h.mode) /\ Size(d.dat) > 0 THEN (IF g.x THEN {t} ELSE {})
          ELSE IF ~g.x /\ g.dat = d.dat /\ g.n = Size(d.dat) THEN {t} ELSE {})
    [] o[1] \in {"rf", "mm"} ->
         (IF o[1] = "rf" /\ g.x /\ g.n # 0 THEN {}                                   \* read_file answers nothing, it does not throw
          ELSE IF o[2] <= 0 \/ ~s.disk[o[2]].ex THEN (IF g.x THEN {s} ELSE {})
          ELSE LET d == s.disk[o[2]] IN
          IF ~d.known THEN {s}
          ELSE IF hit /\ o[3][1] \notin {"chunk", "eintr"} THEN (IF g.x THEN {s} ELSE {})
          ELSE IF o[1] = "mm" /\ d.dat = <<>> /\ g.x THEN {s}                        \* an empty file cannot be mapped
          ELSE IF ~g.x /\ g.dat = d.dat /\ g.n = Size(d.dat) THEN {s} ELSE {})
\* what is specified: writes through a fresh handle, other readers only while no handle is open
Allowed(s, o) == CASE o[1] \in {"wr"} -> s.h.f > 0 /\ (s.h.clean \/ ~Writable(s.h.mode))
                   [] o[1] \in {"size", "get", "gets"} -> s.h.f > 0 \/ s.h.mode = "dir"
                   [] o[1] = "open" -> s.h = Nil
                   [] o[1] \in {"rf", "mm", "rm"} -> s.h = Nil
                   [] o[1] = "close" -> TRUE
=====================================================================
