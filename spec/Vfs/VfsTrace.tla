------------------------------ MODULE VfsTrace ------------------------------
(* Judges recorded uses of the file store.  Each event carries the operation *)
(* with its result, all files and directories under the root afterwards, and *)
(* whether anything beside the root changed or was handed out.               *)
EXTENDS Vfs, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
NTr == Len(Traces)
W == 8
VARIABLES lane, tr
vars == <<lane, tr>>
Elems(l) == {l[i] : i \in DOMAIN l}
Files(e) == [q \in {x.p : x \in Elems(e.files)} |-> (CHOOSE x \in Elems(e.files) : x.p = q).c]
After(e) == [files |-> Files(e), dirs |-> Elems(e.dirs) \cup {<<>>}]
Value(e) == IF e.o = "list" /\ e.ok THEN Elems(e.v) ELSE e.v
(* the stand-in for an absolute path from outside is left out of listings *)
Shown(e, v) == IF e.o = "list" THEN {x \in v : x.name # "@OUT"} ELSE v
Odds(e) == Odd(e.p) \/ (e.o = "rename" /\ Odd(e.p2))
(* a string that goes up may be refused, having changed nothing but directories *)
Refused(s, e) == Odds(e) /\ (~e.ok \/ (e.o = "exists" /\ e.v = "no")) /\ After(e).files = s.files /\ s.dirs \subseteq After(e).dirs
(* no room: the write fails whole *)
NoRoom(s, e) == e.o = "write" /\ e.lim >= 0 /\ ~e.ok /\ After(e).files = s.files /\ s.dirs \subseteq After(e).dirs
DirMove(s, e) == e.o = "rename" /\ IsDir(s, Norm(e.p))
Exact(s, e) == LET r == Do(s, e.o, Norm(e.p), Norm(e.p2), e.c) IN
               /\ e.ok = r.ok /\ (e.ok => Value(e) = Shown(e, r.v))
               /\ After(e).files = r.s.files
               /\ (IF Odds(e) THEN r.s.dirs \subseteq After(e).dirs ELSE r.s.dirs = After(e).dirs)
StepOK(s, e) == /\ ~e.leak
                /\ DirMove(s, e) \/ Exact(s, e) \/ Refused(s, e) \/ NoRoom(s, e)
RECURSIVE Run(_, _, _)
Run(ev, i, s) == IF i > Len(ev) THEN 0 ELSE IF ~StepOK(s, ev[i]) THEN i ELSE Run(ev, i + 1, After(ev[i]))
Empty == [files |-> << >>, dirs |-> {<<>>}]
Init == lane \in 1..W /\ tr = lane
Next == /\ tr <= NTr /\ tr' = tr + W /\ UNCHANGED lane
        /\ \E b \in {Run(Traces[tr].ev, 1, Empty)} :
             b = 0 \/ PrintT("REJECT " \o ToJson([id |-> Traces[tr].id, step |-> b, why |-> IF Traces[tr].ev[b].leak THEN "outside" ELSE Traces[tr].ev[b].o, event |-> Traces[tr].ev[b]]))
Spec == Init /\ [][Next]_vars
=============================================================================
