------------------------------ MODULE RegTrace ------------------------------
(* Concurrent whole-file writes and reads: every read returns the contents   *)
(* of one write in full, one that may have been the latest at some moment of *)
(* the read.  Times b and r of an operation are ticks of one counter.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
NTr == Len(Traces)
W == 8
VARIABLES lane, tr
vars == <<lane, tr>>
ReadOK(T, g) == \E i \in DOMAIN T.ev : LET w == T.ev[i] IN
   /\ w.o = "write" /\ w.f = g.f /\ w.c = g.c /\ w.b < g.r
   /\ ~\E j \in DOMAIN T.ev : LET x == T.ev[j] IN x.o = "write" /\ x.f = g.f /\ w.r < x.b /\ x.r < g.b
Init == lane \in 1..W /\ tr = lane
Next == /\ tr <= NTr /\ tr' = tr + W /\ UNCHANGED lane
        /\ \A i \in DOMAIN Traces[tr].ev : LET e == Traces[tr].ev[i] IN
             (e.ok /\ (e.o = "read" => ReadOK(Traces[tr], e)))
             \/ PrintT("REJECT " \o ToJson([id |-> Traces[tr].id, step |-> i, why |-> "concurrent " \o e.o, event |-> e]))
Spec == Init /\ [][Next]_vars
=============================================================================
