------------------------------- MODULE Replay -------------------------------
(* A run is a function of (program, policy, seed): every way of running it   *)
(* that is only a different way of driving the scheduler must show the same  *)
(* log.  Each recorded case lists groups of runs that must coincide; the     *)
(* judge walks the logs in lock step.                                        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Cases)
W == 8
VARIABLES lane, k
vars == <<lane, k>>

Min(a, b) == IF a < b THEN a ELSE b
(* first position where two logs differ, 0 if they are the same *)
Diff(a, b) ==
  LET m == Min(Len(a), Len(b))
      D == {i \in 1..m : a[i] # b[i]}
  IN IF D # {} THEN CHOOSE i \in D : \A j \in D : i <= j
     ELSE IF Len(a) = Len(b) THEN 0 ELSE m + 1

Ended(log) == \A i \in DOMAIN log : log[i] \notin {"panic", "hang", "no progress", "slice(0) ended the run"}
At(log, i) == IF i <= Len(log) THEN log[i] ELSE "(end of log)"

Bad(c) ==
  {[id |-> c.id, group |-> g.name, how |-> g.runs[j].how, at |-> Diff(g.runs[1].log, g.runs[j].log),
    want |-> At(g.runs[1].log, Diff(g.runs[1].log, g.runs[j].log)),
    got |-> At(g.runs[j].log, Diff(g.runs[1].log, g.runs[j].log))]
     : <<g, j>> \in {<<h, x>> \in {c.groups[q] : q \in DOMAIN c.groups} \X (1..12) :
                       x \in DOMAIN h.runs /\ Diff(h.runs[1].log, h.runs[x].log) # 0}}
  \cup {[id |-> c.id, group |-> g.name, how |-> g.runs[1].how, at |-> -1, want |-> "", got |-> "did not end"]
     : g \in {h \in {c.groups[q] : q \in DOMAIN c.groups} : ~Ended(h.runs[1].log)}}

Init == lane \in 1..W /\ k = lane
Next == /\ k <= N
        /\ \A b \in Bad(Cases[k]) : PrintT("REJECT " \o ToJson(b))
        /\ k' = k + W /\ UNCHANGED lane
Spec == Init /\ [][Next]_vars
=============================================================================
