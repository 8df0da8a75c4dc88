------------------------------ MODULE BufTrace ------------------------------
(* The delta ring buffer: a peer is given every delta it lacks, or told that *)
(* the buffer cannot help.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
NTr == Len(Traces)
W == 8
VARIABLES lane, tr
vars == <<lane, tr>>
Dom(a, b) == \A r \in DOMAIN a : a[r] >= b[r]
(* pushes before step i, oldest first *)
Pushed(T, i) == SelectSeq(SubSeq(T.ev, 1, i), LAMBDA e : e.e = "push")
AskOK(T, i) ==
  LET e == T.ev[i] P == Pushed(T, i)
      gone == {k \in DOMAIN P : k <= Len(P) - T.cap}
      lacks == {k \in DOMAIN P : ~Dom(e.v, P[k].v)}
      kept == SelectSeq([k \in DOMAIN P |-> [k |-> k, d |-> P[k].d]], LAMBDA x : x.k \in lacks)
  IN /\ e.can = e.some
     /\ e.some => /\ lacks \cap gone = {}
                  /\ e.ds = [k \in DOMAIN kept |-> kept[k].d]
     /\ (gone = {} \/ (lacks \cap gone = {} /\ \A k \in gone : P[k].v # e.v)) => e.some
PushOK(T, i) == LET P == Pushed(T, i) l == IF Len(P) < T.cap THEN Len(P) ELSE T.cap IN T.ev[i].len = l /\ ~T.ev[i].empty
OK(T, i) == IF T.ev[i].e = "push" THEN PushOK(T, i) ELSE AskOK(T, i)
Init == lane \in 1..W /\ tr = lane
Next == /\ tr <= NTr /\ tr' = tr + W /\ UNCHANGED lane
        /\ \A i \in DOMAIN Traces[tr].ev : OK(Traces[tr], i) \/ PrintT("REJECT " \o ToJson([id |-> Traces[tr].id, step |-> i, law |-> "buffer", ty |-> "buf", event |-> Traces[tr].ev[i]]))
Spec == Init /\ [][Next]_vars
=============================================================================
