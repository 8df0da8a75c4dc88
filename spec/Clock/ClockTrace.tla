------------------------------ MODULE ClockTrace ------------------------------
(* Recorded stamps and estimates of the implementation, judged by Clock. *)
EXTENDS Clock, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Traces)
VARIABLES lane, tr
vars == <<lane, tr>>
T == Traces[tr]
Why == IF T.panic # "" THEN "panic" ELSE IF ~Increases(T.h, T.stamp) THEN "causality" ELSE IF ~NotAhead(T.h, T.stamp) THEN "ahead of every clock"
       ELSE IF ~Estimates(T.h, T.est) THEN "estimates" ELSE IF ~T.laws THEN "merge order" ELSE ""
Init == /\ lane \in 1..32 /\ tr = lane
Next == /\ tr <= N
        /\ LET w == Why IN IF w = "" THEN TRUE ELSE PrintT("REJECT " \o ToJson([id |-> T.id, why |-> w, case |-> T]))
        /\ tr' = tr + 32
        /\ UNCHANGED lane
Spec == Init /\ [][Next]_vars
=============================================================================
