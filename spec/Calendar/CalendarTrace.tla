---------------------------- MODULE CalendarTrace ----------------------------
(* Recorded answers of the implementation, judged by Calendar. *)
EXTENDS Calendar, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Traces)
VARIABLES lane, tr
vars == <<lane, tr>>
T == Traces[tr]
Init == /\ lane \in 1..32 /\ tr = lane
Next == /\ tr <= N
        /\ LET w == Answer(T) IN IF w = T.got THEN TRUE ELSE PrintT("REJECT " \o ToJson([id |-> T.id, why |-> T.o, case |-> T, expected |-> w]))
        /\ tr' = tr + 32
        /\ UNCHANGED lane
Spec == Init /\ [][Next]_vars
=============================================================================
