----------------------------- MODULE LogosTrace -----------------------------
(* Recorded runs of programs on every engine, judged by their meaning.       *)
EXTENDS Logos, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Traces)
VARIABLES lane, tr
vars == <<lane, tr>>
T == Traces[tr]

Lines(s) == s
Why(t) ==
  LET m == Meaning(t.prog) IN
  IF ~m.known THEN "ok"
  ELSE IF \E i \in 1..Len(t.runs) : t.runs[i].out # m.out THEN "output"
  ELSE IF \E i \in 1..Len(t.runs) : t.runs[i].failed # m.failed THEN "failure"
  ELSE IF Len(t.runs) > 1 THEN "error text"
  ELSE "ok"

Init == /\ lane \in 1..32 /\ tr = lane
Next == /\ tr <= N
        /\ LET w == Why(T) IN IF w = "ok" THEN TRUE ELSE PrintT("REJECT " \o ToJson([id |-> T.id, why |-> w, expected |-> Meaning(T.prog)]))
        /\ tr' = tr + 32
        /\ UNCHANGED lane
Spec == Init /\ [][Next]_vars
=============================================================================
