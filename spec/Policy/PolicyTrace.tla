--------------------------- MODULE PolicyTrace ---------------------------
(* What every engine printed, and whether it stopped, against the meaning.   *)
EXTENDS Policy, TLC, Json, IOUtils
VARIABLES l, j
Lanes == 32
Cases == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Cases)
Why(T) == LET p == T.prog
              m == Run([pol |-> p.pol, funs |-> p.funs], p.steps, p.env, <<>>, 0)
              Bad(r) == r.failed # ~m.ok \/ r.out # [i \in 1..Len(m.out) |-> ToString(m.out[i])]
              B == {i \in 1..Len(T.runs) : Bad(T.runs[i])}
          IN IF B = {} THEN "" ELSE LET i == CHOOSE i \in B : TRUE
             IN IF ~m.ok /\ ~T.runs[i].failed THEN "not stopped" ELSE IF m.ok /\ T.runs[i].failed THEN "stopped: " \o T.runs[i].err ELSE "other output"
Init == l \in 1..Lanes /\ j = l
Next == /\ j <= N
        /\ LET w == Why(Cases[j]) IN IF w = "" THEN TRUE ELSE PrintT("REJECT " \o ToJson([id |-> Cases[j].id, why |-> w, prog |-> Cases[j].prog, runs |-> Cases[j].runs]))
        /\ j' = j + Lanes /\ UNCHANGED l
Spec == Init /\ [][Next]_<<l, j>>
=============================================================================
