---------------------------- MODULE JournalTrace ----------------------------
(* Judges recorded histories against Durable of Journal: at every moment     *)
(* storage holds every acknowledged update and nothing never made.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
NTr == Len(Traces)
W == 8
VARIABLES lane, tr
vars == <<lane, tr>>
Set(s) == {s[i] : i \in DOMAIN s}
(* st: made, acked as in Journal; base: acknowledged when each read began;    *)
(* dam: the journal was altered behind the process's back             *)
Start == [made |-> {}, acked |-> {}, base |-> << >>, dam |-> FALSE, bad |-> 0, why |-> ""]
Within(lo, s, hi) == lo \subseteq s /\ s \subseteq hi
Bad(st, i, why) == [st EXCEPT !.bad = i, !.why = why]
Step(st, e, i) ==
  CASE e.e = "start" -> [st EXCEPT !.made = @ \cup Set(e.u)]
    [] e.e = "ret" -> IF e.ok THEN [st EXCEPT !.acked = @ \cup Set(e.u)] ELSE Bad(st, i, "update fails")
    [] e.e = "compacted" -> IF e.ok THEN st ELSE Bad(st, i, "compaction fails")
    [] e.e = "getting" -> [st EXCEPT !.base = (e.k :> st.acked) @@ st.base]
    [] e.e = "get" -> IF Within(st.base[e.k], Set(e.s), st.made) THEN st ELSE Bad(st, i, "read")
    [] e.e = "peek" -> IF e.ok /\ Within(st.acked, Set(e.s), st.made) THEN st ELSE Bad(st, i, "storage")
    [] e.e = "damage" -> [st EXCEPT !.dam = TRUE]
    [] e.e = "crash" -> st
    [] e.e = "mount" -> IF e.ok THEN IF Within(st.acked, Set(e.s), st.made) THEN [st EXCEPT !.made = Set(e.s), !.acked = Set(e.s)]
                                     ELSE Bad(st, i, IF st.dam THEN "damage" ELSE "mount")
                        ELSE IF st.dam THEN st ELSE Bad(st, i, "mount fails")
RECURSIVE Run(_, _, _)
Run(ev, i, st) == IF i > Len(ev) \/ st.bad # 0 THEN st ELSE Run(ev, i + 1, Step(st, ev[i], i))
Init == lane \in 1..W /\ tr = lane
Next == /\ tr <= NTr /\ tr' = tr + W /\ UNCHANGED lane
        /\ \E r \in {Run(Traces[tr].ev, 1, Start)} :
             r.bad = 0 \/ PrintT("REJECT " \o ToJson([id |-> Traces[tr].id, step |-> r.bad, why |-> r.why, acked |-> r.acked, event |-> Traces[tr].ev[r.bad]]))
Spec == Init /\ [][Next]_vars
=============================================================================
