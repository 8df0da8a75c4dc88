------------------------------ MODULE PadTrace ------------------------------
(* Judges a recorded life of a pad against NeverTwice, InPad and OnceEach.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
NTr == Len(Traces)
W == 8
VARIABLES lane, tr
vars == <<lane, tr>>
(* sent: every record made so far, [who, lo, hi, off] with [lo,hi) the pad   *)
(* bytes it uses counted over the whole pad; got[w]: records end w yielded;  *)
(* newest[w]: end of the furthest one; left[w]: bytes end w may still use    *)
Start(T) == [sent |-> <<>>, got |-> <<{}, {}>>, newest |-> <<0, 0>>, left |-> T.left, bad |-> 0, why |-> ""]
Bad(st, i, why) == [st EXCEPT !.bad = i, !.why = why]
Clash(st, e) == \E i \in DOMAIN st.sent : e.lo < st.sent[i].hi /\ st.sent[i].lo < e.hi
Seal(st, e, i) ==
  IF e.ok THEN
    IF e.lo < 0 \/ e.hi > e.pad THEN Bad(st, i, "outside the pad")
    ELSE IF Clash(st, e) THEN Bad(st, i, "pad bytes used twice")
    ELSE IF e.need > st.left[e.who] THEN Bad(st, i, "sealed beyond the pad")
    ELSE IF e.left # st.left[e.who] - e.need THEN Bad(st, i, "remaining")
    ELSE [st EXCEPT !.sent = Append(@, [who |-> e.who, lo |-> e.lo, hi |-> e.hi]), !.left[e.who] = e.left]
  ELSE IF e.need <= st.left[e.who] THEN Bad(st, i, "refused although enough pad remains")
       ELSE IF e.left # st.left[e.who] THEN Bad(st, i, "a refused seal consumed pad") ELSE st
(* after dying: what was reserved may be lost, never given back *)
Restart(st, e, i) == IF e.left > st.left[e.who] THEN Bad(st, i, "pad given back") ELSE [st EXCEPT !.left[e.who] = e.left]
Fresh(T, st, e) == /\ e.f \notin st.got[e.who] /\ e.off >= st.newest[e.who] - T.window
Give(T, st, e, i) ==
  IF e.ok /\ ~e.same THEN Bad(st, i, "wrong plaintext")
  ELSE IF e.ok /\ e.f \in st.got[e.who] THEN Bad(st, i, "record accepted twice")
  ELSE IF ~e.ok /\ Fresh(T, st, e) THEN Bad(st, i, "genuine record refused")
  ELSE IF e.ok THEN [st EXCEPT !.got[e.who] = @ \cup {e.f}, !.newest[e.who] = IF e.end > @ THEN e.end ELSE @] ELSE st
(* several threads hand over one record at once: e.ok counts the acceptances *)
Race(T, st, e, i) ==
  IF e.n > 1 \/ (e.n = 1 /\ e.f \in st.got[e.who]) THEN Bad(st, i, "record accepted twice")
  ELSE IF e.n = 0 /\ Fresh(T, st, e) THEN Bad(st, i, "genuine record refused")
  ELSE IF e.n = 1 THEN [st EXCEPT !.got[e.who] = @ \cup {e.f}, !.newest[e.who] = IF e.end > @ THEN e.end ELSE @] ELSE st
Step(T, st, e, i) ==
  CASE e.e = "seal" -> Seal(st, e, i)
    [] e.e = "restart" -> Restart(st, e, i)
    [] e.e = "give" -> Give(T, st, e, i)
    [] e.e = "race" -> Race(T, st, e, i)
    [] e.e = "foreign" -> IF e.ok THEN Bad(st, i, "accepted: " \o e.what) ELSE st
RECURSIVE Run(_, _, _)
Run(T, i, st) == IF i > Len(T.ev) \/ st.bad # 0 THEN st ELSE Run(T, i + 1, Step(T, st, T.ev[i], i))
Init == lane \in 1..W /\ tr = lane
Next == /\ tr <= NTr /\ tr' = tr + W /\ UNCHANGED lane
        /\ \E r \in {Run(Traces[tr], 1, Start(Traces[tr]))} :
             r.bad = 0 \/ PrintT("REJECT " \o ToJson([id |-> Traces[tr].id, step |-> r.bad, why |-> r.why, event |-> Traces[tr].ev[r.bad]]))
Spec == Init /\ [][Next]_vars
=============================================================================
