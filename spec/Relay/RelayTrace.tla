----------------------------- MODULE RelayTrace -----------------------------
(* Judges recorded relay runs by the rules of Relay.                         *)
EXTENDS Relay, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
NTr == Len(Traces)
W == 8
VARIABLES lane, tr
vars == <<lane, tr>>
Why(T) == LET H == T.h Cs == DOMAIN T.got IN
  IF T.stuck # "" THEN "stuck: " \o T.stuck
  ELSE IF \E c \in Cs : \E i \in DOMAIN T.got[c] : ~T.got[c][i].same THEN "altered"
  ELSE IF \E c \in Cs : ~Genuine(H, T.got[c]) THEN "not published"
  ELSE IF \E c \in Cs : ~InOrder(H, T.got[c]) THEN "order"
  ELSE IF \E c \in Cs, k \in Pubs(H) : ~DeliveredOK(H, c, T.got[c], H[k]) THEN "delivery" ELSE ""
Init == lane \in 1..W /\ tr = lane
Next == /\ tr <= NTr /\ tr' = tr + W /\ UNCHANGED lane
        /\ \E y \in {Why(Traces[tr])} : y = "" \/ PrintT("REJECT " \o ToJson([id |-> Traces[tr].id, why |-> y]))
Spec == Init /\ [][Next]_vars
=============================================================================
