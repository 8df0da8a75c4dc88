------------------------------ MODULE CrdtGen -------------------------------
(* Random histories of updates, merges, delta exchanges and law probes.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES n, ty, steps, todo, saved
vars == <<n, ty, steps, todo, saved>>
R(S) == RandomElement({x \in S : n >= -1})
TypeSeq == <<"gc", "pnc", "lww", "mv", "mv", "aw", "aw", "aw", "rw", "map", "map", "map", "rga", "rga", "yata", "yata", "vc">>
Delta == {"pnc", "mv", "aw", "rw", "map", "rga", "yata"}
Reps == 1..3
Elems == 1..2

Upd(r) ==
  CASE ty \in {"gc", "vc"} -> [o |-> "inc", r |-> r, n |-> R(0..5)]
    [] ty = "pnc" -> [o |-> R({"inc", "dec"}), r |-> r, n |-> R(0..5)]
    [] ty = "lww" -> [o |-> "set", r |-> r, v |-> R(1..9), gap |-> R(1..3)]
    [] ty = "mv" -> [o |-> R({"set", "resolve"}), r |-> r, v |-> R(1..9)]
    [] ty \in {"aw", "rw"} -> [o |-> R({"add", "add", "del"} \cup {"add2"}), r |-> r, v |-> R(Elems)]
    [] ty = "map" -> [o |-> R({"put", "mut", "del", "put2"}), r |-> r, v |-> R(Elems), n |-> R(1..5)]
    [] OTHER -> [o |-> R({"ins", "append", "before", "del", "ins2", "append2"}), r |-> r, at |-> R(0..5)]

Kind == IF ty \in Delta
        THEN R({"upd", "upd2", "upd3", "upd4", "merge", "delta", "delta2", "save", "apply", "laws", "pass"})
        ELSE R({"upd", "upd2", "merge", "merge2", "laws"})
Step(k, r, s, t) ==
  CASE k = "merge" \/ k = "merge2" -> [o |-> "merge", r |-> r, s |-> s]
    [] k = "delta" \/ k = "delta2" -> [o |-> "delta", r |-> r, s |-> s]
    [] k = "save" -> [o |-> "save", r |-> r, s |-> s]
    [] k = "apply" /\ saved > 0 -> [o |-> "apply", r |-> r, slot |-> R(1..saved)]
    [] k = "laws" -> [o |-> "laws", a |-> r, b |-> s, c |-> t]
    [] k = "pass" -> [o |-> "pass", r |-> r]
    [] OTHER -> Upd(r)

Init == n = -1 /\ ty = "" /\ steps = <<>> /\ todo = 0 /\ saved = 0
Setup == /\ n = -1 /\ n' = 0 /\ ty' = TypeSeq[R(1..Len(TypeSeq))] /\ todo' = R(8..24) /\ UNCHANGED <<steps, saved>>
Grow == /\ n >= 0 /\ n < todo /\ n' = n + 1
        /\ \E k \in {Kind}, r \in {R(Reps)}, t \in {R(Reps)} : \E q \in {R(Reps \ {r})} :
           \E s \in {Step(k, r, q, t)} :      \* \E, not LET: a random choice must be made once
             /\ steps' = Append(steps, s)
             /\ saved' = IF s.o = "save" THEN saved + 1 ELSE saved
        /\ UNCHANGED <<ty, todo>>
Emit == /\ n >= 0 /\ n = todo /\ n' = n + 1
        /\ PrintT("GEN " \o ToJson([ty |-> ty, steps |-> steps]))
        /\ UNCHANGED <<ty, steps, todo, saved>>
Next == Setup \/ Grow \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
