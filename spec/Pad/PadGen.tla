------------------------------- MODULE PadGen -------------------------------
(* Random life of a pad shared by two ends (1 and 2): sealing, dying inside  *)
(* or outside a seal, restarting, records arriving late, twice, altered, at  *)
(* the wrong end, and records of another epoch.                              *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES n, steps, todo, cfg
vars == <<n, steps, todo, cfg>>
R(S) == RandomElement({x \in S : n >= -1})
Pick(l) == l[R(1..Len(l))]
Init == n = -1 /\ steps = <<>> /\ todo = 0 /\ cfg = <<>>
Setup == n = -1 /\ n' = 0 /\ todo' = R(8..40) /\ UNCHANGED steps
         /\ cfg' = [pad |-> Pick(<<120, 201, 400, 700, 1500>>), window |-> Pick(<<0, 40, 100, 100000>>), file |-> R(1..4) = 1, epoch |-> Pick(<<0, 0, 7>>)]
OpSeq == <<"seal", "seal", "seal", "seal", "crash", "restart", "roll", "give", "give", "give", "give", "give", "give", "bad", "bad", "own", "other", "race">>
Grow == /\ n >= 0 /\ n < todo /\ n' = n + 1 /\ UNCHANGED <<todo, cfg>>
        /\ \E o \in {Pick(OpSeq)} :
           steps' = Append(steps, [o |-> o, who |-> R(1..2), len |-> Pick(<<0, 1, 2, 7, 16, 33, 60, 100>>), k |-> 30 * R(0..30) + R(0..29),
                                   how |-> Pick(<<"before", "after">>), bit |-> 100 * R(0..19) + R(0..99),
                                   alter |-> Pick(<<"flip", "flip", "flip", "cut", "grow", "splice">>)])
Emit == n >= 0 /\ n = todo /\ n' = n + 1 /\ PrintT("GEN " \o ToJson([cfg |-> cfg, steps |-> steps])) /\ UNCHANGED <<steps, todo, cfg>>
Next == Setup \/ Grow \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
