------------------------------ MODULE RelayGen ------------------------------
(* Random use of the relay by several connections.                           *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES n, k, steps, todo
vars == <<n, k, steps, todo>>
R(S) == RandomElement({x \in S : n >= -1})
Pick(l) == l[R(1..Len(l))]
OpSeq == <<"sub", "sub", "sub", "pub", "pub", "pub", "pub", "pub", "pub", "unsub", "sync", "sync", "junk", "close", "kill", "inject", "stall", "settle">>
Topics == <<"x", "x", "y", "xx", "">>
Init == n = -1 /\ k = 0 /\ steps = <<>> /\ todo = 0
Setup == n = -1 /\ n' = 0 /\ k' = R(2..5) /\ todo' = R(8..30) /\ UNCHANGED steps
Grow == /\ n >= 0 /\ n < todo /\ n' = n + 1 /\ UNCHANGED <<todo, k>>
        /\ \E o \in {IF n < 2 THEN "sub" ELSE Pick(OpSeq)} :
           steps' = Append(steps, [o |-> o, c |-> R(1..k), t |-> Pick(Topics), m |-> n + 1, len |-> Pick(<<0, 1, 5, 200, 3000, 130000>>)])
Emit == n >= 0 /\ n = todo /\ n' = n + 1 /\ PrintT("GEN " \o ToJson([conns |-> k, steps |-> steps])) /\ UNCHANGED <<k, steps, todo>>
Next == Setup \/ Grow \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
