------------------------------- MODULE BufGen -------------------------------
(* Random uses of the ring buffer of deltas kept for late joiners.           *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES n, cap, cur, steps, todo
vars == <<n, cap, cur, steps, todo>>
R(S) == RandomElement({x \in S : n >= -1})
Bump(v, r) == [v EXCEPT ![r] = @ + 1]
Init == n = -1 /\ cap = 0 /\ cur = <<0, 0, 0>> /\ steps = <<>> /\ todo = 0
Setup == n = -1 /\ n' = 0 /\ cap' = R(1..3) /\ todo' = R(4..10) /\ UNCHANGED <<cur, steps>>
Push == \E c \in {Bump(cur, R(1..3))} :
        cur' = c /\ steps' = Append(steps, [o |-> "push", v |-> c, d |-> n + 1])
Ask == /\ cur' = cur
       /\ steps' = Append(steps, [o |-> "ask", v |-> [r \in 1..3 |-> R(0..(cur[r] + 1))]])
Grow == n >= 0 /\ n < todo /\ n' = n + 1 /\ (IF R({0, 1}) = 0 THEN Push ELSE Ask) /\ UNCHANGED <<cap, todo>>
Emit == n >= 0 /\ n = todo /\ n' = n + 1 /\ PrintT("GEN " \o ToJson([cap |-> cap, steps |-> steps])) /\ UNCHANGED <<cap, cur, steps, todo>>
Next == Setup \/ Grow \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
