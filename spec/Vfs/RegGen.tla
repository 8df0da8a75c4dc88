------------------------------- MODULE RegGen -------------------------------
(* Random concurrent readers and writers of a few files.                     *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES n, tasks, todo
vars == <<n, tasks, todo>>
R(S) == RandomElement({x \in S : n >= -1})
Pick(l) == l[R(1..Len(l))]
Names == <<"a.txt", "a.json", "a.tmp", "a", "b.txt">>
Op(i) == [o |-> Pick(<<"write", "write", "read">>), f |-> Pick(Names), c |-> (n + 1) * 100 + i]
Init == n = -1 /\ tasks = <<>> /\ todo = 0
Setup == n = -1 /\ n' = 0 /\ todo' = R(2..6) /\ UNCHANGED tasks
Grow == n >= 0 /\ n < todo /\ n' = n + 1 /\ tasks' = Append(tasks, [i \in 1..R(3..10) |-> Op(i)]) /\ UNCHANGED todo
Emit == n >= 0 /\ n = todo /\ n' = n + 1 /\ PrintT("GEN " \o ToJson([names |-> Names, tasks |-> tasks])) /\ UNCHANGED <<tasks, todo>>
Next == Setup \/ Grow \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
