------------------------------ MODULE ShardAll ------------------------------
(* Every way of losing shards of every small code, in index order.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT MaxN
VARIABLE c
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o Sorted(S \ {x})
Init == c \in UNION {{[m |-> "shard", k |-> k, n |-> n, len |-> 3 * k + 1, take |-> Sorted(S), mixed |-> 4] : S \in SUBSET (0..(n - 1))} : <<k, n>> \in {x \in (1..MaxN) \X (1..MaxN) : x[1] <= x[2]}}
Next == c # <<>> /\ PrintT("GEN " \o ToJson(c)) /\ c' = <<>>
Spec == Init /\ [][Next]_c
=============================================================================
