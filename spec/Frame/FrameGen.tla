------------------------------ MODULE FrameGen ------------------------------
(* Random message sequences and chunkings; random shard sets; random files.  *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES n
R(S) == RandomElement({x \in S : n >= -1})
Pick(l) == l[R(1..Len(l))]
Lens == <<0, 0, 1, 2, 5, 126, 127, 128, 129, 255, 300, 1000, 16383, 16384, 16385, 20000>>
Chunk == <<1, 1, 1, 2, 3, 5, 100, 127, 128, 1000, 5000, 100000>>
Init == n = -1
StreamCase == [m |-> "stream", lens |-> [i \in 1..R(0..7) |-> Pick(Lens)], chunks |-> [i \in 1..R(1..12) |-> Pick(Chunk)], lazy |-> R(1..3)]
ShardCase(k, extra) == [m |-> "shard", k |-> k, n |-> k + extra, len |-> Pick(<<0, 1, 2, 3, 7, 8, 16, 100, 1000>>),
                 take |-> [i \in 1..R(0..(k + extra + 3)) |-> R(0..(k + extra - 1))],
                 mixed |-> R(1..4)]
(* a file cut into chunks; chunk `hit` is altered, or none when 0 *)
FileCase == [m |-> "file", len |-> Pick(<<0, 1, 2, 10, 99, 100, 101, 1000, 4096, 5000>>), chunk |-> Pick(<<1, 3, 10, 100, 1000, 100000>>),
             hit |-> R(0..5), off |-> 100 * R(0..99) + R(0..99), bit |-> R(0..7)]
Next == /\ n = -1 /\ n' = 0
        /\ \E w \in {R(1..6)} :
           PrintT("GEN " \o ToJson(IF w <= 3 THEN StreamCase ELSE IF w <= 5 THEN ShardCase(Pick(<<1, 2, 3, 4, 5, 8, 20>>), Pick(<<0, 1, 2, 3, 6, 20>>)) ELSE FileCase))
Spec == Init /\ [][Next]_n
=============================================================================
