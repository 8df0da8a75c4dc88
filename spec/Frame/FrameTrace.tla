----------------------------- MODULE FrameTrace -----------------------------
(* Judges recorded framing, sharding and chunking runs.                      *)
EXTENDS Frame, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
NTr == Len(Traces)
W == 8
VARIABLES lane, tr
vars == <<lane, tr>>
Min(a, b) == IF a < b THEN a ELSE b
(* obs: after each drain, bytes arrived p, frames out so far, those all      *)
(* equal to what was sent, bytes reported pending, empty                     *)
(* ends: where each message ends in the bytes as the encoder wrote them      *)
OutAt(E, p) == Cardinality({i \in DOMAIN E : E[i] <= p})
StreamOK(T) == LET E == T.ends IN
  /\ Len(E) = Len(T.lens) /\ T.total = (IF E = <<>> THEN 0 ELSE E[Len(E)])
  /\ \A i \in DOMAIN E : E[i] - (IF i = 1 THEN 0 ELSE E[i - 1]) >= T.lens[i]
  /\ \A i \in DOMAIN T.obs : LET o == T.obs[i] k == OutAt(E, o.p) IN
       /\ o.out = k /\ o.same
       /\ o.pending = o.p - (IF k = 0 THEN 0 ELSE E[k]) /\ o.empty = (o.pending = 0)
ShardOK(T) == LET idx == {T.take[i] : i \in DOMAIN T.take} IN
  /\ T.count = T.n
  /\ (T.got # "no" => T.got = "same") /\ (Enough(T.k, T.n, idx) <=> T.got = "same")
(* a manifest describes the file, chunks put together give it back, and an   *)
(* altered chunk is the only one whose digest no longer fits                 *)
FileOK(T) == LET cnt == (T.len + T.chunk - 1) \div T.chunk IN
  /\ T.total = T.len /\ T.count = cnt /\ T.hashes = cnt /\ T.same /\ T.own
  /\ \A i \in DOMAIN T.sizes : T.sizes[i] = Min(T.chunk, T.len - (i - 1) * T.chunk)
  /\ {T.bad[i] : i \in DOMAIN T.bad} = (IF T.hit >= 1 /\ T.hit <= cnt THEN {T.hit} ELSE {})
OK(T) == CASE T.m = "stream" -> StreamOK(T) [] T.m = "shard" -> ShardOK(T) [] T.m = "file" -> FileOK(T)
Init == lane \in 1..W /\ tr = lane
Next == /\ tr <= NTr /\ tr' = tr + W /\ UNCHANGED lane
        /\ OK(Traces[tr]) \/ PrintT("REJECT " \o ToJson([id |-> Traces[tr].id, why |-> Traces[tr].m]))
Spec == Init /\ [][Next]_vars
=============================================================================
