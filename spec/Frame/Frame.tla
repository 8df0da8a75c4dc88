------------------------------- MODULE Frame -------------------------------
(* Length-prefixed framing and k-of-n sharding.                              *)
EXTENDS Integers, Sequences, FiniteSets
(* bytes of the length prefix: seven bits of the length per byte *)
RECURSIVE Prefix(_)
Prefix(len) == IF len < 128 THEN 1 ELSE 1 + Prefix(len \div 128)
RECURSIVE Ends(_, _, _)
Ends(lens, i, at) == IF i > Len(lens) THEN <<>> ELSE LET e == at + Prefix(lens[i]) + lens[i] IN <<e>> \o Ends(lens, i + 1, e)
EndsOf(lens) == Ends(lens, 1, 0)
(* after p bytes of the stream arrived, exactly these frames are out *)
Out(lens, p) == LET E == EndsOf(lens) IN Cardinality({i \in DOMAIN E : E[i] <= p})
(* bytes arrived but not part of a finished frame *)
Pending(lens, p) == LET k == Out(lens, p) IN p - (IF k = 0 THEN 0 ELSE EndsOf(lens)[k])
(* sharding: recoverable from these indices *)
Enough(k, n, idx) == Cardinality(idx \cap 0..(n - 1)) >= k
=============================================================================
