------------------------------ MODULE FrameMC ------------------------------
(* A receiver that keeps a buffer and cuts frames off it, byte by byte, gives *)
(* out exactly Out and keeps exactly Pending, for every chunking.             *)
EXTENDS Frame, TLC
Base == 4   \* the model's prefix carries two bits per byte, to keep streams short
RECURSIVE Enc(_)
Enc(l) == IF l < Base THEN <<l>> ELSE <<Base + (l % Base)>> \o Enc(l \div Base)
Body(l, t) == [i \in 1..l |-> 100 + t]
RECURSIVE Stream(_, _)
Stream(lens, i) == IF i > Len(lens) THEN <<>> ELSE Enc(lens[i]) \o Body(lens[i], i) \o Stream(lens, i + 1)
RECURSIVE Read(_, _, _, _)
Read(b, i, mul, acc) == IF i > Len(b) THEN [ok |-> FALSE, l |-> 0, h |-> 0]
                        ELSE IF b[i] < Base THEN [ok |-> TRUE, l |-> acc + b[i] * mul, h |-> i]
                        ELSE Read(b, i + 1, mul * Base, acc + (b[i] - Base) * mul)
RECURSIVE Cut(_, _)
Cut(b, out) == LET r == Read(b, 1, 1, 0) IN
  IF ~r.ok \/ r.h + r.l > Len(b) THEN [buf |-> b, out |-> out]
  ELSE Cut(SubSeq(b, r.h + r.l + 1, Len(b)), Append(out, SubSeq(b, r.h + 1, r.h + r.l)))
VARIABLES lens, pos, buf, out
vars == <<lens, pos, buf, out>>
S == Stream(lens, 1)
Init == lens \in UNION {[1..k -> {0, 1, 3, 4, 5, 17}] : k \in 0..3} /\ pos = 0 /\ buf = <<>> /\ out = <<>>
Arrive == \E k \in 0..6 : pos + k <= Len(S) /\ pos' = pos + k /\
          LET r == Cut(buf \o SubSeq(S, pos + 1, pos + k), out) IN buf' = r.buf /\ out' = r.out /\ UNCHANGED lens
Next == Arrive
Spec == Init /\ [][Next]_vars
RECURSIVE PrefixB(_)
PrefixB(l) == IF l < Base THEN 1 ELSE 1 + PrefixB(l \div Base)
RECURSIVE EndsB(_, _, _)
EndsB(ls, i, at) == IF i > Len(ls) THEN <<>> ELSE LET e == at + PrefixB(ls[i]) + ls[i] IN <<e>> \o EndsB(ls, i + 1, e)
Right == LET E == EndsB(lens, 1, 0) k == Cardinality({i \in DOMAIN E : E[i] <= pos}) IN
   /\ Len(out) = k /\ \A i \in 1..k : out[i] = Body(lens[i], i)
   /\ Len(buf) = pos - (IF k = 0 THEN 0 ELSE E[k])
=============================================================================
