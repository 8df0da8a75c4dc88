------------------------------- MODULE VfsMC -------------------------------
(* The map itself: every operation keeps it well formed, touches only the    *)
(* places it names, reads back what was stored, and failing changes nothing. *)
EXTENDS Vfs, TLC
CONSTANT Steps
VARIABLES s, n
Paths == {<<"a">>, <<"b">>, <<"d">>, <<"d", "a">>, <<"..", "a">>, <<"d", "..", "..", "b">>, <<".", "">>}
C == {"1", "2"}
Init == s = [files |-> << >> , dirs |-> {<<>>}] /\ n = 0
Next == n < Steps /\ n' = n + 1 /\
  \E o \in Ops, p \in Paths, p2 \in Paths, c \in C :
     LET q == Norm(p) q2 == Norm(p2) r == Do(s, o, q, q2, c) IN
     /\ (o # "rename" => p2 = <<"a">>) /\ (o \notin {"write", "append"} => c = "1")
     /\ (o = "append" /\ IsFile(s, q) => s.files[q] \in C)
     /\ (o = "rename" => ~IsDir(s, q))
     /\ s' = r.s
     /\ Assert(~r.ok => r.s = s, "a failed operation changed something")
     /\ Assert(\A x \in DOMAIN s.files \cup DOMAIN r.s.files :
                 x \in {q, q2} \/ (x \in DOMAIN s.files /\ x \in DOMAIN r.s.files /\ s.files[x] = r.s.files[x]), "another place changed")
     /\ Assert(o = "write" /\ r.ok => Do(r.s, "read", q, q, c).v = c, "write then read")
     /\ Assert(o = "remove" /\ r.ok => Do(r.s, "exists", q, q, c).v = "no", "removed")
Confined == Fine(s) /\ \A q \in DOMAIN s.files \cup s.dirs : \A i \in DOMAIN q : q[i] \notin {"", ".", ".."}
Spec == Init /\ [][Next]_<<s, n>>
=============================================================================
