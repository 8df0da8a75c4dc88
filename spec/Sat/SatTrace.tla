------------------------------ MODULE SatTrace ------------------------------
(* Recorded verdicts, models and certificates, judged by Sat. *)
EXTENDS Sat, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Traces)
VARIABLES lane, tr
vars == <<lane, tr>>
T == Traces[tr]
Set_(c) == {c[i] : i \in 1..Len(c)}
Form(f) == {Set_(f[i]) : i \in 1..Len(f)}
Units(a) == {{a[i]} : i \in 1..Len(a)}
Without(f, k) == IF k = 0 THEN Form(f) ELSE {Set_(f[i]) : i \in (1..Len(f)) \ {k}}

\* F: the formula, s: whether it is satisfiable
Answer(F, s, a) ==
  LET G == F \cup Form(a.add) \cup Units(a.as) IN
  CASE a.ans = "sat" -> IF Len(a.m) >= T.v /\ Satisfies(a.m, G) THEN "" ELSE a.by \o ": no model"
    [] a.ans = "unsat" -> IF T.size = "large" THEN a.by \o ": wrongly unsatisfiable"
                          ELSE IF (IF a.add = <<>> /\ a.as = <<>> THEN s ELSE Satisfiable(G)) THEN a.by \o ": wrongly unsatisfiable" ELSE ""
    [] a.ans = "unknown" -> ""
    [] OTHER -> a.by \o ": " \o a.ans
Cert(F, s, c) ==
  IF c.must /\ ~c.ok THEN c.by \o ": refutation rejected"
  ELSE IF c.ok /\ (IF c.drop = 0 THEN s ELSE Satisfiable(Without(T.f, c.drop))) THEN c.by \o ": false certificate accepted" ELSE ""
Same(F, s, e) == IF Satisfiable(Form(e.g)) = s THEN "" ELSE e.by \o ": satisfiability changed"
Keep(F, s, p) == IF p.ok /\ s /\ ~Satisfiable(F \cup {Set_(p.c)}) THEN p.by \o ": redundant clause removes all models" ELSE ""
Entail(F, s, e) == IF e.ok /\ Satisfiable(F \cup {{-l} : l \in Set_(e.c)}) THEN e.by \o ": not implied" ELSE ""

Bad(q, f(_)) == {w \in {f(q[i]) : i \in 1..Len(q)} : w # ""}
Why == LET F == Form(T.f) s == IF T.size = "large" THEN TRUE ELSE Satisfiable(F) IN
       Bad(T.ans, LAMBDA a : Answer(F, s, a)) \cup Bad(T.cert, LAMBDA c : Cert(F, s, c))
       \cup Bad(T.eq, LAMBDA e : Same(F, s, e)) \cup Bad(T.red, LAMBDA p : Keep(F, s, p)) \cup Bad(T.imp, LAMBDA e : Entail(F, s, e))
Init == /\ lane \in 1..32 /\ tr = lane
Next == /\ tr <= N
        /\ LET w == Why IN IF w = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([id |-> T.id, why |-> CHOOSE x \in w : TRUE, kind |-> T.kind, v |-> T.v, f |-> T.f, calls |-> T.calls]))
        /\ tr' = tr + 32
        /\ UNCHANGED lane
Spec == Init /\ [][Next]_vars
=============================================================================
