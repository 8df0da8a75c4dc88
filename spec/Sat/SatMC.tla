------------------------------- MODULE SatMC -------------------------------
(* Every formula over a few variables: deciding by cases is deciding by      *)
(* models, and the certificate rules preserve what they claim to preserve.   *)
EXTENDS Sat, TLC
CONSTANTS Vars, Most, Careful
VARIABLES F
Lits == Vars \cup {-v : v \in Vars}
Clauses == {c \in SUBSET Lits : \A l \in c : -l \notin c}
Models == [1..Cardinality(Vars) -> BOOLEAN]
Init == F = {}
Next == Cardinality(F) < Most /\ \E c \in Clauses : F' = F \cup {c}
Spec == Init /\ [][Next]_F
Decides == Satisfiable(F) <=> \E m \in Models : Satisfies(m, F)
RupSound == \A c \in Clauses : Rup(F, c) => \A m \in Models : Satisfies(m, F) => Satisfies(m, {c})
Weak(c, w) == /\ \A l \in w : -l \notin w
              /\ LET G == AssignAll(F, Negated(c)) IN \A d \in AssignAll(F, w) : Rup(G, d)
PrSound == \A c \in Clauses : \A w \in Clauses :
             (IF Careful THEN Redundant(F, c, w) ELSE Weak(c, w)) /\ Satisfiable(F) => Satisfiable(F \cup {c})
=============================================================================
