-------------------------------- MODULE Sat --------------------------------
(* Clause sets and what follows from them.  A literal is a nonzero integer,  *)
(* a clause a set of literals, a formula a set of clauses, a model a         *)
(* sequence of truth values.                                                 *)
EXTENDS Integers, Sequences, FiniteSets

Holds(m, l) == IF l > 0 THEN m[l] ELSE ~m[-l]
Satisfies(m, F) == \A c \in F : \E l \in c : Holds(m, l)

\* the formula once a literal is taken to be true
Assign(F, l) == {c \ {-l} : c \in {d \in F : l \notin d}}
RECURSIVE AssignAll(_, _)
AssignAll(F, L) == IF L = {} THEN F ELSE LET l == CHOOSE l \in L : TRUE IN AssignAll(Assign(F, l), L \ {l})

\* satisfiability, by cases on one literal after another
RECURSIVE Satisfiable(_)
Satisfiable(F) ==
  IF F = {} THEN TRUE
  ELSE IF {} \in F THEN FALSE
  ELSE LET u == {c \in F : Cardinality(c) = 1} IN
       IF u # {} THEN Satisfiable(Assign(F, CHOOSE l \in (CHOOSE c \in u : TRUE) : TRUE))
       ELSE LET w == {c \in F : Cardinality(c) = 2}
                l == CHOOSE l \in (IF w # {} THEN CHOOSE c \in w : TRUE ELSE CHOOSE c \in F : TRUE) : TRUE
            IN Satisfiable(Assign(F, l)) \/ Satisfiable(Assign(F, -l))

---------------------------------------------------------------------------
\* certificates
RECURSIVE Conflict(_)
Conflict(F) ==           \* unit propagation alone finds the contradiction
  IF {} \in F THEN TRUE
  ELSE LET u == {c \in F : Cardinality(c) = 1} IN
       IF u = {} THEN FALSE ELSE Conflict(Assign(F, CHOOSE l \in (CHOOSE c \in u : TRUE) : TRUE))
Negated(c) == {-l : l \in c}
Rup(F, c) == (\E l \in c : -l \in c) \/ Conflict(AssignAll(F, Negated(c)))
\* propagation redundancy: adding c keeps satisfiability because any model that
\* falsifies c can be repaired by the witness w
Redundant(F, c, w) ==
  /\ \A l \in w : -l \notin w
  /\ \A l \in c : -l \notin c
  /\ w \cap c # {}
  /\ LET G == AssignAll(F, Negated(c)) IN \A d \in AssignAll(F, w) : Rup(G, d)
=============================================================================
