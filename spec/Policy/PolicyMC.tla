----------------------------- MODULE PolicyMC -----------------------------
(* Every policy of two definitions over two facts: a chain means what its    *)
(* atoms mean together, a named predicate means what it stands for, no       *)
(* capability follows from one declared for another kind of object; and      *)
(* evaluating a chain atom by atom, as a machine does, agrees.               *)
EXTENDS Policy, TLC
CONSTANTS Whole
VARIABLES pol, s, o, chain, at, acc
vars == <<pol, s, o, chain, at, acc>>
Users == {[type |-> "User", fields |-> [role |-> <<"text", r>>, level |-> <<"int", n>>]] : r \in {"admin", "guest"}, n \in {1, 2}}
Things == {[type |-> t, fields |-> [owner |-> <<"user", u>>, level |-> <<"int", n>>]] : t \in {"Document", "Folder"}, u \in Users, n \in {1, 2}}
Atoms == {<<"lit", "role", <<"text", "admin">>>>, <<"lit", "level", <<"int", 1>>>>, <<"lit", "level", <<"text", "1">>>>, <<"pred", "boss">>, <<"pred", "none">>,
          <<"same", "level", "level">>, <<"self", "owner">>, <<"lit", "gone", <<"text", "x">>>>}
Chains == UNION {[1..k -> Atoms] : k \in 1..3}
Pols == {[preds |-> <<[subject |-> "User", name |-> "boss", cond |-> [op |-> op, atoms |-> <<a, <<"lit", "level", <<"int", 2>>>>>>]]>>,
          caps |-> <<[subject |-> "User", name |-> "edit", object |-> "Document", cond |-> [op |-> "AND", atoms |-> <<a>>]]>>] :
          op \in {"AND", "OR"}, a \in {<<"lit", "role", <<"text", "admin">>>>, <<"same", "level", "level">>}}
Init == /\ pol \in Pols /\ s \in Users /\ o \in {<<>>} \cup {<<x>> : x \in Things}
        /\ chain \in [op : {"AND", "OR"}, atoms : Chains] /\ at = 0 /\ acc = TRUE
Limit == IF Whole THEN Len(chain.atoms) ELSE IF Len(chain.atoms) > 2 THEN 2 ELSE Len(chain.atoms)
Next == /\ at < Limit /\ at' = at + 1
        /\ LET x == Atom(pol, chain.atoms[at + 1], s, o)
           IN acc' = IF at = 0 THEN x ELSE IF chain.op = "AND" THEN acc /\ x ELSE acc \/ x
        /\ UNCHANGED <<pol, s, o, chain>>
Spec == Init /\ [][Next]_vars
StepwiseRight == at = Limit => acc = Holds(pol, chain, s, o)
PredicateRight == at = 0 => (Atom(pol, <<"pred", "boss">>, s, o) = Holds(pol, pol.preds[1].cond, s, o) /\ ~Atom(pol, <<"pred", "none">>, s, o))
KindRight == at = 0 /\ o # <<>> /\ o[1].type = "Folder" => ~Granted(pol, "can", "edit", s, o)
\* without an object nothing about an object is true
NoObject == at = 0 /\ o = <<>> => (\A i \in 1..Len(chain.atoms) : chain.atoms[i][1] \in {"same", "self"} => ~Atom(pol, chain.atoms[i], s, o)) /\ ~Granted(pol, "can", "edit", s, o)
=============================================================================
