------------------------------ MODULE ReachMC ------------------------------
(* Every system of up to two signals given by its graph: walking the graph   *)
(* agrees with the depth computed by levels; induction over k steps is       *)
(* sound; searching with interchangeable signals ordered is as good.         *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Careful, MaxEdges
S == {0, 1, 2, 3}           \* two signals: 0 = neither, 1 = first, 2 = second, 3 = both
VARIABLES init, bad, edges, at, k
vars == <<init, bad, edges, at, k>>
After(X) == {p[2] : p \in {q \in edges : q[1] \in X}}
RECURSIVE Level(_, _), Path(_, _, _)
Level(X, j) == IF j = 0 THEN X ELSE Level(After(X), j - 1)
Depth(X) == IF \E j \in 0..4 : Level(X, j) \cap bad # {} THEN CHOOSE j \in 0..4 : Level(X, j) \cap bad # {} /\ \A i \in 0..(j - 1) : Level(X, i) \cap bad = {} ELSE -1
\* good states one after another, then a bad one
Path(X, j, g) == IF j = 0 THEN X ELSE Path(After(X \cap g), j - 1, g)
Inductive(j) == Path(S, j, S \ bad) \cap bad = {}
Base(j) == \A i \in 0..(j - 1) : Level(init, i) \cap bad = {}
Swap(x) == CASE x = 1 -> 2 [] x = 2 -> 1 [] OTHER -> x
Same == /\ {Swap(x) : x \in init} = init
        /\ {Swap(x) : x \in bad} = bad
        /\ {<<Swap(p[1]), Swap(p[2])>> : p \in edges} = edges
Init == /\ init \in SUBSET S \ {{}} /\ bad \in SUBSET S /\ edges \in {E \in SUBSET (S \X S) : Cardinality(E) <= MaxEdges}
        /\ at \in init /\ k = 0
Next == /\ k < 4 /\ \E p \in edges : p[1] = at /\ at' = p[2]
        /\ k' = k + 1 /\ UNCHANGED <<init, bad, edges>>
Spec == Init /\ [][Next]_vars
\* a walk never meets a violation before the computed depth
DepthRight == at \in bad => Depth(init) >= 0 /\ Depth(init) <= k
InductionRight == \A j \in 1..2 : Base(j) /\ Inductive(j) => at \notin bad
OrderRight == (Careful => Same) => Depth({x \in init : x # 1}) = Depth(init)
=============================================================================
