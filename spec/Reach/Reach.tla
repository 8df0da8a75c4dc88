------------------------------- MODULE Reach -------------------------------
(* Transition systems described by formulas over n two-valued signals.      *)
(* A state is a sequence of n truth values.  A formula is a tuple: the      *)
(* operator and its operands; <<"a", i>> is signal i now, <<"b", i>> signal *)
(* i one step later.                                                        *)
EXTENDS Integers, Sequences, FiniteSets

States(n) == [1..n -> BOOLEAN]
RECURSIVE Eval(_, _, _)
Eval(e, s, t) ==
  CASE e[1] = "a" -> s[e[2]]
    [] e[1] = "b" -> t[e[2]]
    [] e[1] = "not" -> ~Eval(e[2], s, t)
    [] e[1] = "and" -> Eval(e[2], s, t) /\ Eval(e[3], s, t)
    [] e[1] = "or" -> Eval(e[2], s, t) \/ Eval(e[3], s, t)
    [] e[1] = "iff" -> Eval(e[2], s, t) = Eval(e[3], s, t)
    [] e[1] = "if" -> Eval(e[2], s, t) => Eval(e[3], s, t)
Is(e, s) == Eval(e, s, s)

\* m: a system [n, init, trans, prop]
Start(m) == {s \in States(m.n) : Is(m.init, s)}
Steps(m) == {p \in States(m.n) \X States(m.n) : Eval(m.trans, p[1], p[2])}
After(S, E) == {p[2] : p \in {q \in E : q[1] \in S}}
Violates(m, S) == \E s \in S : ~Is(m.prop, s)
\* the least number of steps after which a violation can be met, up to most; -1 when there is none
RECURSIVE Depth(_, _, _, _, _)
Depth(m, E, S, k, most) ==
  IF Violates(m, S) THEN k ELSE IF k = most THEN -1 ELSE Depth(m, E, After(S, E), k + 1, most)
RECURSIVE All(_, _)
All(S, E) == LET T == S \cup After(S, E) IN IF T = S THEN S ELSE All(T, E)
Invariant(m, E) == ~Violates(m, All(Start(m), E))
Total(m, E) == \A s \in States(m.n) : \E p \in E : p[1] = s
\* a sequence of states is an execution that ends in a violation
Witness(m, tr, k) ==
  /\ Len(tr) >= k + 1
  /\ Is(m.init, tr[1])
  /\ \A i \in 1..k : Eval(m.trans, tr[i], tr[i + 1])
  /\ ~Is(m.prop, tr[k + 1])
=============================================================================
