----------------------------- MODULE ReachTrace -----------------------------
(* Recorded verdicts and counterexamples, judged by Reach. *)
EXTENDS Reach, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Traces)
VARIABLES lane, tr
vars == <<lane, tr>>
T == Traces[tr]
\* E: the steps of the system, d: where the first violation is
Search(m, E, d, a) ==
  CASE a.by = "incremental" /\ ~Total(m, E) -> IF a.ans = "found" /\ ~Witness(m, a.tr, a.k) THEN a.by \o ": no execution" ELSE ""
    [] a.ans = "found" -> IF d # a.k THEN a.by \o ": wrong depth" ELSE IF Witness(m, a.tr, a.k) THEN "" ELSE a.by \o ": no execution"
    [] a.ans = "none" -> IF d = -1 THEN "" ELSE a.by \o ": violation missed"
    [] OTHER -> a.by \o ": " \o a.ans
Prove(m, E, a) ==
  CASE a.ans = "proven" -> IF Invariant(m, E) THEN "" ELSE "induction: proved but false"
    [] a.ans = "found" -> IF Depth(m, E, Start(m), 0, 20) # a.k THEN "induction: wrong depth" ELSE IF Witness(m, a.tr, a.k) THEN "" ELSE "induction: no execution"
    [] a.ans = "not inductive" -> IF T.k = 0 \/ Depth(m, E, Start(m), 0, T.k - 1) = -1 THEN "" ELSE "induction: violation missed"
    [] OTHER -> "induction: " \o a.ans
Fires(m, a) == CASE a.ans = "dead" -> IF Start(m) = {} THEN "" ELSE "vacuity: not dead"
                 [] a.ans = "live" -> IF Is(m.init, a.tr[1]) THEN "" ELSE "vacuity: no witness"
                 [] OTHER -> "vacuity: " \o a.ans
\* engines that answer for all depths; a counterexample may come without its execution
Engine(m, E, a) ==
  CASE a.ans = "safe" -> IF Invariant(m, E) THEN "" ELSE a.by \o ": proved but false"
    [] a.ans = "unsafe" -> IF Invariant(m, E) THEN a.by \o ": refuted but true"
                           ELSE IF a.tr = <<>> \/ Witness(m, a.tr, Len(a.tr) - 1) THEN "" ELSE a.by \o ": no execution"
    [] a.ans = "unknown" -> ""
    [] OTHER -> a.by \o ": " \o a.ans
\* signals said to be interchangeable really are
Swapped(s, p) == [i \in 1..Len(s) |-> IF i = p[1] THEN s[p[2]] ELSE IF i = p[2] THEN s[p[1]] ELSE s[i]]
Alike(m, E, p) == /\ \A s \in States(m.n) : Is(m.init, s) = Is(m.init, Swapped(s, p)) /\ Is(m.prop, s) = Is(m.prop, Swapped(s, p))
                  /\ \A e \in States(m.n) \X States(m.n) : (e \in E) = (<<Swapped(e[1], p), Swapped(e[2], p)>> \in E)
Why == LET m == T.m E == Steps(T.m) d == Depth(T.m, E, Start(T.m), 0, T.most) IN
       ({Search(m, E, d, T.search[i]) : i \in 1..Len(T.search)} \cup {Prove(m, E, T.prove), Fires(m, T.fires)}
         \cup {Engine(m, E, T.engines[i]) : i \in 1..Len(T.engines)}
         \cup {IF Alike(m, E, T.pairs[i]) THEN "" ELSE "symmetry: not interchangeable" : i \in 1..Len(T.pairs)}) \ {""}
Init == /\ lane \in 1..32 /\ tr = lane
Next == /\ tr <= N
        /\ LET w == Why IN IF w = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([id |-> T.id, why |-> CHOOSE x \in w : TRUE, m |-> T.m, most |-> T.most, k |-> T.k, search |-> T.search]))
        /\ tr' = tr + 32
        /\ UNCHANGED lane
Spec == Init /\ [][Next]_vars
=============================================================================
