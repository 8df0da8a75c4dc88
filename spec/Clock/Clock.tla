-------------------------------- MODULE Clock --------------------------------
(* Hybrid logical clocks and clock estimates, judged from the outside.       *)
(* A history is a sequence of events [node, kind, now, from, about, lo, hi]: *)
(* a local event or a receipt (of the clock another event left behind) reads *)
(* the physical clock; a merge or an observation does not.  stamp[e] is      *)
(* <<physical, logical>> after event e, est[e] what is then known about each *)
(* peer.                                                                      *)
EXTENDS Integers, Sequences, FiniteSets

Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Prev(h, e) == LET s == {d \in 1..(e - 1) : h[d].node = h[e].node} IN IF s = {} THEN 0 ELSE CHOOSE d \in s : \A x \in s : x <= d
Stamps(k) == k \in {"tick", "recv"}
Hears(k) == k \in {"recv", "merge"}
Max_(a, b) == IF a > b THEN a ELSE b

\* the events that could have influenced e directly
Causes(h, e) == (IF Prev(h, e) = 0 THEN {} ELSE {Prev(h, e)}) \cup (IF Hears(h[e].kind) THEN {h[e].from} ELSE {})

\* the largest physical reading each event has heard of
RECURSIVE SeenUpTo(_, _, _)
SeenUpTo(h, e, acc) ==
  IF e > Len(h) THEN acc
  ELSE LET own == IF Stamps(h[e].kind) THEN h[e].now ELSE 0
           cs == {acc[d] : d \in Causes(h, e)}
           best == CHOOSE x \in cs \cup {own, 0} : \A y \in cs \cup {own, 0} : y <= x
       IN SeenUpTo(h, e + 1, Append(acc, best))
Seen(h) == SeenUpTo(h, 1, <<>>)

Increases(h, stamp) ==
  \A e \in 1..Len(h) : \A d \in Causes(h, e) :
    IF Stamps(h[e].kind) THEN Less(stamp[d], stamp[e]) ELSE ~Less(stamp[e], stamp[d])
NotAhead(h, stamp) == LET s == Seen(h) IN \A e \in 1..Len(h) : stamp[e][1] <= s[e]

\* what is known: the intervals heard of about each peer, and their common part
RECURSIVE FactsUpTo(_, _, _)
FactsUpTo(h, e, acc) ==
  IF e > Len(h) THEN acc
  ELSE LET old == IF Prev(h, e) = 0 THEN {} ELSE acc[Prev(h, e)]
           got == CASE h[e].kind = "merge" -> acc[h[e].from]
                    [] h[e].kind = "observe" -> {<<h[e].about, h[e].lo, h[e].hi>>}
                    [] OTHER -> {}
       IN FactsUpTo(h, e + 1, Append(acc, old \cup got))
Facts(h) == FactsUpTo(h, 1, <<>>)
Top(S) == CHOOSE x \in S : \A y \in S : y <= x
Low(S) == CHOOSE x \in S : \A y \in S : x <= y
Meet(fs, p) == <<p, Top({f[2] : f \in {g \in fs : g[1] = p}}), Low({f[3] : f \in {g \in fs : g[1] = p}})>>
Known(fs) == {Meet(fs, p) : p \in {f[1] : f \in fs}}
Estimates(h, est) == LET fs == Facts(h) IN \A e \in 1..Len(h) : {est[e][j] : j \in 1..Len(est[e])} = Known(fs[e])
=============================================================================
