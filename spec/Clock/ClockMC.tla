------------------------------- MODULE ClockMC -------------------------------
(* The hybrid clock rule itself, over every schedule of a few nodes whose    *)
(* physical clocks read anything: stamps grow along every chain and stay     *)
(* within the readings heard of.                                             *)
EXTENDS Clock
CONSTANTS Nodes, Readings, Events, Kinds
VARIABLES h, stamp
vars == <<h, stamp>>
Cur(n) == LET s == {e \in 1..Len(h) : h[e].node = n} IN IF s = {} THEN <<0, 0>> ELSE stamp[Top(s)]
M(a, b, c) == Max_(a, Max_(b, c))
Tick(l, now) == LET p == Max_(l[1], now) IN <<p, IF p = l[1] THEN l[2] + 1 ELSE 0>>
Recv(l, r, now) ==
  LET p == M(l[1], r[1], now) IN
  <<p, IF p = l[1] /\ p = r[1] THEN Max_(l[2], r[2]) + 1 ELSE IF p = l[1] THEN l[2] + 1 ELSE IF p = r[1] THEN r[2] + 1 ELSE 0>>
Init == h = <<>> /\ stamp = <<>>
Ev(n, k, now, f) == [node |-> n, kind |-> k, now |-> now, from |-> f, about |-> 0, lo |-> 0, hi |-> 0]
Next == /\ Len(h) < Events
        /\ \E n \in Nodes :
             \/ "tick" \in Kinds /\ \E now \in Readings : h' = Append(h, Ev(n, "tick", now, 0)) /\ stamp' = Append(stamp, Tick(Cur(n), now))
             \/ "recv" \in Kinds /\ \E now \in Readings, f \in 1..Len(h) : h' = Append(h, Ev(n, "recv", now, f)) /\ stamp' = Append(stamp, Recv(Cur(n), stamp[f], now))
             \/ "merge" \in Kinds /\ \E f \in 1..Len(h) : h' = Append(h, Ev(n, "merge", 0, f)) /\ stamp' = Append(stamp, IF Less(Cur(n), stamp[f]) THEN stamp[f] ELSE Cur(n))
Spec == Init /\ [][Next]_vars
Causal == Increases(h, stamp)
Bounded == NotAhead(h, stamp)
\* negative control: stamps of unrelated events need not be ordered
Wrong == \A d, e \in 1..Len(h) : d < e => Less(stamp[d], stamp[e])
=============================================================================
