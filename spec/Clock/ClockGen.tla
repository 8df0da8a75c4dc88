------------------------------- MODULE ClockGen -------------------------------
(* Longer histories: clocks that stall and jump back, stale and repeated     *)
(* messages, estimates heard in any order.                                   *)
EXTENDS Clock, TLC, Json
VARIABLES n, h
vars == <<n, h>>
R(S) == RandomElement({x \in S : n >= -1})
Pick(s) == s[R(1..Len(s))]
Now == Pick(<<R(1..4), 5, 5, R(1..20), 1000 + R(0..2)>>)
Ev == [node |-> R(1..4), kind |-> Pick(<<"tick", "tick", "recv", "recv", "recv", "merge", "merge", "observe", "observe">>), now |-> Now,
       from |-> IF h = <<>> THEN 0 ELSE Pick(<<R(1..Len(h)), Len(h)>>), about |-> R(1..3), lo |-> R(0..60), hi |-> R(40..99)]
Fit(e) == IF h = <<>> /\ Hears(e.kind) THEN [e EXCEPT !.kind = "tick"] ELSE e
Init == n = 0 /\ h = <<>>
Next == /\ n' = n + 1
        /\ \E e \in {Ev} : h' = Append(h, Fit(e))
        /\ (n' = 18 => PrintT("GEN " \o ToJson([h |-> h', base |-> Pick(<<"small", "today", "edge">>)])))
Spec == Init /\ [][Next]_vars
=============================================================================
