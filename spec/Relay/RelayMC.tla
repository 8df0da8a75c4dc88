------------------------------ MODULE RelayMC ------------------------------
(* The hub as a machine: every interleaving of link delivery obeys the rules *)
(* of Relay by the time everything in flight has arrived.                    *)
EXTENDS Relay, TLC
CONSTANTS Ops
Conns == {1, 2, 3}
Topics == {"x", "y"}
VARIABLES link, subs, outbox, got, H, n, now
vars == <<link, subs, outbox, got, H, n, now>>
Init == /\ link = [c \in Conns |-> <<>>] /\ subs = {} /\ outbox = [c \in Conns |-> <<>>]
        /\ got = [c \in Conns |-> <<>>] /\ H = <<>> /\ n = 0 /\ now = 0
(* a connection issues a frame *)
Issue(c, o, t) == /\ n < Ops /\ n' = n + 1 /\ now' = now + 1
                  /\ H' = Append(H, [o |-> o, c |-> c, t |-> t, m |-> n + 1, b |-> now, r |-> Inf, n |-> n + 1])
                  /\ link' = [link EXCEPT ![c] = Append(@, n + 1)]
                  /\ UNCHANGED <<subs, outbox, got>>
(* the hub handles the next frame of a connection *)
Handle(c) == /\ link[c] # <<>> /\ now' = now + 1
             /\ LET k == Head(link[c]) f == H[k] IN
                /\ link' = [link EXCEPT ![c] = Tail(@)]
                /\ H' = [H EXCEPT ![k].r = now]
                /\ subs' = CASE f.o = "sub" -> subs \cup {<<c, f.t>>}
                             [] f.o = "unsub" -> subs \ {<<c, f.t>>}
                             [] f.o = "close" -> {s \in subs : s[1] # c}
                             [] OTHER -> subs
                /\ outbox' = IF f.o = "pub" THEN [d \in Conns |-> IF d # c /\ <<d, f.t>> \in subs THEN Append(outbox[d], [t |-> f.t, m |-> f.m]) ELSE outbox[d]]
                             ELSE outbox
             /\ UNCHANGED <<got, n>>
Arrive(c) == /\ outbox[c] # <<>> /\ got' = [got EXCEPT ![c] = Append(@, Head(outbox[c]))]
             /\ outbox' = [outbox EXCEPT ![c] = Tail(@)] /\ UNCHANGED <<link, subs, H, n, now>>
Closed(c) == \E k \in DOMAIN H : H[k].c = c /\ H[k].o = "close"
Next == \/ \E c \in Conns, t \in Topics, o \in {"sub", "unsub", "pub", "close"} :
             ~Closed(c) /\ (o = "close" => t = "x") /\ (t = "y" => o \in {"pub", "sub"} /\ c # 3) /\ Issue(c, o, t)
        \/ \E c \in Conns : Handle(c) \/ Arrive(c)
Quiet == \A c \in Conns : link[c] = <<>> /\ outbox[c] = <<>>
Rules == Quiet => AllOK(H, got, Conns)
Spec == Init /\ [][Next]_vars
=============================================================================
