------------------------------- MODULE Relay -------------------------------
(* A publish/subscribe hub.  Connections send frames over ordered links; the *)
(* hub handles one frame at a time and puts events and acknowledgements into *)
(* the ordered outbox of each connection.  The rules below are what the      *)
(* model checker confirms of the hub and what recorded runs are judged by.   *)
EXTENDS Integers, Sequences, FiniteSets

(* A history H: operations [o, c, t, m, b, r] with o \in {"sub","unsub",     *)
(* "pub","close"}, made by connection c on topic t, begun at tick b and      *)
(* known to have been handled by tick r.  Got[c]: events in arrival order,   *)
(* each [t, m].  Message ids are unique.                                     *)
(* What a connection sent just before dying may never have reached the hub.  *)
Inf == 1000000
Subs(H, c, t) == {i \in DOMAIN H : H[i].c = c /\ H[i].t = t /\ H[i].o = "sub"}
Unsubs(H, c, t) == {i \in DOMAIN H : H[i].c = c /\ H[i].t = t /\ H[i].o = "unsub"}
Closes(H, c) == {i \in DOMAIN H : H[i].c = c /\ H[i].o = "close"}
(* certainly subscribed for the whole duration of p *)
Surely(H, c, p) == \E s \in Subs(H, c, p.t) :
   /\ H[s].r < p.b
   /\ \A u \in Unsubs(H, c, p.t) : H[u].b > H[s].b => H[u].b > p.r
(* possibly subscribed at some moment of p *)
Maybe(H, c, p) == \E s \in Subs(H, c, p.t) :
   /\ H[s].b < p.r
   /\ \A u \in Unsubs(H, c, p.t) : H[u].b > H[s].b => H[u].r > p.b
Count(g, m) == Cardinality({i \in DOMAIN g : g[i].m = m})
DeliveredOK(H, c, g, p) ==
   LET n == Count(g, p.m) IN
   /\ n <= 1
   /\ (n = 1 => c # p.c /\ Maybe(H, c, p) /\ \A i \in DOMAIN g : g[i].m = p.m => g[i].t = p.t)
   /\ (c # p.c /\ Surely(H, c, p) /\ Closes(H, c) = {} /\ (p.r < Inf \/ Closes(H, p.c) = {}) => n = 1)
(* nothing that was not published *)
Genuine(H, g) == \A i \in DOMAIN g : \E k \in DOMAIN H : H[k].o = "pub" /\ H[k].m = g[i].m
(* one publisher's messages in the order it published them *)
InOrder(H, g) == \A i, j \in DOMAIN g : i < j =>
   \A a, b \in DOMAIN H : H[a].o = "pub" /\ H[b].o = "pub" /\ H[a].m = g[i].m /\ H[b].m = g[j].m /\ H[a].c = H[b].c => H[a].n < H[b].n
Pubs(H) == {k \in DOMAIN H : H[k].o = "pub"}
AllOK(H, Got, Conns) == \A c \in Conns :
   /\ Genuine(H, Got[c]) /\ InOrder(H, Got[c])
   /\ \A k \in Pubs(H) : DeliveredOK(H, c, Got[c], H[k])
=============================================================================
