------------------------------- MODULE CrdtMC -------------------------------
(* The designs behind the replicated types - per-replica maxima, vector      *)
(* clocks, dots with a version vector, timestamped trees - explored for every *)
(* small history and compared with the meaning given in Crdt.                *)
EXTENDS Crdt, TLC
CONSTANTS Ops, Kinds
NR == 3
Reps == 1..NR
VARIABLES ty, ev, rep, con, ops
vars == <<ty, ev, rep, con, ops>>

Zero == [r \in Reps |-> 0]
Max(a, b) == IF a >= b THEN a ELSE b
VMax(a, b) == [r \in Reps |-> Max(a[r], b[r])]
VLeq(a, b) == \A r \in Reps : a[r] <= b[r]

Con0 == CASE ty = "pnc" -> [p |-> Zero, m |-> Zero]
          [] ty = "mv" -> {}
          [] ty = "aw" -> [ent |-> {}, clk |-> Zero]
          [] ty = "rga" -> [nodes |-> {}, dead |-> {}, ts |-> 0]
          [] ty = "lww" -> [v |-> 0, ts |-> 0]

(* ----------------------------------------------------------- concrete *)
RECURSIVE SumV(_, _)
SumV(f, R) == IF R = {} THEN 0 ELSE LET r == CHOOSE x \in R : TRUE IN f[r] + SumV(f, R \ {r})

(* tree order: children of a node newest first, depth first *)
Newer(a, b) == ev[a].ts > ev[b].ts \/ (ev[a].ts = ev[b].ts /\ ev[a].r > ev[b].r)
RECURSIVE Walk(_, _), WalkAll(_, _)
Walk(N, p) == WalkAll(N, {i \in N : ev[i].p = p})
WalkAll(N, C) == IF C = {} THEN <<>>
  ELSE LET i == CHOOSE x \in C : \A y \in C \ {x} : Newer(x, y)
       IN <<i>> \o Walk(N, i) \o WalkAll(N, C \ {i})
Visible(c) == SelectSeq(Walk(c.nodes, 0), LAMBDA i : i \notin c.dead)

Read(c) == CASE ty = "pnc" -> SumV(c.p, Reps) - SumV(c.m, Reps)
             [] ty = "mv" -> {ev[x.e].v : x \in c}
             [] ty = "aw" -> {x.v : x \in c.ent}
             [] ty = "lww" -> c.v
             [] ty = "rga" -> Visible(c)

ConMerge(a, b) ==
  CASE ty = "pnc" -> [p |-> VMax(a.p, b.p), m |-> VMax(a.m, b.m)]
    [] ty = "mv" -> {x \in a \cup b : ~\E y \in a \cup b : y.vc # x.vc /\ VLeq(x.vc, y.vc)}
    [] ty = "aw" -> [ent |-> {x \in a.ent : x \in b.ent \/ x.c > b.clk[x.r]} \cup {x \in b.ent : x \in a.ent \/ x.c > a.clk[x.r]},
                     clk |-> VMax(a.clk, b.clk)]
    [] ty = "lww" -> IF b.ts >= a.ts THEN b ELSE a
    [] ty = "rga" -> [nodes |-> a.nodes \cup b.nodes, dead |-> a.dead \cup b.dead, ts |-> Max(a.ts, b.ts)]

RECURSIVE VJoin(_)
VJoin(c) == IF c = {} THEN Zero ELSE LET x == CHOOSE y \in c : TRUE IN VMax(x.vc, VJoin(c \ {x}))

(* --------------------------------------------------------------- steps *)
Next0 == Len(ev) + 1
E(r, v, n, ts, p) == [r |-> r, v |-> v, n |-> n, ts |-> ts, p |-> p, dot |-> TRUE, seen |-> rep[r].adds]
Log(e, r, c) == /\ ev' = Append(ev, e)
                /\ rep' = [rep EXCEPT ![r] = Update(ev, @, Next0)]
                /\ con' = [con EXCEPT ![r] = c]
Upd(r) ==
  CASE ty = "pnc" -> \E n \in {2, -1} :
         Log(E(r, 0, n, 0, 0), r, IF n > 0 THEN [con[r] EXCEPT !.p[r] = @ + n] ELSE [con[r] EXCEPT !.m[r] = @ - n])
    [] ty = "lww" -> Log(E(r, Next0, 0, Next0, 0), r, [v |-> Next0, ts |-> Next0])
    [] ty = "mv" -> Log(E(r, Next0, 0, 0, 0), r, {[e |-> Next0, vc |-> [VJoin(con[r]) EXCEPT ![r] = @ + 1]]})
    [] ty = "aw" -> \E v \in 1..2 :
         LET k == con[r].clk[r] + 1 IN
         Log(E(r, v, 0, 0, 0), r, [ent |-> con[r].ent \cup {[v |-> v, r |-> r, c |-> k]}, clk |-> [con[r].clk EXCEPT ![r] = k]])
    [] ty = "rga" -> \E k \in 0..Len(Visible(con[r])) :
         LET t == con[r].ts + 1
             p == IF k = 0 THEN 0 ELSE Visible(con[r])[k]
         IN Log(E(r, k, 0, t, p), r, [con[r] EXCEPT !.nodes = @ \cup {Next0}, !.ts = t])
Del(r) ==
  CASE ty = "aw" -> \E v \in Read(con[r]) :
         /\ con' = [con EXCEPT ![r].ent = {x \in @ : x.v # v}]
         /\ rep' = [rep EXCEPT ![r] = Remove(ev, @, v)] /\ UNCHANGED ev
    [] ty = "rga" -> \E k \in DOMAIN Visible(con[r]) :
         /\ con' = [con EXCEPT ![r].dead = @ \cup {Visible(con[r])[k]}]
         /\ rep' = [rep EXCEPT ![r].kills = @ \cup {Visible(con[r])[k]}] /\ UNCHANGED ev
    [] OTHER -> FALSE
Mrg(r, s) == /\ con' = [con EXCEPT ![r] = ConMerge(con[r], con[s])]
             /\ rep' = [rep EXCEPT ![r] = Join(rep[r], rep[s])] /\ UNCHANGED ev

Init == /\ ty \in Kinds /\ ev = <<>> /\ rep = [r \in Reps |-> Empty]
        /\ con = [r \in Reps |-> Con0] /\ ops = 0
Next == /\ ops < Ops /\ ops' = ops + 1 /\ UNCHANGED ty
        /\ \E r \in Reps : Upd(r) \/ Del(r) \/ \E s \in Reps \ {r} : Mrg(r, s)
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------- invariants *)
Means == \A r \in Reps :
  IF ty = "rga" THEN LET s == Read(con[r]) IN Range(s) = Live(rep[r]) /\ NoDup(s) /\ Contiguous(ev, s) /\ AfterParent(ev, s)
  ELSE Read(con[r]) = Value(ty, ev, rep[r])
Laws == \A a \in Reps, b \in Reps :
  LET ab == ConMerge(con[a], con[b]) IN
  /\ Read(ab) = Read(ConMerge(con[b], con[a]))
  /\ Read(ConMerge(ab, con[b])) = Read(ab)
  /\ \A c \in Reps : Read(ConMerge(ab, con[c])) = Read(ConMerge(con[a], ConMerge(con[b], con[c])))
(* one order for all replicas *)
OneOrder == ty = "rga" => \A a \in Reps, b \in Reps :
  LET x == Before(Visible(con[a])) y == Before(Visible(con[b])) IN \A q \in x : <<q[2], q[1]>> \notin y
(* a local insertion stands where it was put *)
Where == [][ty = "rga" /\ Len(ev') > Len(ev) => \A r \in Reps : ev'[Len(ev')].r = r =>
   LET old == Visible(con[r]) k == ev'[Len(ev')].v
   IN (Visible(con[r]))' = SubSeq(old, 1, k) \o <<Len(ev')>> \o SubSeq(old, k + 1, Len(old))]_vars
=============================================================================
