-------------------------------- MODULE Crdt --------------------------------
(* What replicated data means.  The history is a table of update events; a   *)
(* replica is the set of updates it has received (adds) and the set of those *)
(* it knows to be removed again (kills).  Merging unites; every read is a    *)
(* function of these two sets alone - that is convergence.                   *)
EXTENDS Integers, Sequences, FiniteSets

Empty == [adds |-> {}, kills |-> {}]
Join(a, b) == [adds |-> a.adds \cup b.adds, kills |-> a.kills \cup b.kills]
Live(st) == st.adds \ st.kills

RECURSIVE SumOf(_, _)
SumOf(ev, I) == IF I = {} THEN 0
                ELSE LET i == CHOOSE x \in I : TRUE IN ev[i].n + SumOf(ev, I \ {i})

Latest(ev, I) == CHOOSE i \in I : \A j \in I : ev[j].ts <= ev[i].ts

(* remove-wins: a side that holds no live add of the element although it has *)
(* seen one the other side still holds has removed it, and that wins.        *)
ElemsOf(ev, st) == {ev[i].v : i \in st.adds}
LiveOf(ev, st, x) == {i \in Live(st) : ev[i].v = x}
RwDrops(ev, a, b) == {x \in ElemsOf(ev, a) \cup ElemsOf(ev, b) :
      \/ LiveOf(ev, a, x) = {} /\ LiveOf(ev, b, x) \cap a.adds # {}
      \/ LiveOf(ev, b, x) = {} /\ LiveOf(ev, a, x) \cap b.adds # {}}
RwJoin(ev, a, b) ==
  LET j == Join(a, b)
  IN [j EXCEPT !.kills = @ \cup {i \in j.adds : ev[i].v \in RwDrops(ev, a, b)}]

Merge(ty, ev, a, b) == IF ty = "rw" THEN RwJoin(ev, a, b) ELSE Join(a, b)

(* what a replica in state st must read; sequences are judged separately     *)
Value(ty, ev, st) ==
  CASE ty \in {"gc", "pnc"} -> SumOf(ev, st.adds)
    [] ty = "lww" -> IF st.adds = {} THEN 0 ELSE ev[Latest(ev, st.adds)].v
    [] ty = "mv" -> {ev[i].v : i \in {k \in st.adds : \A j \in st.adds : k \notin ev[j].seen}}
    [] ty \in {"aw", "rw"} -> {ev[i].v : i \in Live(st)}
    [] ty = "map" -> {<<k, SumOf(ev, {i \in st.adds : ev[i].v = k})>> : k \in {ev[i].v : i \in {d \in Live(st) : ev[d].dot}}}
    [] ty = "vc" -> {<<r, Cardinality({i \in st.adds : ev[i].r = r})>> : r \in {ev[i].r : i \in st.adds}}
    [] ty \in {"rga", "yata"} -> Live(st)

IsSeq(ty) == ty \in {"rga", "yata"}

(* a local update, as event number n at a replica in state st *)
Update(ev, st, n) == [st EXCEPT !.adds = @ \cup {n}]
Remove(ev, st, x) == [st EXCEPT !.kills = @ \cup {i \in st.adds : ev[i].v = x}]

(* ---------------------------------------------------------- sequences *)
Range(s) == {s[i] : i \in DOMAIN s}
Before(s) == {<<s[p[1]], s[p[2]]>> : p \in {q \in (DOMAIN s) \X (DOMAIN s) : q[1] < q[2]}}
NoDup(s) == Cardinality(Range(s)) = Len(s)

(* ancestors in the tree "inserted behind" (0 = the head) *)
RECURSIVE Anc(_, _)
Anc(ev, i) == IF i = 0 THEN {} ELSE {ev[i].p} \cup Anc(ev, ev[i].p)
(* what stands between an element and one inserted behind it was itself inserted behind the former *)
Contiguous(ev, s) ==
  \A a \in DOMAIN s, b \in DOMAIN s :
     a < b /\ s[a] \in Anc(ev, s[b]) => \A m \in a..b : m = a \/ s[a] \in Anc(ev, s[m])
AfterParent(ev, s) == \A b \in DOMAIN s : \A a \in DOMAIN s : s[a] \in Anc(ev, s[b]) => a < b

RECURSIVE Closure(_, _)
Closure(R, k) == IF k = 0 THEN R
  ELSE LET T == R \cup {<<p[1][1], p[2][2]>> : p \in {q \in R \X R : q[1][2] = q[2][1]}}
       IN IF T = R THEN R ELSE Closure(T, k - 1)
Acyclic(R) == \A p \in Closure(R, 6) : p[1] # p[2]
=============================================================================
