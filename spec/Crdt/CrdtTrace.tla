----------------------------- MODULE CrdtTrace ------------------------------
(* Judges recorded histories of real replicas.  S = the set of joint replica *)
(* states still compatible with every read; deltas are allowed to carry fewer *)
(* removals than the full state (documented), hence the set.                 *)
EXTENDS Crdt, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
NTr == Len(Traces)
W == 8
VARIABLES lane, tr, i, S, ev, ord, rd
vars == <<lane, tr, i, S, ev, ord, rd>>
(* S: set of [rep: 1..3 -> state, slot: Seq(delta candidates)]; ev: event table indexed by event number;
   ord: pairs <<a,b>> read in that order anywhere; rd: last sequence read per replica *)

Set(s) == {s[k] : k \in DOMAIN s}
ReadOK(ty, e, st, got) ==
  CASE ty \in {"gc", "pnc", "lww"} -> got = Value(ty, e, st)
    [] ty = "mv" -> Set(got) = Value(ty, e, st)
    [] IsSeq(ty) -> NoDup(got) /\ Set(got) = Live(st) /\ AfterParent(e, got) /\ Contiguous(e, got)
    [] OTHER -> NoDup(got) /\ Set(got) = Value(ty, e, st)

(* what a delta from s (state b), asked for by a replica then in state v, may carry *)
ExactDelta(ty) == ty \in {"pnc", "mv", "map", "yata"}
DeltaOf(ty, v, b) ==
  IF ExactDelta(ty) THEN {b}
  ELSE LET dead == b.kills \ v.adds  \* added and removed again since v
           old == b.kills \cap v.adds
           \* live updates v already had may be repeated; only the remove-wins rule can tell
           again == IF ty = "rw" THEN SUBSET (Live(b) \cap v.adds) ELSE {Live(b) \cap v.adds}
       IN {[adds |-> (Live(b) \ v.adds) \cup Z \cup X \cup Y, kills |-> X \cup Y]
             : <<X, Y, Z>> \in (SUBSET dead) \X (SUBSET old) \X again}

With(s, r, st) == [s EXCEPT !.rep[r] = st]
Keep(ty, e, r, got, X) == {s \in X : ReadOK(ty, e, s.rep[r], got)}

NewEv(T, e, seen) ==
  [r |-> e.r, v |-> e.op.v, n |-> e.op.n, ts |-> e.op.ts, p |-> e.op.p, dot |-> e.op.dot, seen |-> seen]

Splice(s, k, x) == SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)

(* -> [S, ev, ord, rd]; S = {} means rejected *)
Judge(T, e) ==
  LET ty == T.ty IN
  CASE e.e = "upd" ->
         LET ev2 == ev @@ (e.op.id :> NewEv(T, e, UNION {s.rep[e.r].adds : s \in S}))
             S2 == {With(s, e.r, Update(ev2, s.rep[e.r], e.op.id)) : s \in S}
             local == IsSeq(ty) => e.read = Splice(rd[e.r], e.op.at, e.op.id)
         IN [S |-> IF local THEN Keep(ty, ev2, e.r, e.read, S2) ELSE {}, ev |-> ev2, r |-> e.r, got |-> e.read]
    [] e.e = "del" ->
         LET S2 == IF IsSeq(ty)
                   THEN {With(s, e.r, [s.rep[e.r] EXCEPT !.kills = @ \cup {e.op.v}]) : s \in S}
                   ELSE {With(s, e.r, Remove(ev, s.rep[e.r], e.op.v)) : s \in S}
             local == IsSeq(ty) => e.read = Without(rd[e.r], e.op.v)
         IN [S |-> IF local THEN Keep(ty, ev, e.r, e.read, S2) ELSE {}, ev |-> ev, r |-> e.r, got |-> e.read]
    [] e.e = "merge" ->
         [S |-> Keep(ty, ev, e.r, e.read, {With(s, e.r, Merge(ty, ev, s.rep[e.r], s.rep[e.s])) : s \in S}),
          ev |-> ev, r |-> e.r, got |-> e.read]
    [] e.e = "delta" ->
         [S |-> Keep(ty, ev, e.r, e.read,
                  IF e.some
                  THEN UNION {{With(s, e.r, Merge(ty, ev, s.rep[e.r], d)) : d \in DeltaOf(ty, s.rep[e.r], s.rep[e.s])} : s \in S}
                  ELSE {With(s, e.r, Merge(ty, ev, s.rep[e.r], s.rep[e.s])) : s \in S}),
          ev |-> ev, r |-> e.r, got |-> e.read]
    [] e.e = "save" ->
         [S |-> UNION {{[s EXCEPT !.slot = Append(@, d)] : d \in DeltaOf(ty, s.rep[e.r], s.rep[e.s])} : s \in S},
          ev |-> ev, r |-> 0, got |-> <<>>]
    [] e.e = "apply" ->
         [S |-> Keep(ty, ev, e.r, e.read, {With(s, e.r, Merge(ty, ev, s.rep[e.r], s.slot[e.slot])) : s \in S}),
          ev |-> ev, r |-> e.r, got |-> e.read]
    [] e.e = "laws" ->
         [S |-> {s \in S :
                 LET a == s.rep[e.a] b == s.rep[e.b] c == s.rep[e.c]
                     ab == Merge(ty, ev, a, b) IN
                 /\ ReadOK(ty, ev, ab, e.ab) /\ e.ba = e.ab
                 /\ ReadOK(ty, ev, Merge(ty, ev, ab, c), e.abc)
                 /\ e.aa = e.a0 /\ e.abb = e.ab /\ e.aba = e.ab
                 /\ e.serde = e.a0
                 /\ (e.d # <<>> => /\ e.d[1] = e.ab            \* delta, then the full state
                                   /\ e.d[2] = e.d[3])        \* the same delta twice = once
                 },
          ev |-> ev, r |-> 0, got |-> <<>>]
    [] e.e = "assoc" -> [S |-> IF e.abc = e.acb /\ e.abc = e.a_bc THEN S ELSE {}, ev |-> ev, r |-> 0, got |-> <<>>]
    [] e.e = "final" -> [S |-> IF /\ \A k \in DOMAIN e.reads : e.reads[k] = e.reads[1]
                                  /\ e.equal THEN S ELSE {},
                         ev |-> ev, r |-> 0, got |-> <<>>]
    [] e.e = "order" -> [S |-> IF Acyclic(ord) THEN S ELSE {}, ev |-> ev, r |-> 0, got |-> <<>>]
    [] e.e = "causal" ->   \* vector clocks: dominates iff it has received everything the other has
         [S |-> {s \in S : \A k \in DOMAIN e.dom :
                   LET a == s.rep[e.dom[k].a] b == s.rep[e.dom[k].b] IN
                   /\ e.dom[k].d = (b.adds \subseteq a.adds)
                   /\ e.dom[k].c = (~(b.adds \subseteq a.adds) /\ ~(a.adds \subseteq b.adds))},
          ev |-> ev, r |-> 0, got |-> <<>>]
    [] OTHER -> [S |-> {}, ev |-> ev, r |-> 0, got |-> <<>>]

Start == {[rep |-> [r \in 1..3 |-> Empty], slot |-> <<>>]}
NoEv == [x \in {} |-> 0]
Fresh(k) == IF k <= NTr THEN Start ELSE {}

Init == /\ lane \in 1..W /\ tr = lane /\ i = 1 /\ S = Fresh(lane)
        /\ ev = NoEv /\ ord = {} /\ rd = [r \in 1..3 |-> <<>>]
Advance(k) == /\ tr' = k + W /\ i' = 1 /\ S' = Fresh(k + W) /\ ev' = NoEv /\ ord' = {}
              /\ rd' = [r \in 1..3 |-> <<>>] /\ UNCHANGED lane

Next ==
  /\ tr <= NTr
  /\ LET T == Traces[tr] IN
     IF i > Len(T.ev) THEN Advance(tr)
     ELSE LET e == T.ev[i] j == Judge(T, e) IN
          IF j.S = {} /\ e.e = "assoc" /\ T.ty = "rw"
          THEN \* reported on its own so that the rest of the history is still judged
               /\ PrintT("REJECT " \o ToJson([id |-> T.id, step |-> i, law |-> "assoc", ty |-> T.ty, event |-> e]))
               /\ i' = i + 1 /\ UNCHANGED <<lane, tr, S, ev, ord, rd>>
          ELSE IF j.S = {} /\ e.e = "final" /\ T.ty = "rw" /\ e.rwsplit
          THEN /\ PrintT("REJECT " \o ToJson([id |-> T.id, step |-> i, law |-> "assoc", ty |-> T.ty, event |-> e]))
               /\ Advance(tr)
          ELSE IF j.S = {}
          THEN /\ PrintT("REJECT " \o ToJson([id |-> T.id, step |-> i, law |-> e.e, ty |-> T.ty, event |-> e,
                          expected |-> IF S = {} THEN <<>> ELSE <<(CHOOSE s \in S : TRUE).rep>>]))
               /\ Advance(tr)
          ELSE /\ i' = i + 1 /\ S' = j.S /\ ev' = j.ev /\ UNCHANGED <<lane, tr>>
               /\ rd' = IF j.r = 0 THEN rd ELSE [rd EXCEPT ![j.r] = IF IsSeq(T.ty) THEN j.got ELSE <<>>]
               /\ ord' = IF j.r # 0 /\ IsSeq(T.ty) THEN ord \cup Before(j.got) ELSE ord
Spec == Init /\ [][Next]_vars
=============================================================================
