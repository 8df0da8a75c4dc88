----------------------------- MODULE SchedTrace -----------------------------
(* Judges recorded runs of the real scheduler.  For each trace it tracks the  *)
(* set of specification states compatible with everything observed so far; a *)
(* trace is rejected at the first event that empties the set.                *)
EXTENDS Sched, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
NTr == Len(Traces)
W == 8

VARIABLES lane, tr, i, S
vars == <<lane, tr, i, S>>

RECURSIVE AddChans(_, _, _)
AddChans(s, caps, k) == IF k > Len(caps) THEN s ELSE AddChans(AddChan(s, caps[k]), caps, k + 1)
RECURSIVE AddTasks(_, _, _)
AddTasks(s, pris, k) == IF k > Len(pris) THEN s ELSE AddTasks(Spawned(s, k = 1, pris[k]), pris, k + 1)
Start(T) == AddTasks(AddChans(InitState, T.chans, 1), T.tasks, 1)

SnapOK(s, n) ==
  /\ s.clock = n.clock
  /\ Cardinality(ReadySet(s)) = n.ready
  /\ Cardinality(DOMAIN s.tasks) = Len(n.t)
  /\ \A t \in DOMAIN s.tasks : s.tasks[t].st = n.t[t + 1]
  /\ Cardinality(DOMAIN s.chans) = Len(n.c)
  /\ \A c \in DOMAIN s.chans :
       /\ Len(s.chans[c].q) = n.c[c + 1].d
       /\ Len(s.chans[c].snd) = n.c[c + 1].s
       /\ (s.chans[c].rcv # <<>>) = n.c[c + 1].r
       /\ s.chans[c].closed = n.c[c + 1].x

Sees(s, e) ==
  LET k == s.tasks[e.t] IN
  k.res = e.rv /\ k.arm = e.arm /\ k.nc = e.nc /\ k.sp = e.sp

Next1(T, e) ==
  CASE e.e = "poll" ->
         UNION {{x \in Post(Dispatch(s, e.t), e.t, e.op, T.dflt) : SnapOK(x, e.snap)}
                  : s \in {y \in S : e.t \in MayRun(y, T.policy) /\ Sees(y, e)}}
    [] e.e = "tick" -> UNION {{x \in Tick(s) : SnapOK(x, e.snap)} : s \in {y \in S : CanTick(y)}}
    [] e.e = "wakeio" -> {x \in {WakeIo(s) : s \in S} : SnapOK(x, e.snap)}
    [] e.e = "end" -> {s \in S : Outcome(s) = e.out}
    [] OTHER -> {}

StartLane(k) == IF k <= NTr THEN {Start(Traces[k])} ELSE {}

Init == /\ lane \in 1..W
        /\ tr = lane
        /\ i = 1
        /\ S = StartLane(lane)

Advance(k) == tr' = k + W /\ i' = 1 /\ S' = StartLane(k + W) /\ UNCHANGED lane

Next ==
  /\ tr <= NTr
  /\ LET T == Traces[tr] IN
     IF i > Len(T.ev) THEN Advance(tr)
     ELSE LET S2 == Next1(T, T.ev[i]) IN
          IF S2 = {}
          THEN /\ PrintT("REJECT " \o ToJson([id |-> T.id, step |-> i, event |-> T.ev[i],
                          expected |-> IF S = {} THEN <<>> ELSE CHOOSE s \in S : TRUE]))
               /\ Advance(tr)
          ELSE i' = i + 1 /\ S' = S2 /\ UNCHANGED <<lane, tr>>

Spec == Init /\ [][Next]_vars
=============================================================================
