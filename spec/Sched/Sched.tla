------------------------------- MODULE Sched -------------------------------
(* The deterministic task runtime: tasks, bounded channels, select, timers,  *)
(* await/abort, external I/O.  A state is one record; Post(s, tid, op) is the *)
(* SET of states the runtime may be in after task tid, which has just been    *)
(* resumed, asks for op.  The ready queue is a sequence of batches: tasks     *)
(* made ready by one and the same step are not ordered among themselves.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nothing == "N"
Unbounded == -1
Range(f) == {f[x] : x \in DOMAIN f}
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
Without(q, t) == SelectSeq(q, LAMBDA x : x # t)
WithoutSnd(q, t) == SelectSeq(q, LAMBDA x : x.t # t)

EmptyFun == [x \in {} |-> 0]

InitState == [tasks |-> EmptyFun, ready |-> <<>>, chans |-> EmptyFun,
              timers |-> {}, clock |-> 0, main |-> Nothing]

NewTask(main, pri) == [st |-> "ready", main |-> main, pri |-> pri,
                       res |-> Nothing, arm |-> -1, arms |-> <<>>,
                       nc |-> -1, sp |-> -1, on |-> -1, result |-> Nothing]
NewChan(cap) == [cap |-> cap, q |-> <<>>, snd |-> <<>>, rcv |-> <<>>, closed |-> FALSE]

NT(s) == Cardinality(DOMAIN s.tasks)      \* next task number
NC(s) == Cardinality(DOMAIN s.chans)      \* next channel number

AddChan(s, cap) == [s EXCEPT !.chans = (NC(s) :> NewChan(cap)) @@ @]
AddTask(s, main, pri) == [s EXCEPT !.tasks = (NT(s) :> NewTask(main, pri)) @@ @]
Batch(s, T) == IF T = {} THEN s ELSE [s EXCEPT !.ready = Append(@, T)]
Spawned(s, main, pri) == Batch(AddTask(s, main, pri), {NT(s)})

HasRoom(c) == c.cap = Unbounded \/ Len(c.q) < c.cap
CanRecv(c) == c.q # <<>> \/ c.snd # <<>> \/ c.closed

(* t resumes (when next picked) with value v and select arm a *)
Resume(s, t, v, a) ==
  [s EXCEPT !.tasks[t].st = "ready", !.tasks[t].res = v, !.tasks[t].arm = a,
            !.tasks[t].arms = <<>>, !.tasks[t].on = -1]

(* forget every registration of t on channels and timers *)
Unregister(s, t) ==
  [s EXCEPT !.chans = [c \in DOMAIN @ |-> [@[c] EXCEPT !.rcv = Without(@, t)]],
            !.timers = {x \in @ : x.t # t}]

ArmsOn(arms, ch) == {i \in DOMAIN arms : arms[i].a = "recv" /\ arms[i].c = ch}

(* hand v (or the closing of ch) to the waiting receiver t *)
Deliver(s, t, ch, v) ==
  LET arms == s.tasks[t].arms
      a    == IF s.tasks[t].st = "select" THEN SetMin(ArmsOn(arms, ch)) - 1 ELSE -1
  IN Resume(Unregister(s, t), t, v, a)

(* take one value out of channel ch: [s, v, woken] *)
Take(s, ch) ==
  LET c == s.chans[ch] IN
  IF c.q # <<>> THEN
    LET s1 == [s EXCEPT !.chans[ch].q = Tail(@)] IN
    IF c.snd # <<>> /\ HasRoom(s1.chans[ch]) THEN
      LET p == Head(c.snd)
          s2 == [s1 EXCEPT !.chans[ch].q = Append(@, p.v), !.chans[ch].snd = Tail(@)]
      IN [s |-> Resume(s2, p.t, Nothing, -1), v |-> Head(c.q), woken |-> {p.t}]
    ELSE [s |-> s1, v |-> Head(c.q), woken |-> {}]
  ELSE IF c.snd # <<>> THEN
    LET p == Head(c.snd) IN
    [s |-> Resume([s EXCEPT !.chans[ch].snd = Tail(@)], p.t, Nothing, -1),
     v |-> p.v, woken |-> {p.t}]
  ELSE [s |-> s, v |-> Nothing, woken |-> {}]

DoSend(s, t, ch, v, try) ==
  LET c == s.chans[ch]
      ok == IF try THEN "T" ELSE Nothing IN
  IF c.rcv # <<>> THEN
    LET r == Head(c.rcv) IN
    Batch(Resume(Deliver(s, r, ch, v), t, ok, -1), {r, t})
  ELSE IF HasRoom(c) THEN
    Batch(Resume([s EXCEPT !.chans[ch].q = Append(@, v)], t, ok, -1), {t})
  ELSE IF try THEN Batch(Resume(s, t, "F", -1), {t})
  ELSE [s EXCEPT !.chans[ch].snd = Append(@, [t |-> t, v |-> v]), !.tasks[t].st = "send"]

DoRecv(s, t, ch, try) ==
  LET c == s.chans[ch] IN
  IF CanRecv(c) \/ try THEN
    LET k == Take(s, ch) IN Batch(Resume(k.s, t, k.v, -1), k.woken \cup {t})
  ELSE [s EXCEPT !.chans[ch].rcv = Append(@, t), !.tasks[t].st = "recv"]

(* a select with an available receive arm takes exactly one of them *)
DoSelect(s, t, arms) ==
  LET avail == {i \in DOMAIN arms : arms[i].a = "recv" /\ CanRecv(s.chans[arms[i].c])} IN
  IF avail # {} THEN
    {LET k == Take(s, arms[i].c) IN Batch(Resume(k.s, t, k.v, i - 1), k.woken \cup {t})
       : i \in avail}
  ELSE
    LET on == {arms[i].c : i \in {j \in DOMAIN arms : arms[j].a = "recv"}} IN
    {[s EXCEPT !.chans = [c \in DOMAIN @ |->
                 IF c \in on THEN [@[c] EXCEPT !.rcv = Append(@, t)] ELSE @[c]],
               !.timers = @ \cup {[at |-> s.clock + arms[i].d, t |-> t, arm |-> i - 1]
                                    : i \in {j \in DOMAIN arms : arms[j].a = "after"}},
               !.tasks[t].st = "select", !.tasks[t].arms = arms]}

(* t has ended with result v: whoever awaited it resumes with v *)
Finish(s, t, v) ==
  LET W == {w \in DOMAIN s.tasks \ {t} : s.tasks[w].st = "await" /\ s.tasks[w].on = t}
      s1 == [s EXCEPT !.tasks = [x \in DOMAIN @ |->
               IF x = t THEN [@[x] EXCEPT !.st = "done", !.result = v]
               ELSE IF x \in W THEN [@[x] EXCEPT !.st = "ready", !.res = v, !.arm = -1, !.on = -1]
               ELSE @[x]]]
  IN [s |-> s1, woken |-> W]

DropReady(r, t) ==
  SelectSeq([i \in DOMAIN r |-> r[i] \ {t}], LAMBDA b : b # {})

DoAbort(s, target) ==
  IF target \notin DOMAIN s.tasks \/ s.tasks[target].st = "done"
  THEN [s |-> s, woken |-> {}]
  ELSE LET s1 == Unregister(s, target)
           s2 == [s1 EXCEPT !.chans = [c \in DOMAIN @ |-> [@[c] EXCEPT !.snd = WithoutSnd(@, target)]],
                            !.ready = DropReady(@, target)]
       IN Finish(s2, target, Nothing)

RECURSIVE CloseWake(_, _, _)
CloseWake(s, ch, W) ==
  IF W = {} THEN s
  ELSE LET t == CHOOSE x \in W : TRUE IN CloseWake(Deliver(s, t, ch, Nothing), ch, W \ {t})

DoClose(s, ch) ==
  LET W == Range(s.chans[ch].rcv)
      s1 == CloseWake([s EXCEPT !.chans[ch].closed = TRUE], ch, W)
  IN [s |-> s1, woken |-> W]

DefaultCap(op, dflt) == IF op.cap = -1 THEN dflt ELSE op.cap

(* all states possible after running task t asked for op *)
Post(s, t, op, dflt) ==
  CASE op.o = "yield" -> {Batch(Resume(s, t, Nothing, -1), {t})}
    [] op.o = "send"     -> {DoSend(s, t, op.c, op.v, FALSE)}
    [] op.o = "trysend"  -> {DoSend(s, t, op.c, op.v, TRUE)}
    [] op.o = "recv"     -> {DoRecv(s, t, op.c, FALSE)}
    [] op.o = "tryrecv"  -> {DoRecv(s, t, op.c, TRUE)}
    [] op.o = "select"   -> DoSelect(s, t, op.arms)
    [] op.o = "sleep"    -> {[s EXCEPT !.timers = @ \cup {[at |-> s.clock + op.d, t |-> t, arm |-> -1]},
                                       !.tasks[t].st = "sleep"]}
    [] op.o = "newchan"  -> {Batch([Resume(AddChan(s, DefaultCap(op, dflt)), t, Nothing, -1)
                                      EXCEPT !.tasks[t].nc = NC(s)], {t})}
    [] op.o = "spawn"    -> {Batch([Resume(AddTask(s, FALSE, op.pri), t, Nothing, -1)
                                      EXCEPT !.tasks[t].sp = NT(s)], {t, NT(s)})}
    [] op.o = "await"    -> IF op.t \notin DOMAIN s.tasks
                            THEN {Batch(Resume(s, t, Nothing, -1), {t})}
                            ELSE IF s.tasks[op.t].st = "done"
                            THEN {Batch(Resume(s, t, s.tasks[op.t].result, -1), {t})}
                            ELSE {[s EXCEPT !.tasks[t].st = "await", !.tasks[t].on = op.t]}
    [] op.o = "abort"    -> LET k == DoAbort(s, op.t) IN
                            IF op.t = t THEN {Batch(k.s, k.woken)}
                            ELSE {Batch(Resume(k.s, t, Nothing, -1), k.woken \cup {t})}
    [] op.o = "close"    -> LET k == DoClose(s, op.c) IN
                            {Batch(Resume(k.s, t, Nothing, -1), k.woken \cup {t})}
    [] op.o = "io"       -> {[s EXCEPT !.tasks[t].st = "io"]}
    [] op.o = "exit"     -> LET k == Finish(s, t, op.v)
                                s1 == IF s.tasks[t].main THEN [k.s EXCEPT !.main = op.v] ELSE k.s
                            IN {Batch(s1, k.woken)}

(* ------------------------------------------------------------ scheduling *)
ReadySet(s) == UNION Range(s.ready)

(* which ready tasks the policy may run next *)
MayRun(s, policy) ==
  IF s.ready = <<>> THEN {}
  ELSE CASE policy \in {"fifo", "rr"} -> s.ready[1]
         [] policy = "lifo"   -> s.ready[Len(s.ready)]
         [] policy = "random" -> ReadySet(s)
         [] policy = "priority" ->
              LET p == SetMax({s.tasks[t].pri : t \in ReadySet(s)})
                  B == {i \in DOMAIN s.ready : \E t \in s.ready[i] : s.tasks[t].pri = p}
              IN {t \in s.ready[SetMin(B)] : s.tasks[t].pri = p}

(* t leaves the ready queue and starts running; what it sees is res/arm/nc/sp *)
Dispatch(s, t) ==
  [s EXCEPT !.ready = DropReady(@, t), !.tasks[t].st = "run",
            !.tasks[t].res = Nothing, !.tasks[t].arm = -1,
            !.tasks[t].nc = -1, !.tasks[t].sp = -1]

(* no task ready: time jumps to the earliest deadline, everything due wakes *)
CanTick(s) == s.ready = <<>> /\ s.timers # {}
RECURSIVE FireAll(_, _, _)
FireAll(s, f, W) ==
  IF W = {} THEN s
  ELSE LET t == CHOOSE x \in W : TRUE
       IN FireAll(Resume(Unregister(s, t), t, Nothing, f[t]), f, W \ {t})
Tick(s) ==
  LET e == SetMin({x.at : x \in s.timers})
      due == {x \in s.timers : x.at = e}
      W == {x.t : x \in due}
      choices == {f \in [W -> {x.arm : x \in due}] : \A t \in W : \E x \in due : x.t = t /\ x.arm = f[t]}
  IN {Batch(FireAll([s EXCEPT !.clock = e], f, W), W) : f \in choices}

WakeIo(s) ==
  LET W == {t \in DOMAIN s.tasks : s.tasks[t].st = "io"}
  IN Batch([s EXCEPT !.tasks = [t \in DOMAIN @ |->
              IF t \in W THEN [@[t] EXCEPT !.st = "ready"] ELSE @[t]]], W)

Outcome(s) ==
  IF s.ready # <<>> \/ s.timers # {} THEN "running"
  ELSE IF \A t \in DOMAIN s.tasks : s.tasks[t].st = "done" THEN "done:" \o s.main
  ELSE IF \E t \in DOMAIN s.tasks : s.tasks[t].st = "io" THEN "io"
  ELSE "deadlock"
=============================================================================
