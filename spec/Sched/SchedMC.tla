------------------------------ MODULE SchedMC ------------------------------
(* Exhaustive exploration of the runtime model with small constants: every   *)
(* task may ask for every operation at every point; the invariants are the   *)
(* channel and life-cycle guarantees.                                        *)
EXTENDS Sched

CapsDef == {<<0>>, <<1>>, <<0, 1>>}
CONSTANTS Budget, Caps, Policies, Alphabet

VARIABLES s, used, acc, seen, lost, policy
vars == <<s, used, acc, seen, lost, policy>>

NTasks == 3
Chans == DOMAIN s.chans
Tasks == DOMAIN s.tasks

RECURSIVE AddChans(_, _, _)
AddChans(x, caps, k) == IF k > Len(caps) THEN x ELSE AddChans(AddChan(x, caps[k]), caps, k + 1)

Init == /\ \E caps \in Caps :
             s = Spawned(Spawned(Spawned(AddChans(InitState, caps, 1), TRUE, 0), FALSE, 0), FALSE, 1)
        /\ policy \in Policies
        /\ used = 0
        /\ acc = [c \in DOMAIN s.chans |-> <<>>]
        /\ seen = <<>>
        /\ lost = {}

V(n) == "i" \o ToString(n)

Ops == {op \in
   {[o |-> "send", c |-> c, v |-> V(used)] : c \in Chans}
   \cup {[o |-> "trysend", c |-> c, v |-> V(used)] : c \in Chans}
   \cup {[o |-> "recv", c |-> c] : c \in Chans}
   \cup {[o |-> "tryrecv", c |-> c] : c \in Chans}
   \cup {[o |-> "close", c |-> c] : c \in Chans}
   \cup {[o |-> "select", arms |-> <<[a |-> "recv", c |-> 0], [a |-> "recv", c |-> c]>>] : c \in Chans}
   \cup {[o |-> "select", arms |-> <<[a |-> "recv", c |-> c], [a |-> "after", d |-> 1]>>] : c \in Chans}
   \cup {[o |-> "await", t |-> t] : t \in Tasks}
   \cup {[o |-> "abort", t |-> t] : t \in Tasks}
   \cup {[o |-> "sleep", d |-> 1], [o |-> "sleep", d |-> 2], [o |-> "io"]}
   : op.o \in Alphabet}

Vals(q) == [k \in DOMAIN q |-> q[k].v]
Held(x) == UNION {Range(x.chans[c].q) \cup Range(Vals(x.chans[c].snd)) : c \in DOMAIN x.chans}
             \cup {x.tasks[t].res : t \in DOMAIN x.tasks}

Accepted(x, op, y, t) == op.o = "send" \/ (op.o = "trysend" /\ y.tasks[t].res = "T")

Poll ==
  \E t \in MayRun(s, policy) :
    LET v == s.tasks[t].res
        d == Dispatch(s, t)
        fin == used >= Budget
    IN \E op \in IF fin THEN {[o |-> "exit", v |-> Nothing]} ELSE Ops \cup {[o |-> "exit", v |-> Nothing]} :
       \E y \in Post(d, t, op, 1) :
         /\ s' = y
         /\ used' = used + 1
         /\ seen' = IF v \in {Nothing, "T", "F"} THEN seen ELSE Append(seen, v)
         /\ lost' = lost \cup (((Held(s) \ {v}) \ Held(y)) \ {Nothing, "T", "F"})
         /\ acc' = IF Accepted(d, op, y, t) THEN [acc EXCEPT ![op.c] = Append(@, op.v)] ELSE acc
         /\ UNCHANGED policy

TickA == CanTick(s) /\ s' \in Tick(s) /\ UNCHANGED <<used, acc, seen, lost, policy>>
WakeA == /\ s.ready = <<>> /\ s.timers = {} /\ \E t \in Tasks : s.tasks[t].st = "io"
         /\ used < Budget /\ s' = WakeIo(s) /\ UNCHANGED <<used, acc, seen, lost, policy>>

Next == Poll \/ TickA \/ WakeA
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------- invariants *)
Capacity == \A c \in Chans : s.chans[c].cap # Unbounded => Len(s.chans[c].q) <= s.chans[c].cap
BlockedJustified ==
  \A c \in Chans : LET k == s.chans[c] IN
    /\ k.snd # <<>> => k.rcv = <<>> /\ ~HasRoom(k)
    /\ k.rcv # <<>> => k.q = <<>> /\ k.snd = <<>> /\ ~k.closed
InSet == Range(seen)
ExactlyOnce ==
  /\ Cardinality(InSet) = Len(seen)
  /\ \A t1, t2 \in Tasks : t1 # t2 /\ s.tasks[t1].res \notin {Nothing, "T", "F"} => s.tasks[t1].res # s.tasks[t2].res
  /\ \A c \in Chans : Range(acc[c]) \subseteq InSet \cup Held(s) \cup lost
(* what a channel still holds is, in order, the tail of what it accepted *)
RECURSIVE SubSeqOf(_, _)
SubSeqOf(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
                  ELSE IF Head(a) = Head(b) THEN SubSeqOf(Tail(a), Tail(b)) ELSE SubSeqOf(a, Tail(b))
Fifo ==
  \A c \in Chans :
    LET left == s.chans[c].q \o Vals(s.chans[c].snd)
        a == SelectSeq(acc[c], LAMBDA v : v \notin lost)
        n == Len(a) - Len(left)
    IN n >= 0 /\ SubSeq(a, n + 1, Len(a)) = left
OnlyAbortLoses == (\A t \in Tasks : s.tasks[t].st # "done") => lost = {}
Places ==
  \A t \in Tasks :
    LET k == s.tasks[t]
        inReady == {j \in DOMAIN s.ready : t \in s.ready[j]}
        inRcv == {c \in Chans : t \in Range(s.chans[c].rcv)}
        inSnd == {c \in Chans : \E x \in Range(s.chans[c].snd) : x.t = t}
        inTim == {x \in s.timers : x.t = t}
    IN /\ Cardinality(inReady) = IF k.st = "ready" THEN 1 ELSE 0
       /\ (inSnd # {}) = (k.st = "send")
       /\ k.st = "recv" => Cardinality(inRcv) = 1
       /\ k.st \in {"ready", "done", "await", "io", "send", "sleep"} => inRcv = {}
       /\ k.st \in {"ready", "done", "await", "io", "send", "recv"} => inTim = {}
       /\ k.st = "sleep" => inTim # {}
EndIsRight ==
  LET o == Outcome(s) IN
    /\ o = "deadlock" => \E t \in Tasks : s.tasks[t].st \in {"send", "recv", "select", "await"}
    /\ (\A t \in Tasks : s.tasks[t].st = "done") => o # "deadlock"
=============================================================================
