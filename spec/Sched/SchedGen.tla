------------------------------ MODULE SchedGen ------------------------------
(* Behaviour generator (run with -simulate): random walks of the runtime     *)
(* model, printed as the operations each task performed.                     *)
EXTENDS Sched, Json

CONSTANT MaxOps
VARIABLES s, prog, n, caps, first, out
vars == <<s, prog, n, caps, first, out>>

CapChoices == {<<0>>, <<1>>, <<2>>, <<0, 1>>, <<1, 1>>, <<0, 0>>, <<1, 2>>, <<-1, 0>>, <<0, 1, 2>>}

RECURSIVE AddChans(_, _, _)
AddChans(x, cs, k) == IF k > Len(cs) THEN x ELSE AddChans(AddChan(x, cs[k]), cs, k + 1)
(* every random choice goes through R so that TLC does not fold it away as a constant *)
R(S) == RandomElement({x \in S : n >= -1})

RECURSIVE AddTasks(_, _, _)
AddTasks(x, m, k) == IF k > m THEN x ELSE AddTasks(Spawned(x, k = 1, R(0..2)), m, k + 1)

Init == /\ caps = <<>> /\ first = 0 /\ s = InitState /\ prog = EmptyFun /\ n = -1 /\ out = FALSE

Setup == /\ n = -1
         /\ \E c \in {R(CapChoices)}, f \in {R(2..4)} :
              /\ caps' = c /\ first' = f
              /\ s' = AddTasks(AddChans(InitState, c, 1), f, 1)
              /\ prog' = [t \in 0..(f - 1) |-> <<>>]
         /\ n' = 0 /\ UNCHANGED out

RC == R(DOMAIN s.chans)
RT == R(DOMAIN s.tasks)
D == R(0..3)
Arm == CHOOSE a \in {IF R(1..4) = 1 THEN [a |-> "after", d |-> D, c |-> 0]
                     ELSE [a |-> "recv", c |-> RC, d |-> 0]} : TRUE
V == "i" \o ToString(n)

Kinds == <<"send","send","send","send","recv","recv","recv","recv","trysend","tryrecv","select","select",
           "select","select","sleep","sleep","close","await","await","abort","abort","spawn","newchan","yield","io","exit">>

RandOp(t) ==
  LET k == Kinds[R(1..Len(Kinds))] IN
  CASE k \in {"send", "trysend"} -> [o |-> k, c |-> RC, v |-> V]
    [] k \in {"recv", "tryrecv", "close"} -> [o |-> k, c |-> RC]
    [] k = "select" -> LET m == R(1..3) IN
         [o |-> k, arms |-> IF m = 1 THEN <<Arm>> ELSE IF m = 2 THEN <<Arm, Arm>> ELSE <<Arm, Arm, Arm>>]
    [] k = "sleep" -> [o |-> k, d |-> D]
    [] k \in {"await", "abort"} -> [o |-> k, t |-> RT]
    [] k = "spawn" -> IF Cardinality(DOMAIN s.tasks) >= 6 THEN [o |-> "yield"]
                      ELSE [o |-> k, k |-> NT(s), pri |-> R(0..2)]
    [] k = "newchan" -> IF Cardinality(DOMAIN s.chans) >= 4 THEN [o |-> "yield"]
                        ELSE [o |-> k, cap |-> R(-1..2)]
    [] k = "exit" -> [o |-> k, v |-> V]
    [] OTHER -> [o |-> k]

Alive(y) == y.ready # <<>> \/ y.timers # {}
(* prefer an operation that leaves something able to run *)
PickOp(d, t) ==
  LET a == RandOp(t) IN
  IF \E y \in Post(d, t, a, 1) : Alive(y) THEN a
  ELSE LET b == RandOp(t) IN IF \E y \in Post(d, t, b, 1) : Alive(y) THEN b ELSE RandOp(t)

Poll ==
  /\ n \in 0..(MaxOps - 1) /\ s.ready # <<>>
  /\ \E t \in {R(ReadySet(s))} :
       LET d == Dispatch(s, t) IN
       \E op \in {PickOp(d, t)} :
         /\ s' = R(Post(d, t, op, 1))
         /\ prog' = LET p == [prog EXCEPT ![t] = Append(@, op)]
                    IN IF op.o = "spawn" THEN (op.k :> <<>>) @@ p ELSE p
         /\ n' = n + 1
  /\ UNCHANGED <<caps, first, out>>
TickA == /\ n \in 0..(MaxOps - 1) /\ CanTick(s) /\ s' = R(Tick(s))
         /\ UNCHANGED <<prog, n, caps, first, out>>
WakeA == /\ n \in 0..(MaxOps - 1) /\ ~Alive(s) /\ \E t \in DOMAIN s.tasks : s.tasks[t].st = "io"
         /\ s' = WakeIo(s) /\ UNCHANGED <<prog, n, caps, first, out>>
Emit == /\ n >= 0 /\ (n >= MaxOps \/ (~Alive(s) /\ ~\E t \in DOMAIN s.tasks : s.tasks[t].st = "io")) /\ ~out
        /\ out' = TRUE
        /\ PrintT("GEN " \o ToJson([chans |-> caps, first |-> first,
               pri |-> [t \in 1..NT(s) |-> s.tasks[t - 1].pri],
               prog |-> [t \in 1..NT(s) |-> prog[t - 1]]]))
        /\ UNCHANGED <<s, prog, n, caps, first>>
Next == Setup \/ Poll \/ TickA \/ WakeA \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
