------------------------------ MODULE Journal ------------------------------
(* State kept in an append-only journal with compaction: the design.         *)
(*                                                                           *)
(* A process applies numbered updates to a grow-only state and appends each  *)
(* to the journal; compaction replaces the journal by one snapshot.  The     *)
(* process may die at any moment, an append being cut anywhere; the next     *)
(* process replays what is left.  Every piece of storage is one record:      *)
(*   [k |-> "d", u |-> S]  a delta,  [k |-> "s", u |-> S]  a snapshot,       *)
(*   [k |-> "t", u |-> {}] a torn record.                                    *)
(* What replay makes of the journal is Replay; the guarantee is Durable.     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Tasks,      \* task names
          Compactors, \* the tasks that compact; the others make update <task>
          HoldLock,   \* an operation keeps the state locked until the journal has it
          CutTail,    \* mounting cuts a torn record off the end
          Crashes     \* at most this many crashes

VARIABLES disk, mem, lock, pc, snap, made, acked, up, crashes
vars == <<disk, mem, lock, pc, snap, made, acked, up, crashes>>

None == "none"
RECURSIVE ReplayFrom(_, _, _)
ReplayFrom(d, i, s) ==
  IF i > Len(d) THEN [ok |-> TRUE, s |-> s]
  ELSE IF d[i].k = "t" THEN IF i = Len(d) THEN [ok |-> TRUE, s |-> s] ELSE [ok |-> FALSE, s |-> {}]
  ELSE ReplayFrom(d, i + 1, IF d[i].k = "s" THEN d[i].u ELSE s \cup d[i].u)
Replay(d) == ReplayFrom(d, 1, {})

(* the guarantee: a process started now finds every acknowledged update and  *)
(* nothing that was never made                                               *)
Durable == LET r == Replay(disk) IN r.ok /\ acked \subseteq r.s /\ r.s \subseteq made

Init == /\ disk = <<>> /\ mem = {} /\ lock = None /\ pc = [t \in Tasks |-> "idle"]
        /\ snap = [t \in Tasks |-> {}] /\ made = {} /\ acked = {} /\ up = TRUE /\ crashes = 0

Take(t) == /\ up /\ pc[t] = "idle" /\ lock = None
           /\ IF t \in Compactors
              THEN /\ snap' = [snap EXCEPT ![t] = mem] /\ UNCHANGED <<mem, made>>
              ELSE /\ mem' = mem \cup {t} /\ made' = made \cup {t} /\ snap' = [snap EXCEPT ![t] = mem']
           /\ lock' = IF HoldLock THEN t ELSE None
           /\ pc' = [pc EXCEPT ![t] = "store"]
           /\ UNCHANGED <<disk, acked, up, crashes>>
Store(t) == /\ up /\ pc[t] = "store"
            /\ disk' = IF t \in Compactors THEN <<[k |-> "s", u |-> snap[t]]>>
                       ELSE Append(disk, [k |-> "d", u |-> snap[t]])
            /\ pc' = [pc EXCEPT ![t] = "return"]
            /\ UNCHANGED <<mem, lock, snap, made, acked, up, crashes>>
Return(t) == /\ up /\ pc[t] = "return"
             /\ lock' = IF lock = t THEN None ELSE lock
             /\ acked' = IF t \in Compactors THEN acked ELSE acked \cup {t}
             /\ pc' = [pc EXCEPT ![t] = IF t \in Compactors THEN "idle" ELSE "done"]
             /\ UNCHANGED <<disk, mem, snap, made, up, crashes>>
(* the process dies, in the middle of some task's append or between steps *)
Die == /\ up /\ crashes < Crashes /\ up' = FALSE /\ crashes' = crashes + 1
       /\ \/ UNCHANGED disk
          \/ \E t \in Tasks \ Compactors : pc[t] = "store" /\ disk' = Append(disk, [k |-> "t", u |-> {}])
       /\ lock' = None /\ mem' = {}
       /\ pc' = [t \in Tasks |-> IF t \in Compactors \/ (t \notin made) THEN "idle" ELSE "done"]
       /\ snap' = [t \in Tasks |-> {}]
       /\ UNCHANGED <<made, acked>>
Mount == /\ ~up /\ Replay(disk).ok
         /\ up' = TRUE /\ mem' = Replay(disk).s
         /\ disk' = IF CutTail /\ disk # <<>> /\ disk[Len(disk)].k = "t" THEN SubSeq(disk, 1, Len(disk) - 1) ELSE disk
         /\ made' = mem' /\ acked' = mem'
         /\ UNCHANGED <<lock, pc, snap, crashes>>
Next == Die \/ Mount \/ \E t \in Tasks : Take(t) \/ Store(t) \/ Return(t)
Spec == Init /\ [][Next]_vars
=============================================================================
