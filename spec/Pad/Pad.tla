-------------------------------- MODULE Pad --------------------------------
(* One direction of a one-time pad: a sender that reserves pad bytes through *)
(* a durable ledger and may die at any moment, and a receiver that accepts   *)
(* records out of order but each at most once.                               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Size,        \* pad bytes of this direction
          Key,         \* bytes each record uses up beyond its own length
          MaxLen, MaxRec,
          Early        \* commit to the ledger before the record is emitted
VARIABLES cursor, ledger, sent, seen, newest, yielded, pc, Window
vars == <<cursor, ledger, sent, seen, newest, yielded, pc, Window>>

Range(rec) == rec.off..(rec.off + Key + rec.len - 1)
Init == /\ cursor = 0 /\ ledger = 0 /\ sent = <<>> /\ seen = {} /\ newest = 0 /\ yielded = <<>>
        /\ pc = [st |-> "idle", off |-> 0, len |-> 0] /\ Window \in {2, Size}
Fits(len) == cursor + Key + len <= Size
Reserve(len) == /\ pc.st = "idle" /\ Len(sent) < MaxRec /\ Fits(len)
                /\ ledger' = IF Early THEN cursor + Key + len ELSE ledger
                /\ pc' = [st |-> "emit", off |-> cursor, len |-> len]
                /\ cursor' = cursor + Key + len
                /\ UNCHANGED <<sent, seen, newest, yielded, Window>>
Emit == /\ pc.st = "emit" /\ sent' = Append(sent, [off |-> pc.off, len |-> pc.len])
        /\ pc' = [pc EXCEPT !.st = "commit"]
        /\ UNCHANGED <<cursor, ledger, seen, newest, yielded, Window>>
Commit == /\ pc.st = "commit" /\ ledger' = cursor /\ pc' = [pc EXCEPT !.st = "idle"]
          /\ UNCHANGED <<cursor, sent, seen, newest, yielded, Window>>
(* the sender dies and resumes from its ledger *)
Restart == /\ cursor' = ledger /\ pc' = [pc EXCEPT !.st = "idle"]
           /\ UNCHANGED <<ledger, sent, seen, newest, yielded, Window>>
(* a genuine record arrives, any one, any number of times *)
Floor == newest - Window
Accept(i) == LET f == sent[i] IN
  /\ IF f.off \in seen \/ f.off < Floor THEN UNCHANGED <<seen, newest, yielded>>
     ELSE /\ newest' = (IF f.off + Key + f.len > newest THEN f.off + Key + f.len ELSE newest)
          /\ seen' = {o \in seen \cup {f.off} : o >= newest' - Window}
          /\ yielded' = Append(yielded, i)
  /\ UNCHANGED <<cursor, ledger, sent, pc, Window>>
Next == \/ \E len \in 0..MaxLen : Reserve(len)
        \/ Emit \/ Commit \/ Restart \/ \E i \in DOMAIN sent : Accept(i)
Spec == Init /\ [][Next]_vars
NeverTwice == \A i, j \in DOMAIN sent : i # j => Range(sent[i]) \cap Range(sent[j]) = {}
InPad == \A i \in DOMAIN sent : sent[i].off + Key + sent[i].len <= Size
OnceEach == \A i, j \in DOMAIN yielded : i # j => sent[yielded[i]].off # sent[yielded[j]].off
=============================================================================
