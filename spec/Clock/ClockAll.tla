------------------------------- MODULE ClockAll -------------------------------
(* Every short history, printed for replay. *)
EXTENDS ClockMC, TLC, Json
Out == Len(h) = Events => PrintT("GEN " \o ToJson([h |-> h, base |-> "small"]))
=============================================================================
