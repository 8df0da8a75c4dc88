SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Budget = 5
  Caps <- CapsDef
  Policies = {"random"}
  Alphabet = {"send", "trysend", "recv", "tryrecv", "close", "select", "await", "abort", "sleep", "io"}
INVARIANTS Capacity BlockedJustified ExactlyOnce Fifo OnlyAbortLoses Places EndIsRight
