----------------------------- MODULE JournalGen -----------------------------
(* Random histories of a journaled state: sessions of operations, each ended *)
(* by the process dying at some change of the storage, some after damage.    *)
(* Mode "serial": one caller, every cut of every change within reach.        *)
(* Mode "conc": several callers and remote updates, a schedule that decides  *)
(* which storage change happens and returns next.                            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES n, kind, sess, todo, u
vars == <<n, kind, sess, todo, u>>
Conc == IOEnv.MODE = "conc"
R(S) == RandomElement({x \in S : n >= -1})
Pick(s) == s[R(1..Len(s))]
Cuts == <<0, 1, 3, 4, 7, 8, 9, 11, 12, 15, 16, 17, 20, 0 - 1, 0 - 2, 0 - 5, 0 - 9, 40, 10000>>
Init == n = -1 /\ kind = "p" /\ sess = <<>> /\ todo = 0 /\ u = 0
Setup == /\ n = -1 /\ n' = 0 /\ kind' = Pick(<<"p", "p", "d">>) /\ todo' = IF Conc THEN R(1..2) ELSE R(2..4)
         /\ UNCHANGED <<sess, u>>
(* a caller's list of operations; updates are numbered from b *)
Op(b) == LET x == R(1..8) IN x
OpOf(x, b) == CASE x <= 4 -> [o |-> "mut", u |-> b]
                [] x = 5 -> [o |-> "compact"]
                [] x = 6 -> IF kind = "p" THEN [o |-> "maybe", t |-> R(1..4)] ELSE [o |-> "compact"]
                [] OTHER -> [o |-> "get"]
List(b, len) == [i \in 1..len |-> OpOf(R(1..(IF Conc THEN 7 ELSE 8)), b + i)]
Crash(m) == IF R(1..4) = 1 /\ ~Conc THEN [at |-> 0, cut |-> 0] ELSE [at |-> R(1..m), cut |-> Pick(Cuts)]
Damage == [part |-> R(0..5), off |-> R(0..999), bit |-> R(0..7)]
Serial == \E len \in {R(1..6)} :
  LET big == R(1..40) = 1
      l == IF big THEN <<[o |-> "bulk", n |-> R(998..1003)], [o |-> "get"]>> ELSE List(u, len)
  IN \E c \in {IF R(1..5) = 1 THEN [at |-> 0, cut |-> 0] ELSE [at |-> R(1..(len + 1)), cut |-> Pick(Cuts)]} :
     /\ sess' = Append(sess, IF n + 1 = todo /\ n > 0 /\ R(1..3) = 1
                             THEN [tasks |-> <<l>>, crash |-> c, damage |-> Damage]
                             ELSE [tasks |-> <<l>>, crash |-> c])
     /\ u' = u + len
Several == \E k \in {R(2..4)}, rem \in {IF kind = "d" THEN R(0..2) ELSE 0} :
  \E ls \in {[i \in 1..k |-> List(u + 3 * i, R(1..2))]} :
     /\ sess' = Append(sess, [tasks |-> ls, remote |-> [i \in 1..rem |-> u + 15 + i],
                              crash |-> IF R(1..3) = 1 THEN [at |-> R(1..5), cut |-> Pick(Cuts)] ELSE [at |-> 0, cut |-> 0],
                              sched |-> [i \in 1..R(12..30) |-> R(0..11)]])
     /\ u' = u + 20
Grow == n >= 0 /\ n < todo /\ n' = n + 1 /\ (IF Conc THEN Several ELSE Serial) /\ UNCHANGED <<kind, todo>>
(* a last session that only looks *)
Emit == /\ n >= 0 /\ n = todo /\ n' = n + 1
        /\ PrintT("GEN " \o ToJson([kind |-> kind, sessions |-> Append(sess, [tasks |-> <<>>])]))
        /\ UNCHANGED <<kind, sess, todo, u>>
Next == Setup \/ Grow \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
