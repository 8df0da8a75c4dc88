-------------------------------- MODULE Vfs --------------------------------
(* File storage as a map from paths to contents, confined to its root.       *)
(*                                                                           *)
(* A path string is given by its pieces between slashes; it names the place  *)
(* reached by dropping empty pieces and ".", and going up for "..", never    *)
(* above the root.  A store may refuse a string that goes up or ends in a    *)
(* slash; otherwise it acts on exactly the named place.                      *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE NormFrom(_, _, _)
NormFrom(p, i, acc) ==
  IF i > Len(p) THEN acc
  ELSE NormFrom(p, i + 1, CASE p[i] \in {"", "."} -> acc
                            [] p[i] = ".." -> IF acc = <<>> THEN <<>> ELSE SubSeq(acc, 1, Len(acc) - 1)
                            [] OTHER -> Append(acc, p[i]))
Norm(p) == NormFrom(p, 1, <<>>)
Odd(p) == (\E i \in DOMAIN p : p[i] = "..") \/ (Len(p) > 1 /\ p[Len(p)] = "")

(* files: function from places to contents; dirs: set of places, <<>> in it *)
Up(q) == {SubSeq(q, 1, k) : k \in 0..(Len(q) - 1)}
IsFile(s, q) == q \in DOMAIN s.files
IsDir(s, q) == q \in s.dirs
Fine(s) == /\ <<>> \in s.dirs /\ DOMAIN s.files \cap s.dirs = {}
           /\ \A q \in DOMAIN s.files \cup s.dirs : q # <<>> => Up(q) \subseteq s.dirs
Set(f, q, c) == [x \in DOMAIN f \cup {q} |-> IF x = q THEN c ELSE f[x]]
Drop(f, q) == [x \in DOMAIN f \ {q} |-> f[x]]
CanPut(s, q) == q # <<>> /\ ~IsDir(s, q) /\ \A a \in Up(q) : ~IsFile(s, a)
Put(s, q, c) == [files |-> Set(s.files, q, c), dirs |-> s.dirs \cup Up(q)]

(* outcome of an operation at a place: [ok, s (state after), v (value)] *)
Fail(s) == [ok |-> FALSE, s |-> s, v |-> ""]
Good(s, v) == [ok |-> TRUE, s |-> s, v |-> v]
Entries(s, q) == {[name |-> x[Len(x)], dir |-> x \in s.dirs] :
                  x \in {y \in DOMAIN s.files \cup s.dirs : Len(y) = Len(q) + 1 /\ SubSeq(y, 1, Len(q)) = q}}
Do(s, o, q, q2, c) ==
  CASE o = "read" -> IF IsFile(s, q) THEN Good(s, s.files[q]) ELSE Fail(s)
    [] o = "write" -> IF CanPut(s, q) THEN Good(Put(s, q, c), "") ELSE Fail(s)
    [] o = "append" -> IF CanPut(s, q) THEN Good(Put(s, q, IF IsFile(s, q) THEN s.files[q] \o c ELSE c), "") ELSE Fail(s)
    [] o = "exists" -> Good(s, IF IsFile(s, q) \/ IsDir(s, q) THEN "yes" ELSE "no")
    [] o = "remove" -> IF IsFile(s, q) THEN Good([s EXCEPT !.files = Drop(s.files, q)], "") ELSE Fail(s)
    [] o = "mkdir" -> IF ~IsFile(s, q) /\ \A a \in Up(q) : ~IsFile(s, a)
                      THEN Good([s EXCEPT !.dirs = @ \cup Up(q) \cup {q}], "") ELSE Fail(s)
    [] o = "rename" -> IF IsFile(s, q) /\ q2 # <<>> /\ ~IsDir(s, q2) /\ Up(q2) \subseteq s.dirs
                       THEN Good([s EXCEPT !.files = Set(Drop(s.files, q), q2, s.files[q])], "") ELSE Fail(s)
    [] o = "list" -> IF IsDir(s, q) THEN Good(s, Entries(s, q)) ELSE Fail(s)
Ops == {"read", "write", "append", "exists", "remove", "mkdir", "rename", "list"}
=============================================================================
