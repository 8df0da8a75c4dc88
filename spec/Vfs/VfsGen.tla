------------------------------- MODULE VfsGen -------------------------------
(* Random uses of a file store, with well-behaved, odd and hostile paths.    *)
(* "@OUT" stands for the absolute path of a directory beside the root.       *)
EXTENDS Vfs, TLC, Json
VARIABLES n, steps, todo
vars == <<n, steps, todo>>
R(S) == RandomElement({x \in S : n >= -1})
Pick(l) == l[R(1..Len(l))]
Plain == << <<"a">>, <<"b">>, <<"a.tmp">>, <<"a.txt">>, <<"a.json">>, <<"d", "x">>, <<"d", "x.tmp">>, <<"d", "x.y">>,
            <<"d", "e", "z">>, <<"d">>, <<"d", "e">>, <<"a", "q">>, <<".h">>, <<"B">>, <<"a.txt.tmp">>, <<"b.bak">> >>
Variants == << <<"", "a">>, <<"", "", "a.txt">>, <<".", "a">>, <<"d", ".", "x">>, <<"d", "", "x">>, <<"d", "x", "">>, <<"">>, <<".">>, <<"", "">> >>
Hostile == << <<"..", "a">>, <<"..">>, <<"d", "..">>, <<"d", "..", "a">>, <<"d", "..", "..", "out", "secret">>, <<"..", "out", "secret">>,
              <<"..", "", "@OUT", "secret">>, <<"", "..", "", "@OUT", "secret">>, <<"", "..", "out", "secret">>, <<"..", "", "..", "out", "secret">>,
              <<".", "..", "out", "secret">>, <<"d", "e", "..", "..", "..", "out", "new">>, <<"", "@OUT", "secret">>, <<"@OUT", "secret">>,
              <<".", "", "..", "out">>, <<"a", "..", "..", "out", "secret">>, <<"d", "..", "..", "out">>, <<"..", "", "@OUT">>, <<".", ".", "..", "root", "a">>,
              <<"..", ".", "..", "out", "secret">>, <<"d", "..", "..", "root", "a.txt">> >>
APath == LET k == R(1..10) IN k
PathOf(k) == IF k <= 6 THEN Pick(Plain) ELSE IF k = 7 THEN Pick(Variants) ELSE Pick(Hostile)
OpSeq == <<"read", "read", "write", "write", "write", "append", "append", "exists", "remove", "mkdir", "rename", "rename", "list", "list">>
Init == n = -1 /\ steps = <<>> /\ todo = 0
Setup == n = -1 /\ n' = 0 /\ todo' = R(6..22) /\ UNCHANGED steps
Grow == /\ n >= 0 /\ n < todo /\ n' = n + 1 /\ UNCHANGED todo
        /\ \E o \in {Pick(OpSeq)}, p \in {PathOf(R(1..10))}, p2 \in {PathOf(R(1..10))} :
           steps' = Append(steps, [o |-> o, p |-> p, p2 |-> p2, c |-> "c" \o ToString(n) \o Pick(<<".", ".", "..............", "">>),
                                   lim |-> IF o = "write" THEN Pick(<<0 - 1, 0 - 1, 0 - 1, 0 - 1, 0, 1, 4>>) ELSE 0 - 1])
Emit == n >= 0 /\ n = todo /\ n' = n + 1 /\ PrintT("GEN " \o ToJson([steps |-> steps])) /\ UNCHANGED <<steps, todo>>
Next == Setup \/ Grow \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
