------------------------------- MODULE SatGen -------------------------------
(* Clause sets of many shapes, with calls to make on them.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES n, case
vars == <<n, case>>
R(S) == RandomElement({x \in S : n >= -1})
Pick(s) == s[R(1..Len(s))]
Flip(v) == IF R(1..2) = 1 THEN v ELSE -v

\* sequences of random things
RECURSIVE Lits(_, _), Clauses(_, _, _)
Lits(k, v) == IF k = 0 THEN <<>> ELSE <<Flip(R(1..v))>> \o Lits(k - 1, v)
\* z chooses how long a clause is
Clauses(m, v, z) == IF m = 0 THEN <<>> ELSE <<Lits(Pick(z), v)>> \o Clauses(m - 1, v, z)
RECURSIVE Horn(_, _)
Horn(m, v) == IF m = 0 THEN <<>>
              ELSE <<(IF R(1..4) = 1 THEN <<>> ELSE <<R(1..v)>>) \o [i \in 1..R(0..3) |-> -R(1..v)]>> \o Horn(m - 1, v)
Bits(p) == [i \in 1..3 |-> (p \div (IF i = 1 THEN 1 ELSE IF i = 2 THEN 2 ELSE 4)) % 2]
\* the clauses of x1 + .. + xk = r modulo two
Ones(p, k) == LET b == Bits(p) IN b[1] + (IF k > 1 THEN b[2] ELSE 0) + (IF k > 2 THEN b[3] ELSE 0)
RECURSIVE Parity(_, _, _)
Parity(xs, r, p) ==
  LET k == Len(xs) IN
  IF p = (IF k = 1 THEN 2 ELSE IF k = 2 THEN 4 ELSE 8) THEN <<>>
  ELSE (IF (Ones(p, k) % 2) # r THEN <<[i \in 1..k |-> IF Bits(p)[i] = 1 THEN -xs[i] ELSE xs[i]]>> ELSE <<>>) \o Parity(xs, r, p + 1)
RECURSIVE Equations(_, _), Expand(_, _)
Equations(m, v) == IF m = 0 THEN <<>>
                   ELSE LET a == R(1..v) IN
                        <<[r |-> R(0..1), x |-> (CASE R(1..3) = 1 -> <<R(1..(v - 1)), v>> [] OTHER -> <<R(1..(v - 2)), v - 1, v>>)]>> \o Equations(m - 1, IF v > 3 /\ R(1..2) = 1 THEN v - 1 ELSE v)
Expand(q, i) == IF i > Len(q) THEN <<>> ELSE Parity(q[i].x, q[i].r, 0) \o Expand(q, i + 1)
RECURSIVE Rows(_, _, _), Pairs(_, _, _, _)
\* p pigeons in h holes: variable (i-1)*h+j says pigeon i sits in hole j
Rows(i, p, h) == IF i > p THEN <<>> ELSE <<[j \in 1..h |-> (i - 1) * h + j]>> \o Rows(i + 1, p, h)
Hole(i, k, p, h) == [j \in 1..h |-> <<-((i - 1) * h + j), -((k - 1) * h + j)>>]
Pairs(i, k, p, h) == IF i >= p THEN <<>> ELSE IF k > p THEN Pairs(i + 1, i + 2, p, h) ELSE Hole(i, k, p, h) \o Pairs(i, k + 1, p, h)
\* at most one per row as well
RECURSIVE One(_, _, _, _)
One(i, j, p, h) == IF i > p THEN <<>> ELSE IF j >= h THEN One(i + 1, 1, p, h)
                   ELSE [k \in 1..(h - j) |-> <<-((i - 1) * h + j), -((i - 1) * h + j + k)>>] \o One(i, j + 1, p, h)
RECURSIVE Edges(_, _, _)
Edges(m, p, h) == IF m = 0 THEN <<>> ELSE LET i == R(1..(p - 1)) IN (\* one edge of a graph to be coloured
                  Hole(i, R((i + 1)..p), p, h)) \o Edges(m - 1, p, h)
Turn(l, k, v) == IF l > 0 THEN ((l - 1 + k) % v) + 1 ELSE -((((-l) - 1 + k) % v) + 1)
RECURSIVE Turns(_, _, _, _)
Turns(cs, i, k, v) == IF i > Len(cs) THEN <<>> ELSE IF k = v THEN Turns(cs, i + 1, 0, v)
                      ELSE <<[j \in 1..Len(cs[i]) |-> Turn(cs[i][j], k, v)]>> \o Turns(cs, i, k + 1, v)
Shift(cs, by) == [i \in 1..Len(cs) |-> [j \in 1..Len(cs[i]) |-> IF cs[i][j] > 0 THEN cs[i][j] + by ELSE cs[i][j] - by]]
\* clauses that a given model satisfies
RECURSIVE Planted(_, _, _)
True_(m) == R({IF m[v] = 1 THEN v ELSE -v : v \in DOMAIN m})
Planted(k, v, m) == IF k = 0 THEN <<>>
                    ELSE <<<<True_(m), Flip(R(1..v)), Flip(R(1..v))>>>> \o Planted(k - 1, v, m)
Drop(cs, i) == [j \in 1..(Len(cs) - 1) |-> IF j < i THEN cs[j] ELSE cs[j + 1]]
\* now and then one clause fewer or one more
Bent(cs, v) == CASE R(1..3) = 1 /\ Len(cs) > 0 -> Drop(cs, R(1..Len(cs)))
                 [] R(1..4) = 1 -> cs \o <<Lits(R(1..3), v)>>
                 [] OTHER -> cs

\* what is asked of one solver, one call after another
RECURSIVE Calls(_, _)
Calls(k, v) == IF k = 0 THEN <<>>
               ELSE << CASE R(1..3) = 1 -> [o |-> "add", c |-> Lits(R(1..3), v), k |-> 0]
                         [] R(1..6) = 1 -> [o |-> "solve", c |-> <<>>, k |-> 0]
                         [] R(1..6) = 1 -> [o |-> "budget", c |-> <<>>, k |-> R(1..6)]
                         [] OTHER -> [o |-> "assume", c |-> Lits(R(0..3), v), k |-> 0] >> \o Calls(k - 1, v)
RECURSIVE Good(_, _, _)
Good(k, v, m) == IF k = 0 THEN <<>>      \* calls that keep the planted model
                 ELSE << IF R(1..2) = 1 THEN [o |-> "add", c |-> <<True_(m), Flip(R(1..v)), Flip(R(1..v))>>, k |-> 0]
                         ELSE [o |-> "assume", c |-> [i \in 1..R(0..6) |-> True_(m)], k |-> 0] >> \o Good(k - 1, v, m)

Give(kind, v, cs, calls, eqs, size) ==
  case' = [kind |-> kind, v |-> v, f |-> cs, calls |-> calls, eqs |-> eqs, size |-> size,
           steps |-> Clauses(R(1..4), v, <<0, 1, 1, 2, 2, 3>>),
           pr |-> [i \in 1..6 |-> [c |-> Lits(R(1..3), v), w |-> Lits(R(1..4), v)]],
           sr |-> [i \in 1..4 |-> [c |-> Lits(R(1..2), v), a |-> R(1..v), b |-> R(1..v), s |-> R(1..3)]]]

Small == \E v \in {R(2..8)} :
  \E p \in {R(1..9)} :
    CASE p = 1 -> Give("random", v, Clauses(R(1..(5 * v)), v, <<1, 2, 2, 3, 3, 3>>), Calls(6, v), <<>>, "small")
      [] p = 2 -> Give("threes", v, Clauses(R((2 * v)..(5 * v)), v, <<3>>), Calls(6, v), <<>>, "small")
      [] p = 3 -> Give("twos", v, Clauses(R(v..(2 * v)), v, <<1, 2, 2, 2, 2>>), Calls(6, v), <<>>, "small")
      [] p = 4 -> Give("horn", v, Horn(R(v..(3 * v)), v), Calls(6, v), <<>>, "small")
      [] p = 5 -> \E w \in {v + 2} : \E q \in {Equations(R(2..(w + 1)), w)} :
                    Give("parity", w, IF R(1..3) = 1 THEN Bent(Expand(q, 1), w) ELSE Expand(q, 1), Calls(6, w), q, "small")
      [] p = 6 -> \E h \in {R(1..3)} : \E q \in {R(2..4)} :
                    Give("holes", q * h, Bent(Rows(1, q, h) \o Pairs(1, 2, q, h) \o (IF R(1..2) = 1 THEN One(1, 1, q, h) ELSE <<>>), q * h), Calls(6, q * h), <<>>, "small")
      [] p = 7 -> \E h \in {R(2..3)} : \E q \in {R(3..4)} :
                    Give("colours", q * h, Bent(Rows(1, q, h) \o (IF R(1..2) = 1 THEN One(1, 1, q, h) ELSE <<>>) \o Edges(R(2..6), q, h), q * h), Calls(6, q * h), <<>>, "small")
      [] p = 8 -> \E w \in {R(3..7)} : Give("turning", w, Bent(Turns(Clauses(R(1..3), w, <<2, 2, 3, 3, 4>>), 1, 0, w), w), Calls(6, w), <<>>, "small")
      [] p = 9 -> \E w \in {R(2..5)} : \E a \in {Clauses(R(w..(4 * w)), w, <<2, 3, 3>>)} :
                    Give("apart", 2 * w, Bent(a \o Shift(IF R(1..2) = 1 THEN a ELSE Clauses(R(w..(4 * w)), w, <<2, 3, 3>>), w), 2 * w), Calls(6, 2 * w), <<>>, "small")
Medium == \E v \in {R(12..18)} : Give("medium", v, Clauses(4 * v + R(0..6), v, <<3>>), Calls(8, v), <<>>, "medium")
Large == \E v \in {R(30..70)} : \E m \in {[i \in 1..v |-> R(0..1)]} :
           Give("planted", v, Planted(4 * v + R(0..v), v, m), Good(8, v, m), <<>>, "large")

Init == n = 0 /\ case = <<>>
Next == /\ \E p \in {R(1..20)} : CASE p <= 17 -> Small [] p \in {18, 19} -> Medium [] OTHER -> Large
        /\ n' = n + 1
        /\ PrintT("GEN " \o ToJson(case'))
Spec == Init /\ [][Next]_vars
=============================================================================
