------------------------------ MODULE LogosGen ------------------------------
(* Programs, as syntax trees of module Logos.  A program is a function of a  *)
(* pair of numbers: H splits a pair into independent ones, Pick reads a      *)
(* choice off it.  Every program type checks, terminates, and stays within   *)
(* the arithmetic the specification defines.                                 *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES n
vars == <<n>>

H(s, j) == LET a == (s[1] * 75 + j * 1009 + s[2] + 13) % 65537
               b == (s[2] * 17364 + j * 331 + 7) % 65521
           IN <<(a * 211 + b) % 65537, (b * 1423 + a + j) % 65521>>
Pick(s, k) == (s[1] * 31 + s[2]) % k
One(s, S) == S[Pick(s, Len(S)) + 1]

NL(v) == [k |-> "n", v |-> <<"I", v>>]
V(x) == [k |-> "v", x |-> x]
Bin(o, l, r) == [k |-> "bin", o |-> o, l |-> l, r |-> r]

\* a context: vs = variables <<name, type, assignable>>, nx = next name,
\* fs = functions in scope <<name, kind>>, loop = inside a loop, fn = inside a function,
\* ref = a parameter passed by reference, keep = a name rebound keeps its type
Name(c) == "v" \o ToString(c.nx)
OfType(c, t) == LET P(x) == x[2] = t IN SelectSeq(c.vs, P)
Free(c, t) == LET P(x) == x[2] = t /\ x[3] IN SelectSeq(c.vs, P)
Kind(c, t) == LET P(x) == x[2] = t IN SelectSeq(c.fs, P)
With(c, x, t, a) == [c EXCEPT !.vs = Append(SelectSeq(@, LAMBDA y : y[1] # x), <<x, t, a>>), !.nx = @ + 1]

Big == << <<"Z", FALSE, <<5807, 5477, 368, 3372, 922>>>>, <<"Z", TRUE, <<5807, 5477, 368, 3372, 922>>>>,
          <<"Z", FALSE, <<7904, 2738, 184, 1686, 461>>>>, <<"Z", FALSE, <<3648, 4748, 21>>>>, <<"Z", FALSE, <<3647, 4748, 21>>>>, <<"Z", FALSE, <<7296, 9496, 42>>>>,
          <<"I", 65536>>, <<"I", 1000000>>, <<"I", 0>>, <<"I", 1>>, <<"I", -1>> >>
Lit(s) == IF Pick(H(s, 1), 24) = 0 THEN [k |-> "n", v |-> One(H(s, 2), Big)]
          ELSE IF Pick(H(s, 1), 3) = 0 THEN NL(Pick(H(s, 3), 100) - 20) ELSE NL(Pick(H(s, 4), 10))
NonZero(s) == NL(One(s, <<2, 3, 7, 10, 16, -3, 1, 100, 4, -1, 8, 13>>))
Words == <<"a", "bc", "x y", "zz", "q1">>

RECURSIVE E(_, _, _, _)
\* a reference to a variable of the type, or a literal
Leaf(s, t, c) ==
  LET vs == OfType(c, t) IN
  IF vs # <<>> /\ Pick(H(s, 1), 5) # 0 THEN V(One(H(s, 2), vs)[1])
  ELSE CASE t = "I" -> Lit(H(s, 3))
         [] t = "B" -> [k |-> "b", v |-> Pick(H(s, 3), 2) = 0]
         [] t = "T" -> [k |-> "t", v |-> One(H(s, 3), Words)]
         [] t = "L" -> [k |-> "list", a |-> <<Lit(H(s, 4)), Lit(H(s, 5)), Lit(H(s, 6))>>]
         [] t = "P" -> [k |-> "new", a |-> <<Lit(H(s, 4)), Lit(H(s, 5))>>]

\* an argument list for a function of this kind
\* (now and then one whose evaluation may fail)
Arg(s, d, c) == IF Pick(H(s, 1), 12) = 0 THEN Bin(One(H(s, 2), <<"/", "%", "//">>), Leaf(H(s, 3), "I", c), IF Pick(H(s, 4), 3) = 0 THEN NL(0) ELSE Leaf(H(s, 4), "I", c))
                ELSE E(H(s, 5), "I", d, c)
Args(s, kd, d, c) ==
  CASE kd \in {"ii"} -> <<Arg(H(s, 1), d, c), Arg(H(s, 2), d, c)>>
    [] kd = "li" -> <<Leaf(H(s, 1), "L", c), Arg(H(s, 2), d, c)>>
    [] kd = "il" -> <<Arg(H(s, 1), d, c)>>
    [] kd = "rec" -> <<Bin("%", E(H(s, 1), "I", d, c), NL(7)), E(H(s, 2), "I", d, c)>>
    [] kd = "ib" -> <<Arg(H(s, 1), d, c)>>
    [] kd = "pi" -> <<Leaf(H(s, 1), "P", c), E(H(s, 2), "I", d, c)>>

Small_(e) == Bin("%", e, NL(1000))
Index(s, c) == IF Pick(H(s, 9), 12) = 0 THEN Bin("+", Bin("%", E(H(s, 1), "I", 0, c), NL(3)), NL(1))
               ELSE IF Pick(H(s, 9), 12) = 1 THEN NL(-1 - Pick(H(s, 3), 3))
               ELSE NL(1 + Pick(H(s, 2), 3))

EI(s, d, c) ==
  LET p == Pick(H(s, 1), 24)
      a == E(H(s, 2), "I", d - 1, c)
      b == E(H(s, 3), "I", d - 1, c)
      ls == OfType(c, "L")
      fI == SelectSeq(c.fs, LAMBDA f : f[2] \in {"ii", "li", "rec", "pi"})
  IN
  IF d <= 0 \/ p <= 4 THEN Leaf(H(s, 4), "I", c)
  ELSE CASE p \in {5, 6, 7} -> Bin("+", a, b)
         [] p \in {8, 9} -> Bin("-", a, b)
         [] p \in {10, 11} -> Bin("*", a, b)
         [] p = 12 -> Bin("/", a, NonZero(H(s, 5)))
         [] p = 13 -> Bin("%", a, NonZero(H(s, 5)))
         [] p = 14 -> Bin("//", a, NonZero(H(s, 5)))
         [] p = 15 -> Bin(One(H(s, 5), <<"&", "|", "^">>), Small_(a), Small_(b))
         [] p \in {16, 17} -> IF ls # <<>> THEN [k |-> "item", e |-> V(One(H(s, 5), ls)[1]), i |-> Index(H(s, 6), c)] ELSE Bin("-", b, a)
         [] p = 18 -> LET w == One(H(s, 5), <<"L", "T", "S", "M">>) IN
                      IF OfType(c, w) # <<>> THEN [k |-> "len", e |-> V(One(H(s, 6), OfType(c, w))[1])] ELSE Bin("*", a, NonZero(H(s, 5)))
         [] p = 19 -> IF OfType(c, "P") # <<>> THEN [k |-> "field", e |-> V(One(H(s, 5), OfType(c, "P"))[1]), f |-> One(H(s, 6), <<"x", "y">>)] ELSE Bin("+", a, b)
         [] p \in {20, 21} -> IF fI # <<>> THEN LET f == One(H(s, 5), fI) IN [k |-> "call", f |-> f[1], a |-> Args(H(s, 6), f[2], d - 1, c)] ELSE Bin("+", b, a)
         [] p = 22 -> CASE Pick(H(s, 5), 4) = 0 -> [k |-> "neg", e |-> a]
                        [] Pick(H(s, 5), 4) = 1 -> Bin("**", Bin("%", a, NL(30)), NL(Pick(H(s, 6), 6)))
                        [] Pick(H(s, 5), 4) = 2 -> Bin(One(H(s, 6), <<"/", "%", "//">>), a, b)
                        [] OTHER -> Bin("-", a, a)
         [] OTHER -> IF OfType(c, "M") # <<>> /\ Pick(H(s, 5), 6) = 0 THEN [k |-> "item", e |-> V(One(H(s, 6), OfType(c, "M"))[1]), i |-> NL(1 + Pick(H(s, 7), 2))]
                     ELSE Bin("*", NonZero(H(s, 5)), a)

EB(s, d, c) ==
  LET p == Pick(H(s, 1), 14)
      a == E(H(s, 2), "I", d - 1, c)
      b == E(H(s, 3), "I", d - 1, c)
      q == OfType(c, One(H(s, 7), <<"L", "S", "M">>))
  IN
  IF d <= 0 \/ p = 0 THEN Leaf(H(s, 4), "B", c)
  ELSE CASE p \in 1..6 -> Bin(One(H(s, 5), <<"==", "!=", "<", ">", "<=", ">=">>), a, b)
         [] p = 7 -> Bin("==", Bin("%", a, NL(2 + Pick(H(s, 5), 5))), NL(Pick(H(s, 6), 3)))
         [] p = 8 -> Bin("and", E(H(s, 5), "B", d - 1, c), E(H(s, 6), "B", d - 1, c))
         [] p = 9 -> Bin("or", E(H(s, 5), "B", d - 1, c), E(H(s, 6), "B", d - 1, c))
         [] p = 10 -> [k |-> "not", e |-> E(H(s, 5), "B", d - 1, c)]
         [] p = 11 -> IF q # <<>> THEN [k |-> "has", e |-> V(One(H(s, 5), q)[1]), i |-> a] ELSE Bin("<", b, a)
         [] p = 12 -> IF Kind(c, "ib") # <<>> THEN LET f == One(H(s, 5), Kind(c, "ib")) IN [k |-> "call", f |-> f[1], a |-> Args(H(s, 6), "ib", d - 1, c)]
                      ELSE Bin("==", E(H(s, 5), "T", 1, c), E(H(s, 6), "T", 1, c))
         [] OTHER -> Bin("==", Leaf(H(s, 5), "L", c), Leaf(H(s, 6), "L", c))

ET(s, d, c) ==
  LET p == Pick(H(s, 1), 6) IN
  IF d <= 0 \/ p = 0 \/ c.loop THEN Leaf(H(s, 2), "T", c)
  ELSE CASE p \in {1, 2} -> Bin("+", E(H(s, 3), "T", d - 1, c), E(H(s, 4), "I", d - 1, c))
         [] p = 3 -> Bin("+", E(H(s, 3), "T", d - 1, c), E(H(s, 4), "T", d - 1, c))
         [] OTHER -> [k |-> "cat", a |-> <<[k |-> "t", v |-> "s="], E(H(s, 4), "I", 1, c), [k |-> "t", v |-> ";"], E(H(s, 5), "I", 1, c)>>]

EL(s, d, c) ==
  LET p == Pick(H(s, 1), 8) IN
  IF d <= 0 \/ p <= 1 THEN Leaf(H(s, 2), "L", c)
  ELSE CASE p \in {2, 3} -> [k |-> "list", a |-> <<E(H(s, 3), "I", d - 1, c), E(H(s, 4), "I", d - 1, c), E(H(s, 5), "I", 0, c)>>]
         [] p = 4 -> IF c.loop THEN Leaf(H(s, 2), "L", c) ELSE Bin("+", Leaf(H(s, 3), "L", c), Leaf(H(s, 4), "L", c))
         [] p = 5 -> IF Kind(c, "il") # <<>> THEN LET f == One(H(s, 5), Kind(c, "il")) IN [k |-> "call", f |-> f[1], a |-> Args(H(s, 6), "il", d - 1, c)] ELSE Leaf(H(s, 3), "L", c)
         [] p = 6 -> [k |-> "copy", e |-> Leaf(H(s, 3), "L", c)]
         [] OTHER -> [k |-> "list", a |-> <<NL(Pick(H(s, 3), 9)), NL(Pick(H(s, 4), 9)), NL(5), E(H(s, 5), "I", d - 1, c)>>]

E(s, t, d, c) ==
  CASE t = "I" -> EI(s, d, c)
    [] t = "B" -> EB(s, d, c)
    [] t = "T" -> ET(s, d, c)
    [] t = "L" -> EL(s, d, c)
    [] t = "P" -> IF d <= 0 \/ Pick(H(s, 1), 3) = 0 THEN Leaf(H(s, 2), "P", c)
                  ELSE [k |-> "new", a |-> <<E(H(s, 3), "I", d - 1, c), E(H(s, 4), "I", d - 1, c)>>]

---------------------------------------------------------------------------
\* statements: St gives <<statements, context afterwards>>
Let_(x, e) == [k |-> "let", x |-> x, e |-> e]
Set_(x, e) == [k |-> "set", x |-> x, e |-> e]
Show_(e) == [k |-> "show", e |-> e]
Wrap(s, c, e) == IF c.loop THEN Bin("%", e, NL(One(s, <<7, 100, 1009, 10007, 1000003>>))) ELSE e
In(c) == [c EXCEPT !.loop = TRUE]
\* no list grows inside an inner loop over a list: growth stays additive
Lock(c) == IF c.loop \/ c.fn THEN [c EXCEPT !.vs = [i \in 1..Len(c.vs) |-> IF c.vs[i][2] = "L" THEN <<c.vs[i][1], "L", FALSE>> ELSE c.vs[i]]] ELSE c

RECURSIVE St(_, _, _), Sts(_, _, _, _)
Body(s, k, c, d) == Sts(s, k, c, d)[1]

\* how many times a loop runs: past the thresholds at which code is compiled, or few
Times_(s, c) == IF ~c.loop /\ ~c.fn /\ Pick(s, 3) # 0 THEN 102 + Pick(H(s, 1), 12) ELSE Pick(H(s, 2), 5)

\* a new name, or now and then one that is taken: the binding hides the older one
\* (never a parameter passed by reference: known finding by-ref/shadow)
Bound(s, c, t) == LET vs == SelectSeq(c.vs, LAMBDA y : y[1] # c.ref /\ (c.keep => y[2] = t)) IN
               IF vs # <<>> /\ Pick(H(s, 1), 7) = 0 THEN One(H(s, 2), vs)[1] ELSE Name(c)
\* a list that will be shared between two names, where one of them may be passed
\* by reference, is copied explicitly (known finding by-ref/alias)
Own(e, t, c) == IF t = "L" /\ e.k = "v" /\ (c.ref # "" \/ Kind(c, "mut") # <<>>) THEN [k |-> "copy", e |-> e] ELSE e
ForVar(s, c) == IF OfType(c, "I") # <<>> /\ Pick(H(s, 1), 6) = 0 THEN One(H(s, 2), OfType(c, "I"))[1] ELSE Name(c)

\* programming idioms that compilers single out
Idiom(s, c, d) ==
  LET p == Pick(H(s, 1), 24)
      x == Name(c)
      i == "v" \o ToString(c.nx + 1)
      y == "v" \o ToString(c.nx + 2)
      z == "v" \o ToString(c.nx + 3)
      m == Times_(H(s, 2), c)
      ci == With(With(In(c), x, "I", FALSE), i, "I", FALSE)
      k == One(H(s, 3), <<7, 100, 1009, 1000003>>)
      after == [With(c, x, "I", TRUE) EXCEPT !.nx = c.nx + 4]
      afterL == [With(c, x, "L", TRUE) EXCEPT !.nx = c.nx + 4]
      cl == With(With(In(c), x, "L", FALSE), i, "I", FALSE)
      lo == Pick(H(s, 4), 4)
      At_(v, e) == [k |-> "item", e |-> V(v), i |-> e]
      For_(v, a, b, body) == [k |-> "for", x |-> v, lo |-> a, hi |-> b, a |-> body]
      Fill == <<Let_(x, [k |-> "empty", t |-> "L"]),
                For_(i, NL(1), NL(m + 3), <<[k |-> "push", x |-> x, e |-> Bin("%", E(H(s, 5), "I", 2, With(In(c), i, "I", FALSE)), NL(k))]>>)>>
  IN
  CASE p = 0 -> \* a sum
         << <<Let_(x, Lit(H(s, 5))), For_(i, NL(lo), NL(m), <<Set_(x, Bin("+", V(x), E(H(s, 6), "I", 2, With(In(c), i, "I", FALSE))))>>)>>, after>>
    [] p = 1 -> \* a polynomial sum of the index
         << <<Let_(x, NL(0)), For_(i, NL(lo), NL(m), <<Set_(x, Bin("+", V(x), Bin(One(H(s, 5), <<"*", "-", "+">>), V(i), One(H(s, 6), <<V(i), NL(3), NL(-2), Leaf(H(s, 7), "I", c)>>))))>>)>>, after>>
    [] p = 2 -> \* a running remainder
         << <<Let_(x, NL(1)), For_(i, NL(1), NL(m), <<Set_(x, Bin("%", Bin("+", Bin("*", V(x), NL(2 + Pick(H(s, 5), 30))), E(H(s, 6), "I", 1, ci)), NL(k)))>>)>>, after>>
    [] p = 3 -> \* count what holds
         << <<Let_(x, NL(0)), For_(i, NL(lo), NL(m), <<[k |-> "if", c |-> E(H(s, 5), "B", 2, ci), a |-> <<Set_(x, Bin("+", V(x), NL(1)))>>, b |-> <<>>]>>)>>, after>>
    [] p = 4 -> \* fill a list and read it back by index
         << Fill \o <<Let_(y, NL(0)), For_(z, NL(1), [k |-> "len", e |-> V(x)], <<Set_(y, Bin("+", V(y), Bin("*", At_(x, V(z)), V(z))))>>), Show_(V(y))>>, afterL>>
    [] p = 5 -> \* neighbours
         << Fill \o <<For_(z, NL(2), [k |-> "len", e |-> V(x)], <<[k |-> "seti", x |-> x, i |-> V(z), e |-> Bin("%", Bin("+", At_(x, V(z)), At_(x, Bin("-", V(z), NL(1)))), NL(k))]>>), Show_(At_(x, NL(-1)))>>, afterL>>
    [] p = 6 -> \* bubble up
         << Fill \o <<For_(z, NL(1), Bin("-", [k |-> "len", e |-> V(x)], NL(1)),
                      <<[k |-> "if", c |-> Bin(One(H(s, 6), <<">", "<">>), At_(x, V(z)), At_(x, Bin("+", V(z), NL(1)))),
                         a |-> <<Let_(y, At_(x, V(z))), [k |-> "seti", x |-> x, i |-> V(z), e |-> At_(x, Bin("+", V(z), NL(1)))],
                                 [k |-> "seti", x |-> x, i |-> Bin("+", V(z), NL(1)), e |-> V(y)]>>, b |-> <<>>]>>)>>, afterL>>
    [] p = 7 -> \* map, then fold
         << Fill \o <<Let_(y, [k |-> "empty", t |-> "L"]),
                      [k |-> "each", x |-> z, e |-> V(x), a |-> <<[k |-> "if", c |-> E(H(s, 6), "B", 2, With(In(c), z, "I", FALSE)),
                          a |-> <<[k |-> "push", x |-> y, e |-> E(H(s, 7), "I", 1, With(In(c), z, "I", FALSE))]>>, b |-> <<>>]>>],
                      Let_(i, NL(0)), [k |-> "each", x |-> z, e |-> V(y), a |-> <<Set_(i, Bin("+", V(i), V(z)))>>], Show_(V(i)), Show_([k |-> "len", e |-> V(y)])>>, afterL>>
    [] p = 8 -> \* count down
         << <<Let_(i, NL(m)), Let_(x, Lit(H(s, 5))),
              [k |-> "while", c |-> Bin(">", V(i), NL(Pick(H(s, 6), 3))), a |-> <<Set_(i, Bin("-", V(i), NL(1 + Pick(H(s, 7), 3)))), Set_(x, Bin("%", E(H(s, 8), "I", 2, ci), NL(k)))>>], Show_(V(i))>>, after>>
    [] p = 9 -> \* two nested loops over a flat table
         << Fill \o <<Let_(y, NL(0)), For_(i, NL(0), NL(2), <<For_(z, NL(1), NL((m + 3) \div 3), <<Set_(y, Bin("%", Bin("+", Bin("*", V(y), NL(3)), At_(x, Bin("+", Bin("*", V(i), NL((m + 3) \div 3)), V(z)))), NL(k)))>>)>>), Show_(V(y))>>, afterL>>
    [] p = 10 -> \* an invariant computation inside a loop that may not run
         << <<Let_(x, NL(0)), For_(i, NL(1), NL(m), <<Let_(y, E(H(s, 5), "I", 2, c)), [k |-> "if", c |-> E(H(s, 6), "B", 1, ci), a |-> <<Set_(x, Bin("%", Bin("+", V(x), V(y)), NL(k)))>>, b |-> <<Set_(x, Bin("-", V(x), NL(1)))>>]>>)>>, after>>
    [] p = 11 -> \* leave early
         << Fill \o <<Let_(y, NL(0)), [k |-> "each", x |-> z, e |-> V(x), a |-> <<[k |-> "if", c |-> Bin("and", Bin(">", V(z), NL(k \div 3)), E(H(s, 6), "B", 1, With(In(c), z, "I", FALSE))), a |-> <<[k |-> "brk"]>>, b |-> <<>>], Set_(y, Bin("+", V(y), NL(1)))>>], Show_(V(y))>>, afterL>>
    [] p = 12 -> \* count up, with one round treated apart
         << <<Let_(i, NL(Pick(H(s, 5), 3))), Let_(x, Lit(H(s, 6))),
              [k |-> "while", c |-> Bin("<", V(i), NL(m)),
               a |-> <<[k |-> "if", c |-> Bin("==", V(i), NL(Pick(H(s, 7), 2))), a |-> Body(H(s, 8), 1, With(In(c), x, "I", TRUE), 0) \o (IF Pick(H(s, 11), 5) = 0 THEN <<[k |-> "brk"]>> ELSE <<>>),
                        b |-> <<Set_(x, Bin("%", E(H(s, 10), "I", 2, ci), NL(k)))>>], Set_(i, Bin("+", V(i), NL(1)))>>], Show_(V(i))>>, after>>
    [] p = 13 -> \* a choice that is the same in every round
         << <<Let_(i, NL(0)), Let_(x, NL(1)),
              [k |-> "while", c |-> Bin("<", V(i), NL(m)),
               a |-> <<[k |-> "if", c |-> E(H(s, 7), "B", 2, c), a |-> Body(H(s, 8), 2, With(In(c), x, "I", TRUE), 0),
                        b |-> <<Set_(x, Bin("%", E(H(s, 10), "I", 2, ci), NL(k)))>>], Set_(i, Bin("+", V(i), NL(1)))>>], Show_(V(i))>>, after>>
    [] p = 14 -> \* an invariant computation that may fail, in a loop that may not run
         << <<Let_(i, NL(Pick(H(s, 5), 3))), Let_(x, NL(1)),
              [k |-> "while", c |-> Bin("<", V(i), NL(Pick(H(s, 6), 4))),
               a |-> (IF Pick(H(s, 7), 3) = 0 THEN <<Show_(V(i))>> ELSE <<>>)
                     \o <<Let_(Bound(H(s, 8), c, "I"), Bin(One(H(s, 10), <<"/", "%", "//", "*">>), E(H(s, 11), "I", 1, c), E(H(s, 12), "I", 1, c)))>>
                     \o <<Set_(x, Bin("%", E(H(s, 13), "I", 1, ci), NL(k))), Set_(i, Bin("+", V(i), NL(1)))>>], Show_(V(i))>>, after>>
    [] p \in {15, 16} -> \* the same expression again, with statements in between
         LET e == E(H(s, 5), "I", 2, c) b == Body(H(s, 6), 1 + Pick(H(s, 7), 3), [With(c, x, "I", TRUE) EXCEPT !.keep = TRUE, !.nx = c.nx + 4], 1) IN
         << <<Let_(x, e)>> \o b \o <<Let_(y, e), Show_(Bin("-", V(y), V(x)))>>, after>>
    [] p \in {17, 18} -> \* the same expression before and inside a loop
         LET e == E(H(s, 5), "I", 2, c) b == Body(H(s, 6), 1 + Pick(H(s, 7), 2), [With(In(c), x, "I", TRUE) EXCEPT !.keep = TRUE, !.nx = c.nx + 4], 0) IN
         << <<Let_(x, e), For_(i, NL(1), NL(IF Pick(H(s, 8), 3) = 0 THEN m ELSE 2), <<Let_(y, e)>> \o b \o <<Let_(z, e), Set_(x, Bin("%", Bin("+", V(x), Bin("-", V(y), V(z))), NL(k)))>>)>>, after>>
    [] p \in 20..22 -> \* a collection that changes while it is being asked about
         LET w == One(H(s, 5), <<"S", "S", "M", "L", "P">>)
             q == IF Pick(H(s, 6), 4) = 0 THEN m ELSE 3 + Pick(H(s, 6), 4)
             v == One(H(s, 7), <<V(i), V(i), NL(2), Bin("%", V(i), NL(3)), Leaf(H(s, 8), "I", c)>>)
             u == One(H(s, 9), <<V(i), NL(1), NL(2), NL(3), Bin("+", V(i), NL(1)), Leaf(H(s, 8), "I", c)>>)
             made == CASE w = "P" -> <<Let_(x, [k |-> "new", a |-> <<NL(1), NL(2)>>])>>
                       [] w = "M" -> <<Let_(x, [k |-> "empty", t |-> "M"]), For_(i, NL(0), NL(4), <<[k |-> "seti", x |-> x, i |-> V(i), e |-> Bin("*", V(i), NL(7))]>>)>>
                       [] OTHER -> <<Let_(x, [k |-> "empty", t |-> w]), For_(i, NL(0), NL(4), <<[k |-> IF w = "S" THEN "add" ELSE "push", x |-> x, e |-> V(i)]>>)>>
             turn == CASE w = "S" -> [k |-> One(H(s, 10), <<"add", "rem", "rem">>), x |-> x, e |-> v]
                       [] w = "M" -> One(H(s, 10), <<[k |-> "seti", x |-> x, i |-> IF v.k = "n" THEN NL(2) ELSE v, e |-> u], [k |-> "rem", x |-> x, e |-> v]>>)
                       [] w = "L" -> One(H(s, 10), <<[k |-> "push", x |-> x, e |-> v], [k |-> "pop", x |-> x, y |-> z], [k |-> "seti", x |-> x, i |-> NL(1 + Pick(H(s, 11), 3)), e |-> v]>>)
                       [] OTHER -> [k |-> "setf", x |-> x, f |-> One(H(s, 10), <<"x", "y">>), e |-> v]
             asks == CASE w = "P" -> Bin("+", [k |-> "field", e |-> V(x), f |-> "x"], [k |-> "field", e |-> V(x), f |-> One(H(s, 12), <<"x", "y">>)])
                       [] w = "L" -> One(H(s, 12), <<[k |-> "len", e |-> V(x)], At_(x, NL(1)), At_(x, NL(2)), Bin("+", [k |-> "len", e |-> V(x)], NL(1))>>)
                       [] w = "M" -> One(H(s, 12), <<[k |-> "len", e |-> V(x)], At_(x, NL(1)), At_(x, NL(3)), Bin("+", [k |-> "len", e |-> V(x)], NL(1))>>)
                       [] OTHER -> One(H(s, 12), <<[k |-> "len", e |-> V(x)], Bin("*", [k |-> "len", e |-> V(x)], NL(3))>>)
             told == IF w \in {"S", "M"} /\ Pick(H(s, 13), 3) = 0
                     THEN <<[k |-> "if", c |-> [k |-> "has", e |-> V(x), i |-> u], a |-> <<Set_(y, Bin("+", V(y), NL(1)))>>, b |-> <<Set_(y, Bin("-", V(y), NL(2)))>>]>>
                     ELSE IF w # "L" /\ Pick(H(s, 16), 3) > 0
                     THEN <<Let_(z, asks), Set_(y, Bin("%", Bin("+", Bin("*", V(y), NL(3)), V(z)), NL(k)))>>
                     ELSE <<Set_(y, Bin("%", Bin("+", Bin("*", V(y), NL(3)), asks), NL(k)))>>
             round == IF Pick(H(s, 14), 2) = 0 THEN <<turn>> \o told ELSE told \o <<turn>>
         IN << made \o <<Let_(y, NL(0))>>
               \o (CASE Pick(H(s, 15), 3) = 0 -> <<For_(i, NL(1), NL(q), round)>>
                     [] Pick(H(s, 15), 3) = 1 /\ w # "P" -> <<Let_(i, NL(0)), [k |-> "while", c |-> Bin("<", V(i), Bin("+", [k |-> "len", e |-> V(x)], NL(2))),
                            a |-> <<Set_(i, Bin("+", V(i), NL(1))), [k |-> "if", c |-> Bin(">", V(i), NL(q)), a |-> <<[k |-> "brk"]>>, b |-> <<>>]>> \o round]>>
                     [] OTHER -> <<Let_(i, NL(0)), [k |-> "while", c |-> Bin("<", V(i), NL(q)), a |-> round \o <<Set_(i, Bin("+", V(i), NL(1)))>>]>>)
               \o <<Show_(V(y))>>, [With(c, x, w, TRUE) EXCEPT !.nx = c.nx + 4]>>
    [] OTHER -> \* a pair of sequences in step
         << <<Let_(x, NL(0)), Let_(y, NL(1)), For_(i, NL(1), NL(m), <<Let_(z, Bin("%", Bin("+", V(x), V(y)), NL(k))), Set_(x, V(y)), Set_(y, V(z))>>), Show_(V(y))>>, after>>

St(s, c, d) ==
  LET p == Pick(H(s, 1), 40)
      t == One(H(s, 2), <<"I", "I", "I", "B", "T", "L", "P">>)
      fi == Free(c, "I")
      fl == Free(c, "L")
      x == Name(c)
      Same(q) == <<q, c>>
  IN
  CASE p \in 0..4 -> LET y == Bound(H(s, 9), c, t) IN << <<Let_(y, Own(E(H(s, 3), t, 2, c), t, c))>>, With(c, y, t, TRUE)>>
    [] p \in 5..10 -> IF fi = <<>> THEN << <<Let_(x, E(H(s, 3), "I", 2, c))>>, With(c, x, "I", TRUE)>>
                      ELSE LET v == One(H(s, 4), fi)[1] IN
                           Same(<<Set_(v, IF Pick(H(s, 5), 3) = 0 THEN Bin(One(H(s, 6), <<"+", "-">>), V(v), Wrap(H(s, 7), c, E(H(s, 3), "I", 2, c))) ELSE Wrap(H(s, 7), c, E(H(s, 3), "I", 2, c)))>>)
    [] p = 11 -> IF Free(c, "B") = <<>> THEN Same(<<>>) ELSE Same(<<Set_(One(H(s, 4), Free(c, "B"))[1], E(H(s, 3), "B", 2, c))>>)
    [] p = 12 -> IF Free(c, "T") = <<>> THEN Same(<<>>)
                 ELSE LET v == One(H(s, 4), Free(c, "T"))[1] IN Same(<<Set_(v, IF c.loop THEN Leaf(H(s, 3), "T", c) ELSE E(H(s, 3), "T", 2, c))>>)
    [] p \in {13, 14} -> IF fl = <<>> THEN << <<Let_(x, Own(E(H(s, 3), "L", 2, c), "L", c))>>, With(c, x, "L", TRUE)>>
                 ELSE IF Pick(H(s, 8), 4) = 0 THEN Same(<<[k |-> "pushes", x |-> One(H(s, 4), fl)[1], a |-> <<E(H(s, 3), "I", 1, c), E(H(s, 5), "I", 0, c)>>]>>)
                 ELSE Same(<<[k |-> "push", x |-> One(H(s, 4), fl)[1], e |-> Wrap(H(s, 5), c, E(H(s, 3), "I", 2, c))]>>)
    [] p \in {15, 16} -> IF fl = <<>> THEN Same(<<>>)
                 ELSE Same(<<[k |-> "seti", x |-> One(H(s, 4), fl)[1], i |-> Index(H(s, 6), c), e |-> Wrap(H(s, 5), c, E(H(s, 3), "I", 2, c))]>>)
    [] p = 17 -> IF fl = <<>> THEN Same(<<>>)
                 ELSE LET l == One(H(s, 4), fl)[1] IN
                      Same(<<[k |-> "push", x |-> l, e |-> Wrap(H(s, 5), c, E(H(s, 3), "I", 1, c))], [k |-> "pop", x |-> l, y |-> x], [k |-> "if", c |-> Bin(">", V(x), NL(3)), a |-> <<[k |-> "push", x |-> l, e |-> V(x)]>>, b |-> <<>>]>>)
    [] p = 18 -> IF Free(c, "P") = <<>> THEN << <<Let_(x, E(H(s, 3), "P", 2, c))>>, With(c, x, "P", TRUE)>>
                 ELSE Same(<<[k |-> "setf", x |-> One(H(s, 4), Free(c, "P"))[1], f |-> One(H(s, 5), <<"x", "y">>), e |-> Wrap(H(s, 6), c, E(H(s, 3), "I", 2, c))]>>)
    [] p \in {19, 20} -> IF Free(c, "M") = <<>> THEN << <<Let_(x, [k |-> "empty", t |-> "M"]), [k |-> "seti", x |-> x, i |-> NL(1), e |-> Lit(H(s, 3))], [k |-> "seti", x |-> x, i |-> NL(2), e |-> Lit(H(s, 4))]>>, With(c, x, "M", TRUE)>>
                 ELSE LET m == One(H(s, 4), Free(c, "M"))[1] IN
                      IF Pick(H(s, 5), 4) = 0 THEN Same(<<[k |-> "rem", x |-> m, e |-> NL(3 + Pick(H(s, 6), 4))]>>)
                      ELSE Same(<<[k |-> "seti", x |-> m, i |-> Bin("%", E(H(s, 6), "I", 1, c), NL(7)), e |-> Wrap(H(s, 7), c, E(H(s, 3), "I", 2, c))]>>)
    [] p = 21 -> IF Free(c, "S") = <<>> THEN << <<Let_(x, [k |-> "empty", t |-> "S"]), [k |-> "add", x |-> x, e |-> Lit(H(s, 3))]>>, With(c, x, "S", TRUE)>>
                 ELSE Same(<<[k |-> IF Pick(H(s, 5), 3) = 0 THEN "rem" ELSE "add", x |-> One(H(s, 4), Free(c, "S"))[1], e |-> Bin("%", E(H(s, 6), "I", 1, c), NL(7))]>>)
    [] p \in 22..24 -> IF c.loop /\ Pick(H(s, 4), 4) # 0 THEN Same(<<>>) ELSE Same(<<Show_(E(H(s, 3), t, 2, c))>>)
    [] p \in 25..27 -> IF d <= 0 THEN Same(<<>>)
                 ELSE Same(<<[k |-> "if", c |-> E(H(s, 3), "B", 2, c), a |-> Body(H(s, 4), 1 + Pick(H(s, 5), 2), c, d - 1) \o (IF c.loop /\ Pick(H(s, 8), 8) = 0 THEN <<[k |-> "brk"]>> ELSE <<>>),
                              b |-> IF Pick(H(s, 6), 2) = 0 THEN <<>> ELSE Body(H(s, 7), 1, c, d - 1)]>>)
    [] p \in {28, 29} -> IF d <= 0 THEN Same(<<>>)
                 ELSE LET v == ForVar(H(s, 8), c) IN
                      Same(<<[k |-> "for", x |-> v, lo |-> NL(Pick(H(s, 3), 3)), hi |-> NL(Times_(H(s, 4), c)), a |-> Body(H(s, 5), 1 + Pick(H(s, 6), 4), With(In(c), v, "I", Pick(H(s, 7), 4) = 0), d - 1)]>>)
    [] p = 30 -> IF d <= 0 \/ OfType(c, "L") = <<>> THEN Same(<<>>)
                 ELSE Same(<<[k |-> "each", x |-> x, e |-> V(One(H(s, 3), OfType(c, "L"))[1]), a |-> Body(H(s, 5), 1 + Pick(H(s, 6), 3), With(In(Lock(c)), x, "I", FALSE), d - 1)]>>)
    [] p = 31 -> IF d <= 0 THEN Same(<<>>)
                 ELSE Same(<<Let_(x, NL(Times_(H(s, 3), c))), [k |-> "while", c |-> IF Pick(H(s, 4), 3) = 0 THEN Bin("and", Bin(">", V(x), NL(0)), E(H(s, 6), "B", 1, With(In(c), x, "I", FALSE))) ELSE Bin(">", V(x), NL(0)),
                              a |-> <<Set_(x, Bin("-", V(x), NL(1)))>> \o Body(H(s, 5), 1 + Pick(H(s, 7), 3), With(In(c), x, "I", FALSE), d - 1)]>>)
    [] p \in {32, 33} -> IF Kind(c, "mut") = <<>> \/ fl = <<>> THEN Same(<<>>)
                 ELSE LET f == One(H(s, 3), Kind(c, "mut")) IN Same(<<[k |-> "do", f |-> f[1], a |-> <<V(One(H(s, 4), fl)[1]), E(H(s, 5), "I", 1, c)>>]>>)
    [] OTHER -> IF c.loop \/ d <= 1 THEN Same(<<>>) ELSE Idiom(H(s, 3), c, d)

Sts(s, k, c, d) ==
  IF k = 0 THEN <<<<>>, c>>
  ELSE LET r == St(H(s, 1), c, d) q == Sts(H(s, 2), k - 1, r[2], d) IN <<r[1] \o q[1], q[2]>>

---------------------------------------------------------------------------
Empty == [vs |-> <<>>, ref |-> "", keep |-> FALSE, nx |-> 1, fs |-> <<>>, loop |-> FALSE, fn |-> FALSE]
ParamsOf(kd) ==
  CASE kd = "ii" -> <<<<"v1", "I", FALSE>>, <<"v2", "I", FALSE>>>>
    [] kd = "rec" -> <<<<"v1", "I", FALSE>>, <<"v2", "I", FALSE>>>>
    [] kd = "li" -> <<<<"v1", "L", FALSE>>, <<"v2", "I", FALSE>>>>
    [] kd = "pi" -> <<<<"v1", "P", FALSE>>, <<"v2", "I", FALSE>>>>
    [] kd = "il" -> <<<<"v1", "I", FALSE>>>>
    [] kd = "ib" -> <<<<"v1", "I", FALSE>>>>
    [] kd = "mut" -> <<<<"v1", "L", TRUE>>, <<"v2", "I", FALSE>>>>
Gives(kd) == CASE kd \in {"ii", "rec", "li", "pi"} -> "I" [] kd = "il" -> "L" [] kd = "ib" -> "B" [] OTHER -> "-"

Func(s, f, kd, fs) ==
  LET ps == ParamsOf(kd)
      c0 == [Empty EXCEPT !.fs = fs, !.fn = TRUE, !.nx = 3, !.ref = IF kd = "mut" THEN "v1" ELSE "",
                          !.vs = [i \in 1..Len(ps) |-> <<ps[i][1], ps[i][2], kd = "mut" /\ i = 1>>]]
      b == Sts(H(s, 1), 1 + Pick(H(s, 2), 3), c0, 2)
      g == Gives(kd)
      early == IF Pick(H(s, 5), 3) = 0 /\ g # "-" THEN <<[k |-> "if", c |-> E(H(s, 6), "B", 1, c0), a |-> <<[k |-> "ret", e |-> E(H(s, 7), g, 1, c0)]>>, b |-> <<>>]>> ELSE <<>>
      shows == IF Pick(H(s, 8), 8) = 0 THEN <<Show_(V("v2"))>> ELSE <<>>
      tiny == Pick(H(s, 9), 3) = 0          \* nothing but an expression, often one that ignores a parameter
      body ==
        CASE tiny /\ kd \in {"ii", "li", "il", "ib", "pi"} ->
               <<[k |-> "ret", e |-> E(H(s, 4), g, 1 + Pick(H(s, 10), 2), IF Pick(H(s, 11), 2) = 0 THEN [c0 EXCEPT !.vs = <<One(H(s, 12), @)>>] ELSE c0)]>>
          [] kd = "rec" -> <<[k |-> "if", c |-> Bin("<=", V("v1"), NL(0)), a |-> <<[k |-> "ret", e |-> E(H(s, 3), "I", 1, c0)]>>, b |-> <<>>]>>
                           \o <<[k |-> "ret", e |-> Bin(One(H(s, 4), <<"+", "-", "*">>), Bin("%", E(H(s, 3), "I", 1, c0), NL(100)),
                                [k |-> "call", f |-> f, a |-> <<Bin("-", V("v1"), NL(1 + Pick(H(s, 5), 2))), Bin("%", E(H(s, 6), "I", 1, c0), NL(1009))>>])]>>
          [] g = "-" -> shows \o b[1]
          [] kd \in {"ii", "li", "pi"} -> shows \o early \o b[1] \o <<[k |-> "ret", e |-> E(H(s, 4), g, 2, b[2])]>>
          [] OTHER -> early \o b[1] \o <<[k |-> "ret", e |-> E(H(s, 4), g, 2, b[2])]>>
  IN [ps |-> ps, gives |-> g, body |-> body]

RECURSIVE Funcs(_, _, _)
Funcs(s, k, acc) ==      \* acc: <<signatures, definitions>>
  IF k = 0 THEN acc
  ELSE LET kd == One(H(s, 1), <<"ii", "ii", "li", "il", "rec", "ib", "mut", "pi">>)
           f == "f" \o ToString(Len(acc[1]) + 1)
           d == Func(H(s, 2), f, kd, acc[1])
       IN Funcs(H(s, 3), k - 1, <<Append(acc[1], <<f, kd>>), Append(acc[2], d)>>)

RECURSIVE ShowAll(_, _)
ShowAll(vs, i) == IF i > Len(vs) THEN <<>> ELSE <<Show_(V(vs[i][1]))>> \o ShowAll(vs, i + 1)

Program(s) ==
  LET fs == Funcs(H(s, 1), Pick(H(s, 2), 4), <<<<>>, <<>>>>)
      c0 == [Empty EXCEPT !.fs = fs[1]]
      a == Sts(H(s, 3), 2 + Pick(H(s, 4), 3), c0, 0)
      i == IF Pick(H(s, 5), 2) = 0 THEN Idiom(H(s, 6), a[2], 2) ELSE <<<<>>, a[2]>>
      b == Sts(H(s, 7), 2 + Pick(H(s, 8), 5), i[2], 3)
  IN [fs |-> fs[2], main |-> a[1] \o i[1] \o b[1] \o ShowAll(b[2].vs, 1)]

Init == n = 0
R(S) == RandomElement({x \in S : n >= -1})
Next == /\ n = 0
        /\ \E a \in {R(1..32768)} : \E b \in {R(1..32768)} :
             PrintT("GEN " \o ToJson([id |-> ToString(a) \o "-" \o ToString(b), prog |-> Program(<<a, b>>)]))
        /\ n' = 1
Spec == Init /\ [][Next]_vars
=============================================================================
