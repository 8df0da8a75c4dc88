------------------------------- MODULE Logos -------------------------------
(* The meaning of sequential programs, by evaluation of the syntax tree.    *)
(*                                                                          *)
(* Values: integers of module Num, <<"B", b>>, <<"T", text>>,               *)
(* <<"L", elements>>, <<"M", <<<<key, value>>...>>>>, <<"S", elements>>,    *)
(* <<"P", fields>>, <<"N", 0>>.  All are values: binding, passing and       *)
(* storing one never shares it; a parameter marked mutable is the caller's  *)
(* variable.                                                                *)
(*                                                                          *)
(* A run state is [env, out, fuel]: env is the stack of bindings, innermost *)
(* last; out the lines printed.  Every operator returns                     *)
(* <<signal, value, state>>, signal one of "ok", "err", "ret", "brk", "fuel"*)
EXTENDS Num

Nothing == <<"N", 0>>
Bool(b) == <<"B", b>>
Text(s) == <<"T", s>>
Truth(v) == IF v[1] = "B" THEN v[2] ELSE v # <<"I", 0>>
Ok(v, st) == <<"ok", v, st>>
Err(why, st) == <<"err", Text(why), st>>

RECURSIVE Shown(_), ShownAll(_, _), ShownPairs(_, _)
ShownAll(s, i) == IF i > Len(s) THEN "" ELSE (IF i = 1 THEN "" ELSE ", ") \o Shown(s[i]) \o ShownAll(s, i + 1)
ShownPairs(s, i) == IF i > Len(s) THEN "" ELSE (IF i = 1 THEN "" ELSE ", ") \o Shown(s[i][1]) \o ": " \o Shown(s[i][2]) \o ShownPairs(s, i + 1)
Shown(v) ==
  CASE v[1] \in {"I", "Z"} -> NShow(v)
    [] v[1] = "B" -> IF v[2] THEN "true" ELSE "false"
    [] v[1] = "T" -> v[2]
    [] v[1] = "L" -> "[" \o ShownAll(v[2], 1) \o "]"
    [] v[1] = "S" -> "{" \o ShownAll(v[2], 1) \o "}"
    [] v[1] = "M" -> "{" \o ShownPairs(v[2], 1) \o "}"
    [] v[1] = "P" -> "Point { x: " \o Shown(v[2][1]) \o ", y: " \o Shown(v[2][2]) \o " }"
    [] OTHER -> "nothing"

RECURSIVE Find(_, _, _)
Find(env, x, i) == IF env[i][1] = x THEN i ELSE Find(env, x, i - 1)
Look(st, x) == st.env[Find(st.env, x, Len(st.env))][2]
Put(st, x, v) == [st EXCEPT !.env = [@ EXCEPT ![Find(st.env, x, Len(st.env))] = <<x, v>>]]
Bind(st, x, v) == [st EXCEPT !.env = Append(@, <<x, v>>)]
Out(st, s) == [st EXCEPT !.out = Append(@, s)]
Drop(st, n) == [st EXCEPT !.env = SubSeq(@, 1, n)]
Burn(st) == [st EXCEPT !.fuel = @ - 1]

Keys(m) == {m[i][1] : i \in 1..Len(m)}
Where(m, k) == CHOOSE i \in 1..Len(m) : m[i][1] = k
RECURSIVE Without(_, _)
Without(s, x) == IF s = <<>> THEN <<>> ELSE IF s[1] = x THEN Without(Tail(s), x) ELSE <<s[1]>> \o Without(Tail(s), x)
WithoutKey(m, k) == IF k \in Keys(m) THEN LET i == Where(m, k) IN SubSeq(m, 1, i - 1) \o SubSeq(m, i + 1, Len(m)) ELSE m
Range(s) == {s[i] : i \in 1..Len(s)}

\* position of a 1-based or end-relative index in a sequence of n, or 0
At(i, n) == IF i[1] # "I" THEN 0
            ELSE IF i[2] >= 1 /\ i[2] <= n THEN i[2]
            ELSE IF i[2] < 0 /\ -i[2] <= n THEN n + 1 + i[2] ELSE 0

IsInt(v) == v[1] \in {"I", "Z"}

\* integers as 64-bit two's complement for the bit operators are kept small here
RECURSIVE BitOp(_, _, _)
BitOp(o, a, b) ==
  IF a \in {0, -1} /\ b \in {0, -1} THEN
    CASE o = "&" -> IF a = -1 /\ b = -1 THEN -1 ELSE 0
      [] o = "|" -> IF a = -1 \/ b = -1 THEN -1 ELSE 0
      [] o = "^" -> IF a # b THEN -1 ELSE 0
  ELSE LET x == a % 2 y == b % 2
           bit == CASE o = "&" -> x * y [] o = "|" -> (IF x + y > 0 THEN 1 ELSE 0) [] o = "^" -> (x + y) % 2
       IN bit + 2 * BitOp(o, (a - x) \div 2, (b - y) \div 2)

Arith(o, a, b, st) ==
  CASE o = "+" /\ IsInt(a) /\ IsInt(b) -> Ok(NAdd(a, b), st)
    [] o = "+" /\ a[1] = "L" /\ b[1] = "L" -> Ok(<<"L", a[2] \o b[2]>>, st)
    [] o = "+" -> Ok(Text(Shown(a) \o Shown(b)), st)
    [] o = "-" -> Ok(NSub(a, b), st)
    [] o = "*" -> Ok(NMul(a, b), st)
    [] o \in {"/", "%", "//"} /\ b = <<"I", 0>> -> Err("zero", st)
    [] o = "/" -> Ok(NQuo(a, b), st)
    [] o = "%" -> Ok(NRem(a, b), st)
    [] o = "//" -> Ok(NFloor(a, b), st)
    [] o = "**" -> Ok(NPow(a, b[2]), st)
    [] o \in {"&", "|", "^"} -> Ok(Int_(BitOp(o, a[2], b[2])), st)
    [] o = "==" -> Ok(Bool(a = b), st)
    [] o = "!=" -> Ok(Bool(a # b), st)
    [] o = "<" -> Ok(Bool(NCmp(a, b) < 0), st)
    [] o = ">" -> Ok(Bool(NCmp(a, b) > 0), st)
    [] o = "<=" -> Ok(Bool(NCmp(a, b) <= 0), st)
    [] o = ">=" -> Ok(Bool(NCmp(a, b) >= 0), st)

FnNo(f) == CASE f = "f1" -> 1 [] f = "f2" -> 2 [] f = "f3" -> 3 [] f = "f4" -> 4
FieldNo(f) == IF f = "x" THEN 1 ELSE 2

ItemOf(c, i, st) ==
  IF c[1] = "M" THEN (IF i \in Keys(c[2]) THEN Ok(c[2][Where(c[2], i)][2], st) ELSE Err("key", st))
  ELSE IF At(i, Len(c[2])) = 0 THEN Err("index", st) ELSE Ok(c[2][At(i, Len(c[2]))], st)

RECURSIVE Ev(_, _, _), EvAll(_, _, _, _, _), Ex(_, _, _), ExAll(_, _, _, _), Loop(_, _, _), For(_, _, _, _, _), Each(_, _, _, _, _),
          CopyOut(_, _, _, _, _), Cat(_, _, _, _, _)

\* expressions left to right; the value is the sequence of their values
EvAll(P, es, i, acc, st) ==
  IF i > Len(es) THEN Ok(acc, st)
  ELSE LET r == Ev(P, es[i], st) IN IF r[1] # "ok" THEN r ELSE EvAll(P, es, i + 1, Append(acc, r[2]), r[3])

\* interpolated text: parts are expressions
Cat(P, es, i, acc, st) ==
  IF i > Len(es) THEN Ok(Text(acc), st)
  ELSE LET r == Ev(P, es[i], st) IN IF r[1] # "ok" THEN r ELSE Cat(P, es, i + 1, acc \o Shown(r[2]), r[3])

\* hand mutable parameters back to the caller's variables
CopyOut(f, as, i, callee, st) ==
  IF i > Len(as) THEN st
  ELSE CopyOut(f, as, i + 1, callee, IF f.ps[i][3] THEN Put(st, as[i].x, callee.env[i][2]) ELSE st)

Call(P, f, as, st) ==
  LET a == EvAll(P, as, 1, <<>>, st) IN
  IF a[1] # "ok" THEN a
  ELSE LET inner == [env |-> [i \in 1..Len(f.ps) |-> <<f.ps[i][1], a[2][i]>>], out |-> a[3].out, fuel |-> a[3].fuel - 1]
           r == ExAll(P, f.body, 1, inner)
           back == [env |-> a[3].env, out |-> r[3].out, fuel |-> r[3].fuel]
       IN IF r[1] \in {"err", "fuel"} THEN <<r[1], r[2], back>>
          ELSE Ok(IF r[1] = "ret" THEN r[2] ELSE Nothing, CopyOut(f, as, 1, r[3], back))

Ev(P, e, st) ==
  IF st.fuel <= 0 THEN <<"fuel", Nothing, st>>
  ELSE CASE e.k = "n" -> Ok(e.v, st)
    [] e.k = "b" -> Ok(Bool(e.v), st)
    [] e.k = "t" -> Ok(Text(e.v), st)
    [] e.k = "v" -> Ok(Look(st, e.x), st)
    [] e.k = "copy" -> Ev(P, e.e, st)
    [] e.k = "bin" ->
         LET l == Ev(P, e.l, st) IN
         IF l[1] # "ok" THEN l
         ELSE IF e.o = "and" /\ ~Truth(l[2]) THEN Ok(Bool(FALSE), l[3])
         ELSE IF e.o = "or" /\ Truth(l[2]) THEN Ok(Bool(TRUE), l[3])
         ELSE LET r == Ev(P, e.r, l[3]) IN
              IF r[1] # "ok" THEN r
              ELSE IF e.o \in {"and", "or"} THEN Ok(Bool(Truth(r[2])), r[3])
              ELSE Arith(e.o, l[2], r[2], Burn(r[3]))
    [] e.k = "not" -> LET r == Ev(P, e.e, st) IN IF r[1] # "ok" THEN r ELSE Ok(Bool(~Truth(r[2])), r[3])
    [] e.k = "neg" -> LET r == Ev(P, e.e, st) IN IF r[1] # "ok" THEN r ELSE Ok(NNeg(r[2]), r[3])
    [] e.k = "item" -> LET r == EvAll(P, <<e.e, e.i>>, 1, <<>>, st) IN IF r[1] # "ok" THEN r ELSE ItemOf(r[2][1], r[2][2], r[3])
    [] e.k = "slice" ->
         LET r == EvAll(P, <<e.e, e.i, e.j>>, 1, <<>>, st) IN
         IF r[1] # "ok" THEN r ELSE Ok(<<"L", SubSeq(r[2][1][2], r[2][2][2], r[2][3][2])>>, r[3])
    [] e.k = "len" -> LET r == Ev(P, e.e, st) IN IF r[1] # "ok" THEN r ELSE Ok(Int_(Len(r[2][2])), r[3])
    [] e.k = "has" ->
         LET r == EvAll(P, <<e.e, e.i>>, 1, <<>>, st) IN
         IF r[1] # "ok" THEN r
         ELSE Ok(Bool(r[2][2] \in (IF r[2][1][1] = "M" THEN Keys(r[2][1][2]) ELSE Range(r[2][1][2]))), r[3])
    [] e.k = "field" -> LET r == Ev(P, e.e, st) IN IF r[1] # "ok" THEN r ELSE Ok(r[2][2][FieldNo(e.f)], r[3])
    [] e.k = "list" -> LET r == EvAll(P, e.a, 1, <<>>, st) IN IF r[1] # "ok" THEN r ELSE Ok(<<"L", r[2]>>, r[3])
    [] e.k = "new" -> LET r == EvAll(P, e.a, 1, <<>>, st) IN IF r[1] # "ok" THEN r ELSE Ok(<<"P", r[2]>>, r[3])
    [] e.k = "empty" -> Ok(<<e.t, <<>>>>, st)
    [] e.k = "cat" -> Cat(P, e.a, 1, "", st)
    [] e.k = "call" -> Call(P, P.fs[FnNo(e.f)], e.a, Burn(st))

\* a block: bindings made inside end with it
Block(P, b, st) == LET r == ExAll(P, b, 1, st) IN <<r[1], r[2], Drop(r[3], Len(st.env))>>

ExAll(P, b, i, st) ==
  IF i > Len(b) THEN Ok(Nothing, st)
  ELSE LET r == Ex(P, b[i], st) IN IF r[1] # "ok" THEN r ELSE ExAll(P, b, i + 1, r[3])

Loop(P, s, st) ==
  LET c == Ev(P, s.c, Burn(st)) IN
  IF c[1] # "ok" THEN c
  ELSE IF ~Truth(c[2]) THEN Ok(Nothing, c[3])
  ELSE LET r == Block(P, s.a, c[3]) IN
       IF r[1] = "brk" THEN Ok(Nothing, r[3]) ELSE IF r[1] # "ok" THEN r ELSE Loop(P, s, r[3])

For(P, s, n, hi, st) ==
  IF n > hi THEN Ok(Nothing, st)
  ELSE LET q == Block(P, s.a, Bind(Burn(st), s.x, Int_(n)))
           r == <<q[1], q[2], Drop(q[3], Len(st.env))>>
       IN IF r[1] = "brk" THEN Ok(Nothing, r[3]) ELSE IF r[1] # "ok" THEN r ELSE For(P, s, n + 1, hi, r[3])

Each(P, s, vs, i, st) ==
  IF i > Len(vs) THEN Ok(Nothing, st)
  ELSE LET q == Block(P, s.a, Bind(Burn(st), s.x, vs[i]))
           r == <<q[1], q[2], Drop(q[3], Len(st.env))>>
       IN IF r[1] = "brk" THEN Ok(Nothing, r[3]) ELSE IF r[1] # "ok" THEN r ELSE Each(P, s, vs, i + 1, r[3])

SetItem(x, i, v, st) ==
  LET c == Look(st, x) IN
  IF c[1] = "M" THEN
    Ok(Nothing, Put(st, x, <<"M", IF i \in Keys(c[2]) THEN [c[2] EXCEPT ![Where(c[2], i)] = <<i, v>>] ELSE Append(c[2], <<i, v>>)>>))
  ELSE IF At(i, Len(c[2])) = 0 THEN Err("index", st)
  ELSE Ok(Nothing, Put(st, x, <<"L", [c[2] EXCEPT ![At(i, Len(c[2]))] = v]>>))

Ex(P, s, st) ==
  IF st.fuel <= 0 THEN <<"fuel", Nothing, st>>
  ELSE CASE s.k = "let" -> LET r == Ev(P, s.e, st) IN IF r[1] # "ok" THEN r ELSE Ok(Nothing, Bind(r[3], s.x, r[2]))
    [] s.k = "set" -> LET r == Ev(P, s.e, st) IN IF r[1] # "ok" THEN r ELSE Ok(Nothing, Put(r[3], s.x, r[2]))
    [] s.k = "seti" -> LET r == EvAll(P, <<s.i, s.e>>, 1, <<>>, st) IN IF r[1] # "ok" THEN r ELSE SetItem(s.x, r[2][1], r[2][2], r[3])
    [] s.k = "setf" -> LET r == Ev(P, s.e, st) IN
         IF r[1] # "ok" THEN r ELSE Ok(Nothing, Put(r[3], s.x, <<"P", [Look(r[3], s.x)[2] EXCEPT ![FieldNo(s.f)] = r[2]]>>))
    [] s.k = "push" -> LET r == Ev(P, s.e, st) IN
         IF r[1] # "ok" THEN r ELSE Ok(Nothing, Put(r[3], s.x, <<"L", Append(Look(r[3], s.x)[2], r[2])>>))
    [] s.k = "pushes" -> LET r == EvAll(P, s.a, 1, <<>>, st) IN
         IF r[1] # "ok" THEN r ELSE Ok(Nothing, Put(r[3], s.x, <<"L", Look(r[3], s.x)[2] \o r[2]>>))
    [] s.k = "pop" -> LET c == Look(st, s.x)[2] IN
         IF c = <<>> THEN Ok(Nothing, Bind(st, s.y, Nothing))
         ELSE Ok(Nothing, Bind(Put(st, s.x, <<"L", SubSeq(c, 1, Len(c) - 1)>>), s.y, c[Len(c)]))
    [] s.k = "add" -> LET r == Ev(P, s.e, st) IN
         IF r[1] # "ok" THEN r
         ELSE LET c == Look(r[3], s.x)[2] IN Ok(Nothing, IF r[2] \in Range(c) THEN r[3] ELSE Put(r[3], s.x, <<"S", Append(c, r[2])>>))
    [] s.k = "rem" -> LET r == Ev(P, s.e, st) IN
         IF r[1] # "ok" THEN r
         ELSE LET c == Look(r[3], s.x) IN
              Ok(Nothing, Put(r[3], s.x, IF c[1] = "M" THEN <<"M", WithoutKey(c[2], r[2])>> ELSE <<"S", Without(c[2], r[2])>>))
    [] s.k = "show" -> LET r == Ev(P, s.e, st) IN IF r[1] # "ok" THEN r ELSE Ok(Nothing, Out(r[3], Shown(r[2])))
    [] s.k = "if" -> LET c == Ev(P, s.c, st) IN
         IF c[1] # "ok" THEN c ELSE Block(P, IF Truth(c[2]) THEN s.a ELSE s.b, c[3])
    [] s.k = "while" -> Loop(P, s, st)
    [] s.k = "for" -> LET r == EvAll(P, <<s.lo, s.hi>>, 1, <<>>, st) IN IF r[1] # "ok" THEN r ELSE For(P, s, r[2][1][2], r[2][2][2], r[3])
    [] s.k = "each" -> LET r == Ev(P, s.e, st) IN IF r[1] # "ok" THEN r ELSE Each(P, s, r[2][2], 1, r[3])
    [] s.k = "brk" -> <<"brk", Nothing, st>>
    [] s.k = "ret" -> LET r == Ev(P, s.e, st) IN IF r[1] # "ok" THEN r ELSE <<"ret", r[2], r[3]>>
    [] s.k = "do" -> LET r == Call(P, P.fs[FnNo(s.f)], s.a, Burn(st)) IN IF r[1] # "ok" THEN r ELSE Ok(Nothing, r[3])

Fuel == 30000
\* the meaning of a program: [out, failed, known]
Meaning(P) ==
  LET r == ExAll(P, P.main, 1, [env |-> <<>>, out |-> <<>>, fuel |-> Fuel]) IN
  [out |-> r[3].out, failed |-> r[1] = "err", known |-> r[1] # "fuel"]
=============================================================================
