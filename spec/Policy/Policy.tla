------------------------------ MODULE Policy ------------------------------
(* Security policies: named conditions on a subject (and an object), and     *)
(* programs that stop at the first check that is not granted.                *)
(* A value is a record with a type and fields; a policy has predicates (by   *)
(* subject type and name) and capabilities (by subject type, action and      *)
(* object type); a condition is a chain of atoms joined by AND or by OR.     *)
EXTENDS Integers, Sequences, FiniteSets

Has(v, f) == v.type \in {"User", "Document", "Folder"} /\ f \in DOMAIN v.fields
Defined(defs, Q(_)) == \E i \in 1..Len(defs) : Q(defs[i])
First(defs, Q(_)) == defs[CHOOSE i \in 1..Len(defs) : Q(defs[i]) /\ \A j \in 1..(i - 1) : ~Q(defs[j])]
\* a field is kept with its kind: <<"text", s>>, <<"int", n>>, <<"bool", b>>, <<"user", record>>
Alike(a, b) == a[1] = b[1] /\ a[2] = b[2]

RECURSIVE Holds(_, _, _, _), Atom(_, _, _, _)
\* object: a sequence of at most one value
Atom(pol, a, s, o) ==
  CASE a[1] = "lit" -> Has(s, a[2]) /\ Alike(s.fields[a[2]], a[3])
    [] a[1] = "pred" -> LET Q(d) == d.subject = s.type /\ d.name = a[2]
                        IN Defined(pol.preds, Q) /\ Holds(pol, First(pol.preds, Q).cond, s, o)
    [] a[1] = "same" -> o # <<>> /\ Has(s, a[2]) /\ Has(o[1], a[3]) /\ Alike(s.fields[a[2]], o[1].fields[a[3]])
    [] a[1] = "self" -> o # <<>> /\ Has(o[1], a[2]) /\ Alike(<<"user", s>>, o[1].fields[a[2]])
Holds(pol, c, s, o) ==
  IF c.op = "AND" THEN \A i \in 1..Len(c.atoms) : Atom(pol, c.atoms[i], s, o)
  ELSE \E i \in 1..Len(c.atoms) : Atom(pol, c.atoms[i], s, o)

Granted(pol, kind, name, s, o) ==
  IF kind = "is"
  THEN LET Q(d) == d.subject = s.type /\ d.name = name IN Defined(pol.preds, Q) /\ Holds(pol, First(pol.preds, Q).cond, s, <<>>)
  ELSE o # <<>> /\ LET Q(d) == d.subject = s.type /\ d.name = name /\ d.object = o[1].type
                   IN Defined(pol.caps, Q) /\ Holds(pol, First(pol.caps, Q).cond, s, o)

(* Programs over variables that hold values. A step is                       *)
(*   show k | is x p | can x a y | set x f v | put x r | copy x y | count x | *)
(*   when x n body | loop n body | call f x y                                *)
(* Meaning: the variables, the lines shown, whether a check stopped it.      *)
RECURSIVE Run(_, _, _, _, _), Times(_, _, _, _, _, _)
Run(pr, steps, env, out, i) ==
  IF steps = <<>> THEN [env |-> env, out |-> out, ok |-> TRUE]
  ELSE LET h == steps[1]  rest == Tail(steps)
           go(e, o) == Run(pr, rest, e, o, i)
           then(r) == IF r.ok THEN go(r.env, r.out) ELSE r
           stop == [env |-> env, out |-> out, ok |-> FALSE]
       IN CASE h[1] = "show" -> go(env, Append(out, h[2]))
            [] h[1] = "is" -> IF Granted(pr.pol, "is", h[3], env[h[2]], <<>>) THEN go(env, out) ELSE stop
            [] h[1] = "can" -> IF Granted(pr.pol, "can", h[3], env[h[2]], <<env[h[4]]>>) THEN go(env, out) ELSE stop
            [] h[1] = "set" -> go([env EXCEPT ![h[2]].fields[h[3]] = h[4]], out)
            [] h[1] \in {"put", "copy"} -> go([env EXCEPT ![h[2]] = IF h[1] = "put" THEN h[3] ELSE env[h[3]]], out)
            [] h[1] = "count" -> go([env EXCEPT ![h[2]].fields["level"] = <<"int", i>>], out)
            [] h[1] = "when" -> IF env[h[2]].fields["level"][2] = h[3] THEN then(Run(pr, h[4], env, out, i)) ELSE go(env, out)
            [] h[1] = "loop" -> then(Times(pr, h[3], env, out, 1, h[2]))
            [] h[1] = "call" ->
                 LET f == pr.funs[h[2]]
                     r == Run(pr, f, [env EXCEPT !["a"] = env[h[3]], !["b"] = env[h[4]]], out, i)
                 IN IF r.ok THEN go(env, r.out) ELSE r
Times(pr, body, env, out, i, n) ==
  IF i > n THEN [env |-> env, out |-> out, ok |-> TRUE]
  ELSE LET r == Run(pr, body, env, out, i) IN IF r.ok THEN Times(pr, body, r.env, r.out, i + 1, n) ELSE r
=============================================================================
