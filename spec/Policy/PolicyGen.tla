---------------------------- MODULE PolicyGen ----------------------------
(* Policies with nested predicates and capabilities, values close to the     *)
(* edge of what they grant, and programs that check in straight lines,       *)
(* branches, hot loops and functions.                                        *)
EXTENDS Policy, TLC, Json
VARIABLES n
R(S) == RandomElement({x \in S : n >= -1})
Texts == {"admin", "guest", "ann", "bob"}
Preds == {"admin", "trusted", "editor", "senior"}
Acts == {"edit", "publish"}
Text == <<"text", R(Texts)>>
Num == <<"int", R(0..3)>>
Flag == <<"bool", R(BOOLEAN)>>
NewUser == [type |-> "User", fields |-> [name |-> Text, role |-> Text, level |-> Num, active |-> Flag]]
NewThing(t, u) == IF t = "Document" THEN [type |-> t, fields |-> [author |-> Text, level |-> Num, owner |-> <<"user", u>>]]
                  ELSE [type |-> t, fields |-> [author |-> Text, level |-> Num]]
Lit == CASE R(1..6) \in {1, 2} -> <<"lit", R({"name", "role"}), Text>>
         [] R(1..6) \in {1, 2} -> <<"lit", "level", Num>>
         [] R(1..6) \in {1, 2} -> <<"lit", "active", Flag>>
         [] R(1..8) = 1 -> <<"lit", "level", <<"text", R({"0", "1", "2"})>>>>
         [] R(1..8) = 1 -> <<"lit", "author", Text>>
         [] OTHER -> <<"lit", "role", Text>>
\* predicates may name those defined before them
AtomP(k) == IF k > 1 /\ R(1..2) = 1 THEN <<"pred", R({"admin", "trusted", "editor"})>> ELSE Lit
AtomC == LET x == R(1..9)
         IN CASE x \in {1, 2} -> <<"pred", R(Preds)>>
              [] x \in {3, 4} -> <<"same", R({"name", "role"}), "author">>
              [] x = 5 -> <<"same", "level", "level">>
              [] x = 6 -> <<"same", "name", "owner">>
              [] x \in {7, 8} -> <<"self", "owner">>
              [] OTHER -> Lit
Chain(A) == LET k == R({1, 1, 2, 2, 3, 4}) IN [op |-> R({"AND", "OR"}), atoms |-> [i \in 1..k |-> A[i]]]
Order == <<"admin", "trusted", "editor", "senior">>
\* a predicate names only earlier ones, so definitions never go round
Earlier(a, k) == a[1] # "pred" \/ \E j \in 1..(k - 1) : Order[j] = a[2]
FixP(a, k) == IF Earlier(a, k) THEN a ELSE <<"lit", "role", <<"text", Order[k]>>>>
DefsP(A, m) == [k \in 1..m |-> [subject |-> IF R(1..5) = 1 THEN "Document" ELSE "User", name |-> Order[k], cond |-> Chain([i \in 1..4 |-> FixP(A[k][i], k)])]]
DefsC(m, C) == [k \in 1..m |-> [subject |-> "User", name |-> C[k][1], object |-> C[k][2], cond |-> Chain([i \in 1..4 |-> AtomC])]]
Uv == {"u", "v"}
Ov == {"d", "e", "f"}
Setting == LET x == R(1..6)
           IN CASE x = 5 -> <<"put", R(Uv), NewUser>>
                [] x = 6 -> <<"copy", R(Uv), R(Uv)>>
                [] x = 1 -> <<"set", R(Uv), R({"name", "role"}), Text>>
                [] x = 2 -> <<"set", R(Uv), "level", Num>>
                [] x = 3 -> <<"set", R(Uv), "active", Flag>>
                [] OTHER -> <<"set", R(Ov), "author", Text>>
Checking == IF R(1..2) = 1 THEN <<"is", R(Uv), R(Preds)>> ELSE <<"can", R(Uv), R(Acts), R(Ov)>>
Odd == LET x == R(1..3) IN CASE x = 1 -> <<"is", R(Ov \cup {"k"}), R(Preds)>> [] x = 2 -> <<"can", R({"d", "k"}), R(Acts), R(Ov)>> [] OTHER -> <<"can", R(Uv), R(Acts), R({"k", "u"})>>
Show == <<"show", R(1..99)>>
Simple == LET x == R(1..8) IN CASE x \in {1, 2, 3} -> Checking [] x \in {4, 5} -> Setting [] OTHER -> Show
Body == [i \in 1..R(2..3) |-> Simple]
\* a subject that is someone else only for the length of a check
Sandwich ==
  LET x == IF R(1..2) = 1 THEN <<"u", "v">> ELSE <<"v", "u">>
      t == <<"copy", x[1], x[2]>>
      c == IF R(1..2) = 1 THEN <<"is", x[1], R(Preds)>> ELSE <<"can", x[1], R(Acts), R(Ov)>>
      w == IF R(1..2) = 1 THEN <<"put", x[1], NewUser>> ELSE <<"put", x[2], NewUser>>
  IN IF R(1..2) = 1 THEN <<t, c, <<"copy", x[1], "w">>, Show>> ELSE <<w, t, c, <<"copy", x[1], "w">>, Show>>
Looping == LET x == R(1..4)
           IN CASE x = 4 -> <<"loop", R({1, 2, 3}), Sandwich>>
                [] x = 1 -> <<"loop", R({2, 3, 4}), <<<<"count", R(Uv)>>, Checking, Show>>>>
                [] x = 2 -> <<"loop", R({3, 150}), <<Checking, Setting>>>>
                [] OTHER -> <<"loop", 4, <<<<"count", "u">>, <<"when", "u", R(1..4), Body>>, Show>>>>
Step == LET x == R(1..20)
        IN CASE x <= 6 -> Checking [] x <= 9 -> Setting [] x <= 12 -> Show [] x <= 14 -> <<"when", R(Uv), R(0..3), Body>>
             [] x <= 16 -> Looping [] x <= 18 -> <<"call", R(1..2), R(Uv), R({"d", "e"})>> [] x = 19 -> <<"call", 2, R(Uv), R({"d", "e"})>> [] OTHER -> IF R(1..4) = 1 THEN Odd ELSE Show
Funs == << <<<<"can", "a", R(Acts), "b">>, Show>>, <<<<"is", "a", R(Preds)>>, Show, <<"can", "a", R(Acts), "b">>, Show>> >>
Env(u, v) == [u |-> u, v |-> v, w |-> NewUser, d |-> NewThing("Document", u), e |-> NewThing("Document", v), f |-> NewThing("Folder", v), k |-> [type |-> "Int", fields |-> <<>>],
              a |-> u, b |-> u]
(* What the policy grants now and would not grant after one change: the same *)
(* check before and after the change, in one block.                          *)
Checks_ == {<<"is", x, p>> : x \in Uv, p \in Preds} \cup {<<"can", x, a, y>> : x \in Uv, a \in Acts, y \in Ov}
Changes == {<<"set", x, f, <<"text", t>>>> : x \in Uv, f \in {"name", "role"}, t \in Texts} \cup {<<"set", x, "level", <<"int", k>>>> : x \in Uv, k \in 0..3}
           \cup {<<"set", x, "active", <<"bool", b>>>> : x \in Uv, b \in BOOLEAN} \cup {<<"set", y, "author", <<"text", t>>>> : y \in Ov, t \in Texts}
           \cup {<<"copy", "u", "v">>, <<"copy", "v", "u">>, <<"copy", "u", "w">>, <<"copy", "v", "w">>}
Ok(pol, env, c) == IF c[1] = "is" THEN Granted(pol, "is", c[3], env[c[2]], <<>>) ELSE Granted(pol, "can", c[3], env[c[2]], <<env[c[4]]>>)
After(env, h) == IF h[1] = "copy" THEN [env EXCEPT ![h[2]] = env[h[3]]] ELSE [env EXCEPT ![h[2]].fields[h[3]] = h[4]]
Turns(pol, env) == {ch \in Checks_ \X Changes : Ok(pol, env, ch[1]) /\ ~Ok(pol, After(env, ch[2]), ch[1])}
Twice(ch) == LET x == R(1..4)
             IN CASE x = 1 -> <<ch[1], ch[2], ch[1], Show>>
                  [] x = 2 -> <<ch[1], Show, ch[2], Show, ch[1], Show>>
                  [] x = 3 -> <<<<"loop", R({1, 2, 3}), <<ch[1], ch[2], ch[1], Show>>>>, Show>>
                  [] OTHER -> <<<<"loop", R({2, 150}), <<ch[1], ch[2]>>>>, Show>>
Emit_(pol, env, fs, st) ==
  \E T \in {IF R(1..2) = 1 THEN Turns(pol, env) ELSE {}} :
  \E ss \in {IF T = {} THEN st ELSE Twice(RandomElement(T))} :
     PrintT("GEN " \o ToJson([pol |-> pol, env |-> env, funs |-> fs, steps |-> ss]))
Init == n = 0
Emit == \E u \in {NewUser} : \E v \in {NewUser} : \E env \in {Env(u, v)} :
        \E A \in {[k \in 1..4 |-> [i \in 1..4 |-> AtomP(k)]]} : \E C \in {<<<<"edit", "Document">>, <<R(Acts), R({"Document", "Folder"})>>, <<"publish", "Folder">>, <<"edit", "Folder">>>>} :
        \E pol \in {[preds |-> DefsP(A, R(1..4)), caps |-> DefsC(R(0..4), C)]} :
        \E fs \in {Funs} : \E st \in {[i \in 1..R(2..6) |-> Step]} :
          Emit_(pol, env, fs, st)
Next == n < 50 /\ n' = n + 1 /\ Emit
Spec == Init /\ [][Next]_n
=============================================================================
