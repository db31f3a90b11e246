------------------------------ MODULE Composer ------------------------------
(* Removing keys from an object (jsonComposer.go): the requirement on the tree of the source, and the algorithm, which   *)
(* copies token by token and leaves out the members to be removed together with one comma.                              *)
EXTENDS Lex, Escape

Text(b, tk) == SubSeq(b, tk.s + 1, tk.s + tk.n)
Str(tk) == tk.t \in {"string", "escaped_string"}
Lits == {"string", "escaped_string", "integer", "number", "true", "false", "null"}
Key(b, tk) == Denotes(Text(b, tk))

(* ---- the tree: [ok, n: next token, v], v = [k, a: first token, z: last token, c: children], children of objects [key, v] ---- *)
None == [k |-> "none", a |-> 0, z |-> 0, c |-> <<>>]
Fail == [ok |-> FALSE, n |-> 0, v |-> None]
RECURSIVE ParseV(_, _)
RECURSIVE Members(_, _, _)
RECURSIVE Elements(_, _, _)
ParseV(ts, i) ==
  CASE ts[i].t \in Lits -> [ok |-> TRUE, n |-> i + 1, v |-> [k |-> "lit", a |-> i, z |-> i, c |-> <<>>]]
    [] ts[i].t = "object_start" ->
         LET r == IF ts[i + 1].t = "object_end" THEN [ok |-> TRUE, n |-> i + 2, c |-> <<>>] ELSE Members(ts, i + 1, <<>>)
         IN IF r.ok THEN [ok |-> TRUE, n |-> r.n, v |-> [k |-> "obj", a |-> i, z |-> r.n - 1, c |-> r.c]] ELSE Fail
    [] ts[i].t = "array_start" ->
         LET r == IF ts[i + 1].t = "array_end" THEN [ok |-> TRUE, n |-> i + 2, c |-> <<>>] ELSE Elements(ts, i + 1, <<>>)
         IN IF r.ok THEN [ok |-> TRUE, n |-> r.n, v |-> [k |-> "arr", a |-> i, z |-> r.n - 1, c |-> r.c]] ELSE Fail
    [] OTHER -> Fail
Members(ts, i, acc) ==
  IF ~Str(ts[i]) \/ ts[i + 1].t # "object_key_delim" THEN Fail
  ELSE LET r == ParseV(ts, i + 2)
       IN IF ~r.ok THEN Fail
          ELSE LET acc2 == Append(acc, [key |-> i, v |-> r.v])
               IN CASE ts[r.n].t = "list_delim" -> Members(ts, r.n + 1, acc2)
                    [] ts[r.n].t = "object_end" -> [ok |-> TRUE, n |-> r.n + 1, c |-> acc2]
                    [] OTHER -> Fail
Elements(ts, i, acc) ==
  LET r == ParseV(ts, i)
  IN IF ~r.ok THEN Fail
     ELSE CASE ts[r.n].t = "list_delim" -> Elements(ts, r.n + 1, Append(acc, r.v))
            [] ts[r.n].t = "array_end" -> [ok |-> TRUE, n |-> r.n + 1, c |-> Append(acc, r.v)]
            [] OTHER -> Fail

(* ---- the requirement ---- *)
Out(b, tks, m, keys) == Key(b, tks[m.key]) \in keys
RECURSIVE Keep(_, _, _, _)
Keep(b, ts, v, keys) ==
  CASE v.k = "lit" -> v
    [] v.k = "obj" -> [v EXCEPT !.c = LET rest == SelectSeq(v.c, LAMBDA m : ~Out(b, ts, m, keys))
                                      IN [i \in DOMAIN rest |-> [rest[i] EXCEPT !.v = Keep(b, ts, rest[i].v, keys)]]]
    [] OTHER -> [v EXCEPT !.c = [i \in DOMAIN v.c |-> Keep(b, ts, v.c[i], keys)]]
(* the members which are taken out: [key: code points, from, to: tokens of the value] *)
RECURSIVE Taken(_, _, _, _)
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
Taken(b, ts, v, keys) ==
  CASE v.k = "lit" -> <<>>
    [] v.k = "obj" -> Flatten([i \in DOMAIN v.c |-> IF Out(b, ts, v.c[i], keys) THEN <<[key |-> Key(b, ts[v.c[i].key]), a |-> v.c[i].v.a, z |-> v.c[i].v.z]>>
                                                     ELSE Taken(b, ts, v.c[i].v, keys)])
    [] OTHER -> Flatten([i \in DOMAIN v.c |-> Taken(b, ts, v.c[i], keys)])
Comma == <<44>>
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<Comma>> \o Join(Tail(ss))
(* the texts of the tokens of a value *)
RECURSIVE Texts(_, _, _)
Texts(b, ts, v) ==
  CASE v.k = "lit" -> <<Text(b, ts[v.a])>>
    [] v.k = "obj" -> <<<<123>>>> \o Join([i \in DOMAIN v.c |-> <<Text(b, ts[v.c[i].key]), <<58>>>> \o Texts(b, ts, v.c[i].v)]) \o <<<<125>>>>
    [] OTHER -> <<<<91>>>> \o Join([i \in DOMAIN v.c |-> Texts(b, ts, v.c[i])]) \o <<<<93>>>>
(* the bytes of tokens a..z of the source, with whatever is between them *)
Span(b, ts, a, z) == SubSeq(b, ts[a].s + 1, ts[z].s + ts[z].n)

(* ---- well-formedness of the source ---- *)
Opens == {"object_start", "array_start"}
Closes == {"object_end", "array_end"}
RECURSIVE Balance(_, _, _)
Balance(ts, i, d) == IF i > Len(ts) THEN d ELSE IF d < 0 THEN -1
                     ELSE Balance(ts, i + 1, IF ts[i].t \in Opens THEN d + 1 ELSE IF ts[i].t \in Closes THEN d - 1 ELSE d)
(* "ok" with the tree; "bad": an error is required; "open": not specified (trailing values, tokens out of place, outer blanks) *)
Source(b) ==
  LET ts == Tokens(b)
      n  == Len(ts)
  IN IF ts[n].t # "end" \/ n = 1 \/ Balance(ts, 1, 0) # 0 \/ ts[1].t # "object_start" \/ ts[n - 1].t # "object_end"
       THEN [c |-> "bad", ts |-> ts, v |-> None]
     ELSE LET r == ParseV(ts, 1)
          IN IF r.ok /\ r.n = n /\ b[1] = 123 /\ b[Len(b)] = 125 THEN [c |-> "ok", ts |-> ts, v |-> r.v] ELSE [c |-> "open", ts |-> ts, v |-> None]

(* ---- the algorithm: one pass over the tokens ---- *)
RECURSIVE ValueEnd(_, _, _)
ValueEnd(ts, i, d) ==        \* the last token of the value which token i continues at depth d
  LET d2 == IF ts[i].t \in Opens THEN d + 1 ELSE IF ts[i].t \in Closes THEN d - 1 ELSE d
  IN IF d2 = 0 /\ ts[i].t \in Lits \cup Closes THEN i ELSE ValueEnd(ts, i + 1, d2)
Put(out, x) == IF x = <<125>> /\ out # <<>> /\ out[Len(out)] = Comma THEN SubSeq(out, 1, Len(out) - 1) \o <<x>> ELSE Append(out, x)
RECURSIVE Copy(_, _, _, _, _)
Copy(b, ts, i, out, keys) ==
  CASE ts[i].t = "end" -> out
    [] Str(ts[i]) /\ ts[i + 1].t = "object_key_delim" /\ Key(b, ts[i]) \in keys ->
         LET e == ValueEnd(ts, i + 2, 0)
         IN IF ts[e + 1].t = "list_delim" THEN Copy(b, ts, e + 2, out, keys) ELSE Copy(b, ts, e + 1, out, keys)
    [] OTHER -> Copy(b, ts, i + 1, Put(out, Text(b, ts[i])), keys)
=============================================================================
