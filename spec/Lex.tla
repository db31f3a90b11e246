--------------------------------- MODULE Lex ---------------------------------
(* The lexical grammar of JSON, twice: by the productions of RFC 8259 (Grammar...), and as the automaton which reads one *)
(* byte after the other (Auto...).  Texts are sequences of bytes.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

White  == {32, 9, 10, 13}
Digit  == 48..57
Digit1 == 49..57
Hex    == Digit \cup 65..70 \cup 97..102
Simple == {98, 102, 110, 114, 116, 92, 47, 34}       \* b f n r t \ / "
Punct  == (123 :> "object_start") @@ (125 :> "object_end") @@ (58 :> "object_key_delim")
          @@ (91 :> "array_start") @@ (93 :> "array_end") @@ (44 :> "list_delim")
TrueW  == <<116, 114, 117, 101>>
FalseW == <<102, 97, 108, 115, 101>>
NullW  == <<110, 117, 108, 108>>

(* ---- productions ---- *)
AllIn(s, S) == \A i \in DOMAIN s : s[i] \in S
Part(s, i, j) == SubSeq(s, i, j)
IsInt(s)  == s = <<48>> \/ (Len(s) > 0 /\ s[1] \in Digit1 /\ AllIn(s, Digit))
IsFrac(s) == s = <<>> \/ (Len(s) > 1 /\ s[1] = 46 /\ AllIn(Tail(s), Digit))
IsExp(s)  == \/ s = <<>>
             \/ /\ Len(s) > 1 /\ s[1] \in {101, 69}
                /\ LET t == IF s[2] \in {43, 45} THEN Part(s, 3, Len(s)) ELSE Tail(s) IN t # <<>> /\ AllIn(t, Digit)
IsUNum(s) == \E i \in 1..Len(s) : \E j \in i..Len(s) : IsInt(Part(s, 1, i)) /\ IsFrac(Part(s, i + 1, j)) /\ IsExp(Part(s, j + 1, Len(s)))
Unsigned(s) == IF s # <<>> /\ s[1] = 45 THEN Tail(s) ELSE s
IsNumber(s) == IsUNum(Unsigned(s))
IsInteger(s) == IsInt(Unsigned(s))
RECURSIVE IsChars(_)
IsChars(s) ==
  \/ s = <<>>
  \/ s[1] >= 32 /\ s[1] \notin {34, 92} /\ IsChars(Tail(s))
  \/ Len(s) >= 2 /\ s[1] = 92 /\ s[2] \in Simple /\ IsChars(Part(s, 3, Len(s)))
  \/ Len(s) >= 6 /\ s[1] = 92 /\ s[2] = 117 /\ AllIn(Part(s, 3, 6), Hex) /\ IsChars(Part(s, 7, Len(s)))
IsStr(s) == Len(s) >= 2 /\ s[1] = 34 /\ s[Len(s)] = 34 /\ IsChars(Part(s, 2, Len(s) - 1))

Kind(s) == CASE Len(s) = 1 /\ s[1] \in DOMAIN Punct -> Punct[s[1]]
             [] s = TrueW -> "true"
             [] s = FalseW -> "false"
             [] s = NullW -> "null"
             [] IsStr(s) -> IF 92 \in {s[i] : i \in DOMAIN s} THEN "escaped_string" ELSE "string"
             [] IsInteger(s) -> "integer"
             [] IsNumber(s) -> "number"
             [] OTHER -> "none"
(* beginnings of tokens *)
Fill == {<<>>, <<48>>, <<34>>, <<34, 34>>, <<48, 34>>, <<48, 48, 34>>, <<48, 48, 48, 34>>, <<48, 48, 48, 48, 34>>,
         <<101>>, <<117, 101>>, <<114, 117, 101>>, <<115, 101>>, <<108, 115, 101>>, <<97, 108, 115, 101>>, <<108>>, <<108, 108>>, <<117, 108, 108>>}
Begins(s) == \E t \in Fill : Kind(s \o t) # "none"

RECURSIVE SkipWhite(_, _)
SkipWhite(b, i) == IF i <= Len(b) /\ b[i] \in White THEN SkipWhite(b, i + 1) ELSE i
RECURSIVE Longest(_, _, _)
Longest(b, i, j) == IF j < Len(b) /\ Begins(Part(b, i, j + 1)) THEN Longest(b, i, j + 1) ELSE j
(* the tokens [t: type, s: start (from 0), n: length], then "end" or "error" *)
RECURSIVE Grammar(_, _)
Grammar(b, i0) ==
  LET i == SkipWhite(b, i0)
      j == Longest(b, i, i - 1)
  IN IF i > Len(b) THEN <<[t |-> "end", s |-> 0, n |-> 0]>>
     ELSE IF j < i \/ Kind(Part(b, i, j)) = "none" THEN <<[t |-> "error", s |-> 0, n |-> 0]>>
     ELSE <<[t |-> Kind(Part(b, i, j)), s |-> i - 1, n |-> j - i + 1]>> \o Grammar(b, j + 1)

(* ---- automaton: a state and what has been seen; "done" emits with the byte, "back" without it ---- *)
Words == ("t" :> <<114, "tr">>) @@ ("tr" :> <<117, "tru">>) @@ ("tru" :> <<101, "true">>) @@ ("f" :> <<97, "fa">>) @@ ("fa" :> <<108, "fal">>)
         @@ ("fal" :> <<115, "fals">>) @@ ("fals" :> <<101, "false">>) @@ ("n" :> <<117, "nu">>) @@ ("nu" :> <<108, "nul">>) @@ ("nul" :> <<108, "null">>)
Start == [q |-> "start", x |-> FALSE]
Ends == {"zero", "int", "frac", "exp"}            \* numbers may end here
To(q, x) == [q |-> q, x |-> x]
Delta(st, c) ==
  LET q == st.q
      x == st.x
  IN CASE q = "start" ->
            CASE c \in White -> Start
              [] c \in DOMAIN Punct -> To("done", x)
              [] c = 34 -> To("str", FALSE)
              [] c = 45 -> To("neg", FALSE)
              [] c = 48 -> To("zero", FALSE)
              [] c \in Digit1 -> To("int", FALSE)
              [] c = 116 -> To("t", FALSE)
              [] c = 102 -> To("f", FALSE)
              [] c = 110 -> To("n", FALSE)
              [] OTHER -> To("bad", x)
       [] q = "str" -> CASE c = 34 -> To("done", x) [] c = 92 -> To("esc", TRUE) [] c < 32 -> To("bad", x) [] OTHER -> st
       [] q = "esc" -> CASE c \in Simple -> To("str", TRUE) [] c = 117 -> To("u", TRUE) [] OTHER -> To("bad", x)
       [] q = "u"   -> IF c \in Hex THEN To("u1", TRUE) ELSE To("bad", x)
       [] q = "u1"  -> IF c \in Hex THEN To("u2", TRUE) ELSE To("bad", x)
       [] q = "u2"  -> IF c \in Hex THEN To("u3", TRUE) ELSE To("bad", x)
       [] q = "u3"  -> IF c \in Hex THEN To("str", TRUE) ELSE To("bad", x)
       [] q = "neg" -> CASE c = 48 -> To("zero", FALSE) [] c \in Digit1 -> To("int", FALSE) [] OTHER -> To("bad", x)
       [] q = "zero" -> CASE c = 46 -> To("dot", TRUE) [] c \in {101, 69} -> To("e", TRUE) [] OTHER -> To("back", x)
       [] q = "int"  -> CASE c \in Digit -> st [] c = 46 -> To("dot", TRUE) [] c \in {101, 69} -> To("e", TRUE) [] OTHER -> To("back", x)
       [] q = "dot"  -> IF c \in Digit THEN To("frac", TRUE) ELSE To("bad", x)
       [] q = "frac" -> CASE c \in Digit -> st [] c \in {101, 69} -> To("e", TRUE) [] OTHER -> To("back", x)
       [] q = "e"    -> CASE c \in {43, 45} -> To("sign", TRUE) [] c \in Digit -> To("exp", TRUE) [] OTHER -> To("bad", x)
       [] q = "sign" -> IF c \in Digit THEN To("exp", TRUE) ELSE To("bad", x)
       [] q = "exp"  -> IF c \in Digit THEN st ELSE To("back", x)
       [] OTHER      -> IF c = Words[q][1] THEN (IF Words[q][2] \in {"true", "false", "null"} THEN To("done", x) ELSE To(Words[q][2], FALSE))
                        ELSE To("bad", x)
TypeOf(st, b) == CASE st.q = "start" -> Punct[b]
                   [] st.q = "str" -> IF st.x THEN "escaped_string" ELSE "string"
                   [] st.q \in Ends -> IF st.x THEN "number" ELSE "integer"
                   [] OTHER -> Words[st.q][2]

(* Reading a byte: the state, where the token began, the place of the byte, and the tokens so far *)
Err == [t |-> "error", s |-> 0, n |-> 0]
End == [t |-> "end", s |-> 0, n |-> 0]
Tok(st, b, s, n) == [t |-> TypeOf(st, b), s |-> s - 1, n |-> n]
Fresh(i, st, out) == [i |-> i + 1, st |-> st, s |-> IF st.q = "start" THEN i + 1 ELSE i, out |-> out]
Read(r, c) ==
  IF r.st.q = "bad" THEN r
  ELSE LET d == Delta(r.st, c)
       IN CASE d.q = "bad"   -> [r EXCEPT !.st = d]
            [] d.q = "done"  -> Fresh(r.i, Start, Append(r.out, Tok(r.st, c, r.s, r.i - r.s + 1)))
            [] d.q = "back"  ->        \* the byte is the first after the token
                 LET out2 == Append(r.out, Tok(r.st, 0, r.s, r.i - r.s))
                     d2   == Delta(Start, c)
                 IN CASE d2.q = "bad"  -> [r EXCEPT !.st = d2, !.out = out2]
                      [] d2.q = "done" -> Fresh(r.i, Start, Append(out2, Tok(Start, c, r.i, 1)))
                      [] OTHER -> Fresh(r.i, d2, out2)
            [] d.q = "start" -> Fresh(r.i, Start, r.out)
            [] OTHER -> [r EXCEPT !.i = r.i + 1, !.st = d]
(* ... and the end of the text *)
Finish(r) ==
  CASE r.st.q = "bad" -> Append(r.out, Err)
    [] r.st.q = "start" -> Append(r.out, End)
    [] r.st.q \in Ends -> r.out \o <<Tok(r.st, 0, r.s, r.i - r.s), End>>
    [] OTHER -> Append(r.out, Err)
Tokens(b) == Finish(FoldLeft(Read, [i |-> 1, st |-> Start, s |-> 1, out |-> <<>>], b))
=============================================================================
