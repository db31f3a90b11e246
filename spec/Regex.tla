------------------------------- MODULE Regex -------------------------------
(* Regular expressions as trees, and whether some part of a string is in the language of one.                          *)
(* [o |-> "chr", c], "any", [o |-> "cls", neg, s (sequence of <<lo, hi>>)], [o |-> "cat"|"alt", e (sequence)],          *)
(* [o |-> "star"|"plus"|"opt", e], "bol", "eol", "emp";                                                                 *)
(* the beginning and end of a line "mbol", "meol", and (no) word boundaries "wb", "nwb"                                  *)
EXTENDS Integers, Sequences

InCls(r, c) == (\E i \in 1..Len(r.s) : c >= r.s[i][1] /\ c <= r.s[i][2]) = ~r.neg

Word(c) == (c >= 48 /\ c <= 57) \/ (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c = 95
AtWord(s, p) == (p > 0 /\ Word(s[p])) # (p < Len(s) /\ Word(s[p + 1]))

(* Positions (0..Len) at which a match of r that starts at one of the positions P can end *)
RECURSIVE Ends(_, _, _), EndsCat(_, _, _, _), EndsStar(_, _, _)
Ends(r, s, P) ==
  CASE r.o = "emp" -> P
    [] r.o = "chr" -> {p + 1 : p \in {q \in P : q < Len(s) /\ s[q + 1] = r.c}}
    [] r.o = "any" -> {p + 1 : p \in {q \in P : q < Len(s) /\ s[q + 1] # 10}}
    [] r.o = "cls" -> {p + 1 : p \in {q \in P : q < Len(s) /\ InCls(r, s[q + 1])}}
    [] r.o = "bol" -> P \cap {0}
    [] r.o = "eol" -> P \cap {Len(s)}
    [] r.o = "mbol" -> {p \in P : p = 0 \/ s[p] = 10}
    [] r.o = "meol" -> {p \in P : p = Len(s) \/ s[p + 1] = 10}
    [] r.o = "wb" -> {p \in P : AtWord(s, p)}
    [] r.o = "nwb" -> {p \in P : ~AtWord(s, p)}
    [] r.o = "cat" -> EndsCat(r.e, s, P, 1)
    [] r.o = "alt" -> UNION {Ends(r.e[i], s, P) : i \in 1..Len(r.e)}
    [] r.o = "opt" -> P \cup Ends(r.e, s, P)
    [] r.o = "star" -> EndsStar(r.e, s, P)
    [] r.o = "plus" -> EndsStar(r.e, s, Ends(r.e, s, P))
EndsCat(e, s, P, i) == IF i > Len(e) THEN P ELSE EndsCat(e, s, Ends(e[i], s, P), i + 1)
EndsStar(r, s, P) == LET Q == P \cup Ends(r, s, P) IN IF Q = P THEN P ELSE EndsStar(r, s, Q)

Contains(r, s) == Ends(r, s, 0..Len(s)) # {}
=============================================================================
