------------------------------ MODULE RegexText ------------------------------
(* Which texts are regular expressions ("ok", "bad"), for a part of the syntax; "open" for anything else.               *)
EXTENDS Integers, Sequences
RxWord(c) == (c >= 48 /\ c <= 57) \/ (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c \in {32, 45, 95, 44, 58, 59, 47, 64, 35, 33, 37, 38, 60, 61, 62, 126, 34, 39}
RxAt(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
RECURSIVE ClassEnd(_, _)
(* a class of words and ascending ranges, from i; the position after "]", 0: bad or unknown *)
ClassEnd(s, i) ==
  LET c == RxAt(s, i)
  IN IF c = 93 THEN i + 1
     ELSE IF ~RxWord(c) \/ c = 45 THEN 0
     ELSE IF RxAt(s, i + 1) = 45 THEN (IF RxWord(RxAt(s, i + 2)) /\ RxAt(s, i + 2) # 45 /\ c <= RxAt(s, i + 2) THEN ClassEnd(s, i + 3) ELSE 0)
     ELSE ClassEnd(s, i + 1)
RECURSIVE Rx(_, _, _, _)
(* i: position; d: open parentheses; p: what precedes: "n" nothing that can be repeated, "a" an atom, "r" a repetition *)
Rx(s, i, d, p) ==
  LET c == RxAt(s, i)
  IN CASE c = -1 -> IF d = 0 THEN "ok" ELSE "bad"
       [] c \in {42, 43} -> IF p = "a" THEN Rx(s, i + 1, d, "r") ELSE "bad"
       [] c = 63 -> IF p = "a" THEN Rx(s, i + 1, d, "r") ELSE IF p = "r" THEN Rx(s, i + 1, d, "l") ELSE "bad"
       [] c = 40 -> IF RxAt(s, i + 1) = 63 THEN "open" ELSE Rx(s, i + 1, d + 1, "n")
       [] c = 41 -> IF d = 0 THEN "bad" ELSE Rx(s, i + 1, d - 1, "a")
       [] c = 124 -> Rx(s, i + 1, d, "n")
       [] c = 46 -> Rx(s, i + 1, d, "a")
       [] c \in {94, 36} -> IF RxAt(s, i + 1) \in {42, 43, 63} THEN "open" ELSE Rx(s, i + 1, d, "n")
       [] c = 91 -> LET j == IF RxAt(s, i + 1) = 94 THEN i + 2 ELSE i + 1
                    IN IF RxAt(s, j) = 93 THEN "open"
                       ELSE IF ClassEnd(s, j) = 0 THEN (IF \A k \in i..Len(s) : s[k] # 93 THEN "bad" ELSE "open")
                       ELSE Rx(s, ClassEnd(s, j), d, "a")
       [] c = 92 -> IF i = Len(s) THEN "bad" ELSE IF RxAt(s, i + 1) \in {100, 119, 115, 68, 87, 83, 46, 42, 43, 63, 40, 41, 91, 93, 92, 124, 94, 36}
                                                  THEN Rx(s, i + 2, d, "a") ELSE "open"
       [] RxWord(c) -> Rx(s, i + 1, d, "a")
       [] OTHER -> "open"
(* a class which is bad may stand before a part which is unknown, so anything unknown makes the text open *)
RegexStatus(s) == Rx(s, 1, 0, "n")
=============================================================================
