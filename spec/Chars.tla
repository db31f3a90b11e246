------------------------------- MODULE Chars -------------------------------
(* Strings are sequences of Unicode code points.                                                                       *)
EXTENDS Integers, Sequences, FiniteSets

IsDigit(c) == c >= 48 /\ c <= 57
AllDigits(s) == \A i \in 1..Len(s) : IsDigit(s[i])

(* The order of the first code points which differ *)
StrCmp(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      Differ(i) == a[i] # b[i]
  IN IF \A i \in 1..n : ~Differ(i) THEN (IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE 0)
     ELSE LET i == CHOOSE i \in 1..n : Differ(i) /\ \A j \in 1..(i - 1) : ~Differ(j)
          IN IF a[i] < b[i] THEN -1 ELSE 1

RECURSIVE ToNum(_, _, _)
ToNum(s, i, j) == IF i > j THEN 0 ELSE 10 * ToNum(s, i, j - 1) + (s[j] - 48)
=============================================================================
