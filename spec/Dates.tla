------------------------------- MODULE Dates -------------------------------
(* The date texts which DATE() and DATE comparisons understand, as points in time <<day, second of day, nanosecond>>.  *)
EXTENDS Chars

NoTime == [ok |-> FALSE, t |-> <<0, 0, 0>>]

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
(* Days of a non-leap year before month m *)
Before(m) == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>[m]
LeapsBefore(y) == IF y = 0 THEN 0 ELSE ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400) + 1     \* years 0..y-1
DayNr(y, m, d) == 365 * y + LeapsBefore(y) + Before(m) + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0) + d

Dig(s, i, j) == j <= Len(s) /\ \A k \in i..j : IsDigit(s[k])
At(s, i, c) == i <= Len(s) /\ s[i] = c

(* yyyy-mm-dd in s[i..i+9] *)
IsYmd(s, i) ==
  /\ Dig(s, i, i + 3) /\ At(s, i + 4, 45) /\ Dig(s, i + 5, i + 6) /\ At(s, i + 7, 45) /\ Dig(s, i + 8, i + 9)
  /\ LET y == ToNum(s, i, i + 3)
         m == ToNum(s, i + 5, i + 6)
         d == ToNum(s, i + 8, i + 9)
     IN m >= 1 /\ m <= 12 /\ d >= 1 /\ d <= DaysIn(y, m)
YmdDay(s, i) == DayNr(ToNum(s, i, i + 3), ToNum(s, i + 5, i + 6), ToNum(s, i + 8, i + 9))

IsHms(s, i) ==
  /\ Dig(s, i, i + 1) /\ At(s, i + 2, 58) /\ Dig(s, i + 3, i + 4) /\ At(s, i + 5, 58) /\ Dig(s, i + 6, i + 7)
  /\ ToNum(s, i, i + 1) < 24 /\ ToNum(s, i + 3, i + 4) < 60 /\ ToNum(s, i + 6, i + 7) < 60
HmsSec(s, i) == 3600 * ToNum(s, i, i + 1) + 60 * ToNum(s, i + 3, i + 4) + ToNum(s, i + 6, i + 7)

RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN DigitsEnd(s, i + 1) ELSE i

Pow10(n) == <<1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000>>[n + 1]

(* Moves a time by seconds (less than two days) *)
Norm(day, sec, ns) ==
  IF sec < 0 THEN <<day - ((-sec + 86399) \div 86400), sec + 86400 * ((-sec + 86399) \div 86400), ns>>
  ELSE <<day + (sec \div 86400), sec % 86400, ns>>

(* RFC 3339: yyyy-mm-ddThh:mm:ss[.f+](Z|(+|-)hh:mm), up to 9 fraction digits *)
Rfc3339(s) ==
  IF ~(IsYmd(s, 1) /\ At(s, 11, 84) /\ IsHms(s, 12)) THEN NoTime
  ELSE LET hasFrac == At(s, 20, 46) /\ Dig(s, 21, 21)
           fe == IF hasFrac THEN DigitsEnd(s, 21) ELSE 20
           nd == IF hasFrac THEN fe - 21 ELSE 0
           ns == IF hasFrac /\ nd <= 9 THEN ToNum(s, 21, fe - 1) * Pow10(9 - nd) ELSE 0
           day == YmdDay(s, 1)
           sec == HmsSec(s, 12)
       IN IF nd > 9 THEN NoTime
          ELSE IF At(s, fe, 90) /\ Len(s) = fe THEN [ok |-> TRUE, t |-> <<day, sec, ns>>]
          ELSE IF /\ Len(s) = fe + 5 /\ s[fe] \in {43, 45} /\ Dig(s, fe + 1, fe + 2) /\ s[fe + 3] = 58
                  /\ Dig(s, fe + 4, fe + 5) /\ ToNum(s, fe + 1, fe + 2) < 24 /\ ToNum(s, fe + 4, fe + 5) < 60
               THEN LET off == 3600 * ToNum(s, fe + 1, fe + 2) + 60 * ToNum(s, fe + 4, fe + 5)
                    IN [ok |-> TRUE, t |-> Norm(day, IF s[fe] = 43 THEN sec - off ELSE sec + off, ns)]
          ELSE NoTime

IsCentury(s) == (At(s, 1, 49) /\ At(s, 2, 57)) \/ (At(s, 1, 50) /\ At(s, 2, 48))      \* 19 or 20

(* The forms of constants and of strings converted to a DATE constant *)
IsoTime(s) ==
  IF Len(s) = 4 /\ Dig(s, 1, 4) /\ IsCentury(s) THEN [ok |-> TRUE, t |-> <<DayNr(ToNum(s, 1, 4), 1, 1), 0, 0>>]
  ELSE IF Len(s) = 7 /\ IsCentury(s) /\ IsYmd(s \o <<45, 48, 49>>, 1)
       THEN [ok |-> TRUE, t |-> <<YmdDay(s \o <<45, 48, 49>>, 1), 0, 0>>]
  ELSE IF Len(s) = 10 /\ IsCentury(s) /\ IsYmd(s, 1) THEN [ok |-> TRUE, t |-> <<YmdDay(s, 1), 0, 0>>]
  ELSE Rfc3339(s)

(* Whether a constant is a date; open: an hour of one digit, a comma before the fraction, more than 9 digits of it, an offset of 24  *)
(* hours or 60 minutes                                                                                                             *)
DateStatus(s) ==
  LET h == IF At(s, 13, 58) /\ Dig(s, 12, 12) THEN SubSeq(s, 1, 11) \o <<48>> \o SubSeq(s, 12, Len(s)) ELSE s
      c == IF At(h, 20, 44) THEN [h EXCEPT ![20] = 46] ELSE h
      fe == DigitsEnd(c, 21)
      f == IF At(c, 20, 46) /\ fe > 30 THEN SubSeq(c, 1, 29) \o SubSeq(c, fe, Len(c)) ELSE c
      n == Len(f)
      off == n > 24 /\ f[n - 5] \in {43, 45} /\ f[n - 2] = 58
      g == IF off /\ f[n - 4] = 50 /\ f[n - 3] = 52 THEN [f EXCEPT ![n - 4] = 48, ![n - 3] = 48] ELSE f
      o == IF off /\ g[n - 1] = 54 /\ g[n] = 48 THEN [g EXCEPT ![n - 1] = 48] ELSE g
  IN IF IsoTime(s).ok THEN "yes" ELSE IF IsoTime(o).ok THEN "open" ELSE "no"

RECURSIVE SkipBlanks(_, _)
SkipBlanks(s, i) == IF i <= Len(s) /\ s[i] = 32 THEN SkipBlanks(s, i + 1) ELSE i

(* DATE(x) in addition understands yyyy-mm-dd hh:mm:ss *)
FuncTime(s) ==
  LET k == SkipBlanks(s, 11)
  IN IF Len(s) >= 19 /\ IsCentury(s) /\ IsYmd(s, 1) /\ At(s, 11, 32) /\ Len(s) = k + 7 /\ IsHms(s, k)
     THEN [ok |-> TRUE, t |-> <<YmdDay(s, 1), HmsSec(s, k), 0>>]
     ELSE IsoTime(s)

TimeCmp(a, b) ==
  IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
  ELSE IF a[2] # b[2] THEN (IF a[2] < b[2] THEN -1 ELSE 1)
  ELSE IF a[3] # b[3] THEN (IF a[3] < b[3] THEN -1 ELSE 1) ELSE 0
=============================================================================
