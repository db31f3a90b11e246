------------------------------ MODULE JsonText ------------------------------
(* JSON texts (RFC 8259) as trees [k, c, s]: "str" and "num" with their codes, "arr" with its elements, "obj" with its     *)
(* members ("mem": name in c, value in s), "true", "false", "null".  A parse is [n, v]: next position (0: not JSON), tree. *)
EXTENDS Chars

JT(k, c, s) == [k |-> k, c |-> c, s |-> s]
JBad == [n |-> 0, v |-> JT("bad", <<>>, <<>>)]
JC(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
RECURSIVE JBlank(_, _)
JBlank(s, i) == IF JC(s, i) \in {32, 9, 10, 13} THEN JBlank(s, i + 1) ELSE i
RECURSIVE JDigits(_, _)
JDigits(s, i) == IF IsDigit(JC(s, i)) THEN JDigits(s, i + 1) ELSE i
JNumber(s, i) ==
  LET a == IF JC(s, i) = 45 THEN i + 1 ELSE i
      b == IF JC(s, a) = 48 THEN a + 1 ELSE JDigits(s, a)
      c == IF JC(s, b) = 46 THEN JDigits(s, b + 1) ELSE b
      e == IF JC(s, c) \in {69, 101} THEN (IF JC(s, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1) ELSE c
      d == IF e > c THEN JDigits(s, e) ELSE c
  IN IF b = a \/ c = b + 1 \/ (e > c /\ d = e) THEN JBad ELSE [n |-> d, v |-> JT("num", SubSeq(s, i, d - 1), <<>>)]
JHex(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE -1
JHex4(s, i) == IF \E k \in 0..3 : JHex(JC(s, i + k)) < 0 THEN -1
               ELSE 4096 * JHex(s[i]) + 256 * JHex(s[i + 1]) + 16 * JHex(s[i + 2]) + JHex(s[i + 3])
JEsc(c) == CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] c \in {34, 47, 92} -> c [] OTHER -> -1
RECURSIVE JString(_, _, _)
JString(s, i, acc) ==
  LET c == JC(s, i)
  IN IF c < 32 THEN JBad
     ELSE IF c = 34 THEN [n |-> i + 1, v |-> JT("str", acc, <<>>)]
     ELSE IF c # 92 THEN JString(s, i + 1, Append(acc, c))
     ELSE IF JC(s, i + 1) # 117 THEN (IF JEsc(JC(s, i + 1)) < 0 THEN JBad ELSE JString(s, i + 2, Append(acc, JEsc(s[i + 1]))))
     ELSE LET u == JHex4(s, i + 2)
              w == IF JC(s, i + 6) = 92 /\ JC(s, i + 7) = 117 THEN JHex4(s, i + 8) ELSE -1
          IN IF u < 0 THEN JBad
             ELSE IF u >= 55296 /\ u < 56320 /\ w >= 56320 /\ w < 57344
               THEN JString(s, i + 12, Append(acc, 65536 + (u - 55296) * 1024 + (w - 56320)))
             ELSE JString(s, i + 6, Append(acc, IF u >= 55296 /\ u < 57344 THEN 65533 ELSE u))
JWord(s, i, w) == i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w
RECURSIVE JVal(_, _)
RECURSIVE JElems(_, _, _)
RECURSIVE JMembers(_, _, _)
JVal(s, i0) ==
  LET i == JBlank(s, i0)
      c == JC(s, i)
  IN CASE c = 34 -> JString(s, i + 1, <<>>)
       [] c = 45 \/ IsDigit(c) -> JNumber(s, i)
       [] c = 91 -> LET j == JBlank(s, i + 1) IN IF JC(s, j) = 93 THEN [n |-> j + 1, v |-> JT("arr", <<>>, <<>>)] ELSE JElems(s, j, <<>>)
       [] c = 123 -> LET j == JBlank(s, i + 1) IN IF JC(s, j) = 125 THEN [n |-> j + 1, v |-> JT("obj", <<>>, <<>>)] ELSE JMembers(s, j, <<>>)
       [] JWord(s, i, <<116, 114, 117, 101>>) -> [n |-> i + 4, v |-> JT("true", <<>>, <<>>)]
       [] JWord(s, i, <<102, 97, 108, 115, 101>>) -> [n |-> i + 5, v |-> JT("false", <<>>, <<>>)]
       [] JWord(s, i, <<110, 117, 108, 108>>) -> [n |-> i + 4, v |-> JT("null", <<>>, <<>>)]
       [] OTHER -> JBad
JElems(s, i, acc) ==
  LET r == JVal(s, i)
      j == JBlank(s, r.n)
      a == Append(acc, r.v)
  IN IF r.n = 0 THEN JBad
     ELSE IF JC(s, j) = 44 THEN JElems(s, j + 1, a)
     ELSE IF JC(s, j) = 93 THEN [n |-> j + 1, v |-> JT("arr", <<>>, a)] ELSE JBad
JMembers(s, i, acc) ==
  LET k0 == JBlank(s, i)
      k == IF JC(s, k0) = 34 THEN JString(s, k0 + 1, <<>>) ELSE JBad
      m == JBlank(s, k.n)
      r == IF k.n > 0 /\ JC(s, m) = 58 THEN JVal(s, m + 1) ELSE JBad
      j == JBlank(s, r.n)
      a == Append(acc, JT("mem", k.v.c, <<r.v>>))
  IN IF r.n = 0 THEN JBad
     ELSE IF JC(s, j) = 44 THEN JMembers(s, j + 1, a)
     ELSE IF JC(s, j) = 125 THEN [n |-> j + 1, v |-> JT("obj", <<>>, a)] ELSE JBad
(* The whole text *)
JTree(s) == LET r == JVal(s, 1) IN IF r.n > 0 /\ JBlank(s, r.n) = Len(s) + 1 THEN r.v ELSE JT("bad", <<>>, <<>>)
=============================================================================
