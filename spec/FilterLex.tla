------------------------------ MODULE FilterLex ------------------------------
(* The tokens of filter expressions: [k, v, a, z, l]: kind, value (code points), first position, position after it.      *)
(* Kinds: "id", "int", "flt", "str", "chr" (one character in single quotes, a name), "raw" (in backticks, a name), "p"   *)
(* (one character), "end", "err" (no token: an error is required), "open" (spellings which are not specified).           *)
EXTENDS Chars

Letter(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c = 95
             \/ (c >= 192 /\ c <= 591 /\ c # 215 /\ c # 247) \/ (c >= 913 /\ c <= 969 /\ c # 930) \/ (c >= 19968 /\ c <= 40000)
OtherKnown(c) == c < 128 \/ (c >= 128512 /\ c <= 128580) \/ c \in {215, 247}
Blank(c) == c \in {32, 9, 10, 13}
C(s, i) == IF i <= Len(s) THEN s[i] ELSE -1

Tok(k, v, a, z) == [k |-> k, v |-> v, a |-> a, z |-> z, l |-> FALSE]

RECURSIVE WordEnd(_, _)
WordEnd(s, i) == IF i <= Len(s) /\ (Letter(s[i]) \/ IsDigit(s[i])) THEN WordEnd(s, i + 1) ELSE i
RECURSIVE DigEnd(_, _)
DigEnd(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN DigEnd(s, i + 1) ELSE i

(* A number starting at i *)
NumTok(s, i) ==
  LET a == DigEnd(s, i)
      point == C(s, a) = 46
      b == IF point THEN DigEnd(s, a + 1) ELSE a
      expo == C(s, b) \in {69, 101}
      c == IF expo THEN (IF C(s, b + 1) \in {43, 45} THEN b + 2 ELSE b + 1) ELSE b
      d == IF expo THEN DigEnd(s, c) ELSE b
  IN IF C(s, i) = 48 /\ (IsDigit(C(s, i + 1)) \/ C(s, i + 1) \in {120, 88, 98, 66, 111, 79}) THEN Tok("open", <<>>, i, i)
     ELSE IF C(s, a) = 95 \/ C(s, b) = 95 \/ C(s, d) = 95 THEN Tok("open", <<>>, i, i)
     ELSE IF expo /\ d = c THEN Tok("err", <<>>, i, i)
     ELSE Tok(IF point \/ expo THEN "flt" ELSE "int", SubSeq(s, i, d - 1), i, d)

Esc == [x \in {97, 98, 102, 110, 114, 116, 118, 92} |-> CASE x = 97 -> 7 [] x = 98 -> 8 [] x = 102 -> 12 [] x = 110 -> 10
                                                            [] x = 114 -> 13 [] x = 116 -> 9 [] x = 118 -> 11 [] OTHER -> 92]
HexDig(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE -1
RECURSIVE HexNum(_, _, _)
HexNum(s, i, n) == IF n = 0 THEN 0 ELSE LET r == HexNum(s, i, n - 1) IN IF r < 0 \/ HexDig(C(s, i + n - 1)) < 0 THEN -1 ELSE 16 * r + HexDig(C(s, i + n - 1))
OctDig(c) == c >= 48 /\ c <= 55

(* A quoted string whose text continues at i; q: the quote *)
RECURSIVE Quoted(_, _, _, _, _)
Quoted(s, i, q, acc, a) ==
  LET c == C(s, i)
      Err == Tok("err", <<>>, a, a)
      Op == Tok("open", <<>>, a, a)
  IN IF c = -1 \/ c = 10 THEN Err
     ELSE IF c = q THEN
       (IF q = 34 THEN Tok("str", acc, a, i + 1)
        ELSE IF acc = <<>> THEN Op ELSE Tok(IF Len(acc) = 1 THEN "chr" ELSE "str", acc, a, i + 1))
     ELSE IF c \in {34, 39} /\ q = 39 THEN Err
     ELSE IF c = 92 THEN
       LET e == C(s, i + 1)
       IN IF e \in DOMAIN Esc THEN Quoted(s, i + 2, q, Append(acc, Esc[e]), a)
          ELSE IF e = q THEN (IF q = 34 THEN Quoted(s, i + 2, q, Append(acc, 34), a) ELSE Err)
          ELSE IF OctDig(e) THEN
            (IF OctDig(C(s, i + 2)) /\ OctDig(C(s, i + 3))
             THEN LET n == 64 * (e - 48) + 8 * (C(s, i + 2) - 48) + C(s, i + 3) - 48
                  IN IF n > 255 THEN Err ELSE IF n > 127 THEN Op ELSE Quoted(s, i + 4, q, Append(acc, n), a)
             ELSE Err)
          ELSE IF e = 120 THEN
            LET n == HexNum(s, i + 2, 2) IN IF n < 0 THEN Err ELSE IF n > 127 THEN Op ELSE Quoted(s, i + 4, q, Append(acc, n), a)
          ELSE IF e = 117 THEN
            LET n == HexNum(s, i + 2, 4)
            IN IF n < 0 THEN Err ELSE IF n >= 55296 /\ n < 57344 THEN Op ELSE Quoted(s, i + 6, q, Append(acc, n), a)
          ELSE IF e = 85 THEN
            LET hi == HexNum(s, i + 2, 4)
                lo == HexNum(s, i + 6, 4)
            IN IF hi < 0 \/ lo < 0 THEN Err
               ELSE IF hi > 16 \/ (hi = 0 /\ lo >= 55296 /\ lo < 57344) THEN Op
               ELSE Quoted(s, i + 10, q, Append(acc, 65536 * hi + lo), a)
          ELSE Err
     ELSE Quoted(s, i + 1, q, Append(acc, c), a)

RECURSIVE RawEnd(_, _)
RawEnd(s, i) == IF i > Len(s) THEN -1 ELSE IF s[i] = 96 THEN i ELSE RawEnd(s, i + 1)
RECURSIVE LineEnd(_, _)
LineEnd(s, i) == IF i > Len(s) \/ s[i] = 10 THEN i ELSE LineEnd(s, i + 1)
RECURSIVE CommentEnd(_, _)
CommentEnd(s, i) == IF i + 1 > Len(s) THEN -1 ELSE IF s[i] = 42 /\ s[i + 1] = 47 THEN i + 2 ELSE CommentEnd(s, i + 1)
Printable(s) == \A i \in DOMAIN s : s[i] >= 32 \/ Blank(s[i])

RECURSIVE LexAt(_, _, _)
LexAt(s, i, acc) ==
  LET c == C(s, i)
      Go(t) == IF t.k \in {"err", "open"} THEN Append(acc, t) ELSE LexAt(s, t.z, Append(acc, t))
  IN CASE c = -1 -> Append(acc, Tok("end", <<>>, i, i))
       [] Blank(c) -> LexAt(s, i + 1, acc)
       [] Letter(c) -> LET z == WordEnd(s, i) IN Go(Tok("id", SubSeq(s, i, z - 1), i, z))
       [] IsDigit(c) \/ (c = 46 /\ IsDigit(C(s, i + 1))) -> Go(NumTok(s, i))
       [] c \in {34, 39} -> Go(Quoted(s, i + 1, c, <<>>, i))
       [] c = 96 -> LET z == RawEnd(s, i + 1) IN Go(IF z < 0 THEN Tok("err", <<>>, i, i) ELSE Tok("raw", SubSeq(s, i + 1, z - 1), i, z + 1))
       [] c = 47 /\ C(s, i + 1) = 47 -> LexAt(s, LineEnd(s, i + 2), acc)
       [] c = 47 /\ C(s, i + 1) = 42 -> LET z == CommentEnd(s, i + 2) IN IF z < 0 THEN Append(acc, Tok("err", <<>>, i, i)) ELSE LexAt(s, z, acc)
       [] OTHER -> IF ~OtherKnown(c) THEN Append(acc, Tok("open", <<>>, i, i)) ELSE Go(Tok("p", <<c>>, i, i + 1))

(* What is not specified at all: control characters and spellings which depend on the text of the scanner *)
Tokens(s) == IF ~Printable(s) \/ (\E i \in DOMAIN s : s[i] = 65279) THEN <<Tok("open", <<>>, 1, 1)>> ELSE LexAt(s, 1, <<>>)
=============================================================================
