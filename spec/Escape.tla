------------------------------- MODULE Escape -------------------------------
(* Strings as they are written: the characters which the bytes of a JSON string token denote, and UTF-8                  *)
EXTENDS Integers, Sequences

LOCAL HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
LOCAL Hex4(b, i) == 4096 * HexVal(b[i]) + 256 * HexVal(b[i + 1]) + 16 * HexVal(b[i + 2]) + HexVal(b[i + 3])
LOCAL Esc(c) == CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c
LOCAL High(u) == u >= 55296 /\ u < 56320
LOCAL Low(u)  == u >= 56320 /\ u < 57344
LOCAL IsU(b, i, j) == i + 5 <= j /\ b[i] = 92 /\ b[i + 1] = 117

(* The code points which the bytes i..j of b (valid UTF-8, valid escapes, without the quotes) denote *)
RECURSIVE Chars(_, _, _)
Chars(b, i, j) ==
  IF i > j THEN <<>>
  ELSE IF b[i] = 92
    THEN IF b[i + 1] # 117 THEN <<Esc(b[i + 1])>> \o Chars(b, i + 2, j)
         ELSE LET u == Hex4(b, i + 2)
                  w == IF IsU(b, i + 6, j) THEN Hex4(b, i + 8) ELSE 0
              IN CASE High(u) /\ Low(w) -> <<65536 + (u - 55296) * 1024 + (w - 56320)>> \o Chars(b, i + 12, j)
                   [] High(u) \/ Low(u) -> <<65533>> \o Chars(b, i + 6, j)
                   [] OTHER -> <<u>> \o Chars(b, i + 6, j)
    ELSE CASE b[i] < 128 -> <<b[i]>> \o Chars(b, i + 1, j)
           [] b[i] < 224 -> <<(b[i] - 192) * 64 + (b[i + 1] - 128)>> \o Chars(b, i + 2, j)
           [] b[i] < 240 -> <<(b[i] - 224) * 4096 + (b[i + 1] - 128) * 64 + (b[i + 2] - 128)>> \o Chars(b, i + 3, j)
           [] OTHER -> <<(b[i] - 240) * 262144 + (b[i + 1] - 128) * 4096 + (b[i + 2] - 128) * 64 + (b[i + 3] - 128)>> \o Chars(b, i + 4, j)
(* of a whole token, with its quotes *)
Denotes(tok) == Chars(tok, 2, Len(tok) - 1)
=============================================================================
