------------------------------ MODULE LangBase ------------------------------
(* What the languages of expressions share: the nodes [o, c, s] of expressions, and numbers                              *)
EXTENDS Chars, Num

Nd(o, c, s) == [o |-> o, c |-> c, s |-> s]
NumCodes(x) == <<x.s>> \o x.m

(* ---- numbers ---- *)
RECURSIVE DigitsMag(_, _, _, _)
DigitsMag(v, i, j, acc) ==          \* the natural number of the digits i..j
  IF i > j THEN acc ELSE DigitsMag(v, i + 1, j, MagAdd(MagMulSmall(acc, 10), IF v[i] = 48 THEN <<>> ELSE <<v[i] - 48>>))
IntNum(v) == OfMag(1, Trim(DigitsMag(v, 1, Len(v), <<>>)))
RECURSIVE Find(_, _, _)
Find(v, i, S) == IF i > Len(v) THEN i ELSE IF v[i] \in S THEN i ELSE Find(v, i + 1, S)
(* decimal text: digits without the point, and the number of decimals (the exponent deducted); open: too long to be exact *)
RECURSIVE PowMul(_, _)
PowMul(m, k) == IF k = 0 THEN m ELSE PowMul(MagMulSmall(m, 10), k - 1)
RECURSIVE PowDiv(_, _)
PowDiv(m, k) == IF k = 0 THEN m ELSE PowDiv(MagDivMod(m, <<10>>).q, k - 1)
FloatNum(v) ==
  LET e == Find(v, 1, {69, 101})
      p == Find(SubSeq(v, 1, e - 1), 1, {46})
      ds == SubSeq(v, 1, p - 1) \o (IF p < e THEN SubSeq(v, p + 1, e - 1) ELSE <<>>)
      frac == IF p < e THEN e - 1 - p ELSE 0
      neg == e + 1 <= Len(v) /\ v[e + 1] = 45
      es == IF e > Len(v) THEN <<>> ELSE IF v[e + 1] \in {43, 45} THEN SubSeq(v, e + 2, Len(v)) ELSE SubSeq(v, e + 1, Len(v))
      ex == IF Len(es) > 3 THEN 9999 ELSE (IF neg THEN -1 ELSE 1) * ToNum(es, 1, Len(es))
      k == 12 + ex - frac            \* the value times 10^12 is the digits times 10^k
  IN IF Len(ds) > 15 \/ k < 0 \/ k > 30 THEN [open |-> TRUE, x |-> Zero]
     ELSE [open |-> FALSE, x |-> Mk(1, Trim(PowMul(Trim(DigitsMag(ds, 1, Len(ds), <<>>)), k)))]
=============================================================================
