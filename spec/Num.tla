-------------------------------- MODULE Num --------------------------------
(* Exact decimal arithmetic.  TLC's integers have 32 bits, the numbers of the library are 64 bit integers and doubles,  *)
(* so a number is [s |-> sign, m |-> magnitude], the magnitude being the sequence of the base 10^4 limbs (least         *)
(* significant first, no leading zeros) of |x| * 10^12: fixed point with 12 decimal places.                             *)
EXTENDS Integers, Sequences

B == 10000
FracLimbs == 3

Zero == [s |-> 0, m |-> <<>>]

RECURSIVE Trim(_)
Trim(m) == IF m = <<>> \/ m[Len(m)] # 0 THEN m ELSE Trim(SubSeq(m, 1, Len(m) - 1))

Lim(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

RECURSIVE MagCmpAt(_, _, _)
MagCmpAt(a, b, i) ==
  IF i = 0 THEN 0
  ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE MagCmpAt(a, b, i - 1)

MagCmp(a, b) ==
  IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE MagCmpAt(a, b, Len(a))

Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE MagAddAt(_, _, _, _, _)
MagAddAt(a, b, i, carry, acc) ==
  IF i > Max2(Len(a), Len(b)) THEN (IF carry = 0 THEN acc ELSE Append(acc, carry))
  ELSE LET x == Lim(a, i) + Lim(b, i) + carry IN MagAddAt(a, b, i + 1, x \div B, Append(acc, x % B))
MagAdd(a, b) == MagAddAt(a, b, 1, 0, <<>>)

(* a >= b *)
RECURSIVE MagSubAt(_, _, _, _, _)
MagSubAt(a, b, i, borrow, acc) ==
  IF i > Len(a) THEN Trim(acc)
  ELSE LET x == a[i] - Lim(b, i) - borrow
       IN IF x < 0 THEN MagSubAt(a, b, i + 1, 1, Append(acc, x + B)) ELSE MagSubAt(a, b, i + 1, 0, Append(acc, x))
MagSub(a, b) == MagSubAt(a, b, 1, 0, <<>>)

RECURSIVE MagMulSmallAt(_, _, _, _, _)
MagMulSmallAt(a, k, i, carry, acc) ==
  IF i > Len(a) THEN (IF carry = 0 THEN acc ELSE Append(acc, carry))
  ELSE LET x == a[i] * k + carry IN MagMulSmallAt(a, k, i + 1, x \div B, Append(acc, x % B))
MagMulSmall(a, k) == IF k = 0 THEN <<>> ELSE MagMulSmallAt(a, k, 1, 0, <<>>)

Shift(a, k) == IF a = <<>> THEN <<>> ELSE [i \in 1..(Len(a) + k) |-> IF i <= k THEN 0 ELSE a[i - k]]

RECURSIVE MagMulAt(_, _, _, _)
MagMulAt(a, b, i, acc) ==
  IF i > Len(b) THEN acc ELSE MagMulAt(a, b, i + 1, MagAdd(acc, Shift(MagMulSmall(a, b[i]), i - 1)))
MagMul(a, b) == Trim(MagMulAt(a, b, 1, <<>>))

(* The largest q in lo..hi with q * b <= r *)
RECURSIVE QDigit(_, _, _, _)
QDigit(r, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF MagCmp(MagMulSmall(b, mid), r) <= 0 THEN QDigit(r, b, mid, hi) ELSE QDigit(r, b, lo, mid - 1)

RECURSIVE MagDivAt(_, _, _, _, _)
MagDivAt(a, b, i, q, r) ==
  IF i = 0 THEN [q |-> Trim(q), r |-> r]
  ELSE LET r1 == Trim(<<a[i]>> \o r)
           d  == QDigit(r1, b, 0, B - 1)
       IN MagDivAt(a, b, i - 1, <<d>> \o q, MagSub(r1, MagMulSmall(b, d)))
MagDivMod(a, b) == MagDivAt(a, b, Len(a), <<>>, <<>>)

(* ---- signed fixed point numbers ---- *)
Mk(s, m) == IF m = <<>> THEN Zero ELSE [s |-> s, m |-> m]
Neg(a) == [s |-> -a.s, m |-> a.m]
Abs(a) == [s |-> IF a.s = 0 THEN 0 ELSE 1, m |-> a.m]

Cmp(a, b) ==
  IF a.s # b.s THEN (IF a.s < b.s THEN -1 ELSE 1)
  ELSE IF a.s = 0 THEN 0 ELSE a.s * MagCmp(a.m, b.m)

Add(a, b) ==
  IF a.s = 0 THEN b ELSE IF b.s = 0 THEN a
  ELSE IF a.s = b.s THEN Mk(a.s, MagAdd(a.m, b.m))
  ELSE LET c == MagCmp(a.m, b.m)
       IN IF c = 0 THEN Zero ELSE IF c > 0 THEN Mk(a.s, MagSub(a.m, b.m)) ELSE Mk(b.s, MagSub(b.m, a.m))
Sub(a, b) == Add(a, Neg(b))

DropFrac(m) == IF Len(m) <= FracLimbs THEN <<>> ELSE SubSeq(m, FracLimbs + 1, Len(m))
FracPart(m) == IF Len(m) <= FracLimbs THEN m ELSE Trim(SubSeq(m, 1, FracLimbs))

(* Truncated to 12 decimal places *)
Mul(a, b) == IF a.s = 0 \/ b.s = 0 THEN Zero ELSE Mk(a.s * b.s, DropFrac(MagMul(a.m, b.m)))

IsInt(a) == FracPart(a.m) = <<>>
OfMag(s, im) == Mk(s, Shift(im, FracLimbs))

(* Quotient truncated towards zero, and the remainder with the sign of the dividend; b # 0 *)
DivTrunc(a, b) == OfMag(a.s * b.s, MagDivMod(a.m, b.m).q)
ModTrunc(a, b) == Mk(a.s, MagDivMod(a.m, b.m).r)
(* Quotient truncated to 12 decimal places *)
Div(a, b) == IF a.s = 0 THEN Zero ELSE Mk(a.s * b.s, MagDivMod(Shift(a.m, FracLimbs), b.m).q)

Trunc(a) == OfMag(a.s, DropFrac(a.m))
One == [s |-> 1, m |-> <<0, 0, 0, 1>>]
Half == [s |-> 1, m |-> <<0, 0, 5000>>]
Floor(a) == IF IsInt(a) THEN a ELSE IF a.s >= 0 THEN Trunc(a) ELSE Sub(Trunc(a), One)
Ceil(a) == IF IsInt(a) THEN a ELSE IF a.s <= 0 THEN Trunc(a) ELSE Add(Trunc(a), One)
Round(a) == IF a.s >= 0 THEN Trunc(Add(a, Half)) ELSE Trunc(Sub(a, Half))     \* half away from zero

RECURSIVE OfNatMag(_)
OfNatMag(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o OfNatMag(n \div B)
OfInt(n) == IF n = 0 THEN Zero ELSE IF n > 0 THEN OfMag(1, OfNatMag(n)) ELSE OfMag(-1, OfNatMag(-n))

(* Integers up to 2^31 as TLA+ integers *)
RECURSIVE ToNat(_, _)
ToNat(m, i) == IF i > Len(m) THEN 0 ELSE m[i] + B * ToNat(m, i + 1)
ToInt(a) == a.s * ToNat(DropFrac(a.m), 1)
FitsSmall(a) == IsInt(a) /\ Len(a.m) <= FracLimbs + 2

(* Limits of the machine representations *)
MaxI64 == OfMag(1, <<5807, 5477, 368, 3372, 922>>)       \* 9223372036854775807
MinI64 == OfMag(-1, <<5808, 5477, 368, 3372, 922>>)
MaxU64 == OfMag(1, <<1615, 955, 737, 6744, 1844>>)        \* 18446744073709551615
Two53  == OfMag(1, <<992, 5474, 1992, 9007>>)               \* 9007199254740992
InI64(a) == Cmp(a, MinI64) >= 0 /\ Cmp(a, MaxI64) <= 0
InU64(a) == a.s >= 0 /\ Cmp(a, MaxU64) <= 0
(* Integers which a double holds exactly for sure *)
SafeFloat(a) == Cmp(Abs(a), Two53) <= 0

Eps == [s |-> 1, m |-> <<0, 10>>]                           \* 1e-7 = 10^5 / 10^12
=============================================================================
