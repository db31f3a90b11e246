------------------------------- MODULE Funcs -------------------------------
(* Arithmetic and functions.  Results which the specification does not determine (overflow of 64 bits, floats whose     *)
(* rounding could show, functions outside of the table) are [t |-> "unk"].  Floats which this module knows up to        *)
(* rounding only have the field q.  Integers whose representation (signed or not) is left open have k = "z".            *)
EXTENDS Values, MathTable

Inv == [t |-> "inv"]
Unk == [t |-> "unk"]
NaN == [t |-> "nan"]
Inf(s) == [t |-> "inf", s |-> s]

MkInt(k, n) == [t |-> "num", k |-> k, s |-> n.s, m |-> n.m]
MkFlt(n) == [t |-> "num", k |-> "f", s |-> n.s, m |-> n.m]
MkFltQ(n) == [t |-> "num", k |-> "f", s |-> n.s, m |-> n.m, q |-> TRUE]
MkF(n, exact) == IF exact THEN MkFlt(n) ELSE MkFltQ(n)

Exact(v) == "q" \notin DOMAIN v
Mega == OfInt(1000000)
Hundred == OfInt(100)
Centi == [s |-> 1, m |-> <<0, 0, 100>>]
Small(v) == Cmp(Abs(v), Mega) <= 0
(* Multiples of 1/8 below a million are exact in a double, and so are their sums *)
Dyadic(v) == IsInt([s |-> v.s, m |-> MagMulSmall(v.m, 8)]) /\ Small(v)
FExact(v) == Exact(v) /\ Dyadic(v)

IsIntNum(v) == v.t = "num" /\ v.k # "f"
(* An operand of floating point arithmetic *)
FltOp(v) == v.t = "num" /\ (v.k = "f" => Small(v)) /\ (v.k # "f" => SafeFloat(v))

SureU(v) == v.k = "u" \/ (v.k = "z" /\ ~InI64(v))
(* The result of integer arithmetic on a and b (b = a for a single operand) is the integer r, if that fits *)
IntRes(a, b, r) ==
  IF InI64(a) /\ InI64(b) /\ InI64(r) /\ Cmp(a, MinI64) > 0 /\ Cmp(b, MinI64) > 0
  THEN MkInt(IF a.k = "i" /\ b.k = "i" THEN "i" ELSE "z", r)
  ELSE IF a.k = "i" /\ b.k = "i" /\ InI64(a) /\ InI64(b) /\ InI64(r) THEN MkInt("i", r)
  ELSE IF a.s >= 0 /\ b.s >= 0 /\ InU64(r) /\ (SureU(a) \/ SureU(b)) THEN MkInt("z", r)
  ELSE Unk

(* Operands of any size which are known as they are written: the result is known up to 1e-12 of its size, if nothing      *)
(* cancels.                                                                                                             *)
Huge == OfMag(1, [i \in 1..11 |-> IF i = 11 THEN 1 ELSE 0])     \* 1e40
Wide(v) == v.t = "num" /\ Exact(v) /\ Cmp(Abs(v), Huge) <= 0
Milli(v) == Mk(v.s, MagDivMod(v.m, <<1000>>).q)
NoCancel(a, b, r) == Cmp(Abs(r), Abs(Milli(a))) >= 0 /\ Cmp(Abs(r), Abs(Milli(b))) >= 0
WideArith(n, a, b) ==
  IF ~Wide(a) \/ ~Wide(b) THEN Unk
  ELSE CASE n = "mathAdd" -> (LET r == Add(a, b) IN IF NoCancel(a, b, r) THEN MkFltQ(r) ELSE Unk)
         [] n = "mathSubract" -> (LET r == Sub(a, b) IN IF NoCancel(a, b, r) THEN MkFltQ(r) ELSE Unk)
         [] n = "mathMultiply" -> MkFltQ(Mul(a, b))
         [] n = "mathDivide" -> IF b.s = 0 THEN (IF a.s = 0 THEN NaN ELSE Inf(0)) ELSE IF Cmp(Abs(b), Centi) < 0 THEN Unk ELSE MkFltQ(Div(a, b))

FltRes(a, b, r) == IF Small(r) THEN MkF(r, FExact(a) /\ FExact(b) /\ Dyadic(r)) ELSE IF Wide(a) /\ Wide(b) THEN MkFltQ(r) ELSE Unk

Arith(n, a, b) ==
  IF ~IsNum(a) \/ ~IsNum(b) THEN Inv
  ELSE IF n = "mathModulo" /\ (IsFlt(a) \/ IsFlt(b)) /\ a.t # "unk" /\ b.t # "unk" THEN Inv
  ELSE IF a.t # "num" \/ b.t # "num" THEN Unk
  ELSE IF a.k # "f" /\ b.k # "f" THEN
    CASE n = "mathAdd" -> IntRes(a, b, Add(a, b))
      [] n = "mathSubract" -> IntRes(a, b, Sub(a, b))
      [] n = "mathMultiply" ->
           LET r == Mul(a, b) IN IF Len(a.m) + Len(b.m) > 14 THEN Unk ELSE IntRes(a, b, r)
      [] n = "mathDivide" -> IF b.s = 0 THEN Inv ELSE IntRes(a, b, DivTrunc(a, b))
      [] n = "mathModulo" -> IF b.s = 0 THEN Inv ELSE IntRes(a, b, ModTrunc(a, b))
  ELSE IF ~FltOp(a) \/ ~FltOp(b) THEN WideArith(n, a, b)
  ELSE
    CASE n = "mathAdd" -> FltRes(a, b, Add(a, b))
      [] n = "mathSubract" -> FltRes(a, b, Sub(a, b))
      [] n = "mathMultiply" ->
           IF (Exact(a) \/ Cmp(Abs(b), Hundred) <= 0) /\ (Exact(b) \/ Cmp(Abs(a), Hundred) <= 0)
           THEN FltRes(a, b, Mul(a, b)) ELSE Unk
      [] n = "mathDivide" ->
           IF b.s = 0 THEN (IF ~Exact(b) \/ ~Exact(a) THEN Unk ELSE IF a.s = 0 THEN NaN ELSE Inf(0))
           ELSE IF Cmp(Abs(b), Centi) < 0 \/ (~Exact(b) /\ Cmp(Abs(a), Hundred) > 0) THEN Unk
           ELSE FltRes(a, b, Div(a, b))

(* Distance of the inexact r to the points where rounding switches *)
Near(r) == Cmp(Abs(Sub(r, Round(r))), [s |-> 1, m |-> <<0, 100>>]) < 0
Rounding(n, a) ==
  LET r == CASE n = "mathCeil" -> Ceil(a) [] n = "mathFloor" -> Floor(a) [] n = "mathRound" -> Round(a)
      open == CASE n = "mathRound" -> Near(Add(a, Half)) [] OTHER -> Near(a)
  IN IF n = "mathRound" /\ a.k # "f" THEN a
     ELSE IF a.k # "f" THEN (IF SafeFloat(a) THEN MkFlt(a) ELSE MkFltQ(a))
     ELSE IF ~Small(a) THEN (IF Exact(a) /\ IsInt(a) THEN MkFltQ(a) ELSE Unk)
     ELSE IF ~Exact(a) /\ open THEN Unk
     ELSE MkFlt(r)

RECURSIVE PowInt(_, _)
PowInt(a, n) == IF n = 0 THEN One ELSE Mul(a, PowInt(a, n - 1))

Pow(a, b) ==
  IF ~IsNum(a) \/ ~IsNum(b) THEN Inv
  ELSE IF a.t # "num" \/ b.t # "num" THEN Unk
  ELSE IF Exact(a) /\ Exact(b) /\ IsInt(b) /\ b.s >= 0 /\ Cmp(b, OfInt(6)) <= 0 /\ Cmp(Abs(a), OfInt(10)) <= 0
       THEN FltRes(a, b, PowInt(a, ToInt(b)))
  ELSE IF Exact(a) /\ Exact(b) /\ a.s > 0 /\ Cmp(b, Half) = 0 /\ Small(a)
       THEN LET c == {i \in 1..30 : Cmp(OfInt(i * i), a) = 0} IN IF c = {} THEN Unk ELSE MkFltQ(OfInt(CHOOSE i \in c : TRUE))
  ELSE Unk

Table(n) == MathTable[CHOOSE i \in 1..Len(MathTable) : MathTable[i].f = n].e
IsTableFunc(n) == \E i \in 1..Len(MathTable) : MathTable[i].f = n

Trans(n, a) ==
  IF ~IsNum(a) THEN Inv
  ELSE IF a.t # "num" \/ ~Exact(a) THEN Unk
  ELSE IF n = "mathSqrt" /\ IsInt(a) /\ a.s >= 0 /\ (\E i \in 0..60 : Cmp(OfInt(i * i), a) = 0)
       THEN MkFlt(OfInt(CHOOSE i \in 0..60 : Cmp(OfInt(i * i), a) = 0))
  ELSE LET e == Table(n)
           c == {i \in 1..Len(e) : Cmp(e[i].a, a) = 0}
       IN IF c = {} THEN Unk
          ELSE LET x == e[CHOOSE i \in c : TRUE]
               IN CASE x.t = "nan" -> NaN [] x.t = "ninf" -> Inf(-1) [] OTHER -> MkFltQ(x.r)

Atan2(a, b) ==
  IF ~IsNum(a) \/ ~IsNum(b) THEN Inv
  ELSE IF a.t # "num" \/ b.t # "num" THEN Unk
  ELSE LET c == {i \in 1..Len(Atan2Table) : Cmp(Atan2Table[i].a, a) = 0 /\ Cmp(Atan2Table[i].b, b) = 0}
       IN IF c = {} \/ ~Exact(a) \/ ~Exact(b) THEN Unk ELSE MkFltQ(Atan2Table[CHOOSE i \in c : TRUE].r)

Negate(a) ==
  IF ~IsNum(a) THEN Inv
  ELSE IF a.t = "num" THEN (IF a.k = "f" THEN [a EXCEPT !.s = -a.s]
                            ELSE IF InI64(a) THEN (IF InI64(Neg(a)) THEN MkInt("i", Neg(a)) ELSE Unk) ELSE Inv)
  ELSE IF a.t = "inf" THEN Inf(-a.s) ELSE Unk

AbsVal(a) ==
  IF ~IsNum(a) THEN Inv
  ELSE IF a.t = "num" THEN (IF a.k = "f" THEN [a EXCEPT !.s = IF a.s = 0 THEN 0 ELSE 1]
                            ELSE MkInt(IF a.k = "i" /\ InI64(Abs(a)) THEN "i" ELSE "z", Abs(a)))
  ELSE Unk

DateVal(a) ==
  CASE a.t = "time" -> a
    [] a.t = "str" -> (LET r == FuncTime(a.c) IN IF r.ok THEN [t |-> "time", d |-> r.t] ELSE Inv)
    [] OTHER -> Inv

Apply(n, a) ==
  IF \E i \in 1..Len(a) : a[i].t = "cut" THEN Unk
  ELSE CASE n \in {"mathAdd", "mathSubract", "mathMultiply", "mathDivide", "mathModulo"} -> Arith(n, a[1], a[2])
    [] n = "mathNegate" -> Negate(a[1])
    [] n = "mathAbs" -> AbsVal(a[1])
    [] n \in {"mathCeil", "mathFloor", "mathRound"} ->
         (IF ~IsNum(a[1]) THEN Inv ELSE IF a[1].t # "num" THEN Unk ELSE Rounding(n, a[1]))
    [] n = "mathPow" -> Pow(a[1], a[2])
    [] n = "mathAtan2" -> Atan2(a[1], a[2])
    [] n = "date" -> DateVal(a[1])
    [] OTHER -> Trans(n, a[1])
=============================================================================
