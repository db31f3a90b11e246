------------------------------- MODULE Values ------------------------------
(* Values and their three-way comparison, with the conversions and the collation order of the library.                 *)
(*   [t |-> "inv"]  result of invalid arithmetic      [t |-> "miss"] missing      [t |-> "null"]                       *)
(*   [t |-> "bool", b]     [t |-> "num", k |-> "i" signed | "u" unsigned | "f" float, s, m]  (see Num)                 *)
(*   [t |-> "inf", s |-> 1, -1 or 0 (sign not specified)]   [t |-> "nan"]   [t |-> "unk"] some float                   *)
(*   [t |-> "str", c]   [t |-> "time", d]   [t |-> "arr", e, (open)]   [t |-> "obj", m, (open)]   [t |-> "bin", c]     *)
(*   [t |-> "cut"]  a value of which only the beginning is known: anything                                             *)
(* A comparison gives [o |-> order, ok |-> "y" compared, "n" decided by collation, "u" either].  Orders: -1, 0, 1,     *)
(* 8: not equal, otherwise not specified, 9: not specified.                                                            *)
EXTENDS Num, Chars, Dates

IsNum(v) == v.t \in {"num", "inf", "nan", "unk"}
IsFlt(v) == v.t \in {"inf", "nan", "unk"} \/ (v.t = "num" /\ v.k = "f")
IsCont(v) == v.t \in {"arr", "obj"}

Rank(v) ==
  CASE v.t = "inv" -> 0 [] v.t = "miss" -> 1 [] v.t = "null" -> 2
    [] v.t = "bool" -> (IF v.b THEN 4 ELSE 3)
    [] IsNum(v) -> 5 [] v.t = "str" -> 6 [] v.t = "time" -> 7 [] v.t = "arr" -> 8 [] v.t = "obj" -> 9
    [] v.t = "bin" -> 10 [] v.t = "re" -> 11

Sgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
Ok(o) == [o |-> o, ok |-> "y"]
Flip(o) == IF o \in {8, 9} THEN o ELSE -o
Mirror(r) == [o |-> Flip(r.o), ok |-> r.ok]
Collate(a, b) == [o |-> Sgn(Rank(a) - Rank(b)), ok |-> "n"]

(* ---- numbers ---- *)
(* Floats differing by less than 1e-7 are equal; o = 9 where rounding could decide *)
FloatCmp(a, b) ==
  LET d == Abs(Sub(a, b))
      err == Mk(1, DropFrac(Add(Abs(a), Abs(b)).m))          \* 1e-12 of the magnitudes
      known == ("q" \notin DOMAIN a /\ "q" \notin DOMAIN b) \/ Cmp(Abs(a), OfInt(1000000)) <= 0
  IN IF d.s = 0 /\ known THEN 0
     ELSE IF Cmp(Add(d, err), [s |-> 1, m |-> <<0, 9>>]) < 0 THEN 0
     ELSE IF Cmp(d, Add(err, [s |-> 1, m |-> <<0, 11>>])) > 0 THEN Cmp(a, b)
     ELSE 9

NumCmp(a, b) ==
  IF a.t = "nan" \/ b.t = "nan" THEN [o |-> 9, ok |-> "n"]
  ELSE IF a.t = "unk" \/ b.t = "unk" THEN [o |-> 9, ok |-> "u"]
  ELSE IF a.t = "inf" /\ b.t = "inf" THEN (IF a.s = 0 \/ b.s = 0 THEN Ok(9) ELSE Ok(Sgn(a.s - b.s)))
  ELSE IF a.t = "inf" THEN Ok(IF a.s = 0 THEN 8 ELSE a.s)
  ELSE IF b.t = "inf" THEN Ok(IF b.s = 0 THEN 8 ELSE -b.s)
  ELSE IF a.k = "f" \/ b.k = "f" THEN Ok(FloatCmp(a, b))
  ELSE Ok(Cmp(a, b))

BoolNum(b) == [t |-> "num", k |-> "i", s |-> IF b THEN 1 ELSE 0, m |-> IF b THEN One.m ELSE <<>>]
NumTruth(v) == IF v.t = "num" THEN v.s # 0 ELSE TRUE

(* ---- numbers as text ---- *)
Dig4(n) == <<48 + (n \div 1000), 48 + ((n \div 100) % 10), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
RECURSIVE MagDigits(_, _)
MagDigits(m, i) == IF i = 0 THEN <<>> ELSE Dig4(m[i]) \o MagDigits(m, i - 1)
RECURSIVE StripLead(_)
StripLead(s) == IF s # <<>> /\ s[1] = 48 THEN StripLead(Tail(s)) ELSE s
RECURSIVE StripTrail(_)
StripTrail(s) == IF s # <<>> /\ s[Len(s)] = 48 THEN StripTrail(SubSeq(s, 1, Len(s) - 1)) ELSE s
Minus(a) == IF a.s < 0 THEN <<45>> ELSE <<>>
RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN <<48 + n>> ELSE Append(NatText(n \div 10), 48 + (n % 10))

IntText(a) == IF a.s = 0 THEN <<48>> ELSE LET im == DropFrac(a.m) IN Minus(a) \o StripLead(MagDigits(im, Len(im)))
(* d.dddE+XX with the fewest digits *)
FloatText(a) ==
  IF a.s = 0 THEN <<48, 69, 43, 48, 48>>
  ELSE LET all == StripLead(MagDigits(a.m, Len(a.m)))
           exp == Len(all) - 1 - 12
           ds  == StripTrail(all)
           ae  == IF exp < 0 THEN -exp ELSE exp
       IN Minus(a) \o <<ds[1]>> \o (IF Len(ds) > 1 THEN <<46>> \o Tail(ds) ELSE <<>>)
          \o <<69, IF exp < 0 THEN 45 ELSE 43>> \o (IF ae < 10 THEN <<48, 48 + ae>> ELSE NatText(ae))
NumText(v) == IF v.k = "f" THEN FloatText(v) ELSE IntText(v)

(* ---- strings as integers ---- *)
IntChars(s, signs) == IF s # <<>> /\ s[1] \in signs THEN Tail(s) ELSE s
RECURSIVE DigitsMag(_)
DigitsMag(s) ==
  IF s = <<>> THEN <<>>
  ELSE IF Len(s) <= 4 THEN <<ToNum(s, 1, Len(s))>>
  ELSE <<ToNum(s, Len(s) - 3, Len(s))>> \o DigitsMag(SubSeq(s, 1, Len(s) - 4))
StrInt(s, signs) ==
  LET ds == IntChars(s, signs)
  IN IF ds = <<>> \/ ~AllDigits(ds) THEN [ok |-> FALSE, n |-> Zero]
     ELSE [ok |-> TRUE, n |-> OfMag(IF s[1] = 45 THEN -1 ELSE 1, Trim(DigitsMag(ds)))]
StrAsI(s) == LET r == StrInt(s, {43, 45}) IN [ok |-> r.ok /\ InI64(r.n), n |-> r.n]
StrAsU(s) == LET r == StrInt(s, {}) IN [ok |-> r.ok /\ InU64(r.n), n |-> r.n]

(* ---- comparison of strings ---- *)
TextCmp(a, b) == StrCmp(a, b)

StrNumCmp(c, v) ==
  IF v.t # "num" THEN [o |-> 9, ok |-> "y"]
  ELSE IF v.k = "f" /\ Cmp(Abs(v), OfMag(1, <<0, 0, 100>>)) > 0 THEN Ok(9)     \* enough digits to be rounded
  ELSE Ok(TextCmp(c, NumText(v)))

(* ---- arrays and objects: as the texts they have.  Different values have different texts; x, if it  *)
(* is there, is the text (its hash).  The order of different ones is left open.                                             *)
RECURSIVE Whole(_)
Whole(v) ==
  CASE v.t = "arr" -> ("open" \notin DOMAIN v \/ ~v.open) /\ \A i \in 1..Len(v.e) : Whole(v.e[i])
    [] v.t = "obj" -> ("open" \notin DOMAIN v \/ ~v.open) /\ \A i \in 1..Len(v.m) : Whole(v.m[i].v)
    [] OTHER -> v.t \notin {"cut", "unk"}
RECURSIVE Alike(_, _)
Alike(a, b) ==
  IF a.t # b.t THEN FALSE
  ELSE CASE a.t = "arr" -> Len(a.e) = Len(b.e) /\ \A i \in 1..Len(a.e) : Alike(a.e[i], b.e[i])
         [] a.t = "obj" -> Len(a.m) = Len(b.m) /\ \A i \in 1..Len(a.m) : \E j \in 1..Len(b.m) : a.m[i].k = b.m[j].k /\ Alike(a.m[i].v, b.m[j].v)
         [] a.t = "num" -> a.s = b.s /\ a.m = b.m
         [] a.t = "str" -> a.c = b.c
         [] a.t = "bool" -> a.b = b.b
         [] OTHER -> TRUE
ContCmp(a, b) ==
  IF ~Whole(a) \/ ~Whole(b) THEN Ok(9)
  ELSE IF ~Alike(a, b) THEN Ok(8)
  ELSE IF "x" \in DOMAIN a /\ "x" \in DOMAIN b /\ a.x = b.x THEN Ok(0)
  ELSE Ok(9)

(* ---- conversions ---- *)
(* a and b are of the same type: no conversion is involved *)
Same(a, b) == \/ a.t = b.t /\ a.t \in {"null", "str", "time", "arr", "obj", "bin", "re", "miss", "inv"}
              \/ a.t = "bool" /\ b.t = "bool" /\ a.b = b.b
              \/ IsNum(a) /\ IsNum(b) /\ (IsFlt(a) = IsFlt(b)) /\ (IsFlt(a) \/ a.k = b.k)

(* b can be converted to the type of a *)
Conv(a, b) ==
  IF Same(a, b) THEN TRUE
  ELSE IF a.t = "null" THEN TRUE
  ELSE IF IsNum(b) THEN
    IF IsNum(a) THEN IsFlt(a) \/ (~IsFlt(b) /\ (a.k = "i" \/ b.s >= 0))
    ELSE a.t \in {"str", "bool"}
  ELSE IF b.t = "bool" THEN IsNum(a) \/ a.t \in {"str", "bool"}
  ELSE IF b.t = "str" THEN
    CASE a.t = "num" /\ a.k = "i" -> StrAsI(b.c).ok
      [] a.t = "num" /\ a.k \in {"u", "z"} -> StrAsU(b.c).ok
      [] a.t = "time" -> IsoTime(b.c).ok
      [] OTHER -> FALSE
  ELSE FALSE

(* a compared with b converted to the type of a; used only if the conversion is possible *)
CmpAs(a, b) ==
  CASE IsNum(a) /\ IsNum(b) -> NumCmp(a, b)
    [] IsNum(a) /\ b.t = "bool" -> NumCmp(a, BoolNum(b.b))
    [] IsNum(a) /\ b.t = "str" ->
         LET r == IF a.k = "i" THEN StrAsI(b.c) ELSE StrAsU(b.c) IN Ok(Cmp(a, r.n))
    [] a.t = "str" /\ b.t = "str" -> Ok(TextCmp(a.c, b.c))
    [] a.t = "str" /\ IsNum(b) -> StrNumCmp(a.c, b)
    [] a.t = "bool" /\ b.t = "bool" -> Ok(IF a.b = b.b THEN 0 ELSE IF a.b THEN 1 ELSE -1)
    [] a.t = "bool" /\ IsNum(b) ->
         IF b.t \in {"nan", "unk"} THEN [o |-> 9, ok |-> "u"]
         ELSE Ok(IF a.b = NumTruth(b) THEN 0 ELSE IF a.b THEN 1 ELSE -1)
    [] a.t = "time" /\ b.t = "time" -> Ok(TimeCmp(a.d, b.d))
    [] a.t = "time" /\ b.t = "str" -> Ok(TimeCmp(a.d, IsoTime(b.c).t))
    [] IsCont(a) /\ b.t = a.t -> ContCmp(a, b)
    [] a.t = "null" -> Ok(IF b.t = "null" THEN 0 ELSE -1)
    [] OTHER -> Collate(a, b)

(* The three-way comparison; ac and bc tell which side is a constant of the expression *)
SignedStr(v) == v.t = "str" /\ v.c # <<>> /\ v.c[1] \in {43, 45}
OpenRepr(v) == v.t = "num" /\ v.k = "z"
Compare(a, b, ac, bc) ==
  IF a.t \in {"cut", "unk"} \/ b.t \in {"cut", "unk"} THEN [o |-> 9, ok |-> "u"]
  ELSE IF (OpenRepr(a) /\ SignedStr(b)) \/ (OpenRepr(b) /\ SignedStr(a)) THEN [o |-> 9, ok |-> "u"]
  ELSE IF ac /\ bc /\ ~Same(a, b) /\ ~(IsNum(a) /\ IsNum(b)) /\ ~(a.t = "bool" /\ b.t = "bool") THEN [o |-> 9, ok |-> "u"]
  ELSE IF ac THEN (IF Conv(a, b) THEN CmpAs(a, b) ELSE IF IsNum(a) /\ IsNum(b) THEN NumCmp(a, b) ELSE Collate(a, b))
  ELSE IF bc THEN (IF Conv(b, a) THEN Mirror(CmpAs(b, a)) ELSE IF IsNum(a) /\ IsNum(b) THEN NumCmp(a, b) ELSE Collate(a, b))
  ELSE IF Same(a, b) THEN CmpAs(a, b)
  ELSE IF IsNum(a) /\ IsNum(b) THEN NumCmp(a, b)
  ELSE IF Rank(a) < Rank(b)
       THEN (IF Conv(a, b) THEN CmpAs(a, b) ELSE IF Conv(b, a) THEN Mirror(CmpAs(b, a)) ELSE Collate(a, b))
       ELSE (IF Conv(b, a) THEN Mirror(CmpAs(b, a)) ELSE IF Conv(a, b) THEN CmpAs(a, b) ELSE Collate(a, b))

(* What the operators make of a comparison: "T", "F" or "U" *)
TF(b) == IF b THEN "T" ELSE "F"
OpRes(op, r) ==
  IF op = "eq" THEN (IF r.ok = "n" \/ r.o \in {-1, 1, 8} THEN "F" ELSE IF r.ok = "u" \/ r.o = 9 THEN "U" ELSE "T")
  ELSE IF r.o \in {8, 9} THEN "U"
  ELSE CASE op = "lt" -> TF(r.o < 0) [] op = "le" -> TF(r.o <= 0) [] op = "gt" -> TF(r.o > 0) [] op = "ge" -> TF(r.o >= 0)
=============================================================================
