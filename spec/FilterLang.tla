----------------------------- MODULE FilterLang -----------------------------
(* Filter expressions: the documented grammar as sets of parses.                                                        *)
(* A parse is [n |-> next token, e |-> the expression, q |-> FALSE, or TRUE where it is left open whether the text is   *)
(* accepted].  An expression is [o, c, s]: operator, codes (of strings, names, numbers), operands.                       *)
(* mode "peg": alternatives are ordered as documented, the first which matches is taken; "cfg": all of them.            *)
(* ts: the tokens; a token marked l may also stand for a keyword or sign of the same text.                              *)
EXTENDS FilterLex, LangBase, Words, Dates, RegexText, TLC

Lit(ts, i, w) == (ts[i].k \in {"id", "p"} \/ ts[i].l) /\ ts[i].v = w
Ch(ts, i, c) == Lit(ts, i, <<c>>)
R(n, e, q) == [n |-> n, e |-> e, q |-> q]
Alt(mode, X, Y) == IF mode = "peg" /\ X # {} THEN X ELSE X \cup Y

(* ---- signs ---- *)
RECURSIVE SignsEnd(_, _)
SignsEnd(ts, i) == IF Ch(ts, i, 45) THEN SignsEnd(ts, i + 1) ELSE i
Odd(n) == n % 2 = 1
TooMany(n) == n > 40
Negated(e) == Nd("mathNegate", <<>>, <<e>>)

(* ---- constants ---- *)
MathValue(ts, i) ==
  LET j == SignsEnd(ts, i)
      t == ts[j]
      x == IF t.k = "int" THEN IntNum(t.v) ELSE FloatNum(t.v).x
      y == IF Odd(j - i) THEN Neg(x) ELSE x
  IN IF t.k = "int" THEN {R(j + 1, Nd("num", NumCodes(y), <<>>), TooMany(j - i) \/ ~InI64(x))}
     ELSE IF t.k # "flt" THEN {}
     ELSE IF FloatNum(t.v).open THEN {R(j + 1, Nd("anynum", <<>>, <<>>), TRUE)}
     ELSE {R(j + 1, Nd("num", NumCodes(y), <<>>), TooMany(j - i))}
Value(mode, ts, i) == Alt(mode, MathValue(ts, i), IF ts[i].k = "str" THEN {R(i + 1, Nd("str", ts[i].v, <<>>), FALSE)} ELSE {})
BoolLit(ts, i) == IF Lit(ts, i, W.kTRUE) \/ Lit(ts, i, W.ktrue) THEN "true" ELSE IF Lit(ts, i, W.kFALSE) \/ Lit(ts, i, W.kfalse) THEN "false" ELSE ""
Boolean(ts, i) == IF BoolLit(ts, i) = "" THEN {} ELSE {R(i + 1, Nd("v" \o BoolLit(ts, i), <<>>, <<>>), FALSE)}

(* ---- fields ---- *)
Index(ts, i) == Ch(ts, i, 91) /\ ts[i + 1].k = "int" /\ Ch(ts, i + 2, 93)
RECURSIVE Indexes(_, _, _)
Indexes(ts, i, acc) == IF Index(ts, i) THEN Indexes(ts, i + 3, Append(acc, Nd("seg", <<91>> \o ts[i + 1].v \o <<93>>, <<>>))) ELSE [n |-> i, s |-> acc]
Name(ts, i) == ts[i].k \in {"id", "raw", "chr"}
MetaFn(ts, i) == Lit(ts, i, W.kMETA) /\ Ch(ts, i + 1, 40) /\ Ch(ts, i + 2, 41)
RECURSIVE Path(_, _, _)
Path(ts, i, acc) ==     \* [n, s], n = 0: none
  IF ~MetaFn(ts, i) /\ ~Name(ts, i) THEN [n |-> 0, s |-> <<>>]
  ELSE LET r == IF MetaFn(ts, i) THEN Indexes(ts, i + 3, Append(acc, Nd("seg", W.kMETA \o <<40, 41>>, <<>>)))
                ELSE Indexes(ts, i + 1, Append(acc, Nd("seg", ts[i].v, <<>>)))
       IN IF Ch(ts, r.n, 46) THEN Path(ts, r.n + 1, r.s) ELSE r
Field(ts, i) ==
  LET j == SignsEnd(ts, i)
      p == Path(ts, j, <<>>)
      f == Nd("f", <<>>, p.s)
  IN IF p.n = 0 THEN {} ELSE {R(p.n, IF Odd(j - i) THEN Negated(f) ELSE f, TooMany(j - i))}

(* ---- arithmetic ---- *)
MathOp(ts, i) == IF Ch(ts, i, 43) THEN "mathAdd" ELSE IF Ch(ts, i, 45) THEN "mathSubract" ELSE IF Ch(ts, i, 42) THEN "mathMultiply"
                 ELSE IF Ch(ts, i, 47) THEN "mathDivide" ELSE IF Ch(ts, i, 37) THEN "mathModulo" ELSE ""
SumOps == {"mathAdd", "mathSubract"}
RECURSIVE Products(_, _, _, _)
RECURSIVE Sums(_, _)
(* terms: sequence of [op, e], the op of the first unused: products are formed first *)
Products(terms, i, cur, acc) ==
  IF i > Len(terms) THEN Append(acc, cur)
  ELSE IF terms[i].op \in SumOps THEN Products(terms, i + 1, terms[i], Append(acc, cur))
  ELSE Products(terms, i + 1, [op |-> cur.op, e |-> Nd(terms[i].op, <<>>, <<cur.e, terms[i].e>>)], acc)
Sums(prods, k) == IF k = 1 THEN prods[1].e ELSE Nd(prods[k].op, <<>>, <<Sums(prods, k - 1), prods[k].e>>)
Grouped(terms) == LET ps == Products(terms, 2, terms[1], <<>>) IN Sums(ps, Len(ps))

RECURSIVE Chain(_, _, _, _, _)
Chain(mode, ts, i, terms, q) ==
  LET op == MathOp(ts, i)
      done == R(i, Grouped(terms), q)
      rs == IF op = "" THEN {} ELSE Alt(mode, MathValue(ts, i + 1), Field(ts, i + 1))
      more == UNION {Chain(mode, ts, r.n, Append(terms, [op |-> op, e |-> r.e]), q \/ r.q) : r \in rs}
  IN IF mode = "peg" /\ more # {} THEN more ELSE more \cup {done}
Type0(ts, i) == UNION {IF MathOp(ts, r.n) = "" THEN {}
                       ELSE {R(f.n, Nd(MathOp(ts, r.n), <<>>, <<r.e, f.e>>), r.q \/ f.q) : f \in Field(ts, r.n + 1)} : r \in MathValue(ts, i)}
FieldMath(mode, ts, i) == Alt(mode, Type0(ts, i), UNION {Chain(mode, ts, f.n, <<[op |-> "", e |-> f.e]>>, f.q) : f \in Field(ts, i)})

(* ---- functions ---- *)
Pi == [s |-> 1, m |-> <<3589, 9265, 1415, 3>>]
Eul == [s |-> 1, m |-> <<8459, 8182, 7182, 2>>]
Close(ts, n) == Ch(ts, n, 41)
RECURSIVE Func(_, _, _)
Arg(mode, ts, i) == Alt(mode, Func(mode, ts, i), Alt(mode, FieldMath(mode, ts, i), Value(mode, ts, i)))
DateArg(e) == IF e.o = "str" THEN DateStatus(e.c) ELSE IF e.o \in {"num", "anynum"} THEN "open" ELSE "yes"
Func(mode, ts, i) ==
  LET j == SignsEnd(ts, i)
      sign(e) == IF Odd(j - i) THEN Negated(e) ELSE e
      q0 == TooMany(j - i)
      word == ts[j].v
      isWord == ts[j].k = "id" \/ ts[j].l
      f1 == {f \in OneArg : f.w = word}
      f2 == {f \in TwoArgs : f.w = word}
  IN IF ~isWord \/ ~Ch(ts, j + 1, 40) THEN {}
     ELSE IF word = W.kPI \/ word = W.kE
       THEN (IF Close(ts, j + 2) THEN {R(j + 3, sign(Nd("num", NumCodes(IF word = W.kPI THEN Pi ELSE Eul), <<>>)), q0)} ELSE {})
     ELSE UNION (
       {UNION {IF ~Close(ts, a.n) \/ (f.n = "date" /\ DateArg(a.e) = "no") THEN {}
               ELSE {R(a.n + 1, sign(Nd(f.n, <<>>, <<a.e>>)), q0 \/ a.q \/ (f.n = "date" /\ DateArg(a.e) = "open"))}
               : a \in Arg(mode, ts, j + 2)} : f \in f1}
       \cup
       {UNION {IF ~Ch(ts, a.n, 44) THEN {}
               ELSE UNION {IF ~Close(ts, b.n) THEN {} ELSE {R(b.n + 1, sign(Nd(f.n, <<>>, <<a.e, b.e>>)), q0 \/ a.q \/ b.q)}
                           : b \in Arg(mode, ts, a.n + 1)}
               : a \in Arg(mode, ts, j + 2)} : f \in f2})

(* ---- conditions ---- *)
RegexArg(mode, ts, i) ==      \* [n, e, q]
  UNION {IF v.e.o # "str" THEN {R(v.n, Nd("re", <<>>, <<v.e>>), TRUE)}
         ELSE LET s == RegexStatus(v.e.c) IN IF s = "bad" THEN {} ELSE {R(v.n, Nd("re", v.e.c, <<>>), s = "open")}
         : v \in Value(mode, ts, i)}
RegexCond(mode, ts, i) ==
  IF ~(Lit(ts, i, W.kREGEXP_CONTAINS) /\ Ch(ts, i + 1, 40)) THEN {}
  ELSE UNION {IF ~Ch(ts, a.n, 44) THEN {}
              ELSE UNION {IF ~Close(ts, b.n) THEN {} ELSE {R(b.n + 1, Nd("like", <<>>, <<a.e, b.e>>), a.q \/ b.q)} : b \in RegexArg(mode, ts, a.n + 1)}
              : a \in Arg(mode, ts, i + 2)}
ExistsCond(ts, i) ==
  IF ~(Lit(ts, i, W.kEXISTS) /\ Ch(ts, i + 1, 40)) THEN {}
  ELSE UNION {IF Close(ts, f.n) THEN {R(f.n + 1, Nd("ex", <<>>, <<f.e>>), f.q)} ELSE {} : f \in Field(ts, i + 2)}
BooleanExpr(mode, ts, i) ==
  Alt(mode, {[b EXCEPT !.e.o = IF b.e.o = "vtrue" THEN "true" ELSE "false"] : b \in Boolean(ts, i)}, Alt(mode, RegexCond(mode, ts, i), ExistsCond(ts, i)))

Lhs(mode, ts, i) == Alt(mode, Func(mode, ts, i), Alt(mode, Boolean(ts, i), Alt(mode, FieldMath(mode, ts, i), Value(mode, ts, i))))
Rhs(mode, ts, i) == Alt(mode, Func(mode, ts, i), Alt(mode, Boolean(ts, i), Alt(mode, Value(mode, ts, i), FieldMath(mode, ts, i))))

OpChars == {33, 60, 61, 62}
OpCh(ts, i) == \E c \in OpChars : Ch(ts, i, c)
OpAt(ts, i) ==      \* [n, o, q]
  IF ~OpCh(ts, i) THEN [n |-> i, o |-> "", q |-> FALSE]
  ELSE IF ~OpCh(ts, i + 1) THEN [n |-> i + 1, o |-> CASE Ch(ts, i, 61) -> "eq" [] Ch(ts, i, 60) -> "lt" [] Ch(ts, i, 62) -> "gt" [] OTHER -> "", q |-> FALSE]
  ELSE [n |-> i + 2, q |-> ts[i].z # ts[i + 1].a,
        o |-> CASE Ch(ts, i, 61) /\ Ch(ts, i + 1, 61) -> "eq"
                [] Ch(ts, i, 33) /\ Ch(ts, i + 1, 61) -> "ne"
                [] Ch(ts, i, 60) /\ Ch(ts, i + 1, 62) -> "ne"
                [] Ch(ts, i, 60) /\ Ch(ts, i + 1, 61) -> "le"
                [] Ch(ts, i, 62) /\ Ch(ts, i + 1, 61) -> "ge"
                [] OTHER -> ""]
NullEq(e) == Nd("eq", <<>>, <<e, Nd("null", <<>>, <<>>)>>)
Checked(ts, l) ==   \* a check of the operand l, whose next token is IS
  LET not == Lit(ts, l.n + 1, W.kNOT)
      k == IF not THEN l.n + 2 ELSE l.n + 1
  IN IF Lit(ts, k, W.kNULL) THEN {R(k + 1, IF not THEN Nd("not", <<>>, <<NullEq(l.e)>>) ELSE NullEq(l.e), l.q)}
     ELSE IF Lit(ts, k, W.kMISSING) THEN {R(k + 1, Nd(IF not THEN "ex" ELSE "nex", <<>>, <<l.e>>), l.q)}
     ELSE {}
Comparison(mode, ts, i) ==
  UNION {LET op == OpAt(ts, l.n)
         IN IF op.o # "" THEN {R(r.n, Nd(op.o, <<>>, <<l.e, r.e>>), l.q \/ op.q \/ r.q) : r \in Rhs(mode, ts, op.n)}
            ELSE IF Lit(ts, l.n, W.kIS) THEN Checked(ts, l) ELSE {}
         : l \in Lhs(mode, ts, i)}
Operand(mode, ts, i) == Alt(mode, BooleanExpr(mode, ts, i), Comparison(mode, ts, i))
RECURSIVE Condition(_, _, _)
Condition(mode, ts, i) ==
  Alt(mode, IF Lit(ts, i, W.kNOT) THEN {R(c.n, Nd("not", <<>>, <<c.e>>), c.q) : c \in Condition(mode, ts, i + 1)} ELSE {},
      Operand(mode, ts, i))

RECURSIVE Inner(_, _, _)
RECURSIVE Many(_, _, _, _, _, _)
Term(mode, ts, i) ==
  Alt(mode, IF Ch(ts, i, 40) THEN UNION {IF Close(ts, r.n) THEN {R(r.n + 1, r.e, r.q)} ELSE {} : r \in Inner(mode, ts, i + 1)} ELSE {},
      Condition(mode, ts, i))
(* what: "or" or "and": one or more of what is below, joined *)
Below(mode, ts, i, what) == IF what = "and" THEN Term(mode, ts, i) ELSE Many(mode, ts, i, "and", <<>>, FALSE)
Many(mode, ts, i, what, acc, q) ==
  UNION {LET acc2 == Append(acc, r.e)
             q2 == q \/ r.q
             done == R(r.n, Nd(what, <<>>, acc2), q2)
             more == IF Lit(ts, r.n, IF what = "and" THEN W.kAND ELSE W.kOR) THEN Many(mode, ts, r.n + 1, what, acc2, q2) ELSE {}
         IN IF mode = "peg" /\ more # {} THEN more ELSE more \cup {done}
         : r \in Below(mode, ts, i, what)}
Inner(mode, ts, i) == Many(mode, ts, i, "or", <<>>, FALSE)

Parses(mode, ts) == {r \in Inner(mode, ts, 1) : ts[r.n].k = "end"}

(* ---- the verdict on a text ---- *)
(* must: the expressions of which one has to be given; may: those which may be given, or an error; class of the text      *)
SignsAndWords == {<<c>> : c \in {33, 37, 40, 41, 42, 43, 44, 45, 46, 47, 60, 61, 62, 91, 93}} \cup {W[k] : k \in DOMAIN W}
                 \cup {f.w : f \in OneArg} \cup {f.w : f \in TwoArgs}
QuotedWord(t) == t.k \in {"str", "chr", "raw"} /\ t.v \in SignsAndWords
Loosened(ts) == [i \in DOMAIN ts |-> [ts[i] EXCEPT !.l = QuotedWord(ts[i])]]
Pad(ts) == ts \o <<ts[Len(ts)], ts[Len(ts)], ts[Len(ts)]>>
Exprs(rs) == {r.e : r \in rs}
Judged(s) ==
  LET t0 == TLCEval(Tokens(s))
      ts == Pad(t0)
      last == t0[Len(t0)].k
      peg == TLCEval(Parses("peg", ts))
      cfg == TLCEval(Parses("cfg", ts))
      quoted == \E i \in DOMAIN t0 : QuotedWord(t0[i])
      loose == IF quoted THEN TLCEval(Exprs(Parses("peg", Pad(Loosened(t0)))) \cup Exprs(Parses("cfg", Pad(Loosened(t0))))) ELSE {}
  IN IF last = "open" THEN [c |-> "open", must |-> {}, may |-> {}]
     ELSE IF last = "err" THEN [c |-> "no", must |-> {}, may |-> {}]
     ELSE IF quoted THEN [c |-> "quoted", must |-> Exprs({r \in peg : ~r.q}), may |-> loose \cup Exprs(cfg)]
     ELSE IF \E r \in peg : ~r.q THEN [c |-> "yes", must |-> Exprs(peg), may |-> {}]
     ELSE IF cfg = {} THEN [c |-> "no", must |-> {}, may |-> {}]
     ELSE [c |-> "either", must |-> {}, may |-> Exprs(cfg)]
=============================================================================
