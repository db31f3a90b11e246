----------------------------- MODULE SimpleLang -----------------------------
(* Simple expressions: the lexemes, and the expression which a text denotes.                                            *)
(* A lexeme is [k, v, e, a, z]: kind, codes or segments, expression, first position, position after it.  Kinds: "(" ")"  *)
(* "op" "word" "num" "str" "fld" "fn" "end"; "bad": an error is required; "open": a spelling which is not specified.     *)
(* A parse is [n, e, q] as in FilterLang: q: it is left open whether the text is accepted.                              *)
EXTENDS LangBase, Words, Dates, RegexText, TLC

Letter(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c = 95
             \/ (c >= 192 /\ c <= 591 /\ c # 215 /\ c # 247) \/ (c >= 913 /\ c <= 969 /\ c # 930)
C(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
Blank(c) == c \in {32, 9, 10, 13}
OpCh(c) == c \in {33, 38, 60, 61, 62, 124, 126}
None == Nd("none", <<>>, <<>>)
Lx(k, v, e, a, z) == [k |-> k, v |-> v, e |-> e, a |-> a, z |-> z]
Ends(c) == c = -1 \/ Blank(c) \/ c = 41          \* what may follow any lexeme

RECURSIVE WordEnd(_, _)
WordEnd(s, i) == IF Letter(C(s, i)) \/ IsDigit(C(s, i)) THEN WordEnd(s, i + 1) ELSE i
RECURSIVE DigEnd(_, _)
DigEnd(s, i) == IF IsDigit(C(s, i)) THEN DigEnd(s, i + 1) ELSE i
RECURSIVE RunEnd(_, _)
RunEnd(s, i) == IF OpCh(C(s, i)) THEN RunEnd(s, i + 1) ELSE i
RECURSIVE QuoteEnd(_, _, _)
QuoteEnd(s, i, q) == IF i > Len(s) THEN 0 ELSE IF s[i] = q THEN i ELSE QuoteEnd(s, i + 1, q)

(* ---- numbers: an integer without leading zeros, digits after a point; a sign ---- *)
NumEnd(s, i) ==          \* 0: no number here
  LET a == IF C(s, i) = 45 THEN i + 1 ELSE i
      b == IF C(s, a) = 48 THEN a + 1 ELSE DigEnd(s, a)
      c == IF C(s, b) = 46 THEN DigEnd(s, b + 1) ELSE b
  IN IF b = a \/ c = b + 1 \/ IsDigit(C(s, c)) THEN 0 ELSE c
NumExpr(v) ==       \* [open, e]
  LET neg == v[1] = 45
      w == IF neg THEN Tail(v) ELSE v
      isF == \E i \in DOMAIN w : w[i] = 46
      x == IF isF THEN FloatNum(w).x ELSE IntNum(w)
      y == IF neg THEN Neg(x) ELSE x
  IN IF (isF /\ FloatNum(w).open) \/ (~isF /\ ~InI64(y)) THEN [open |-> TRUE, e |-> Nd("anynum", <<>>, <<>>)]
     ELSE [open |-> FALSE, e |-> Nd("num", NumCodes(y), <<>>)]

(* ---- fields: names joined by points, each with any number of indexes ---- *)
RECURSIVE Idx(_, _, _)
Idx(s, i, acc) ==        \* [n, s, k]
  IF C(s, i) # 91 THEN [n |-> i, s |-> acc, k |-> "ok"]
  ELSE LET z == DigEnd(s, i + 1)
       IN IF z = i + 1 \/ C(s, z) # 93 \/ (C(s, i + 1) = 48 /\ z > i + 2) THEN [n |-> i, s |-> acc, k |-> "open"]
          ELSE Idx(s, z + 1, Append(acc, Nd("seg", SubSeq(s, i, z), <<>>)))
PlainName(v) == v # <<>> /\ \A i \in DOMAIN v : v[i] >= 32
RECURSIVE Path(_, _, _)
Path(s, i, acc) ==       \* [n, s, k]
  LET tick == C(s, i) = 96
      t == IF tick THEN QuoteEnd(s, i + 1, 96) ELSE 0
      w == IF tick THEN t + 1 ELSE WordEnd(s, i)
      v == IF tick THEN SubSeq(s, i + 1, t - 1) ELSE SubSeq(s, i, w - 1)
      r == Idx(s, w, Append(acc, Nd("seg", v, <<>>)))
  IN IF tick /\ t = 0 THEN [n |-> i, s |-> acc, k |-> "bad"]
     ELSE IF (tick /\ ~PlainName(v)) \/ (~tick /\ ~Letter(C(s, i))) THEN [n |-> i, s |-> acc, k |-> "open"]
     ELSE IF r.k = "ok" /\ C(s, r.n) = 46 THEN Path(s, r.n + 1, r.s) ELSE r

(* ---- constants and functions: [n, e, k] ---- *)
Open(i) == [n |-> i, e |-> None, k |-> "open"]
Bad(i) == [n |-> i, e |-> None, k |-> "bad"]
Pi == [s |-> 1, m |-> <<3589, 9265, 1415, 3>>]
Eul == [s |-> 1, m |-> <<8459, 8182, 7182, 2>>]
NoArg == {[w |-> W.kPI, x |-> Pi], [w |-> W.kE, x |-> Eul]}
DateArg(e) == IF e.o = "str" THEN DateStatus(e.c) ELSE IF e.o \in {"num", "anynum"} THEN "open" ELSE "ok"
RECURSIVE Fn(_, _)
RECURSIVE Arg(_, _)
FnWord(s, i) == Letter(C(s, i)) /\ C(s, WordEnd(s, i)) = 40
Arg(s, i) ==
  LET c == C(s, i)
      q == QuoteEnd(s, i + 1, c)
      nz == NumEnd(s, i)
      p == Path(s, i, <<>>)
  IN IF c = -1 THEN Bad(i)
     ELSE IF c \in {34, 39}
       THEN (IF q = 0 THEN Bad(i)
             ELSE IF \E k \in i + 1..q - 1 : s[k] <= 32 \/ s[k] \in {34, 39, 40, 41, 44, 96} THEN Open(i)
             ELSE [n |-> q + 1, e |-> Nd("str", SubSeq(s, i + 1, q - 1), <<>>), k |-> "ok"])
     ELSE IF nz > 0 THEN (IF NumExpr(SubSeq(s, i, nz - 1)).open THEN Open(i) ELSE [n |-> nz, e |-> NumExpr(SubSeq(s, i, nz - 1)).e, k |-> "ok"])
     ELSE IF FnWord(s, i) THEN Fn(s, i)
     ELSE IF p.k = "ok" THEN [n |-> p.n, e |-> Nd("f", <<>>, p.s), k |-> "ok"]
     ELSE [n |-> i, e |-> None, k |-> p.k]
(* the end of a function, a: its last argument *)
Closed(s, a, e) == IF a.k # "ok" THEN a ELSE IF C(s, a.n) = 41 THEN [n |-> a.n + 1, e |-> e, k |-> "ok"] ELSE IF C(s, a.n) = -1 THEN Bad(a.n) ELSE Open(a.n)
Fn(s, i) ==
  LET z == WordEnd(s, i)
      w == SubSeq(s, i, z - 1)
      f0 == {f \in NoArg : f.w = w}
      f1 == {f \in OneArg : f.w = w}
      f2 == {f \in TwoArgs : f.w = w}
      empty == C(s, z + 1) = 41
      a == Arg(s, z + 1)
      b == Arg(s, a.n + 1)
  IN IF f0 # {} THEN (IF empty THEN [n |-> z + 2, e |-> Nd("num", NumCodes((CHOOSE f \in f0 : TRUE).x), <<>>), k |-> "ok"] ELSE Open(i))
     ELSE IF f1 \cup f2 = {} THEN (IF empty \/ (a.k = "ok" /\ C(s, a.n) = 41) THEN Bad(i) ELSE Open(i))
     ELSE IF empty THEN Bad(i)
     ELSE IF f1 # {} THEN LET f == CHOOSE f \in f1 : TRUE
                              r == Closed(s, a, Nd(f.n, <<>>, <<a.e>>))
                          IN IF a.k # "ok" \/ f.n # "date" \/ DateArg(a.e) = "yes" THEN r
                             ELSE IF r.k = "ok" /\ DateArg(a.e) = "no" THEN Bad(i) ELSE IF r.k = "ok" /\ DateArg(a.e) = "open" THEN Open(i) ELSE r
     ELSE IF a.k # "ok" THEN a
     ELSE IF C(s, a.n) \in {41, -1} THEN Bad(i)
     ELSE IF C(s, a.n) # 44 THEN Open(i)
     ELSE Closed(s, b, Nd((CHOOSE f \in f2 : TRUE).n, <<>>, <<a.e, b.e>>))

(* ---- lexemes ---- *)
Keywords == {W.kAND, W.kOR, W.kLIKE, W.kNOT, W.kIS, W.kEXISTS, W.kNULL, W.kMISSING, W.ktrue, W.kfalse, W.kTRUE, W.kFALSE}
KnownOps == {<<61, 61>>, <<61>>, <<33, 61>>, <<60>>, <<60, 61>>, <<62>>, <<62, 61>>, <<61, 126>>, <<38, 38>>, <<124, 124>>}
NoOps == {<<60, 62>>, <<61, 61, 61>>, <<61, 62>>, <<61, 60>>, <<61, 33>>, <<33, 61, 61>>, <<62, 62>>, <<60, 60>>, <<62, 60>>, <<38, 38, 38>>, <<124, 124, 124>>,
          <<33, 61, 62>>, <<60, 61, 62>>, <<61, 61, 126>>, <<126, 61>>, <<33, 33, 61>>}
RECURSIVE LexAt(_, _, _)
LexAt(s, i, acc) ==
  LET c == C(s, i)
      Go(t) == IF t.k \in {"bad", "open"} THEN Append(acc, t) ELSE LexAt(s, t.z, Append(acc, t))
      Stop(k) == Append(acc, Lx(k, <<>>, None, i, i))
      After(n) == Ends(C(s, n)) \/ OpCh(C(s, n))
      q == QuoteEnd(s, i + 1, c)
      r == RunEnd(s, i)
      w == WordEnd(s, i)
      nz == NumEnd(s, i)
      p == Path(s, i, <<>>)
      f == Fn(s, i)
  IN CASE c = -1 -> Append(acc, Lx("end", <<>>, None, i, i))
       [] Blank(c) -> LexAt(s, i + 1, acc)
       [] c = 40 -> Go(Lx("(", <<>>, None, i, i + 1))
       [] c = 41 -> IF Ends(C(s, i + 1)) THEN Go(Lx(")", <<>>, None, i, i + 1)) ELSE Stop("open")
       [] OpCh(c) -> LET v == SubSeq(s, i, r - 1)
                     IN IF v \notin KnownOps THEN Stop(IF v \in NoOps THEN "bad" ELSE "open") ELSE IF C(s, r) = 41 THEN Stop("open") ELSE Go(Lx("op", v, None, i, r))
       [] c \in {34, 39} -> IF q = 0 THEN Stop("bad")
                            ELSE IF ~Ends(C(s, q + 1)) \/ (\E k \in i + 1..q - 1 : s[k] < 32 /\ ~Blank(s[k])) THEN Stop("open")
                            ELSE LET v == SubSeq(s, i + 1, q - 1) IN Go(Lx("str", v, None, i, q + 1))
       [] nz > 0 -> IF ~After(nz) THEN Stop("open") ELSE Go(Lx("num", <<>>, NumExpr(SubSeq(s, i, nz - 1)).e, i, nz))
       [] FnWord(s, i) -> IF SubSeq(s, i, w - 1) \in Keywords THEN Stop("open")
                          ELSE IF f.k # "ok" THEN Stop(f.k) ELSE IF ~After(f.n) THEN Stop("open") ELSE Go(Lx("fn", <<>>, f.e, i, f.n))
       [] Letter(c) /\ SubSeq(s, i, w - 1) \in Keywords -> IF ~Ends(C(s, w)) THEN Stop("open") ELSE Go(Lx("word", SubSeq(s, i, w - 1), None, i, w))
       [] Letter(c) \/ c = 96 -> IF p.k # "ok" THEN Stop(p.k) ELSE IF ~After(p.n) THEN Stop("open") ELSE Go(Lx("fld", <<>>, Nd("f", <<>>, p.s), i, p.n))
       [] OTHER -> Stop("open")

(* ---- the grammar ---- *)
R(n, e, q) == [n |-> n, e |-> e, q |-> q]
Word(ts, i, w) == ts[i].k = "word" /\ ts[i].v = w
Op(ts, i, v) == ts[i].k = "op" /\ ts[i].v = v
BoolAt(ts, i) == IF Word(ts, i, W.ktrue) \/ Word(ts, i, W.kTRUE) THEN "true" ELSE IF Word(ts, i, W.kfalse) \/ Word(ts, i, W.kFALSE) THEN "false" ELSE ""
UpperBool(ts, i) == Word(ts, i, W.kTRUE) \/ Word(ts, i, W.kFALSE)
Lhs(ts, i) ==
  LET t == ts[i]
  IN CASE t.k \in {"fld", "fn"} -> {R(i + 1, t.e, FALSE)}
       [] t.k = "num" -> {R(i + 1, t.e, TRUE)}
       [] t.k = "str" -> {R(i + 1, Nd("any", <<>>, <<>>), TRUE)}
       [] BoolAt(ts, i) # "" -> {R(i + 1, Nd("f", <<>>, <<Nd("seg", t.v, <<>>)>>), TRUE), R(i + 1, Nd("v" \o BoolAt(ts, i), <<>>, <<>>), TRUE), R(i + 1, Nd(BoolAt(ts, i), <<>>, <<>>), TRUE)}
       [] t.k = "word" -> {R(i + 1, Nd("f", <<>>, <<Nd("seg", t.v, <<>>)>>), TRUE)}
       [] OTHER -> {}
Rhs(ts, i, eqOp) ==
  LET t == ts[i]
  IN CASE t.k = "num" -> {R(i + 1, t.e, t.e.o = "anynum")}
       [] t.k = "str" -> {R(i + 1, Nd("str", t.v, <<>>), FALSE)}
       [] t.k = "fn" -> {R(i + 1, t.e, FALSE)}
       [] t.k = "fld" -> {R(i + 1, t.e, TRUE)}
       [] BoolAt(ts, i) # "" -> {R(i + 1, Nd("v" \o BoolAt(ts, i), <<>>, <<>>), ~eqOp \/ UpperBool(ts, i))}
                               \cup (IF UpperBool(ts, i) THEN {R(i + 1, Nd("f", <<>>, <<Nd("seg", t.v, <<>>)>>), TRUE)} ELSE {})
       [] t.k = "word" -> {R(i + 1, Nd("f", <<>>, <<Nd("seg", t.v, <<>>)>>), TRUE)}
       [] OTHER -> {}
CompOps == [x \in {<<61, 61>>, <<61>>, <<33, 61>>, <<60>>, <<60, 61>>, <<62>>, <<62, 61>>} |->
             CASE x = <<61, 61>> -> "eq" [] x = <<61>> -> "eq" [] x = <<33, 61>> -> "ne" [] x = <<60>> -> "lt" [] x = <<60, 61>> -> "le"
               [] x = <<62>> -> "gt" [] OTHER -> "ge"]
Null == Nd("null", <<>>, <<>>)
LikeOp(ts, i) == Word(ts, i, W.kLIKE) \/ Op(ts, i, <<61, 126>>)
LikeRhs(ts, i) ==        \* [n, e, q]
  IF ts[i].k = "str" THEN LET st == RegexStatus(ts[i].v) IN IF st = "bad" THEN {} ELSE {R(i + 1, Nd("re", ts[i].v, <<>>), st = "open")}
  ELSE IF ts[i].k \in {"num", "fn", "fld", "word"} THEN {R(i + 1, Nd("any", <<>>, <<>>), TRUE)} ELSE {}
Cond(ts, i) ==
  UNION {
    LET n == l.n
        not == Word(ts, n, W.kNOT)
        m == IF not THEN n + 1 ELSE n
        isNot == Word(ts, n + 1, W.kNOT)
        k == IF isNot THEN n + 2 ELSE n + 1
    IN IF ts[n].k = "op" /\ ts[n].v \in DOMAIN CompOps
         THEN {R(r.n, Nd(CompOps[ts[n].v], <<>>, <<l.e, r.e>>), l.q \/ r.q) : r \in Rhs(ts, n + 1, CompOps[ts[n].v] \in {"eq", "ne"})}
       ELSE IF LikeOp(ts, m)
         THEN {R(r.n, LET e == Nd("like", <<>>, <<l.e, r.e>>) IN IF not THEN Nd("not", <<>>, <<e>>) ELSE e, l.q \/ r.q \/ (not /\ ts[m].k = "op")) : r \in LikeRhs(ts, m + 1)}
       ELSE IF Word(ts, n, W.kEXISTS) THEN {R(n + 1, Nd("ex", <<>>, <<l.e>>), l.q)}
       ELSE IF Word(ts, n, W.kIS) /\ Word(ts, k, W.kNULL) THEN {R(k + 1, Nd(IF isNot THEN "ne" ELSE "eq", <<>>, <<l.e, Null>>), l.q)}
       ELSE IF Word(ts, n, W.kIS) /\ Word(ts, k, W.kMISSING) THEN {R(k + 1, Nd(IF isNot THEN "ex" ELSE "nex", <<>>, <<l.e>>), l.q \/ isNot)}
       ELSE {}
    : l \in Lhs(ts, i)}
ChainOp(ts, i) == IF Op(ts, i, <<38, 38>>) \/ Word(ts, i, W.kAND) THEN "and" ELSE IF Op(ts, i, <<124, 124>>) \/ Word(ts, i, W.kOR) THEN "or" ELSE ""
RECURSIVE Expr(_, _)
RECURSIVE Chain(_, _)
Operand(ts, i) ==
  (IF ts[i].k = "(" THEN {R(r.n + 1, r.e, r.q) : r \in {x \in Expr(ts, i + 1) : ts[x.n].k = ")"}} ELSE Cond(ts, i))
  \cup (IF BoolAt(ts, i) # "" THEN {R(i + 1, Nd(BoolAt(ts, i), <<>>, <<>>), UpperBool(ts, i))} ELSE {})
Lone(ts, i, r) == r.n = i + 1 /\ BoolAt(ts, i) # "" /\ ChainOp(ts, r.n) = ""           \* nothing but true or false
Chain(ts, r) ==          \* r: what stands to the left; operators are taken from left to right
  LET op == ChainOp(ts, r.n)
  IN IF op = "" THEN {r}
     ELSE UNION {Chain(ts, R(x.n, Nd(op, <<>>, <<r.e, x.e>>), r.q \/ x.q)) : x \in Operand(ts, r.n + 1)}
Expr(ts, i) == UNION {Chain(ts, IF Lone(ts, i, r) THEN R(r.n, r.e, TRUE) ELSE r) : r \in Operand(ts, i)}

(* associativity: operands of the same connective make one sequence *)
RECURSIVE Flat(_)
RECURSIVE FlatOps(_, _, _)
FlatOps(o, s, i) == IF i > Len(s) THEN <<>> ELSE LET x == Flat(s[i]) IN (IF x.o = o THEN x.s ELSE <<x>>) \o FlatOps(o, s, i + 1)
Flat(e) == IF e.o \in {"and", "or"} THEN Nd(e.o, e.c, FlatOps(e.o, e.s, 1))
           ELSE IF e.o = "not" THEN Nd("not", e.c, <<Flat(e.s[1])>>) ELSE e

Pad(ts) == ts \o <<ts[Len(ts)], ts[Len(ts)], ts[Len(ts)]>>
Flats(rs) == {Flat(r.e) : r \in rs}
Parses(ts) == {r \in Expr(Pad(ts), 1) : ts[r.n].k = "end"}
Judged(s) ==
  LET ts == TLCEval(LexAt(s, 1, <<>>))
      last == ts[Len(ts)].k
      ps == TLCEval(Parses(ts))
      V(c, must, may) == [c |-> c, must |-> must, may |-> may]
  IN IF last = "open" THEN V("open", {}, {})
     ELSE IF last = "bad" THEN V("no", {}, {})
     ELSE IF \E r \in ps : ~r.q THEN V("yes", Flats({r \in ps : ~r.q}), {})
     ELSE IF ps = {} THEN V("no", {}, {})
     ELSE V("either", {}, Flats(ps))
=============================================================================
