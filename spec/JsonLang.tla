------------------------------ MODULE JsonLang ------------------------------
(* Expressions written as JSON arrays: the name of the form, then its arguments.                                          *)
(* Denote(v) = [st, e]: "ok", "err", or "may": it is left open whether it is accepted (more arguments than the form has,   *)
(* fractional variables), but if it is, it is as e.                                                                       *)
EXTENDS JsonText, LangBase, Dates, RegexText, Words, TLC

Form(n, ks) == [n |-> n, ks |-> ks]       \* name and kinds of the arguments: e expression
Binary == [f \in {"equals", "notequals", "lessthan", "lessequals", "greaterthan", "greaterequals", "like"} |->
  CASE f = "equals" -> "eq" [] f = "notequals" -> "ne" [] f = "lessthan" -> "lt" [] f = "lessequals" -> "le"
    [] f = "greaterthan" -> "gt" [] f = "greaterequals" -> "ge" [] OTHER -> "like"]
Unary == [f \in {"not", "exists", "notexists"} |-> CASE f = "not" -> "not" [] f = "exists" -> "ex" [] OTHER -> "nex"]
Loop == [f \in {"anyin", "everyin", "anyeveryin"} |-> CASE f = "anyin" -> "any" [] f = "everyin" -> "every" [] OTHER -> "anyevery"]

FormName(c) == LET S == {f \in FormWords : f.w = c} IN IF S = {} THEN "" ELSE (CHOOSE f \in S : TRUE).n
FuncOf(c) == LET S == {f \in JsonFuncs : f.w = c} IN IF S = {} THEN [n |-> "", a |-> 0] ELSE CHOOSE f \in S : TRUE

Err == [st |-> "err", e |-> Nd("none", <<>>, <<>>)]
Ok(e) == [st |-> "ok", e |-> e]
Join(ds, e) == IF \E i \in DOMAIN ds : ds[i].st = "err" THEN Err ELSE [st |-> IF \E i \in DOMAIN ds : ds[i].st = "may" THEN "may" ELSE "ok", e |-> e]
May(d) == IF d.st = "err" THEN d ELSE [d EXCEPT !.st = "may"]
Es(ds) == TLCEval([i \in DOMAIN ds |-> ds[i].e])

Number(c) == LET neg == c[1] = 45
                 x == FloatNum(IF neg THEN SubSeq(c, 2, Len(c)) ELSE c)
             IN IF x.open THEN Nd("anynum", <<>>, <<>>) ELSE Nd("num", NumCodes(IF neg THEN Neg(x.x) ELSE x.x), <<>>)
Constant(v) ==
  CASE v.k = "str" -> Ok(Nd("str", v.c, <<>>))
    [] v.k = "num" -> IF Number(v.c).o = "anynum" /\ (\E i \in DOMAIN v.c : v.c[i] \in {69, 101}) THEN May(Ok(Number(v.c))) ELSE Ok(Number(v.c))
    [] v.k \in {"true", "false"} -> Ok(Nd("v" \o v.k, <<>>, <<>>))
    [] v.k = "null" -> Ok(Nd("null", <<>>, <<>>))
    [] OTHER -> [st |-> "may", e |-> Nd("any", <<>>, <<>>)]
(* Numbers of variables: natural numbers; others are left open *)
VarNr(v) == [ok |-> Len(v.c) <= 8 /\ AllDigits(v.c), c |-> IF AllDigits(v.c) /\ Len(v.c) <= 8 THEN ToNum(v.c, 1, Len(v.c)) ELSE 0]
VarCodes(n) == IF n = 0 THEN <<>> ELSE <<n>>
FieldOf(a) ==      \* a: the arguments
  LET hasVar == a # <<>> /\ a[1].k = "num"
      p == IF hasVar THEN Tail(a) ELSE a
      e == Nd("f", IF hasVar THEN VarCodes(VarNr(a[1]).c) ELSE <<>>, [i \in DOMAIN p |-> Nd("seg", p[i].c, <<>>)])
  IN IF \E i \in DOMAIN p : p[i].k # "str" THEN Err
     ELSE IF hasVar /\ ~VarNr(a[1]).ok THEN [st |-> "may", e |-> Nd("any", <<>>, <<>>)] ELSE Ok(e)

RECURSIVE Denote(_)
Denote(v) ==
  IF v.k # "arr" \/ v.s = <<>> THEN Err
  ELSE IF v.s[1].k # "str" THEN Err
  ELSE LET f == FormName(v.s[1].c)
           a == Tail(v.s)
           n == Len(a)
           ds == TLCEval([i \in DOMAIN a |-> Denote(a[i])])
           Exactly(k, d) == IF n < k THEN Err ELSE IF n > k THEN May(d) ELSE d
       IN CASE f = "value" -> IF n < 1 THEN Err ELSE Exactly(1, Constant(a[1]))
            [] f = "field" -> FieldOf(a)
            [] f = "func" ->
                 IF n < 1 THEN Err
                 ELSE IF a[1].k # "str" THEN Err
                 ELSE LET g == FuncOf(a[1].c)
                          ps == Tail(ds)
                      IN IF g.n = "" \/ Len(ps) < g.a THEN Err
                         ELSE LET d == Join(ps, Nd(g.n, <<>>, Es(ps))) IN IF Len(ps) > g.a THEN May(d) ELSE d
            [] f \in {"or", "and"} -> IF n < 1 THEN Err ELSE Join(ds, Nd(f, <<>>, Es(ds)))
            [] f \in DOMAIN Unary -> IF n < 1 THEN Err ELSE Exactly(1, Join(<<ds[1]>>, Nd(Unary[f], <<>>, <<ds[1].e>>)))
            [] f \in DOMAIN Binary -> IF n < 2 THEN Err ELSE Exactly(2, Join(<<ds[1], ds[2]>>, Nd(Binary[f], <<>>, <<ds[1].e, ds[2].e>>)))
            [] f \in DOMAIN Loop ->
                 IF n < 3 THEN Err
                 ELSE IF a[1].k # "num" THEN Err
                 ELSE LET d == Join(<<ds[2], ds[3]>>, IF VarNr(a[1]).ok THEN Nd(Loop[f], <<VarNr(a[1]).c>>, <<ds[2].e, ds[3].e>>) ELSE Nd("any", <<>>, <<>>))
                      IN Exactly(3, IF VarNr(a[1]).ok THEN d ELSE May(d))
            [] f = "regex" -> IF n < 1 THEN Err
                 ELSE IF a[1].k # "str" THEN Err
                 ELSE LET r == RegexStatus(a[1].c)
                          e == Nd("re", a[1].c, <<>>)
                      IN Exactly(1, IF r = "bad" THEN Err ELSE IF r = "open" THEN May(Ok(e)) ELSE Ok(e))
            [] f = "time" -> IF n < 1 THEN Err
                 ELSE IF a[1].k # "str" THEN Err
                 ELSE LET r == DateStatus(a[1].c)
                          e == Nd("time", a[1].c, <<>>)
                      IN Exactly(1, IF r = "no" THEN Err ELSE IF r = "open" THEN May(Ok(e)) ELSE Ok(e))
            [] OTHER -> Err

JudgedJson(s) ==
  LET d == TLCEval(Denote(TLCEval(JTree(s))))
  IN CASE d.st = "ok" -> [c |-> "yes", must |-> {d.e}, may |-> {}]
       [] d.st = "err" -> [c |-> "no", must |-> {}, may |-> {}]
       [] OTHER -> [c |-> "either", must |-> {}, may |-> {d.e}]
=============================================================================
