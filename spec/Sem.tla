-------------------------------- MODULE Sem --------------------------------
(* The meaning of an expression on a document: "T", "F", or "U" where it is not specified (Kleene's three values).     *)
EXTENDS Funcs, Regex, TLC

(* ---- documents ---- *)
IdxNames == [i \in 0..1030 |-> "[" \o ToString(i) \o "]"]
IdxName(i) == IF i <= 1030 THEN IdxNames[i] ELSE "[" \o ToString(i) \o "]"
Miss == [t |-> "miss"]
CutV == [t |-> "cut"]                       \* present, but not known
MaybeV == [t |-> "cut", absent |-> TRUE]    \* not even known to be present
(* A container whose end is not known may contain anything in addition *)
Open(v) == "open" \in DOMAIN v /\ v.open

Child(v, k) ==
  CASE v.t = "obj" -> (LET c == {i \in 1..Len(v.m) : v.m[i].k = k}
                       IN IF c # {} THEN v.m[CHOOSE i \in c : TRUE].v ELSE IF Open(v) THEN MaybeV ELSE Miss)
    [] v.t = "arr" -> (LET c == {i \in 1..Len(v.e) : IdxName(i - 1) = k}
                       IN IF c # {} THEN v.e[CHOOSE i \in c : TRUE] ELSE IF Open(v) THEN MaybeV ELSE Miss)
    [] v.t = "cut" -> MaybeV
    [] OTHER -> Miss

RECURSIVE Lookup(_, _, _)
Lookup(v, p, i) == IF i > Len(p) THEN v ELSE Lookup(Child(v, p[i]), p, i + 1)

(* env: sequence of [v |-> variable, x |-> value] *)
Var(env, v) == env[CHOOSE i \in 1..Len(env) : env[i].v = v /\ (\A j \in (i + 1)..Len(env) : env[j].v # v)].x
RootEnv(doc) == <<[v |-> 0, x |-> doc]>>

(* ---- operands ---- *)
IsConst(e) == e.o \in {"v", "time", "re"}

RECURSIVE HasMissing(_, _)
HasMissing(e, env) ==
  CASE e.o = "f" -> Lookup(Var(env, e.v), e.p, 1).t = "miss"
    [] e.o = "fn" -> \E i \in 1..Len(e.a) : HasMissing(e.a[i], env)
    [] OTHER -> FALSE

RECURSIVE HasCut(_, _)
HasCut(e, env) ==
  CASE e.o = "f" -> Lookup(Var(env, e.v), e.p, 1).t = "cut"
    [] e.o = "fn" -> \E i \in 1..Len(e.a) : HasCut(e.a[i], env)
    [] OTHER -> FALSE

RECURSIVE Val(_, _)
Val(e, env) ==
  CASE e.o = "f" -> Lookup(Var(env, e.v), e.p, 1)
    [] e.o = "v" -> e.c
    [] e.o = "time" -> [t |-> "time", d |-> IsoTime(e.c).t]
    [] e.o = "fn" -> Apply(e.n, TLCEval([i \in 1..Len(e.a) |-> Val(e.a[i], env)]))

(* ---- three-valued logic ---- *)
Not3(x) == CASE x = "T" -> "F" [] x = "F" -> "T" [] OTHER -> "U"
And3(xs) == IF \E i \in 1..Len(xs) : xs[i] = "F" THEN "F" ELSE IF \E i \in 1..Len(xs) : xs[i] = "U" THEN "U" ELSE "T"
Or3(xs) == IF \E i \in 1..Len(xs) : xs[i] = "T" THEN "T" ELSE IF \E i \in 1..Len(xs) : xs[i] = "U" THEN "U" ELSE "F"

CmpOps == {"eq", "lt", "le", "gt", "ge"}

(* Functions of constants only: whether their results count as constants is left open *)
RECURSIVE Fieldless(_)
Fieldless(e) == CASE e.o = "f" -> FALSE [] e.o = "fn" -> \A i \in 1..Len(e.a) : Fieldless(e.a[i]) [] OTHER -> TRUE
ConstFn(e) == e.o = "fn" /\ Fieldless(e)

(* A comparison that is executed: outcome and validity *)
CmpRes(e, env) ==
  LET a == Val(e.l, env)
      b == Val(e.r, env)
      r == Compare(a, b, IsConst(e.l), IsConst(e.r))
  IN IF ConstFn(e.l) \/ ConstFn(e.r)
     THEN LET r2 == Compare(a, b, IsConst(e.l) \/ ConstFn(e.l), IsConst(e.r) \/ ConstFn(e.r))
          IN [o |-> IF r.o = r2.o THEN r.o ELSE 9, ok |-> IF r.ok = r2.ok THEN r.ok ELSE "u"]
     ELSE r

(* ---- evaluation ---- *)
(* x: the value; may: some comparison which an evaluation may execute may be invalid; must: some comparison is invalid   *)
(* and has to be executed, because the outcome hinges on it alone.  The status flag tells whether an invalid one was      *)
(* executed.  left: the outcome of some comparison of known values is left open.                                          *)
Plain(x) == [x |-> x, may |-> FALSE, must |-> FALSE, left |-> FALSE]
NotKnown == [x |-> "U", may |-> TRUE, must |-> FALSE, left |-> FALSE]
SomeLeft(rs) == \E i \in 1..Len(rs) : rs[i].left
NotR(r) == [r EXCEPT !.x = Not3(r.x)]

AllR(rs) ==     \* conjunction
  LET Others(i, x) == \A j \in 1..Len(rs) : j # i => rs[j].x = x
  IN [x |-> And3([i \in 1..Len(rs) |-> rs[i].x]),
      may |-> \E i \in 1..Len(rs) : rs[i].may,
      must |-> \E i \in 1..Len(rs) : rs[i].must /\ Others(i, "T"), left |-> SomeLeft(rs)]
SomeR(rs) ==    \* disjunction
  LET Others(i, x) == \A j \in 1..Len(rs) : j # i => rs[j].x = x
  IN [x |-> Or3([i \in 1..Len(rs) |-> rs[i].x]),
      may |-> \E i \in 1..Len(rs) : rs[i].may,
      must |-> \E i \in 1..Len(rs) : rs[i].must /\ Others(i, "F"), left |-> SomeLeft(rs)]

CompareR(op, e, env) ==
  IF HasMissing(e.l, env) \/ HasMissing(e.r, env) THEN Plain("F")
  ELSE IF HasCut(e.l, env) \/ HasCut(e.r, env) THEN NotKnown
  ELSE LET r == CmpRes(e, env)
       IN [x |-> OpRes(op, r), may |-> r.ok # "y", must |-> r.ok = "n", left |-> OpRes(op, r) = "U"]

LikeR(e, env) ==
  IF HasMissing(e.l, env) THEN Plain("F")
  ELSE LET v == Val(e.l, env)
       IN IF v.t \in {"cut", "unk"} THEN [NotKnown EXCEPT !.left = v.t = "unk"]
          ELSE IF v.t # "str" THEN [x |-> "F", may |-> TRUE, must |-> TRUE, left |-> FALSE]
          ELSE Plain(IF Contains(e.r.r, v.c) THEN "T" ELSE "F")

ExistsR(e, env) ==
  LET v == Val(e.l, env)
  IN Plain(IF v.t = "miss" THEN "F" ELSE IF v.t = "cut" /\ "absent" \in DOMAIN v THEN "U" ELSE "T")

RECURSIVE Ev(_, _)
Ev(e, env) ==
  CASE e.o = "true" -> Plain("T")
    [] e.o = "false" -> Plain("F")
    [] e.o = "not" -> NotR(Ev(e.e, env))
    [] e.o = "and" -> AllR(TLCEval([i \in 1..Len(e.e) |-> Ev(e.e[i], env)]))
    [] e.o = "or" -> SomeR(TLCEval([i \in 1..Len(e.e) |-> Ev(e.e[i], env)]))
    [] e.o \in CmpOps -> CompareR(e.o, e, env)
    [] e.o = "ne" -> NotR(CompareR("eq", e, env))
    [] e.o = "like" -> LikeR(e, env)
    [] e.o = "ex" -> ExistsR(e, env)
    [] e.o = "nex" -> NotR(ExistsR(e, env))
    [] e.o \in {"any", "every", "anyevery"} ->
         LET a == Val(e.l, env)
         IN IF a.t = "cut" THEN NotKnown
            ELSE IF a.t # "arr" THEN Plain("F")
            ELSE LET xs == TLCEval([i \in 1..Len(a.e) |-> Ev(e.b, Append(env, [v |-> e.v, x |-> a.e[i]]))])
                     ys == IF Open(a) THEN Append(xs, NotKnown) ELSE xs
                 IN IF e.o = "any" THEN SomeR(ys)
                    ELSE IF e.o = "anyevery" /\ ys = <<>> THEN Plain("F") ELSE AllR(ys)

Eval(e, env) == Ev(e, env).x
Meaning(e, doc) == Eval(e, RootEnv(doc))
Full(e, doc) == Ev(e, RootEnv(doc))

(* The status flags which matching the expressions can give; rs: what Full gives for each of them *)
Statuses(rs) ==
  IF \A i \in DOMAIN rs : ~rs[i].may THEN {0}
  ELSE IF \E i \in DOMAIN rs : rs[i].must THEN {1}
  ELSE {0, 1}

Verdicts(x) == IF x = "U" THEN {"T", "F"} ELSE {x}
=============================================================================
