-------------------------------- MODULE Slow --------------------------------
(* What the slow matcher may give.  It decodes the document and evaluates the expression directly.  It has fewer types   *)
(* and fewer operators than the fast one: what it does not support it has to report as an error, it never guesses.       *)
(* The outcomes are sets: "T", "F", "E" (error).  The order in which operands are evaluated is left open.                *)
EXTENDS Sem

All3 == {"T", "F", "E"}

(* names lead through objects only; a name which an object lacks gives a hole, whose meaning is left open *)
RECURSIVE Walk(_, _, _)
Walk(v, p, i) ==
  IF i > Len(p) THEN v
  ELSE IF v.t # "obj" THEN [t |-> "bad"]
  ELSE LET c == Child(v, p[i])
       IN IF c.t = "miss" THEN (IF i = Len(p) THEN [t |-> "hole"] ELSE [t |-> "bad"]) ELSE Walk(c, p, i + 1)
SlowVal(e, env) == IF e.o = "f" THEN Walk(Var(env, e.v), e.p, 1) ELSE Val(e, env)

(* A number of the document is a double here: only those are taken for granted which a double has *)
DblExact(v) == Cmp(Abs(v), Two53) <= 0
Supported(e, f, a, b) ==
  \/ a.t \in {"str", "bool", "null"} /\ b.t = a.t
  \/ a.t = "num" /\ b.t = "num" /\ (IsConst(e) => a.k = "f") /\ (IsConst(f) => b.k = "f")
Comparable(a, b) == a.t = "num" => /\ (a.k = "f" \/ DblExact(a)) /\ (b.k = "f" \/ DblExact(b))
                                   /\ (Cmp(a, b) = 0 \/ FloatCmp(a, b) \notin {0, 9})

SlowCmp(e, env) ==
  LET a == SlowVal(e.l, env)
      b == SlowVal(e.r, env)
  IN IF "bad" \in {a.t, b.t} THEN {"E"} \cup Verdicts(Eval(e, env))
     ELSE IF "hole" \in {a.t, b.t} THEN All3
     ELSE IF Supported(e.l, e.r, a, b) THEN (IF Comparable(a, b) THEN Verdicts(Eval(e, env)) ELSE {"T", "F"})
     ELSE {"E"} \cup Verdicts(Eval(e, env))

AndS(ss) == {x \in All3 : IF x = "T" THEN \A i \in DOMAIN ss : "T" \in ss[i] ELSE \E i \in DOMAIN ss : x \in ss[i]}
OrS(ss)  == {x \in All3 : IF x = "F" THEN \A i \in DOMAIN ss : "F" \in ss[i] ELSE \E i \in DOMAIN ss : x \in ss[i]}

RECURSIVE SlowSet(_, _)
SlowSet(e, env) ==
  CASE e.o = "true" -> {"T"}
    [] e.o = "false" -> {"F"}
    [] e.o = "and" -> AndS(TLCEval([i \in 1..Len(e.e) |-> SlowSet(e.e[i], env)]))
    [] e.o = "or" -> OrS(TLCEval([i \in 1..Len(e.e) |-> SlowSet(e.e[i], env)]))
    [] e.o = "any" ->
         LET a == SlowVal(e.l, env)
         IN IF a.t = "arr" THEN OrS(TLCEval([i \in 1..Len(a.e) |-> SlowSet(e.b, Append(env, [v |-> e.v, x |-> a.e[i]]))]))
            ELSE IF a.t = "obj" THEN All3              \* it takes the members for elements
            ELSE {"F", "E"}
    [] OTHER -> SlowCmp(e, env)

(* A document which is cut off is no JSON: it cannot be decoded.  Otherwise the result is one the expression may give, and  *)
(* what it says of several of them together is left open unless they agree.                                                  *)
SlowOk(es, doc, r) ==
  IF "cutdoc" \in DOMAIN doc THEN r.v = "E"
  ELSE LET ss == TLCEval([i \in 1..Len(es) |-> SlowSet(es[i], RootEnv(doc))])
       IN IF r.v = "E" THEN \E i \in DOMAIN ss : "E" \in ss[i]
          ELSE /\ r.v \in {"T", "F"} /\ Len(r.x) = Len(es)
               /\ \A i \in DOMAIN ss : r.x[i] \in ss[i]
               /\ (\A i \in 1..Len(r.x) : r.x[i] = r.v) \/ \E i, j \in 1..Len(r.x) : r.x[i] # r.x[j]
=============================================================================
