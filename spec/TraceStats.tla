----------------------------- MODULE TraceStats -----------------------------
(* Statistics of expressions (ExpressionStats).  The state is what has been counted; Scan(e) is the only transition.     *)
(* Left open: whether dates and regular expressions count as values, and whether the loops which are nested more than    *)
(* once count as nested ones again.                                                                                      *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VERIF_LOG)

Loops == {"any", "every", "anyevery"}
None == [loops |-> 0, nested1 |-> 0, nested |-> 0, depth |-> 0, ands |-> 0, ors |-> 0, fields |-> 0, values |-> 0, other |-> 0]
Max(a, b) == IF a > b THEN a ELSE b
Plus(a, b) == [k \in DOMAIN None |-> IF k = "depth" THEN Max(a[k], b[k]) ELSE a[k] + b[k]]

(* the parts of an expression, and how many loops more are around them *)
Parts(e) ==
  CASE e.o \in {"and", "or"} -> [i \in DOMAIN e.e |-> <<e.e[i], 0>>]
    [] e.o = "not" -> <<<<e.e, 0>>>>
    [] e.o \in Loops -> <<<<e.l, 0>>, <<e.b, 1>>>>
    [] e.o \in {"ex", "nex"} -> <<<<e.l, 0>>>>
    [] e.o = "fn" -> [i \in DOMAIN e.a |-> <<e.a[i], 0>>]
    [] e.o \in {"true", "false", "f", "v", "time", "re"} -> <<>>
    [] OTHER -> <<<<e.l, 0>>, <<e.r, 0>>>>

Here(e, d) ==
  LET n(b) == IF b THEN 1 ELSE 0
  IN [loops |-> n(e.o \in Loops), nested1 |-> n(e.o \in Loops /\ d = 1), nested |-> n(e.o \in Loops /\ d >= 1), depth |-> d,
      ands |-> n(e.o = "and"), ors |-> n(e.o = "or"), fields |-> n(e.o = "f"), values |-> n(e.o = "v"), other |-> n(e.o \in {"time", "re"})]

RECURSIVE Count(_, _), Sum(_, _, _)
Sum(ps, i, d) == IF i > Len(ps) THEN None ELSE TLCEval(Plus(Count(ps[i][1], d + ps[i][2]), Sum(ps, i + 1, d)))
Count(e, d) == Plus(Here(e, d), Sum(Parts(e), 1, d))
Scan(s, e) == TLCEval(Plus(s, Count(e, 0)))

Fits(s, o) ==
  /\ o.loops = s.loops /\ o.depth = s.depth /\ o.ands = s.ands /\ o.ors = s.ors /\ o.fields = s.fields
  /\ o.nested >= s.nested1 /\ o.nested <= s.nested
  /\ o.values >= s.values /\ o.values <= s.values + s.other

RECURSIVE Bad(_, _, _)
Bad(ev, s, i) == IF i > Len(ev.es) THEN {}
                 ELSE LET t == Scan(s, ev.es[i]) IN (IF i > Len(ev.obs) \/ ~Fits(t, ev.obs[i]) THEN {i} ELSE {}) \cup Bad(ev, t, i + 1)
Ok(ev) == ev.v = "ok" /\ ev.same

VARIABLE l
Bump(k, n) == TLCSet(k, TLCGet(k) + n)
Init == l = 1 /\ TLCSet(1, 0)
Next == /\ l <= Len(Log)
        /\ LET ev == Log[l] b == TLCEval(Bad(ev, None, 1))
           IN /\ (~Ok(ev) \/ b # {}) => PrintT(<<"REJECT", ev.id, b \cup {0}>>)
              /\ Bump(1, Len(ev.es))
        /\ l = Len(Log) => PrintT(<<"STAT", "scans", TLCGet(1)>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
