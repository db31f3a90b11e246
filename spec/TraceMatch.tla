----------------------------- MODULE TraceMatch ----------------------------
(* Trace validation: the events recorded from the library, each an action of the specification whose observed outcome   *)
(* has to be one the specification allows.  One state per event.                                                        *)
EXTENDS Slow, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.VERIF_LOG)

Fulls(es, doc) == TLCEval([i \in 1..Len(es) |-> Full(es[i], doc)])
Xs(rs) == [i \in DOMAIN rs |-> rs[i].x]

(* A document which is cut off or malformed after the part that is given: an error, or the verdict which is known *)
Cut(doc) == "cutdoc" \in DOMAIN doc

(* One matched document: r = [v, st, x] *)
FullOk(es, r, fs) ==
  /\ r.v \in Verdicts(Or3(Xs(fs)))
  /\ Len(r.x) \in {0, Len(es)}
  /\ \A i \in 1..Len(r.x) : r.x[i] \in Verdicts(fs[i].x)
  /\ Len(r.x) > 0 => (r.v = "T") = (\E i \in 1..Len(r.x) : r.x[i] = "T")
  /\ r.st \in Statuses(fs)
CutOk(es, r, fs) ==
  \/ r.v = "E"
  \/ SomeLeft(fs) /\ r.v \in {"T", "F"}
  \/ /\ r.v = Or3(Xs(fs))
     /\ \A i \in 1..Len(r.x) : r.x[i] = fs[i].x \/ (fs[i].x = "U" /\ r.x[i] = "F")
(* Tokens out of place within a nested value are only noticed where the expression leads into it *)
Loose(doc) == "loose" \in DOMAIN doc
MatchOk(es, doc, r, fs) == IF Loose(doc) THEN r.v \in {"T", "F", "E"}
                           ELSE IF Cut(doc) THEN CutOk(es, r, fs) ELSE FullOk(es, r, fs)

Has(ev, k) == k \in DOMAIN ev

(* How each document is to be judged: whether the outcome is allowed, and the meaning *)
Judge(ev) == TLCEval([i \in 1..Len(ev.docs) |->
  LET fs == Fulls(ev.es, ev.docs[i])
      Good(r) == MatchOk(ev.es, ev.docs[i], r, fs)
  IN [ok |-> CASE Has(ev, "seen") -> Len(ev.seen[i]) = 1 /\ Good(ev.seen[i][1])     \* by several matchers side by side
                 [] Has(ev, "slow") -> Good(ev.r[i]) /\ SlowOk(ev.es, ev.docs[i], ev.slow[i])             \* by the slow matcher too
                 [] Has(ev, "fresh") -> ev.fresh[i] = ev.r[i] /\ Good(ev.r[i])       \* by a matcher which was reset and a new one
                 [] OTHER -> Good(ev.r[i]),
      m |-> Or3(Xs(fs))]])

(* Texts of the same value have the same outcome even where it is left open *)
SameOk(ev) == Has(ev, "same") => \A i \in 2..Len(ev.r) : ev.r[i].v = ev.r[1].v /\ ev.r[i].x = ev.r[1].x

(* Everything else which the event asserts (the definition or expression did not change, ...) *)
Asserts(ev) == Has(ev, "asserts") => \A i \in 1..Len(ev.asserts) : ev.asserts[i]
Ran(ev) == ev.c = "ok" /\ Len(IF Has(ev, "seen") THEN ev.seen ELSE ev.r) = Len(ev.docs)
Bad(ev, j) == IF ~Ran(ev) \/ ~Asserts(ev) \/ ~SameOk(ev) THEN {0} ELSE {i \in DOMAIN j : ~j[i].ok}
Count(j, x) == Cardinality({i \in DOMAIN j : j[i].m = x})

Bump(k, n) == TLCSet(k, TLCGet(k) + n)

VARIABLE l
Init == /\ l = 1
        /\ \A k \in 1..3 : TLCSet(k, 0)
Next == /\ l <= Len(Log)
        /\ LET ev == Log[l]
               j  == IF Ran(ev) THEN Judge(ev) ELSE <<>>
               b  == Bad(ev, j)
           IN /\ b # {} => PrintT(<<"REJECT", ev.id, b>>)
              /\ Bump(1, Count(j, "T")) /\ Bump(2, Count(j, "F")) /\ Bump(3, Count(j, "U"))
        /\ l = Len(Log) => (/\ PrintT(<<"STAT", "required_true", TLCGet(1)>>)
                            /\ PrintT(<<"STAT", "required_false", TLCGet(2)>>)
                            /\ PrintT(<<"STAT", "left_open", TLCGet(3)>>))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
