------------------------------ MODULE LangTrace ------------------------------
(* Validation of what a parser gave for texts, against a judgement [c: class, must, may] of each text                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VERIF_LOG)

RECURSIVE Same(_, _)
Same(x, y) ==       \* y: of the specification
  \/ y.o = "any"
  \/ /\ Len(x.s) = Len(y.s) \/ (y.o = "re" /\ y.s # <<>>)
     /\ \/ x.o = y.o /\ (x.c = y.c \/ (y.o = "re" /\ y.s # <<>>))
        \/ x.o = "num" /\ y.o = "anynum"
     /\ \A i \in DOMAIN x.s : Same(x.s[i], y.s[i])
Among(e, S) == \E y \in S : Same(e, y)

(* "known": what the findings list *)
Verdict(ev, j) ==
  CASE j.c = "open" -> IF ev.p \in {"ok", "E"} THEN "ok" ELSE "bad"
    [] j.c = "no" -> IF ev.p = "E" THEN "ok" ELSE "bad"
    [] j.c = "yes" -> IF ev.p = "ok" /\ Among(ev.e, j.must) THEN "ok" ELSE "bad"
    [] j.c = "either" -> IF ev.p = "E" \/ (ev.p = "ok" /\ Among(ev.e, j.may)) THEN "ok" ELSE "bad"
    [] j.c = "quoted" ->
         IF j.must # {} THEN (IF ev.p = "ok" /\ Among(ev.e, j.must) THEN "ok" ELSE IF ev.p = "E" \/ (ev.p = "ok" /\ Among(ev.e, j.may)) THEN "known" ELSE "bad")
         ELSE IF ev.p = "E" THEN "ok" ELSE IF ev.p = "ok" /\ Among(ev.e, j.may) THEN "known" ELSE "bad"
Class(j) == CASE j.c = "yes" -> 1 [] j.c = "no" -> 2 [] OTHER -> 3
VARIABLE l
Bump(k) == TLCSet(k, TLCGet(k) + 1)
LangInit == l = 1 /\ \A k \in 1..4 : TLCSet(k, 0)
(* J: the judgement of a text; N: the normal form of the expression given *)
LangNext(J(_), N(_)) ==
        /\ l <= Len(Log)
        /\ LET ev == Log[l]
               j == TLCEval(J(ev.t))
               v == Verdict([ev EXCEPT !.e = N(ev.e)], j)
           IN /\ v = "bad" => PrintT(<<"REJECT", ev.id, {0}, j.c>>)
              /\ v = "known" => Bump(4)
              /\ Bump(Class(j))
        /\ l = Len(Log) => (/\ PrintT(<<"STAT", "accepted", TLCGet(1)>>) /\ PrintT(<<"STAT", "rejected", TLCGet(2)>>)
                            /\ PrintT(<<"STAT", "left_open", TLCGet(3)>>) /\ PrintT(<<"STAT", "known_findings", TLCGet(4)>>))
        /\ l' = l + 1
=============================================================================
