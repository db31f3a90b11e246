---------------------------- MODULE TraceComposer ----------------------------
(* Trace validation of MatchAndRemoveItemsFromJsonObject                                                                 *)
EXTENDS Composer, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VERIF_LOG)

RECURSIVE Trim(_)
Trim(x) == IF x # <<>> /\ x[1] \in White THEN Trim(Tail(x)) ELSE x
TokenTexts(x) == LET ts == Tokens(x) IN [i \in 1..(Len(ts) - 1) |-> Text(x, ts[i])]

OkSource(ev, s) ==
  LET keys == {ev.keys[i] : i \in DOMAIN ev.keys}
      kept == Keep(ev.b, s.ts, s.v, keys)
      want == Texts(ev.b, s.ts, kept)
      need == Len(Flatten(want))
      taken == Taken(ev.b, s.ts, s.v, keys)
  IN IF ev.size < need THEN ev.v = "E"
     ELSE /\ ev.v = "ok"
          /\ ev.n >= need
          /\ ev.mode # "nil" => TokenTexts(ev.out) = want
          /\ ev.cnt = Len(taken)
          /\ ev.left = (kept.c # <<>>)
          /\ ev.mode # "nomap" =>
               /\ ev.extra = 0
               /\ {ev.removed[i].k : i \in DOMAIN ev.removed} = {taken[i].key : i \in DOMAIN taken}
               /\ \A i \in DOMAIN ev.removed : \E j \in DOMAIN taken :
                    taken[j].key = ev.removed[i].k /\ Trim(ev.removed[i].v) = Span(ev.b, s.ts, taken[j].a, taken[j].z)
Ok(ev) == LET s == TLCEval(Source(ev.b))
          IN /\ ev.intact /\ ev.again
             /\ CASE s.c = "ok" -> OkSource(ev, s)
                  [] s.c = "bad" -> ev.v = "E"
                  [] OTHER -> ev.v \in {"ok", "E"}
VARIABLE l
Bump(k) == TLCSet(k, TLCGet(k) + 1)
Init == l = 1 /\ TLCSet(1, 0) /\ TLCSet(2, 0) /\ TLCSet(3, 0)
Next == /\ l <= Len(Log)
        /\ LET ev == Log[l]
           IN /\ ~Ok(ev) => PrintT(<<"REJECT", ev.id, {0}>>)
              /\ Bump(CASE Source(ev.b).c = "ok" -> 1 [] Source(ev.b).c = "bad" -> 2 [] OTHER -> 3)
        /\ l = Len(Log) => (/\ PrintT(<<"STAT", "objects", TLCGet(1)>>) /\ PrintT(<<"STAT", "no_objects", TLCGet(2)>>)
                            /\ PrintT(<<"STAT", "left_open", TLCGet(3)>>))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
