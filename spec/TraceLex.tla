------------------------------ MODULE TraceLex ------------------------------
(* Trace validation of the tokenizer: texts with the tokens that were returned                                          *)
EXTENDS Lex, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VERIF_LOG)
Ok(x) == LET e == Tokens(x.b)
         IN /\ Len(x.toks) = Len(e)
            /\ \A i \in DOMAIN e : x.toks[i] = <<e[i].t, e[i].s, e[i].n>>
            /\ x.flags
Bad(ev) == {i \in DOMAIN ev.texts : ~Ok(ev.texts[i])}
Bump(k, n) == TLCSet(k, TLCGet(k) + n)
VARIABLE l
Init == l = 1 /\ TLCSet(1, 0) /\ TLCSet(2, 0)
Next == /\ l <= Len(Log)
        /\ LET ev == Log[l] b == Bad(ev)
           IN /\ b # {} => PrintT(<<"REJECT", ev.id, b>>)
              /\ Bump(1, Len(ev.texts))
              /\ Bump(2, Cardinality({i \in DOMAIN ev.texts : ev.texts[i].toks[Len(ev.texts[i].toks)][1] = "error"}))
        /\ l = Len(Log) => PrintT(<<"STAT", "texts", TLCGet(1)>>) /\ PrintT(<<"STAT", "with_errors", TLCGet(2)>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
