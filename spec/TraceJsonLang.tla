---------------------------- MODULE TraceJsonLang ----------------------------
(* Trace validation of parsed JSON expressions: ev = [t: the text, p: "ok", "E", ..., e: the expression given]           *)
EXTENDS JsonLang, LangTrace
Init == LangInit
Next == LangNext(JudgedJson, LAMBDA e : e)
Spec == Init /\ [][Next]_l
=============================================================================
