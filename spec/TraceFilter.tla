----------------------------- MODULE TraceFilter -----------------------------
(* Trace validation of parsed filter expressions: ev = [t: the text, p: "ok", "E", ..., e: the expression given]         *)
EXTENDS FilterLang, LangTrace
Init == LangInit
Next == LangNext(Judged, LAMBDA e : e)
Spec == Init /\ [][Next]_l
=============================================================================
