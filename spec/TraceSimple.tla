----------------------------- MODULE TraceSimple -----------------------------
(* Trace validation of parsed simple expressions                                                                        *)
EXTENDS SimpleLang, LangTrace
Init == LangInit
Next == LangNext(Judged, Flat)
Spec == Init /\ [][Next]_l
=============================================================================
