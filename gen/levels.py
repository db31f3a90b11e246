import json
T="trace validation (TLC) of the library's behaviour against the TLA+ specification: %s"
L={
"C01":("Sem.tla/Values.tla, recursive meaning of expressions","random expressions with documents that make their operators true and false, and all small operator trees over shared fields"),
"C02":("Sem.tla; all texts of one value are one document of the specification","random expressions; each document printed in several orders, spellings, with irrelevant members"),
"C03":("Sem.tla, quantifiers","random nested loops, and all small loops over all small arrays"),
"C04":("BinTree.tla, the evaluation tree as a state machine (model-checked), every transition of small trees replayed","all small trees and schedules of values, and documents in every member order"),
"C06":("Conc.tla, interleavings of matchers sharing an expression (model-checked with its sharing refuted), Sem.tla for the results","matchers of one expression used by many goroutines under the race detector"),
"C15":("Lex.tla, lexical grammar equal to its automaton (model-checked)","texts reaching every transition of the automaton with every distinguishing suffix, and random texts, cut everywhere"),
"C17":("Composer.tla, requirement on trees and the token algorithm (model-checked against each other)","all small objects and removal sets of the model, and random objects"),
"C18":("Composer.tla, sizes of the destination and well-formedness","every size of the destination, cut and mutated sources"),
"C05":("TraceMatch.tla, histories of one matcher","random histories with matching, decided early, cut and malformed documents; reused and fresh matcher must both be as specified and equal"),
"C07":("TraceMatch.tla, expression lists","random lists and all pairs of a pool of small expressions"),
"C08":("TraceOrder.tla, order axioms over the observed comparisons, and Values.tla","triples of values compared in all ways"),
"C09":("Values.tla, conversions, collation and status","all pairs of a table of values of every type, field/constant and field/field"),
"C10":("Num.tla, exact integers and rationals","numbers around the limits of every representation, all pairs"),
"C11":("Funcs.tla and MathTable.tla","random nested function expressions compared with nearby constants"),
"C12":("Sem.tla, presence","all small paths over documents with each type of value at each place"),
"C13":("Sem.tla, paths","random sets of paths sharing prefixes over documents with decoys"),
"C14":("Sem.tla with the decoded strings","strings with all kinds of escapes in keys and values"),
"C16":("TraceMatch.tla, Kleene meaning of cut documents","every cut of random documents, mutations, token soup"),
"C19":("FilterLang.tla, the documented grammar as sets of parses","random filter expressions and connectives; verdicts of filter expressions on documents against Sem.tla"),
"C20":("FilterLang.tla/FilterLex.tla, texts without a parse","mutated filter expressions, regular expressions and dates, all short sequences of tokens"),
"C21":("SimpleLang.tla, lexemes and left to right grouping","random, mutated and all short simple expressions; their verdicts on documents against Sem.tla"),
"C22":("JsonText.tla (RFC 8259) and JsonLang.tla","random and mutated forms, all small forms; verdicts of JSON expressions against Sem.tla"),
"C23":("Regex.tla, membership by derivatives of positions","random regular expressions with samples of their language"),
"C24":("Dates.tla, texts to points in time","random pairs of date texts in all forms"),
"C25":("TraceMatch.tla","random lists compiled repeatedly with the same and new transformers"),
"C26":("Sem.tla, meaning before and after compaction","random expressions with constants and all small ones"),
"C27":("Slow.tla and Sem.tla; each matcher validated against its own specification","random expressions of the operators both matchers have, on values they support and others, and cut documents"),
"C28":("TraceStats.tla, the counts as a state machine over scans","random expressions and histories of scans, all forms within each other, large expressions"),
}
json.dump({k:{"technique":T%v[0],"note":v[1]+"; bounded exploration, every recorded event is decided by TLC"} for k,v in L.items()},open("/verif/gen/levels.json","w"),indent=1)
