import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
M="NewFastMatcher + Match / MatchWithStatus"
p("C01","A match verdict is the meaning of the expression on the document",
 "For every compilable expression and every well-formed JSON document, matching succeeds without error and its verdict equals the recursive meaning of the expression on the document's value: AND, OR and NOT are the Boolean connectives, TRUE and FALSE the constants, a comparison which refers to a missing field is false (so its negated form, != included, is true), and everything else is the operator applied to the values found at the field paths. This holds whatever fields the operators share (the same field in several places, a field and its own sub-fields, fields compared with each other, fields of different objects) and wherever in the document the verdict becomes known.",
 ["programs","inputs"],"every expression tree over the supported operators, every document",
 "The tests match some forty hand-picked expressions against one generated data set; how the operators of an expression share the nodes, slots, after-nodes and early exits of the compiled matcher is a combinatorial space they do not sample.",
 ["fastMatcher.go","transform.go","bintree.go","fastMatcherDef.go","expression_utils.go"],
 [("Transformer: exec tree, slots, after nodes, buckets","transform.go"),("single-pass execution","fastMatcher.go: matchExec/matchOp/matchAfter"),("binary tree resolution","bintree.go")],[M])
p("C02","The verdict depends only on the value of the document",
 "Two texts of the same JSON value get the same verdict: the order of an object's members, white space between tokens, members and elements which the expression does not refer to (of any type, size and nesting, with any strings inside), and the spelling of keys and strings with or without escape sequences do not matter. Numbers which are spelled differently but have the same value and kind behave the same as well. (Arrays and objects which are compared with each other as a whole, field against field, are compared as the texts they have.)",
 ["inputs"],"every document, every permutation of members, every placement of white space and irrelevant members, every escape spelling",
 "The test documents are all printed by one serializer (one member order, no white space, hardly any escapes), so dependence on layout cannot show.",
 ["fastMatcher.go","jsontokenizer.go","fastlitparse.go","fastlitescape.go"],
 [("skipping of irrelevant values","fastMatcher.go: skipValue/leaveValue"),("key decoding","fastMatcher.go: matchObjectOrArray"),("stored values and After nodes make the order of members irrelevant","fastMatcher.go: matchAfter")],[M])
p("C03","ANY, EVERY and ANY AND EVERY quantify over the elements of the array",
 "ANY v IN a is true exactly if the body holds for some element, EVERY if a is an array and the body holds for all elements (true if it is empty), ANY AND EVERY if a is a non-empty array and the body holds for all elements; each of them is false if a is missing or not an array. Bodies may contain any expression, negations, sub-fields missing from some elements, and further loops over fields of the element, of an outer element or of the document, and no element's evaluation affects that of another one or of the rest of the expression.",
 ["programs","inputs"],"every nesting of loops and bodies, every array content (empty, mixed types, elements missing fields)",
 "Seven tests use loops, over one data set in which all elements have the same shape; iteration isolation and nesting depth are not varied.",
 ["fastMatcher.go","transform.go","bintree.go"],
 [("stall index, node reset and resolution per iteration","fastMatcher.go: matchLoop, bintree.go: SetStallIndex/ResetNode/ResolveNode"),("slots are cleared per iteration","fastMatcher.go: resetSlots"),("loop contexts","transform.go: transformLoop")],[M])
p("C04","Incremental resolution of the operator tree is sound, final and complete",
 "While results of leaves arrive in any order, a node of the binary operator tree is true or false only if its value follows from the results so far whatever the outstanding ones are, it never changes afterwards, and nodes below a decided node need no further results. When everything outstanding is resolved at the end, the root has the Boolean value of the tree with the outstanding leaves and loops being false, and resetting a node forgets exactly the results of its own subtree.",
 ["histories","programs"],"every well-formed tree, every order of marking leaves, with stalls and resets in between",
 "The existing test marks one tree in a few orders; the orders are factorially many and interact with NOT, the multi-expression node, stalls and resets.",
 ["bintree.go"],[("upward checking and downward resolution","bintree.go: MarkNode/checkNode/resolveRecursive"),("final resolution","bintree.go: Resolve/ResolveNode"),("stall index","bintree.go: SetStallIndex")],["binTreeState after every MarkNode/Resolve/ResetNode"])
p("C05","A matcher which was reset behaves like a new one",
 "After Reset a matcher gives for every document the same verdict, status flags, error and per-expression results as a matcher newly created from the same definition, whatever it matched before: documents which matched or not, were decided early, were malformed or cut off in the middle of a value or loop, or made a comparison fall back to collation. Creating and using matchers does not change the compiled definition.",
 ["histories"],"every sequence of documents matched by one matcher with Reset in between",
 "One test resets a matcher, always after a complete well-formed document and always looks at the verdict only.",
 ["fastMatcher.go","bintree.go"],[("slots, buckets, stall index and status are cleared","fastMatcher.go: Reset, bintree.go: Reset")],["Reset + MatchWithStatus + ExpressionMatched"])
p("C06","Matchers sharing a definition can run concurrently",
 "Matchers which were created from the same definition and run in different goroutines on any documents give the same verdicts and status flags as if each ran alone, and so do concurrent compilations and parses of expressions. No data is shared between them in a way the race detector or the results could reveal.",
 ["schedules"],"every interleaving of matchers running concurrently",
 "No test runs two matchers at the same time.",
 ["fastMatcher.go","fastval.go","fastlitparse.go","constants.go","filterExprParser.go"],[("all match-time state is per matcher","fastMatcher.go: FastMatcher"),("number formatting buffers are private","fastval.go: toJsonStringInternal")],["MatchWithStatus in goroutines"])
p("C07","Several expressions compiled together keep their own results",
 "When a list of expressions is compiled into one definition, after matching a document each expression's own result equals what a matcher for that expression alone reports, and the overall verdict is true exactly if at least one of them is true. This includes expressions which are constants, equal to each other, or refer to the same fields, in any order and number.",
 ["programs","inputs"],"every list of expressions, every document",
 "No test compiles more than one expression into a definition and looks at the individual results.",
 ["transform.go","fastMatcher.go","bintree.go"],[("NEOR nodes do not resolve early","bintree.go: checkNode"),("bucket per expression","transform.go: transformMerge, fastMatcher.go: ExpressionMatched")],["ExpressionMatched, Match"])
p("C08","Comparison operators are consistent with one another",
 "For any two present values exactly one of a < b, a = b (or neither being comparable) and a > b orders them: <= is not >, >= is not <, != is not =, = implies <= and >=, and exchanging the operands of a comparison of two fields or of a field and a constant mirrors its outcome. Within values of one kind (numbers of any representation, strings, times, booleans) the order is total and transitive (numbers up to the documented float tolerance of 1e-7). (Two arrays or objects are compared as the texts they have.)",
 ["inputs"],"every pair and triple of values and every comparison operator",
 "The tests compare a handful of values of the same type, never the same pair with all operators and in both directions.",
 ["fastval.go","fastMatcher.go","transform.go"],[("three-way comparison","fastval.go: Compare/compareUserDefined/reverseCompare"),("operators from the three-way result","fastMatcher.go: matchOp")],[M,"FastVal.Compare"])
p("C09","Comparisons across types follow the documented conversions and collation",
 "Against a constant the document's value is converted to the constant's type where that is possible (integer strings to integer constants, date strings to DATE constants, numbers to string constants as their text, booleans and numbers by 0/1 and truthiness; null constants are below everything else), two fields are converted to the more restrictive type first, and otherwise values order by type: missing, null, false, true, numbers, strings, times, arrays, objects, binary. Exactly the comparisons which had to be decided by type order, or on an invalid value, are never equal and set the collate status flag, and executing no such comparison leaves the flag unset.",
 ["inputs"],"every pair of types and values, as constant and field in both positions",
 "The tests look at some conversions and three collate cases; the table of type pairs, positions and convertible values is not enumerated.",
 ["fastval.go","constants.go","transform.go"],[("implicit conversion table","fastval.go: ImplicitConvTable/checkCompatibility"),("collation order","fastval.go: ValueType constants, Collate"),("status flag","fastMatcher.go: matchOp/MatchWithStatus")],["MatchWithStatus"])
p("C10","Numbers compare by their mathematical value",
 "Numbers of the document and constants compare by value over the whole signed and unsigned 64 bit range, independent of whether either side is a signed integer, an unsigned integer or a float and of how the number is spelled (sign, fraction, exponent, minus zero). Only differences a double cannot represent, or below 1e-7 when a float is involved, may be disregarded.",
 ["inputs"],"every pair of numbers with every representation and spelling",
 "Existing tests use small integers and a few floats; the ends of the ranges and mixed representations do not occur.",
 ["fastval.go","fastlitparse.go","jsontokenizer.go"],[("numeric comparison by representation","fastval.go: compareNumerics"),("literal parsing","fastlitparse.go: ParseInt/parseBigInt/ParseNumber")],[M,"FastVal.Compare"])
p("C11","Arithmetic and math functions compute the documented values",
 "Function results are compared as if computed by hand: + - * / %, negation, ABS, CEIL, FLOOR, ROUND, SQRT, POW and so on give the exact integer result for integers (division truncates) where operands and result fit the same 64 bit type, and the floating point result when an operand is a float or the function is not an integer one, for any nesting and any mix of constants and fields. Invalid arithmetic (a non-numeric operand, integer division or modulo by zero, % on floats) never panics and never equals anything, and a function applied to a missing field makes the comparison false.",
 ["inputs","programs"],"every function, nesting and argument (integers, floats, non-numbers, missing)",
 "The tests evaluate a few functions on a few values and only through equality with precomputed constants.",
 ["fastval_math.go","fastMatcher.go","transform.go"],[("math dispatch per representation","fastval_math.go"),("function resolution","fastMatcher.go: resolveFunc/hasEmptySlot")],[M,"FastValMath*"])
p("C12","EXISTS, IS MISSING and NULL tests tell presence, null and absence apart",
 "EXISTS holds exactly if the path leads to a value of any type, null, false, 0 and empty strings, objects and arrays included, IS MISSING is its negation, = NULL holds exactly if the value is present and null, and every other comparison with NULL treats null as below all other values. Going through a scalar, through an object with an index or through an array with a name leads to a missing field.",
 ["inputs","programs"],"every path and every document shape along it",
 "Existence is tested with one present string field and one absent field.",
 ["fastMatcher.go","transform.go","fastval.go"],[("existence operation","fastMatcher.go: OpTypeExists, hasEmptySlot"),("null comparison","fastval.go: compareNull")],[M])
p("C13","Field paths address exactly the value they name",
 "A path of names and array indexes addresses the member or element which is found by following it step by step from the document (or loop variable): names compare as decoded strings, byte for byte and in full, [i] is the i-th element counting from 0 whatever the elements before it contain, and members of the same name elsewhere in the document are never used instead. Several paths which share prefixes, or of which one extends the other, are all resolved independently.",
 ["inputs","programs"],"every path and document, every combination of paths in one expression",
 "Tests use a few fixed paths on one data set, with one test indexing an array.",
 ["fastMatcher.go","transform.go"],[("exec tree by key","transform.go: getExecNode"),("key lookup and array indexes","fastMatcher.go: matchObjectOrArray")],[M])
p("C14","String escapes are decoded to the characters they denote",
 "A string or key of the document with escape sequences compares, matches and addresses exactly as the characters it denotes: the two-character escapes, \\uXXXX in either case, surrogate pairs as one character and unpaired surrogates as U+FFFD, at any position and length of the string. Encoding a string as JSON and decoding it again gives the same string.",
 ["inputs"],"every string and every spelling of it",
 "Escapes occur in a few strings of the tests, with no surrogates and only short strings.",
 ["fastlitescape.go","fastlitparse.go","jsontokenizer.go"],[("unescapeJsonString","fastlitescape.go"),("escaped token type","jsontokenizer.go")],[M,"unescapeJsonString"])
p("C15","The tokenizer splits JSON text exactly as the JSON grammar does",
 "For every sequence of bytes the tokenizer returns the tokens of the JSON lexical grammar in order, each with its type, exact bytes and length, then end-of-input forever, and reports an error no later than the first byte which cannot be part of any token. Seeking to the start of a token which was returned and stepping again gives the same tokens.",
 ["inputs","histories"],"every byte sequence, every sequence of steps and seeks",
 "The tests tokenize some dozen fixed texts; the state machine has far more state and byte combinations.",
 ["jsontokenizer.go"],[("byte-wise state machine","jsontokenizer.go: Step"),("positions","jsontokenizer.go: Seek/Position")],["jsonTokenizer.Step/Seek/Position"])
p("C16","Malformed and truncated documents never panic, hang or give a wrong verdict",
 "Matching any bytes terminates without panicking. If a document is cut off at any byte, the result is an error or the verdict which every completion of the document gets (a number touching the cut counts as complete); documents with a malformed token or value, or with a token out of place among the members of the document or of a value which the expression leads into, before the point where the verdict is known give an error (a trailing comma is tolerated; in values which the expression does not refer to only tokens and nesting are looked at).",
 ["inputs","fault_sequences"],"every byte sequence, every truncation point, every corruption of a document",
 "One test matches a dozen fixed odd documents; truncation at every byte and corruptions are not tried.",
 ["fastMatcher.go","jsontokenizer.go"],[("errors are returned from every step","fastMatcher.go"),("end of input token","jsontokenizer.go")],[M])
p("C17","Removing keys from a JSON object leaves all the rest as it was",
 "Removing a list of keys from an object gives an object with exactly the members (at any depth) whose key is not in the list, with unchanged order, keys and values, and the removed map holds the value of each removed key as it is in the source. This holds for any list (duplicates, absent keys, keys of nested members), any value types, white space and escape sequences, and it says whether at least one member is left at the top level.",
 ["inputs"],"every object, every list of keys",
 "The tests remove one or two fixed keys from objects of up to five members.",
 ["jsonComposer.go","jsontokenizer.go"],[("token-wise copy","jsonComposer.go: MatchAndRemoveItemsFromJsonObject")],["MatchAndRemoveItemsFromJsonObject"])
p("C18","Key removal reports errors and stays within its buffers",
 "The source is never modified and nothing beyond the destination's length is written; a destination which is too small for the result gives an error and never a panic or a cut result, and one which is large enough succeeds. Sources which are not objects or end inside a value give an error, no input makes it panic or hang, and calls do not influence later calls with the same or other buffers.",
 ["inputs","fault_sequences"],"every source, truncation and destination size",
 "The tests use a destination at least as large as the source and six malformed sources.",
 ["jsonComposer.go"],[("bounds checks of the composer","jsonComposer.go: Write")],["MatchAndRemoveItemsFromJsonObject"])
p("C19","Filter expressions are parsed with the documented grammar and precedence",
 "A filter expression of the documented grammar is accepted and means what the grammar says: OR binds weaker than AND, AND weaker than NOT, NOT weaker than comparisons, * / % stronger than + and -, all binary operators group to the left, and parentheses override; constants have exactly the value written and fields exactly the path written. Matching with the compiled filter gives the verdict of that meaning.",
 ["programs"],"every expression of the grammar, of any size",
 "The tests check some sixty fixed expressions, mostly with one or two operators.",
 ["filterExprParser.go"],[("participle grammar","filterExprParser.go: FilterExpression and below"),("output of the expression tree","filterExprParser.go: OutputExpression")],["GetFilterExpressionMatcher, NewFilterExpressionParser + OutputExpression"])
p("C20","Texts which are not filter expressions are rejected with an error",
 "Parsing any text as a filter expression terminates without panicking, and a text which is not in the grammar (unbalanced parentheses, missing operands or operators, unterminated strings, unknown functions or operators, wrong numbers of arguments, trailing tokens, invalid regular expressions and dates) gives an error and never a matcher for part of it.",
 ["inputs"],"every text",
 "The tests reject about ten fixed texts.",
 ["filterExprParser.go"],[("parser must consume all tokens","filterExprParser.go: NewFilterExpressionParser"),("errors of OutputExpression","filterExprParser.go")],["GetFilterExpressionMatcher"])
p("C21","Simple expressions mean what their text says",
 "ParseSimpleExpression gives for every text it accepts the expression the text denotes: within one level of parentheses && (AND) and || (OR) group from left to right, parentheses override, every comparison has the field, operator and constant written, and functions have the arguments written. Texts with missing operands or operators, unbalanced parentheses, unterminated strings or unknown functions are rejected with an error, and no text makes the parser panic or hang.",
 ["programs","inputs"],"every text, in particular every combination of &&, || and parentheses",
 "The tests check a few dozen fixed texts, with at most three connectives.",
 ["simpleParser.go"],[("context stack and operator tree","simpleParser.go: ParseSimpleExpression/expressionParserContext"),("short circuit grouping","simpleParser.go: enableShortCircuit")],["ParseSimpleExpression"])
p("C22","The JSON expression language denotes the expression it spells",
 "ParseJsonExpression turns every well-formed JSON form into the expression of the same shape (operators, fields with their variables and paths, constants, loops, functions and regular expressions at their places), so that matching with it gives the verdict of that expression. Ill-formed input (unknown operators or functions, missing or ill-typed arguments, invalid JSON) gives an error and never a panic.",
 ["programs","inputs"],"every JSON value as input",
 "The tests only parse well-formed expressions from one fixture.",
 ["expression_json.go"],[("recursive parser","expression_json.go: ParseJsonExpression")],["ParseJsonExpression"])
p("C23","Regular expression operators match exactly the language of the expression",
 "A LIKE / REGEXP_CONTAINS condition holds exactly if the field is a string and some part of it (the whole one if the expression is anchored) is in the language of the regular expression, and its negated form exactly if not, for every field value including empty ones, non-strings and missing fields. Invalid regular expressions are reported when the expression is compiled or parsed.",
 ["programs","inputs"],"every regular expression of the supported syntax, every string",
 "Five fixed patterns are matched by the tests, against one string each.",
 ["fastval.go","transform.go","filterExprParser.go","simpleParser.go"],[("string matching","fastval.go: matchStrings"),("compilation","transform.go: makeDataRefRecurse")],[M])
p("C24","DATE comparisons order points in time",
 "DATE(x) compared with another DATE or a date string orders by the points in time the texts denote, whatever form (year, year and month, day, full RFC 3339 with any fraction and zone offset, or day and time with a blank for fields) either side has. Fields which do not denote a date never equal a date and give the collate status, and constants which do not are rejected when the expression is parsed.",
 ["inputs"],"every pair of date texts in every supported form",
 "The tests compare some fixed dates for equality.",
 ["fastval_date.go","fastval.go","filterExprParser.go"],[("date forms","fastval_date.go: FastValDateFunc/isoToRfc"),("time comparison","fastval.go: compareTime")],[M])
p("C25","Compiling an expression is deterministic and leaves it alone",
 "Compiling the same expressions gives the same definition every time, with the same or a new compiler instance and also after other expressions were compiled with it, and neither compiling nor matching changes the expression. Definitions compiled earlier stay valid: matchers of them are not affected by later compilations.",
 ["programs","histories"],"every expression, every sequence of compilations with one Transformer",
 "Every test compiles one expression with a new Transformer.",
 ["transform.go","fastMatcherDef.go"],[("state is set up by Transform","transform.go: Transform")],["Transformer.Transform, MatchDef.String"])
p("C26","Compacting an expression preserves its meaning",
 "The compacted form of an expression gives the same verdict for every document as the expression itself, whatever constants TRUE and FALSE, nested AND, OR, NOT and loops it contains, and compacting is idempotent and does not change the original.",
 ["programs","inputs"],"every expression, every document",
 "No test compacts an expression.",
 ["expression_compact.go"],[("CompactExpression","expression_compact.go")],["CompactExpression, Match"])
p("C27","The slow and the fast matcher agree",
 "For expressions of the operators which both support (AND, OR, ANY loops over arrays, and comparisons of present fields with values of the same type) the SlowMatcher and the FastMatcher give the same verdict for every document, which is the meaning of the expression. For comparisons which the SlowMatcher does not support (values of different types, containers) it reports an error or gives the meaning, never another verdict, and no document makes it panic.",
 ["programs","inputs"],"every expression of the operators both have, every document",
 "The tests use either of them, never both on the same input beyond a fixed fixture.",
 ["slowmatcher.go","fastMatcher.go"],[("reference evaluator","slowmatcher.go")],["SlowMatcher.Match, FastMatcher.Match"])
p("C28","Statistics of an expression count what it contains",
 "Scanning a compilable expression for statistics never panics or fails, leaves the expression alone, and counts its loops, ANDs, ORs, field references and value constants wherever they stand (operands, function arguments, targets and bodies of loops, below NOT, EXISTS and LIKE) and the depth to which loops are nested within each other. Scanning further expressions with the same counter adds their counts and keeps the greatest depth. (Whether dates and regular expressions count as values, and whether loops which are nested more than once count as nested loops again, is left open.)",
 ["programs","histories"],"every expression, every sequence of scans with one counter",
 "No test scans an expression.",
 ["expressionstats.go"],[("recursive count","expressionstats.go: scanOne")],["ExpressionStats.Scan"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
