"""spec/Words.tla: the words of the expression languages as sequences of code points"""
W = "AND OR NOT TRUE true FALSE false IS NULL MISSING META PI E EXISTS REGEXP_CONTAINS DATE ANY EVERY IN SATISFIES END LIKE".split()
ONE = {"ABS": "mathAbs", "ACOS": "mathAcos", "ASIN": "mathAsin", "ATAN": "mathAtan", "CEIL": "mathCeil", "COS": "mathCos", "DATE": "date",
       "DEGREES": "mathDegrees", "EXP": "mathExp", "FLOOR": "mathFloor", "LOG": "mathLog", "LN": "mathLn", "SIN": "mathSin", "TAN": "mathTan",
       "RADIANS": "mathRadians", "ROUND": "mathRound", "SQRT": "mathSqrt"}
TWO = {"ATAN2": "mathAtan2", "POW": "mathPow"}
FORMS = "value field func not or and anyin everyin anyeveryin exists notexists equals notequals lessthan lessequals greaterthan greaterequals like regex time".split()
JSONFUNCS = {n: 1 for n in ONE.values()}
JSONFUNCS.update({n: 2 for n in list(TWO.values()) + ["mathAdd", "mathSubract", "mathMultiply", "mathDivide", "mathModulo"]})
JSONFUNCS["mathNegate"] = 1
cps = lambda w: "<<" + ", ".join(str(ord(c)) for c in w) + ">>"
def table(name, d):
    return "%s == {%s}" % (name, ",\n  ".join('[w |-> %s, n |-> "%s"]' % (cps(k), v) for k, v in d.items()))
out = ["-------------------------------- MODULE Words --------------------------------",
       "(* Written by gen/gen_words.py: the words of the expression languages as sequences of code points *)",
       "EXTENDS Integers, Sequences",
       "W == [" + ",\n  ".join("k%s |-> %s" % (w, cps(w)) for w in W) + "]",
       "(* functions of filter expressions with one and two arguments *)",
       table("OneArg", ONE), table("TwoArgs", TWO),
       "(* forms of JSON expressions; their functions with the number of arguments *)",
       table("FormWords", {f: f for f in FORMS}),
       "JsonFuncs == {%s}" % ",\n  ".join('[w |-> %s, n |-> "%s", a |-> %d]' % (cps(k), k, a) for k, a in JSONFUNCS.items()),
       "============================================================================="]
open("/verif/spec/Words.tla", "w").write("\n".join(out) + "\n")
