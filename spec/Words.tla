-------------------------------- MODULE Words --------------------------------
(* Written by gen/gen_words.py: the words of the expression languages as sequences of code points *)
EXTENDS Integers, Sequences
W == [kAND |-> <<65, 78, 68>>,
  kOR |-> <<79, 82>>,
  kNOT |-> <<78, 79, 84>>,
  kTRUE |-> <<84, 82, 85, 69>>,
  ktrue |-> <<116, 114, 117, 101>>,
  kFALSE |-> <<70, 65, 76, 83, 69>>,
  kfalse |-> <<102, 97, 108, 115, 101>>,
  kIS |-> <<73, 83>>,
  kNULL |-> <<78, 85, 76, 76>>,
  kMISSING |-> <<77, 73, 83, 83, 73, 78, 71>>,
  kMETA |-> <<77, 69, 84, 65>>,
  kPI |-> <<80, 73>>,
  kE |-> <<69>>,
  kEXISTS |-> <<69, 88, 73, 83, 84, 83>>,
  kREGEXP_CONTAINS |-> <<82, 69, 71, 69, 88, 80, 95, 67, 79, 78, 84, 65, 73, 78, 83>>,
  kDATE |-> <<68, 65, 84, 69>>,
  kANY |-> <<65, 78, 89>>,
  kEVERY |-> <<69, 86, 69, 82, 89>>,
  kIN |-> <<73, 78>>,
  kSATISFIES |-> <<83, 65, 84, 73, 83, 70, 73, 69, 83>>,
  kEND |-> <<69, 78, 68>>,
  kLIKE |-> <<76, 73, 75, 69>>]
(* functions of filter expressions with one and two arguments *)
OneArg == {[w |-> <<65, 66, 83>>, n |-> "mathAbs"],
  [w |-> <<65, 67, 79, 83>>, n |-> "mathAcos"],
  [w |-> <<65, 83, 73, 78>>, n |-> "mathAsin"],
  [w |-> <<65, 84, 65, 78>>, n |-> "mathAtan"],
  [w |-> <<67, 69, 73, 76>>, n |-> "mathCeil"],
  [w |-> <<67, 79, 83>>, n |-> "mathCos"],
  [w |-> <<68, 65, 84, 69>>, n |-> "date"],
  [w |-> <<68, 69, 71, 82, 69, 69, 83>>, n |-> "mathDegrees"],
  [w |-> <<69, 88, 80>>, n |-> "mathExp"],
  [w |-> <<70, 76, 79, 79, 82>>, n |-> "mathFloor"],
  [w |-> <<76, 79, 71>>, n |-> "mathLog"],
  [w |-> <<76, 78>>, n |-> "mathLn"],
  [w |-> <<83, 73, 78>>, n |-> "mathSin"],
  [w |-> <<84, 65, 78>>, n |-> "mathTan"],
  [w |-> <<82, 65, 68, 73, 65, 78, 83>>, n |-> "mathRadians"],
  [w |-> <<82, 79, 85, 78, 68>>, n |-> "mathRound"],
  [w |-> <<83, 81, 82, 84>>, n |-> "mathSqrt"]}
TwoArgs == {[w |-> <<65, 84, 65, 78, 50>>, n |-> "mathAtan2"],
  [w |-> <<80, 79, 87>>, n |-> "mathPow"]}
(* forms of JSON expressions; their functions with the number of arguments *)
FormWords == {[w |-> <<118, 97, 108, 117, 101>>, n |-> "value"],
  [w |-> <<102, 105, 101, 108, 100>>, n |-> "field"],
  [w |-> <<102, 117, 110, 99>>, n |-> "func"],
  [w |-> <<110, 111, 116>>, n |-> "not"],
  [w |-> <<111, 114>>, n |-> "or"],
  [w |-> <<97, 110, 100>>, n |-> "and"],
  [w |-> <<97, 110, 121, 105, 110>>, n |-> "anyin"],
  [w |-> <<101, 118, 101, 114, 121, 105, 110>>, n |-> "everyin"],
  [w |-> <<97, 110, 121, 101, 118, 101, 114, 121, 105, 110>>, n |-> "anyeveryin"],
  [w |-> <<101, 120, 105, 115, 116, 115>>, n |-> "exists"],
  [w |-> <<110, 111, 116, 101, 120, 105, 115, 116, 115>>, n |-> "notexists"],
  [w |-> <<101, 113, 117, 97, 108, 115>>, n |-> "equals"],
  [w |-> <<110, 111, 116, 101, 113, 117, 97, 108, 115>>, n |-> "notequals"],
  [w |-> <<108, 101, 115, 115, 116, 104, 97, 110>>, n |-> "lessthan"],
  [w |-> <<108, 101, 115, 115, 101, 113, 117, 97, 108, 115>>, n |-> "lessequals"],
  [w |-> <<103, 114, 101, 97, 116, 101, 114, 116, 104, 97, 110>>, n |-> "greaterthan"],
  [w |-> <<103, 114, 101, 97, 116, 101, 114, 101, 113, 117, 97, 108, 115>>, n |-> "greaterequals"],
  [w |-> <<108, 105, 107, 101>>, n |-> "like"],
  [w |-> <<114, 101, 103, 101, 120>>, n |-> "regex"],
  [w |-> <<116, 105, 109, 101>>, n |-> "time"]}
JsonFuncs == {[w |-> <<109, 97, 116, 104, 65, 98, 115>>, n |-> "mathAbs", a |-> 1],
  [w |-> <<109, 97, 116, 104, 65, 99, 111, 115>>, n |-> "mathAcos", a |-> 1],
  [w |-> <<109, 97, 116, 104, 65, 115, 105, 110>>, n |-> "mathAsin", a |-> 1],
  [w |-> <<109, 97, 116, 104, 65, 116, 97, 110>>, n |-> "mathAtan", a |-> 1],
  [w |-> <<109, 97, 116, 104, 67, 101, 105, 108>>, n |-> "mathCeil", a |-> 1],
  [w |-> <<109, 97, 116, 104, 67, 111, 115>>, n |-> "mathCos", a |-> 1],
  [w |-> <<100, 97, 116, 101>>, n |-> "date", a |-> 1],
  [w |-> <<109, 97, 116, 104, 68, 101, 103, 114, 101, 101, 115>>, n |-> "mathDegrees", a |-> 1],
  [w |-> <<109, 97, 116, 104, 69, 120, 112>>, n |-> "mathExp", a |-> 1],
  [w |-> <<109, 97, 116, 104, 70, 108, 111, 111, 114>>, n |-> "mathFloor", a |-> 1],
  [w |-> <<109, 97, 116, 104, 76, 111, 103>>, n |-> "mathLog", a |-> 1],
  [w |-> <<109, 97, 116, 104, 76, 110>>, n |-> "mathLn", a |-> 1],
  [w |-> <<109, 97, 116, 104, 83, 105, 110>>, n |-> "mathSin", a |-> 1],
  [w |-> <<109, 97, 116, 104, 84, 97, 110>>, n |-> "mathTan", a |-> 1],
  [w |-> <<109, 97, 116, 104, 82, 97, 100, 105, 97, 110, 115>>, n |-> "mathRadians", a |-> 1],
  [w |-> <<109, 97, 116, 104, 82, 111, 117, 110, 100>>, n |-> "mathRound", a |-> 1],
  [w |-> <<109, 97, 116, 104, 83, 113, 114, 116>>, n |-> "mathSqrt", a |-> 1],
  [w |-> <<109, 97, 116, 104, 65, 116, 97, 110, 50>>, n |-> "mathAtan2", a |-> 2],
  [w |-> <<109, 97, 116, 104, 80, 111, 119>>, n |-> "mathPow", a |-> 2],
  [w |-> <<109, 97, 116, 104, 65, 100, 100>>, n |-> "mathAdd", a |-> 2],
  [w |-> <<109, 97, 116, 104, 83, 117, 98, 114, 97, 99, 116>>, n |-> "mathSubract", a |-> 2],
  [w |-> <<109, 97, 116, 104, 77, 117, 108, 116, 105, 112, 108, 121>>, n |-> "mathMultiply", a |-> 2],
  [w |-> <<109, 97, 116, 104, 68, 105, 118, 105, 100, 101>>, n |-> "mathDivide", a |-> 2],
  [w |-> <<109, 97, 116, 104, 77, 111, 100, 117, 108, 111>>, n |-> "mathModulo", a |-> 2],
  [w |-> <<109, 97, 116, 104, 78, 101, 103, 97, 116, 101>>, n |-> "mathNegate", a |-> 1]}
=============================================================================
