----------------------------- MODULE MathTable -----------------------------
(* Generated by gen/gen_mathtable.py: the transcendental functions at some arguments.                                 *)
EXTENDS Integers
MathTable == <<
  [f |-> "mathAcos", e |-> <<
      [a |-> [s |-> 0, m |-> <<>>], t |-> "num", r |-> [s |-> 1, m |-> <<6795, 9632, 5707, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 1>>], t |-> "num", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 1>>], t |-> "num", r |-> [s |-> 1, m |-> <<3590, 9265, 1415, 3>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 5000>>], t |-> "num", r |-> [s |-> 1, m |-> <<1197, 9755, 471, 1>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 5000>>], t |-> "num", r |-> [s |-> 1, m |-> <<2393, 9510, 943, 2>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 2>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 2>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 2500>>], t |-> "num", r |-> [s |-> 1, m |-> <<1653, 1607, 3181, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 3>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 10>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 100>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 5000, 1>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 45>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 90>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 180>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 90>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 1000>>], t |-> "num", r |-> [s |-> 1, m |-> <<5633, 2890, 4706, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 7>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 360>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 1000>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]]>>],
  [f |-> "mathAsin", e |-> <<
      [a |-> [s |-> 0, m |-> <<>>], t |-> "num", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 1>>], t |-> "num", r |-> [s |-> 1, m |-> <<6795, 9632, 5707, 1>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 1>>], t |-> "num", r |-> [s |-> -1, m |-> <<6795, 9632, 5707, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 5000>>], t |-> "num", r |-> [s |-> 1, m |-> <<5598, 9877, 5235>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 5000>>], t |-> "num", r |-> [s |-> -1, m |-> <<5598, 9877, 5235>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 2>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 2>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 2500>>], t |-> "num", r |-> [s |-> 1, m |-> <<5142, 8025, 2526>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 3>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 10>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 100>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 5000, 1>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 45>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 90>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 180>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 90>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 1000>>], t |-> "num", r |-> [s |-> 1, m |-> <<1162, 6742, 1001>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 7>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 360>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 1000>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]]>>],
  [f |-> "mathAtan", e |-> <<
      [a |-> [s |-> 0, m |-> <<>>], t |-> "num", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 1>>], t |-> "num", r |-> [s |-> 1, m |-> <<3397, 9816, 7853>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 1>>], t |-> "num", r |-> [s |-> -1, m |-> <<3397, 9816, 7853>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 5000>>], t |-> "num", r |-> [s |-> 1, m |-> <<9001, 4760, 4636>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 5000>>], t |-> "num", r |-> [s |-> -1, m |-> <<9001, 4760, 4636>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 2>>], t |-> "num", r |-> [s |-> 1, m |-> <<7794, 4871, 1071, 1>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 2>>], t |-> "num", r |-> [s |-> -1, m |-> <<7794, 4871, 1071, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 2500>>], t |-> "num", r |-> [s |-> 1, m |-> <<3127, 7866, 2449>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 3>>], t |-> "num", r |-> [s |-> 1, m |-> <<2398, 4577, 2490, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 10>>], t |-> "num", r |-> [s |-> 1, m |-> <<4304, 2767, 4711, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 100>>], t |-> "num", r |-> [s |-> 1, m |-> <<108, 9666, 5607, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 5000, 1>>], t |-> "num", r |-> [s |-> 1, m |-> <<3247, 9372, 9827>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 45>>], t |-> "num", r |-> [s |-> 1, m |-> <<1468, 7776, 5485, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 90>>], t |-> "num", r |-> [s |-> 1, m |-> <<2897, 8567, 5596, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 180>>], t |-> "num", r |-> [s |-> 1, m |-> <<8394, 4082, 5652, 1>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 90>>], t |-> "num", r |-> [s |-> -1, m |-> <<2897, 8567, 5596, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 1000>>], t |-> "num", r |-> [s |-> 1, m |-> <<2491, 6865, 996>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 7>>], t |-> "num", r |-> [s |-> 1, m |-> <<2191, 9927, 4288, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 360>>], t |-> "num", r |-> [s |-> 1, m |-> <<6162, 1855, 5680, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 1000>>], t |-> "num", r |-> [s |-> 1, m |-> <<7128, 9632, 5697, 1>>]]>>],
  [f |-> "mathCos", e |-> <<
      [a |-> [s |-> 0, m |-> <<>>], t |-> "num", r |-> [s |-> 1, m |-> <<0, 0, 0, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 1>>], t |-> "num", r |-> [s |-> 1, m |-> <<5868, 230, 5403>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 1>>], t |-> "num", r |-> [s |-> 1, m |-> <<5868, 230, 5403>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 5000>>], t |-> "num", r |-> [s |-> 1, m |-> <<1890, 8256, 8775>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 5000>>], t |-> "num", r |-> [s |-> 1, m |-> <<1890, 8256, 8775>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 2>>], t |-> "num", r |-> [s |-> -1, m |-> <<6547, 4683, 4161>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 2>>], t |-> "num", r |-> [s |-> -1, m |-> <<6547, 4683, 4161>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 2500>>], t |-> "num", r |-> [s |-> 1, m |-> <<1711, 1242, 9689>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 3>>], t |-> "num", r |-> [s |-> -1, m |-> <<6600, 9249, 9899>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 10>>], t |-> "num", r |-> [s |-> -1, m |-> <<9076, 7152, 8390>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 100>>], t |-> "num", r |-> [s |-> 1, m |-> <<2288, 1887, 8623>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 5000, 1>>], t |-> "num", r |-> [s |-> 1, m |-> <<1668, 3720, 707>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 45>>], t |-> "num", r |-> [s |-> 1, m |-> <<8818, 2198, 5253>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 90>>], t |-> "num", r |-> [s |-> -1, m |-> <<6129, 7361, 4480>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 180>>], t |-> "num", r |-> [s |-> -1, m |-> <<9058, 6006, 5984>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 90>>], t |-> "num", r |-> [s |-> -1, m |-> <<6129, 7361, 4480>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 1000>>], t |-> "num", r |-> [s |-> 1, m |-> <<5278, 416, 9950>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 7>>], t |-> "num", r |-> [s |-> 1, m |-> <<4343, 225, 7539>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 360>>], t |-> "num", r |-> [s |-> -1, m |-> <<1487, 9109, 2836>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 1000>>], t |-> "num", r |-> [s |-> 1, m |-> <<6291, 7907, 5623>>]]>>],
  [f |-> "mathDegrees", e |-> <<
      [a |-> [s |-> 0, m |-> <<>>], t |-> "num", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 1>>], t |-> "num", r |-> [s |-> 1, m |-> <<3082, 7951, 2957, 57>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 1>>], t |-> "num", r |-> [s |-> -1, m |-> <<3082, 7951, 2957, 57>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 5000>>], t |-> "num", r |-> [s |-> 1, m |-> <<6541, 8975, 6478, 28>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 5000>>], t |-> "num", r |-> [s |-> -1, m |-> <<6541, 8975, 6478, 28>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 2>>], t |-> "num", r |-> [s |-> 1, m |-> <<6165, 5902, 5915, 114>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 2>>], t |-> "num", r |-> [s |-> -1, m |-> <<6165, 5902, 5915, 114>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 2500>>], t |-> "num", r |-> [s |-> 1, m |-> <<8271, 4487, 3239, 14>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 3>>], t |-> "num", r |-> [s |-> 1, m |-> <<9247, 3853, 8873, 171>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 10>>], t |-> "num", r |-> [s |-> 1, m |-> <<823, 9513, 9577, 572>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 100>>], t |-> "num", r |-> [s |-> 1, m |-> <<8233, 5130, 5779, 5729>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 5000, 1>>], t |-> "num", r |-> [s |-> 1, m |-> <<9623, 6926, 9436, 85>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 45>>], t |-> "num", r |-> [s |-> 1, m |-> <<8704, 7808, 3100, 2578>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 90>>], t |-> "num", r |-> [s |-> 1, m |-> <<7409, 5617, 6201, 5156>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 180>>], t |-> "num", r |-> [s |-> 1, m |-> <<4817, 1235, 2403, 313, 1>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 90>>], t |-> "num", r |-> [s |-> -1, m |-> <<7409, 5617, 6201, 5156>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 1000>>], t |-> "num", r |-> [s |-> 1, m |-> <<1308, 7795, 7295, 5>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 7>>], t |-> "num", r |-> [s |-> 1, m |-> <<1576, 5659, 704, 401>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 360>>], t |-> "num", r |-> [s |-> 1, m |-> <<9635, 2470, 4806, 626, 2>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 1000>>], t |-> "num", r |-> [s |-> 1, m |-> <<2322, 1308, 7795, 7295, 5>>]]>>],
  [f |-> "mathExp", e |-> <<
      [a |-> [s |-> 0, m |-> <<>>], t |-> "num", r |-> [s |-> 1, m |-> <<0, 0, 0, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 1>>], t |-> "num", r |-> [s |-> 1, m |-> <<8459, 8182, 7182, 2>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 1>>], t |-> "num", r |-> [s |-> 1, m |-> <<1171, 7944, 3678>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 5000>>], t |-> "num", r |-> [s |-> 1, m |-> <<700, 2127, 6487, 1>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 5000>>], t |-> "num", r |-> [s |-> 1, m |-> <<9713, 3065, 6065>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 2>>], t |-> "num", r |-> [s |-> 1, m |-> <<8931, 5609, 3890, 7>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 2>>], t |-> "num", r |-> [s |-> 1, m |-> <<3237, 3528, 1353>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 2500>>], t |-> "num", r |-> [s |-> 1, m |-> <<6688, 2541, 2840, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 3>>], t |-> "num", r |-> [s |-> 1, m |-> <<3188, 3692, 855, 20>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 10>>], t |-> "num", r |-> [s |-> 1, m |-> <<6718, 9480, 4657, 2026, 2>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 5000, 1>>], t |-> "num", r |-> [s |-> 1, m |-> <<338, 8907, 4816, 4>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 90>>], t |-> "num", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 1000>>], t |-> "num", r |-> [s |-> 1, m |-> <<8076, 7091, 1051, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 7>>], t |-> "num", r |-> [s |-> 1, m |-> <<8459, 5842, 6331, 1096>>]]>>],
  [f |-> "mathLn", e |-> <<
      [a |-> [s |-> 0, m |-> <<>>], t |-> "ninf", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 1>>], t |-> "num", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 1>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 5000>>], t |-> "num", r |-> [s |-> -1, m |-> <<560, 4718, 6931>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 5000>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 2>>], t |-> "num", r |-> [s |-> 1, m |-> <<560, 4718, 6931>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 2>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 2500>>], t |-> "num", r |-> [s |-> -1, m |-> <<1120, 9436, 3862, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 3>>], t |-> "num", r |-> [s |-> 1, m |-> <<8668, 1228, 986, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 10>>], t |-> "num", r |-> [s |-> 1, m |-> <<2994, 8509, 3025, 2>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 100>>], t |-> "num", r |-> [s |-> 1, m |-> <<5988, 7018, 6051, 4>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 5000, 1>>], t |-> "num", r |-> [s |-> 1, m |-> <<8108, 6510, 4054>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 45>>], t |-> "num", r |-> [s |-> 1, m |-> <<9770, 6248, 8066, 3>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 90>>], t |-> "num", r |-> [s |-> 1, m |-> <<330, 967, 4998, 4>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 180>>], t |-> "num", r |-> [s |-> 1, m |-> <<890, 5685, 1929, 5>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 90>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 1000>>], t |-> "num", r |-> [s |-> -1, m |-> <<2994, 8509, 3025, 2>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 7>>], t |-> "num", r |-> [s |-> 1, m |-> <<9055, 1014, 9459, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 360>>], t |-> "num", r |-> [s |-> 1, m |-> <<1450, 403, 8861, 5>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 1000>>], t |-> "num", r |-> [s |-> 1, m |-> <<8982, 5527, 9077, 6>>]]>>],
  [f |-> "mathLog", e |-> <<
      [a |-> [s |-> 0, m |-> <<>>], t |-> "ninf", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 1>>], t |-> "num", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 1>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 5000>>], t |-> "num", r |-> [s |-> -1, m |-> <<5664, 2999, 3010>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 5000>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 2>>], t |-> "num", r |-> [s |-> 1, m |-> <<5664, 2999, 3010>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 2>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 2500>>], t |-> "num", r |-> [s |-> -1, m |-> <<1328, 5999, 6020>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 3>>], t |-> "num", r |-> [s |-> 1, m |-> <<4720, 2125, 4771>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 10>>], t |-> "num", r |-> [s |-> 1, m |-> <<0, 0, 0, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 100>>], t |-> "num", r |-> [s |-> 1, m |-> <<0, 0, 0, 2>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 5000, 1>>], t |-> "num", r |-> [s |-> 1, m |-> <<9056, 9125, 1760>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 45>>], t |-> "num", r |-> [s |-> 1, m |-> <<3775, 1251, 6532, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 90>>], t |-> "num", r |-> [s |-> 1, m |-> <<9439, 4250, 9542, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 180>>], t |-> "num", r |-> [s |-> 1, m |-> <<5103, 7250, 2552, 2>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 90>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 1000>>], t |-> "num", r |-> [s |-> -1, m |-> <<0, 0, 0, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 7>>], t |-> "num", r |-> [s |-> 1, m |-> <<14, 9804, 8450>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 360>>], t |-> "num", r |-> [s |-> 1, m |-> <<767, 250, 5563, 2>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 1000>>], t |-> "num", r |-> [s |-> 1, m |-> <<0, 0, 0, 3>>]]>>],
  [f |-> "mathRadians", e |-> <<
      [a |-> [s |-> 0, m |-> <<>>], t |-> "num", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 1>>], t |-> "num", r |-> [s |-> 1, m |-> <<2520, 5329, 174>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 1>>], t |-> "num", r |-> [s |-> -1, m |-> <<2520, 5329, 174>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 5000>>], t |-> "num", r |-> [s |-> 1, m |-> <<6260, 2664, 87>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 5000>>], t |-> "num", r |-> [s |-> -1, m |-> <<6260, 2664, 87>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 2>>], t |-> "num", r |-> [s |-> 1, m |-> <<5040, 658, 349>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 2>>], t |-> "num", r |-> [s |-> -1, m |-> <<5040, 658, 349>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 2500>>], t |-> "num", r |-> [s |-> 1, m |-> <<3130, 6332, 43>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 3>>], t |-> "num", r |-> [s |-> 1, m |-> <<7560, 5987, 523>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 10>>], t |-> "num", r |-> [s |-> 1, m |-> <<5199, 3292, 1745>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 100>>], t |-> "num", r |-> [s |-> 1, m |-> <<1994, 2925, 7453, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 5000, 1>>], t |-> "num", r |-> [s |-> 1, m |-> <<8780, 7993, 261>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 45>>], t |-> "num", r |-> [s |-> 1, m |-> <<3397, 9816, 7853>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 90>>], t |-> "num", r |-> [s |-> 1, m |-> <<6795, 9632, 5707, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 180>>], t |-> "num", r |-> [s |-> 1, m |-> <<3590, 9265, 1415, 3>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 90>>], t |-> "num", r |-> [s |-> -1, m |-> <<6795, 9632, 5707, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 1000>>], t |-> "num", r |-> [s |-> 1, m |-> <<9252, 4532, 17>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 7>>], t |-> "num", r |-> [s |-> 1, m |-> <<7640, 7304, 1221>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 360>>], t |-> "num", r |-> [s |-> 1, m |-> <<7180, 8530, 2831, 6>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 1000>>], t |-> "num", r |-> [s |-> 1, m |-> <<9943, 9251, 4532, 17>>]]>>],
  [f |-> "mathSin", e |-> <<
      [a |-> [s |-> 0, m |-> <<>>], t |-> "num", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 1>>], t |-> "num", r |-> [s |-> 1, m |-> <<4808, 7098, 8414>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 1>>], t |-> "num", r |-> [s |-> -1, m |-> <<4808, 7098, 8414>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 5000>>], t |-> "num", r |-> [s |-> 1, m |-> <<8604, 2553, 4794>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 5000>>], t |-> "num", r |-> [s |-> -1, m |-> <<8604, 2553, 4794>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 2>>], t |-> "num", r |-> [s |-> 1, m |-> <<6826, 9742, 9092>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 2>>], t |-> "num", r |-> [s |-> -1, m |-> <<6826, 9742, 9092>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 2500>>], t |-> "num", r |-> [s |-> 1, m |-> <<9255, 395, 2474>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 3>>], t |-> "num", r |-> [s |-> 1, m |-> <<8060, 2000, 1411>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 10>>], t |-> "num", r |-> [s |-> -1, m |-> <<889, 2111, 5440>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 100>>], t |-> "num", r |-> [s |-> -1, m |-> <<1110, 6564, 5063>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 5000, 1>>], t |-> "num", r |-> [s |-> 1, m |-> <<6604, 9498, 9974>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 45>>], t |-> "num", r |-> [s |-> 1, m |-> <<4534, 352, 8509>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 90>>], t |-> "num", r |-> [s |-> 1, m |-> <<3601, 9666, 8939>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 180>>], t |-> "num", r |-> [s |-> -1, m |-> <<5734, 5263, 8011>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 90>>], t |-> "num", r |-> [s |-> -1, m |-> <<3601, 9666, 8939>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 1000>>], t |-> "num", r |-> [s |-> 1, m |-> <<6647, 3341, 998>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 7>>], t |-> "num", r |-> [s |-> 1, m |-> <<8719, 8659, 6569>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 360>>], t |-> "num", r |-> [s |-> 1, m |-> <<3414, 1572, 9589>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 1000>>], t |-> "num", r |-> [s |-> 1, m |-> <<532, 7954, 8268>>]]>>],
  [f |-> "mathSqrt", e |-> <<
      [a |-> [s |-> 0, m |-> <<>>], t |-> "num", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 1>>], t |-> "num", r |-> [s |-> 1, m |-> <<0, 0, 0, 1>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 1>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 5000>>], t |-> "num", r |-> [s |-> 1, m |-> <<1187, 678, 7071>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 5000>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 2>>], t |-> "num", r |-> [s |-> 1, m |-> <<2373, 1356, 4142, 1>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 2>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 2500>>], t |-> "num", r |-> [s |-> 1, m |-> <<0, 0, 5000>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 3>>], t |-> "num", r |-> [s |-> 1, m |-> <<7569, 5080, 7320, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 10>>], t |-> "num", r |-> [s |-> 1, m |-> <<168, 7766, 1622, 3>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 100>>], t |-> "num", r |-> [s |-> 1, m |-> <<0, 0, 0, 10>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 5000, 1>>], t |-> "num", r |-> [s |-> 1, m |-> <<1392, 4487, 2247, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 45>>], t |-> "num", r |-> [s |-> 1, m |-> <<2499, 393, 7082, 6>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 90>>], t |-> "num", r |-> [s |-> 1, m |-> <<505, 3298, 4868, 9>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 180>>], t |-> "num", r |-> [s |-> 1, m |-> <<4999, 786, 4164, 13>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 90>>], t |-> "nan", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 1000>>], t |-> "num", r |-> [s |-> 1, m |-> <<6017, 2776, 3162>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 7>>], t |-> "num", r |-> [s |-> 1, m |-> <<1065, 5131, 6457, 2>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 360>>], t |-> "num", r |-> [s |-> 1, m |-> <<1010, 6596, 9736, 18>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 1000>>], t |-> "num", r |-> [s |-> 1, m |-> <<1684, 7660, 6227, 31>>]]>>],
  [f |-> "mathTan", e |-> <<
      [a |-> [s |-> 0, m |-> <<>>], t |-> "num", r |-> [s |-> 0, m |-> <<>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 1>>], t |-> "num", r |-> [s |-> 1, m |-> <<4655, 772, 5574, 1>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 1>>], t |-> "num", r |-> [s |-> -1, m |-> <<4655, 772, 5574, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 5000>>], t |-> "num", r |-> [s |-> 1, m |-> <<9844, 248, 5463>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 5000>>], t |-> "num", r |-> [s |-> -1, m |-> <<9844, 248, 5463>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 2>>], t |-> "num", r |-> [s |-> -1, m |-> <<3262, 3986, 1850, 2>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 2>>], t |-> "num", r |-> [s |-> 1, m |-> <<3262, 3986, 1850, 2>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 2500>>], t |-> "num", r |-> [s |-> 1, m |-> <<1221, 4192, 2553>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 3>>], t |-> "num", r |-> [s |-> -1, m |-> <<3074, 4654, 1425>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 10>>], t |-> "num", r |-> [s |-> 1, m |-> <<7459, 6082, 6483>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 100>>], t |-> "num", r |-> [s |-> -1, m |-> <<5157, 1391, 5872>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 5000, 1>>], t |-> "num", r |-> [s |-> 1, m |-> <<7172, 1994, 1014, 14>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 45>>], t |-> "num", r |-> [s |-> 1, m |-> <<544, 7519, 6197, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 90>>], t |-> "num", r |-> [s |-> -1, m |-> <<2208, 41, 9952, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 180>>], t |-> "num", r |-> [s |-> 1, m |-> <<351, 9021, 3386, 1>>]],
      [a |-> [s |-> -1, m |-> <<0, 0, 0, 90>>], t |-> "num", r |-> [s |-> 1, m |-> <<2208, 41, 9952, 1>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 1000>>], t |-> "num", r |-> [s |-> 1, m |-> <<2085, 3467, 1003>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 7>>], t |-> "num", r |-> [s |-> 1, m |-> <<2724, 4798, 8714>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 360>>], t |-> "num", r |-> [s |-> -1, m |-> <<3961, 4041, 3801, 3>>]],
      [a |-> [s |-> 1, m |-> <<0, 0, 0, 1000>>], t |-> "num", r |-> [s |-> 1, m |-> <<5703, 2415, 4703, 1>>]]>>]
>>
Atan2Table == <<
  [a |-> [s |-> 0, m |-> <<>>], b |-> [s |-> 0, m |-> <<>>], r |-> [s |-> 0, m |-> <<>>]],
  [a |-> [s |-> 0, m |-> <<>>], b |-> [s |-> 1, m |-> <<0, 0, 0, 1>>], r |-> [s |-> 0, m |-> <<>>]],
  [a |-> [s |-> 0, m |-> <<>>], b |-> [s |-> -1, m |-> <<0, 0, 0, 1>>], r |-> [s |-> 1, m |-> <<3590, 9265, 1415, 3>>]],
  [a |-> [s |-> 0, m |-> <<>>], b |-> [s |-> 1, m |-> <<0, 0, 5000>>], r |-> [s |-> 0, m |-> <<>>]],
  [a |-> [s |-> 1, m |-> <<0, 0, 0, 1>>], b |-> [s |-> 0, m |-> <<>>], r |-> [s |-> 1, m |-> <<6795, 9632, 5707, 1>>]],
  [a |-> [s |-> 1, m |-> <<0, 0, 0, 1>>], b |-> [s |-> 1, m |-> <<0, 0, 0, 1>>], r |-> [s |-> 1, m |-> <<3397, 9816, 7853>>]],
  [a |-> [s |-> 1, m |-> <<0, 0, 0, 1>>], b |-> [s |-> -1, m |-> <<0, 0, 0, 1>>], r |-> [s |-> 1, m |-> <<192, 9449, 3561, 2>>]],
  [a |-> [s |-> 1, m |-> <<0, 0, 0, 1>>], b |-> [s |-> 1, m |-> <<0, 0, 5000>>], r |-> [s |-> 1, m |-> <<7794, 4871, 1071, 1>>]],
  [a |-> [s |-> -1, m |-> <<0, 0, 0, 1>>], b |-> [s |-> 0, m |-> <<>>], r |-> [s |-> -1, m |-> <<6795, 9632, 5707, 1>>]],
  [a |-> [s |-> -1, m |-> <<0, 0, 0, 1>>], b |-> [s |-> 1, m |-> <<0, 0, 0, 1>>], r |-> [s |-> -1, m |-> <<3397, 9816, 7853>>]],
  [a |-> [s |-> -1, m |-> <<0, 0, 0, 1>>], b |-> [s |-> -1, m |-> <<0, 0, 0, 1>>], r |-> [s |-> -1, m |-> <<192, 9449, 3561, 2>>]],
  [a |-> [s |-> -1, m |-> <<0, 0, 0, 1>>], b |-> [s |-> 1, m |-> <<0, 0, 5000>>], r |-> [s |-> -1, m |-> <<7794, 4871, 1071, 1>>]],
  [a |-> [s |-> 1, m |-> <<0, 0, 0, 2>>], b |-> [s |-> 0, m |-> <<>>], r |-> [s |-> 1, m |-> <<6795, 9632, 5707, 1>>]],
  [a |-> [s |-> 1, m |-> <<0, 0, 0, 2>>], b |-> [s |-> 1, m |-> <<0, 0, 0, 1>>], r |-> [s |-> 1, m |-> <<7794, 4871, 1071, 1>>]],
  [a |-> [s |-> 1, m |-> <<0, 0, 0, 2>>], b |-> [s |-> -1, m |-> <<0, 0, 0, 1>>], r |-> [s |-> 1, m |-> <<5796, 4393, 344, 2>>]],
  [a |-> [s |-> 1, m |-> <<0, 0, 0, 2>>], b |-> [s |-> 1, m |-> <<0, 0, 5000>>], r |-> [s |-> 1, m |-> <<3668, 1766, 3258, 1>>]]
>>
=============================================================================
