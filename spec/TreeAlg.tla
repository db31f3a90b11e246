------------------------------ MODULE TreeAlg ------------------------------
(* The algorithm of the operator tree: an array d with a state per node ("U" undecided, "T", "F", "R" irrelevant), updated   *)
(* by marking upwards, up to the stall index st, and resolving downwards.  tr: nodes [k, p, l, r] in preorder, 0 for none    *)
EXTENDS Integers, Sequences

RECURSIVE Below(_, _)
Below(tr, i) == {i} \cup (IF tr[i].l # 0 THEN Below(tr, tr[i].l) ELSE {}) \cup (IF tr[i].r # 0 THEN Below(tr, tr[i].r) ELSE {})
RECURSIVE CloseA(_, _, _)
CloseA(tr, d, i) ==
  LET d1 == IF tr[i].l # 0 /\ d[tr[i].l] = "U" THEN CloseA(tr, [d EXCEPT ![tr[i].l] = "R"], tr[i].l) ELSE d
      d2 == IF tr[i].r # 0 /\ d1[tr[i].r] = "U" THEN CloseA(tr, [d1 EXCEPT ![tr[i].r] = "R"], tr[i].r) ELSE d1
  IN d2

RECURSIVE MarkA(_, _, _, _, _)
MarkA(tr, d, st, i, v) ==
  IF d[i] # "U" THEN [d EXCEPT ![i] = "PANIC"]
  ELSE LET d1 == CloseA(tr, [d EXCEPT ![i] = v], i)
           p  == tr[i].p
           L  == d1[tr[p].l]
           R  == d1[tr[p].r]
       IN IF i = 1 \/ i = st THEN d1
          ELSE CASE tr[p].k = "or" ->
                      IF L = "T" \/ R = "T" THEN MarkA(tr, d1, st, p, "T") ELSE IF L = "F" /\ R = "F" THEN MarkA(tr, d1, st, p, "F") ELSE d1
                 [] tr[p].k = "and" ->
                      IF L = "T" /\ R = "T" THEN MarkA(tr, d1, st, p, "T") ELSE IF L = "F" \/ R = "F" THEN MarkA(tr, d1, st, p, "F") ELSE d1
                 [] tr[p].k = "neor" ->
                      IF L = "U" \/ R = "U" THEN d1 ELSE MarkA(tr, d1, st, p, IF L = "T" \/ R = "T" THEN "T" ELSE "F")
                 [] tr[p].k = "not" -> IF L = "T" THEN MarkA(tr, d1, st, p, "F") ELSE IF L = "F" THEN MarkA(tr, d1, st, p, "T") ELSE d1
                 [] OTHER -> IF L \in {"T", "F"} THEN MarkA(tr, d1, st, p, L) ELSE d1

RECURSIVE ResolveA(_, _, _, _)
ResolveA(tr, d, st, i) ==
  IF d[i] # "U" THEN d
  ELSE IF tr[i].k = "loop" THEN MarkA(tr, d, st, tr[i].l, "F")
  ELSE LET d1 == IF tr[i].r # 0 THEN ResolveA(tr, d, st, tr[i].r) ELSE d
           d2 == IF tr[i].l # 0 THEN ResolveA(tr, d1, st, tr[i].l) ELSE d1
       IN IF d2[i] = "U" THEN MarkA(tr, d2, st, i, "F") ELSE d2

ResetA(tr, d, b) == [i \in DOMAIN d |-> IF i \in Below(tr, b) THEN "U" ELSE d[i]]
=============================================================================
