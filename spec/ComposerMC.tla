----------------------------- MODULE ComposerMC -----------------------------
(* The algorithm of Composer fulfils its requirement on all objects up to a size and all sets of keys                    *)
EXTENDS Composer
CONSTANTS MaxNodes, Export
Names == {<<34, 97, 34>>, <<34, 98, 34>>, <<34, 92, 117, 48, 48, 54, 49, 34>>}      \* "a", "b", "\u0061"
(* texts of all values of n nodes; the members of one object have different names *)
RECURSIVE Vals(_)
RECURSIVE Objs(_, _)
RECURSIVE Arrs(_)
Vals(n) == IF n < 1 THEN {} ELSE (IF n = 1 THEN {<<49>>, <<34, 97, 34>>, <<123, 125>>, <<91, 93>>} ELSE {})
           \cup {<<123>> \o x \o <<125>> : x \in Objs(n - 1, Names)} \cup {<<91>> \o x \o <<93>> : x \in Arrs(n - 1)}
Objs(n, names) == IF n < 1 THEN {} ELSE UNION {
                    LET Rest == names \ (IF k = <<34, 98, 34>> THEN {k} ELSE Names \ {<<34, 98, 34>>})
                    IN {k \o <<58>> \o v : v \in Vals(n)} \cup UNION {{k \o <<58>> \o v \o <<44>> \o r : v \in Vals(i), r \in Objs(n - i, Rest)} : i \in 1..(n - 1)}
                    : k \in names}
Arrs(n) == IF n < 1 THEN {} ELSE Vals(n) \cup UNION {{v \o <<44>> \o r : v \in Vals(i), r \in Arrs(n - i)} : i \in 1..(n - 1)}
Sources == UNION {{x \in Vals(n) : x[1] = 123} : n \in 1..MaxNodes}

VARIABLES b, keys
Init == b \in Sources /\ keys \in SUBSET {<<97>>, <<98>>}
Next == UNCHANGED <<b, keys>>
Spec == Init /\ [][Next]_<<b, keys>>
src == Source(b)
Correct == /\ Export => PrintT(<<"SRC", b, keys>>)
           /\ src.c = "ok"
           /\ Copy(b, src.ts, 1, <<>>, keys) = Texts(b, src.ts, Keep(b, src.ts, src.v, keys))
(* removing again removes nothing, and removing in two steps is removing together *)
RemoveFrom(x, ks) == LET s == Source(x) IN Flatten(Texts(x, s.ts, Keep(x, s.ts, s.v, ks)))
Idempotent == RemoveFrom(RemoveFrom(b, keys), keys) = RemoveFrom(b, keys)
Composes == \A k \in keys : RemoveFrom(RemoveFrom(b, {k}), keys \ {k}) = RemoveFrom(b, keys)
=============================================================================
