-------------------------------- MODULE LexMC --------------------------------
(* The automaton of Lex agrees with the grammar, on all texts over an alphabet; and, with Export, the automaton's states *)
(* with a shortest text leading to each of them (view: the state only).                                                 *)
EXTENDS Lex
CONSTANTS Alphabet, MaxLen, Export
VARIABLES b, st
vars == <<b, st>>
Init == b = <<>> /\ st = Start
Next == /\ Len(b) < MaxLen
        /\ \E c \in Alphabet :
             LET d == Delta(st, c)
             IN /\ b' = Append(b, c)
                /\ st' = LET d2 == IF d.q = "back" THEN Delta(Start, c) ELSE d IN IF d2.q \in {"done", "bad"} THEN Start ELSE d2
                /\ Export => d.q # "bad"
                /\ Export => PrintT(<<"ACCESS", b'>>)
Spec == Init /\ [][Next]_vars
Agree == Tokens(b) = Grammar(b, 1)
StateView == st
=============================================================================
