------------------------------ MODULE BinTree ------------------------------
(* The binary operator tree in which the matcher records results (bintree.go), twice:                                    *)
(*  - the requirement: a state is what was reported so far (given), which loop bodies are being iterated (stack), and   *)
(*    every node's value follows from these by Kleene's logic (Val), nodes below a decided one being closed;             *)
(*  - the algorithm: an array with a state per node, updated by marking upwards and resolving downwards, with the stall  *)
(*    index.                                                                                                            *)
(* TLC checks on all trees of Trees that the algorithm implements the requirement (Refines), that decided nodes never   *)
(* change (Final) and are what every completion of the outstanding results gives (Sound).  With Export, every          *)
(* transition is printed with what has to be seen after it; these are replayed into the real binTreeState.              *)
EXTENDS TreeAlg, FiniteSets, TLC, IOUtils, Json

CONSTANTS MaxNodes,      \* all trees up to this number of nodes
          WithLoops, Export

(* ---- trees: preorder sequences of [k, p, l, r], 0 for none ---- *)
Leaf == [k |-> "leaf", c |-> <<>>]
RECURSIVE Plain(_)
Plain(n) ==
  IF n = 1 THEN {Leaf}
  ELSE {[k |-> "not", c |-> <<t>>] : t \in {u \in Plain(n - 1) : u.k # "not"}}
       \cup (IF WithLoops THEN {[k |-> "loop", c |-> <<t>>] : t \in {u \in Plain(n - 1) : ~(u.k = "loop" /\ u.c[1].k = "loop")}} ELSE {})
       \cup UNION {{[k |-> op, c |-> <<a, b>>] : op \in {"and", "or"}, a \in Plain(i), b \in Plain(n - 1 - i)} : i \in 1..(n - 2)}
(* the operator which keeps the results of several expressions only occurs on top *)
RECURSIVE Tops(_)
Tops(n) == Plain(n) \cup UNION {{[k |-> "neor", c |-> <<a, b>>] : a \in Tops(i), b \in Tops(n - 1 - i)} : i \in 1..(n - 2)}

RECURSIVE Flat(_, _, _)
Flat(t, parent, base) ==
  LET l == IF Len(t.c) > 0 THEN Flat(t.c[1], base, base + 1) ELSE <<>>
      r == IF Len(t.c) > 1 THEN Flat(t.c[2], base, base + 1 + Len(l)) ELSE <<>>
  IN <<[k |-> t.k, p |-> parent, l |-> IF Len(t.c) > 0 THEN base + 1 ELSE 0, r |-> IF Len(t.c) > 1 THEN base + 1 + Len(l) ELSE 0]>> \o l \o r

Trees == UNION {{Flat(t, 0, 1) : t \in Tops(n)} : n \in 1..MaxNodes}

VARIABLES tree, given, stack, fin,     \* requirement
          data, stall, over            \* algorithm
vars == <<tree, given, stack, fin, data, stall, over>>

N == Len(tree)
RECURSIVE Ancs(_, _)
Ancs(tr, i) == IF i = 1 THEN {} ELSE {tr[i].p} \cup Ancs(tr, tr[i].p)
IsBody(tr, i) == i # 1 /\ tr[tr[i].p].k = "loop"
(* the innermost loop body which a node is part of, 0 for none *)
BodyOf(tr, i) == LET bs == {b \in Ancs(tr, i) \cup {i} : IsBody(tr, b)} IN IF bs = {} THEN 0 ELSE CHOOSE b \in bs : \A c \in bs : c <= b
Ranges(s) == {s[i] : i \in 1..Len(s)}
Top(s) == IF s = <<>> THEN 0 ELSE s[Len(s)]

(* ---- the requirement ---- *)
Neg(v) == CASE v = "T" -> "F" [] v = "F" -> "T" [] OTHER -> "U"
RECURSIVE Val(_, _, _, _)
Val(tr, g, s, i) ==
  IF g[i] # "U" THEN g[i]
  ELSE LET L == Val(tr, g, s, tr[i].l)
           R == Val(tr, g, s, tr[i].r)
       IN CASE tr[i].k = "leaf" -> "U"
            [] tr[i].k = "not"  -> Neg(L)
            [] tr[i].k = "loop" -> IF tr[i].l \in Ranges(s) THEN "U" ELSE L
            [] tr[i].k = "and"  -> IF L = "F" \/ R = "F" THEN "F" ELSE IF L = "T" /\ R = "T" THEN "T" ELSE "U"
            [] tr[i].k = "or"   -> IF L = "T" \/ R = "T" THEN "T" ELSE IF L = "F" /\ R = "F" THEN "F" ELSE "U"
            \* each expression has a result of its own, so all of them are waited for
            [] tr[i].k = "neor" -> IF L = "U" \/ R = "U" THEN "U" ELSE IF L = "T" \/ R = "T" THEN "T" ELSE "F"

(* with everything outstanding, loops included, being false *)
RECURSIVE Mean(_, _, _)
Mean(tr, g, i) ==
  IF g[i] # "U" THEN g[i]
  ELSE CASE tr[i].k = "leaf" -> "F"
         [] tr[i].k = "not"  -> Neg(Mean(tr, g, tr[i].l))
         [] tr[i].k = "loop" -> IF g[tr[i].l] # "U" THEN g[tr[i].l] ELSE "F"
         [] tr[i].k = "and"  -> IF Mean(tr, g, tr[i].l) = "T" /\ Mean(tr, g, tr[i].r) = "T" THEN "T" ELSE "F"
         [] OTHER            -> IF Mean(tr, g, tr[i].l) = "T" \/ Mean(tr, g, tr[i].r) = "T" THEN "T" ELSE "F"

(* what is seen of a node: undecided, true, closed (false, or irrelevant), or closed with either *)
Seen1(tr, g, s, i) ==
  LET v == Val(tr, g, s, i)
  IN CASE v = "T" -> "T"
       [] v = "F" -> "N"
       [] OTHER -> IF \E a \in Ancs(tr, i) : Val(tr, g, s, a) # "U" THEN "N" ELSE "U"
(* nodes which have results of their own: the roots of the expressions, and the node which is resolved *)
Keeps(tr, i, root) == i = root \/ \A a \in Ancs(tr, i) : tr[a].k = "neor"
Seen(tr, g, s, f, i) ==
  LET v == Seen1(tr, g, s, i)
      root == IF s = <<>> THEN 1 ELSE Top(s)
  IN IF f /\ v = "U" /\ i \in Below(tr, root)
     THEN LET m == Mean(tr, g, i) IN IF Keeps(tr, i, root) THEN (IF m = "T" THEN "T" ELSE "N") ELSE IF m = "T" THEN "?" ELSE "N"
     ELSE v
SeenAll(tr, g, s, f) == [i \in 1..Len(tr) |-> Seen(tr, g, s, f, i)]

Clear(tr, g, b) == [i \in DOMAIN g |-> IF i \in Below(tr, b) THEN "U" ELSE g[i]]

(* ---- transitions ---- *)
Init == /\ tree \in Trees
        /\ given = [i \in 1..Len(tree) |-> "U"]
        /\ stack = <<>> /\ fin = FALSE
        /\ data = given /\ stall = 1 /\ over = FALSE

(* a string of one character per node *)
RECURSIVE Cat(_, _)
Cat(f, n) == IF n = 0 THEN "" ELSE Cat(f, n - 1) \o f[n]
Nums == [i \in 1..30 |-> ToString(i - 1) \o " "]
State(g, s, f, o) == Cat(g, Len(g)) \o "/" \o Cat([i \in DOMAIN s |-> Nums[s[i]]], Len(s)) \o (IF f THEN "f" ELSE "") \o (IF o THEN "o" ELSE "")
Letter == [leaf |-> "x", not |-> "n", loop |-> "l", and |-> "a", or |-> "o", neor |-> "e"]
(* the kinds of the nodes in preorder determine the tree *)
Step(op, i, v) ==
  /\ Export => PrintT("EDGE|" \o Cat([j \in DOMAIN tree |-> Letter[tree[j].k]], N) \o "|" \o State(given, stack, fin, over)
                      \o "|" \o op \o "|" \o ToString(i - 1) \o "|" \o v
                      \o "|" \o State(given', stack', fin', over') \o "|" \o Cat(SeenAll(tree, given', stack', fin'), N))
  /\ UNCHANGED tree

Mark(i, v) ==
  /\ ~fin /\ ~over
  /\ tree[i].k = "leaf" /\ BodyOf(tree, i) = Top(stack)
  /\ Seen(tree, given, stack, fin, i) = "U"
  /\ given' = [given EXCEPT ![i] = v]
  /\ data' = MarkA(tree, data, stall, i, v)
  /\ UNCHANGED <<stack, fin, stall, over>>
  /\ Step("mark", i, v)

(* A loop whose result is not known yet is entered *)
Enter(i) ==
  /\ ~fin /\ ~over
  /\ tree[i].k = "loop" /\ BodyOf(tree, i) = Top(stack)
  /\ Seen(tree, given, stack, fin, tree[i].l) = "U"
  /\ stack' = Append(stack, tree[i].l)
  /\ stall' = tree[i].l
  /\ UNCHANGED <<given, fin, data, over>>
  /\ Step("enter", tree[i].l, "")

(* The next element *)
Element ==
  /\ stack # <<>>
  /\ given' = Clear(tree, given, Top(stack))
  /\ data' = ResetA(tree, data, Top(stack))
  /\ fin' = FALSE
  /\ UNCHANGED <<stack, stall, over>>
  /\ Step("element", Top(stack), "")

(* The end of the element: what is outstanding is resolved *)
Finish ==
  /\ stack # <<>> /\ ~fin
  /\ fin' = TRUE
  /\ data' = ResolveA(tree, data, stall, Top(stack))
  /\ UNCHANGED <<given, stack, stall, over>>
  /\ Step("finish", Top(stack), "")

(* The loop is left with its result *)
Leave(v) ==
  /\ stack # <<>>
  /\ LET b == Top(stack)
         below == SubSeq(stack, 1, Len(stack) - 1)
     IN /\ given' = [Clear(tree, given, b) EXCEPT ![b] = v]
        /\ stack' = below
        /\ stall' = IF below = <<>> THEN 1 ELSE Top(below)
        /\ data' = MarkA(tree, ResetA(tree, data, b), stall', b, v)
        /\ fin' = FALSE /\ UNCHANGED over
        /\ Step("leave", b, v)

(* The end of the document *)
Resolve ==
  /\ stack = <<>> /\ ~over
  /\ fin' = TRUE /\ over' = TRUE
  /\ data' = ResolveA(tree, data, stall, 1)
  /\ UNCHANGED <<given, stack, stall>>
  /\ Step("resolve", 1, "")

Reset ==
  /\ given' = [i \in 1..N |-> "U"] /\ stack' = <<>> /\ fin' = FALSE /\ over' = FALSE
  /\ data' = given' /\ stall' = 1
  /\ Step("reset", 1, "")

Next == \/ \E i \in 1..N : (\E v \in {"T", "F"} : Mark(i, v)) \/ Enter(i)
        \/ Element \/ Finish \/ (\E v \in {"T", "F"} : Leave(v)) \/ Resolve \/ Reset
Spec == Init /\ [][Next]_vars

(* ---- what is checked ---- *)
ObsA(x) == CASE x = "U" -> {"U"} [] x = "T" -> {"T", "?"} [] x = "F" -> {"N", "?"} [] x = "R" -> {"N", "?"} [] OTHER -> {}
Refines == \A i \in 1..N : Seen(tree, given, stack, fin, i) \in ObsA(data[i])

(* A decided node has the value which every completion of the outstanding results gives *)
Outstanding == {i \in 1..N : given[i] = "U" /\ (tree[i].k = "leaf" \/ IsBody(tree, i)) /\ ~\E a \in Ancs(tree, i) : given[a] # "U"}
Complete(h) == [i \in 1..N |-> IF i \in DOMAIN h THEN h[i] ELSE given[i]]
Sound == \A i \in 1..N : LET v == Val(tree, given, stack, i) IN
           (v # "U" /\ stack = <<>>) => \A h \in [Outstanding -> {"T", "F"}] : Val(tree, Complete(h), <<>>, i) = v
(* and an undecided one is open: both values are possible (an expression list waits for each of its members) *)
Tight == \A i \in 1..N : (stack = <<>> /\ ~fin /\ Seen(tree, given, stack, fin, i) = "U" /\ tree[i].k # "neor") =>
           {Val(tree, Complete(h), <<>>, i) : h \in [Outstanding -> {"T", "F"}]} = {"T", "F"}
(* Marking never changes what is decided; only resetting does *)
Final == [][(\E i \in 1..N : \E v \in {"T", "F"} : Mark(i, v)) \/ Finish \/ Resolve =>
              \A i \in 1..N : data[i] # "U" => data'[i] = data[i]]_vars
(* Resetting a node forgets its own subtree and nothing else *)
Forgets == [][Element => \A i \in 1..N : IF i \in Below(tree, Top(stack)) THEN data'[i] = "U" ELSE data'[i] = data[i]]_vars
=============================================================================
