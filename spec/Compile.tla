------------------------------ MODULE Compile ------------------------------
(* The compilation of expressions to a definition (transform.go): an execution tree of nodes, one for every field path that *)
(* is read, and the operator tree with a node (bucket) for every operator.                                              *)
(*   nodes[n] = [store, elems, ops, loops, aops, aloops]: the slot in which the value is kept (0: none), the nodes of       *)
(*     members (k: name, n: node), the operators and loops over the value, and those that run after it was scanned         *)
(*   operators [b, e, l, r]: bucket, the expression, its operands ("act": the value at hand, "slot", "const", "fn")         *)
(*   loops [b, m, t, n, v]: bucket of the body, mode, the array ("act" or "slot"), node of the elements, variable           *)
(* A compilation in progress is c = [nodes, tree, slots, act, ctx]: the active bucket and the loops around.                  *)
EXTENDS Sem, TreeAlg

NoNode == [store |-> 0, elems |-> <<>>, ops |-> <<>>, loops |-> <<>>, aops |-> <<>>, aloops |-> <<>>]
Bucket(k, p) == [k |-> k, p |-> p, l |-> 0, r |-> 0]
NewNode(c) == [c EXCEPT !.nodes = Append(@, NoNode)]

RECURSIVE Walk(_, _, _, _)
Walk(c, n, p, i) ==         \* the node of a path, created if need be: [c, n]
  IF i > Len(p) THEN [c |-> c, n |-> n]
  ELSE LET S == {j \in DOMAIN c.nodes[n].elems : c.nodes[n].elems[j].k = p[i]}
           new == Len(c.nodes) + 1
       IN IF S # {} THEN Walk(c, c.nodes[n].elems[CHOOSE j \in S : TRUE].n, p, i + 1)
          ELSE Walk([c EXCEPT !.nodes = Append([@ EXCEPT ![n].elems = Append(@, [k |-> p[i], n |-> new])], NoNode)], new, p, i + 1)

(* The loop which a variable belongs to, by its place in ctx; 0: the document *)
CtxOf(c, v) == IF v = 0 THEN 0 ELSE CHOOSE i \in DOMAIN c.ctx : c.ctx[i].v = v /\ \A j \in DOMAIN c.ctx : c.ctx[j].v = v => j <= i
Cur(c) == Len(c.ctx)
RootOf(c, i) == IF i = 0 THEN 1 ELSE c.ctx[i].n
NodeOf(c, f) == Walk(c, RootOf(c, CtxOf(c, f.v)), f.p, 1)

(* The fields of an expression, without those of the variables vs of loops within *)
RECURSIVE Refs(_, _)
Refs(e, vs) ==
  CASE e.o = "f" -> IF e.v \in vs THEN {} ELSE {[v |-> e.v, p |-> e.p]}
    [] e.o = "fn" -> UNION {Refs(e.a[i], vs) : i \in DOMAIN e.a}
    [] e.o = "not" -> Refs(e.e, vs)
    [] e.o \in {"and", "or"} -> UNION {Refs(e.e[i], vs) : i \in DOMAIN e.e}
    [] e.o \in CmpOps \cup {"ne", "like"} -> Refs(e.l, vs) \cup Refs(e.r, vs)
    [] e.o \in {"ex", "nex"} -> Refs(e.l, vs)
    [] e.o \in {"any", "every", "anyevery"} -> Refs(e.l, vs) \cup Refs(e.b, vs \cup {e.v})
    [] OTHER -> {}

RECURSIVE Common(_, _)
Common(ps, n) == IF (\A p \in ps : Len(p) > n) /\ Cardinality({p[n + 1] : p \in ps}) = 1 THEN Common(ps, n + 1) ELSE n
Longest(ps) == CHOOSE p \in ps : \A q \in ps : Len(q) <= Len(p)

(* Where an operator runs: at the node which all of its fields have in common, after it unless that is the field itself *)
Base(c, e) ==
  LET ps == {r.p : r \in {x \in Refs(e, {}) : CtxOf(c, x.v) = Cur(c)}}
      top == RootOf(c, Cur(c))
  IN IF ps = {} THEN [c |-> c, n |-> top, after |-> FALSE]
     ELSE LET k == Common(ps, 0)
              w == Walk(c, top, SubSeq(Longest(ps), 1, k), 1)
          IN [c |-> w.c, n |-> w.n, after |-> k < Len(Longest(ps))]

Store(c, n) == IF c.nodes[n].store # 0 THEN c ELSE [c EXCEPT !.slots = @ + 1, !.nodes[n].store = c.slots + 1]
Operand(k, s, e, a) == [k |-> k, s |-> s, e |-> e, a |-> a]
NoExpr == [o |-> "none"]

RECURSIVE Ref(_, _, _, _)
RECURSIVE RefAll(_, _, _, _, _)
Ref(c, e, n, after) ==      \* [c, r]
  CASE e.o = "f" -> LET w == NodeOf(c, e)
                    IN IF ~after /\ w.n = n THEN [c |-> w.c, r |-> Operand("act", 0, NoExpr, <<>>)]
                       ELSE LET c2 == Store(w.c, w.n) IN [c |-> c2, r |-> Operand("slot", c2.nodes[w.n].store, NoExpr, <<>>)]
    [] e.o = "fn" -> LET x == RefAll(c, e.a, 1, n, after) IN [c |-> x.c, r |-> Operand("fn", 0, [o |-> e.n], x.r)]
    [] OTHER -> [c |-> c, r |-> Operand("const", 0, e, <<>>)]
RefAll(c, as, i, n, after) ==
  IF i > Len(as) THEN [c |-> c, r |-> <<>>]
  ELSE LET x == Ref(c, as[i], n, after)
           y == RefAll(x.c, as, i + 1, n, after)
       IN [c |-> y.c, r |-> <<x.r>> \o y.r]

AddOp(c, n, after, op) == IF after THEN [c EXCEPT !.nodes[n].aops = Append(@, op)] ELSE [c EXCEPT !.nodes[n].ops = Append(@, op)]
AddLoop(c, n, after, lp) == IF after THEN [c EXCEPT !.nodes[n].aloops = Append(@, lp)] ELSE [c EXCEPT !.nodes[n].loops = Append(@, lp)]
Left(c, k) == LET b == c.act IN [c EXCEPT !.tree = Append([@ EXCEPT ![b].k = k, ![b].l = Len(c.tree) + 1], Bucket("leaf", b)), !.act = Len(c.tree) + 1]
Right(c, b) == [c EXCEPT !.tree = Append([@ EXCEPT ![b].r = Len(c.tree) + 1], Bucket("leaf", b)), !.act = Len(c.tree) + 1]

Comparison(c, e) ==
  LET b == Base(c, e)
      l == Ref(b.c, e.l, b.n, b.after)
      r == IF e.o = "ex" THEN [c |-> l.c, r |-> Operand("none", 0, NoExpr, <<>>)] ELSE Ref(l.c, e.r, b.n, b.after)
  IN AddOp(r.c, b.n, b.after, [b |-> c.act, e |-> e, l |-> l.r, r |-> r.r])

RECURSIVE Put(_, _)
RECURSIVE Many(_, _, _, _)
Many(c, k, es, i) ==        \* operators with several operands lean to the right
  IF i = Len(es) THEN Put(c, es[i]) ELSE Many(Right(Put(Left(c, k), es[i]), c.act), k, es, i + 1)
Looping(c, e) ==
  LET b0 == Base(c, e)
      t0 == Ref(b0.c, e.l, b0.n, b0.after)
      whole == t0.r.k = "act" /\ [v |-> e.l.v, p |-> e.l.p] \in Refs(e.b, {e.v})      \* the body needs the array as well
      c1 == IF whole THEN Store(t0.c, b0.n) ELSE t0.c
      target == IF whole THEN Operand("slot", c1.nodes[b0.n].store, NoExpr, <<>>) ELSE t0.r
      outer == c.ctx # <<>> /\ CtxOf(c, e.l.v) # Cur(c)                               \* an array of a loop around, or the document
      n == IF outer THEN RootOf(c, Cur(c)) ELSE b0.n
      c2 == NewNode(c1)
      c3 == Left(c2, "loop")
      c4 == AddLoop(c3, n, b0.after \/ whole \/ outer, [b |-> c3.act, m |-> e.o, t |-> target, n |-> Len(c2.nodes), v |-> e.v])
      c5 == Put([c4 EXCEPT !.ctx = Append(@, [v |-> e.v, n |-> Len(c2.nodes)])], e.b)
  IN [c5 EXCEPT !.ctx = c.ctx]
Put(c, e) ==
  CASE e.o = "false" -> c                   \* nothing ever marks this bucket
    [] e.o = "true" -> Left(c, "not")
    [] e.o = "not" -> Put(Left(c, "not"), e.e)
    [] e.o \in {"and", "or"} -> Many(c, e.o, e.e, 1)
    [] e.o = "ne" -> Comparison(Left(c, "not"), [e EXCEPT !.o = "eq"])
    [] e.o = "nex" -> Comparison(Left(c, "not"), [e EXCEPT !.o = "ex"])
    [] e.o \in {"any", "every", "anyevery"} -> Looping(c, e)
    [] OTHER -> Comparison(c, e)

(* A list of expressions hangs below operators which keep the results apart; roots: the bucket of each of them, 0 and -1 for *)
(* TRUE and FALSE, which have none                                                                                       *)
RECURSIVE List(_, _, _, _)
List(c, es, i, roots) ==
  IF i = Len(es) THEN [c |-> Put(c, es[i]), roots |-> Append(roots, c.act)]
  ELSE LET c1 == Left(c, "neor")
       IN List(Right(Put(c1, es[i]), c.act), es, i + 1, Append(roots, c1.act))
Start == [nodes |-> <<NoNode>>, tree |-> <<Bucket("leaf", 0)>>, slots |-> 0, act |-> 1, ctx |-> <<>>]
Def(es) ==
  LET gen == SelectSeq(es, LAMBDA e : e.o \notin {"true", "false"})
      x == List(Start, gen, 1, <<>>)
      Nr(i) == Cardinality({j \in 1..i : es[j].o \notin {"true", "false"}})
  IN IF gen = <<>> THEN [nodes |-> <<>>, tree |-> <<>>, slots |-> 0, roots |-> [i \in DOMAIN es |-> IF es[i].o = "true" THEN 0 ELSE -1]]
     ELSE [nodes |-> x.c.nodes, tree |-> x.c.tree, slots |-> x.c.slots,
           roots |-> [i \in DOMAIN es |-> CASE es[i].o = "true" -> 0 [] es[i].o = "false" -> -1 [] OTHER -> x.roots[Nr(i)]]]

(* ---- what a definition is expected to be like ---- *)
Reach(d, n) == {n} \cup {d.nodes[n].elems[i].n : i \in DOMAIN d.nodes[n].elems}
OpsOf(d) == UNION {{d.nodes[n].ops[i] : i \in DOMAIN d.nodes[n].ops} \cup {d.nodes[n].aops[i] : i \in DOMAIN d.nodes[n].aops} : n \in DOMAIN d.nodes}
LoopsOf(d) == UNION {{d.nodes[n].loops[i] : i \in DOMAIN d.nodes[n].loops} \cup {d.nodes[n].aloops[i] : i \in DOMAIN d.nodes[n].aloops} : n \in DOMAIN d.nodes}
WellFormed(d) ==
  /\ \A i \in DOMAIN d.tree : /\ (i = 1) = (d.tree[i].p = 0)
                              /\ d.tree[i].l # 0 => d.tree[d.tree[i].l].p = i
                              /\ d.tree[i].r # 0 => d.tree[d.tree[i].r].p = i
                              /\ (d.tree[i].l # 0) = (d.tree[i].k # "leaf")
                              /\ (d.tree[i].r # 0) = (d.tree[i].k \in {"and", "or", "neor"})
  /\ \A x, y \in OpsOf(d) : x.b = y.b => x = y                                  \* every bucket has one operator
  /\ \A x \in OpsOf(d) : d.tree[x.b].k = "leaf"
  /\ \A x \in LoopsOf(d) : d.tree[d.tree[x.b].p].k = "loop"
  /\ \A m, n \in DOMAIN d.nodes : (m # n /\ d.nodes[m].store # 0) => d.nodes[m].store # d.nodes[n].store
=============================================================================
