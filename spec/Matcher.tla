------------------------------ MODULE Matcher ------------------------------
(* The matcher (fastMatcher.go): one pass over the document, which runs the operators of each node of the execution tree    *)
(* when its value was read, keeps values in slots, runs what needs several values after the value that has them all in    *)
(* common, iterates the elements of loops with the operator tree stalled at their body, and stops as soon as the verdict is  *)
(* known.  A step is one member, element, operator or loop.  The requirement is Sem:                                      *)
(*   Sound      whatever an expression is decided to be at any time is its meaning on the whole document                 *)
(*   Operands   an operator which runs sees the values that its expression refers to                                      *)
(*   Refines    in the end each result is the meaning, and the status flag is one of those which are allowed             *)
(*   Stalled    nothing is decided outside of a loop while it is being iterated                                          *)
(*   Fresh      after a reset the state is the initial one, wherever the previous document ended                          *)
(* The logs have the expressions and documents (a well-formed set of each); all are run, with a second document after a   *)
(* reset if Again.  Fault names a part which is left out; TLC has to refute the algorithm without it.                     *)
EXTENDS Compile, Json, IOUtils
CONSTANTS Again, Fault

Log == ndJsonDeserialize(IOEnv.VERIF_LOG)
Defs == TLCEval([i \in DOMAIN Log |-> TLCEval(Def(Log[i].es))])
Wants == TLCEval([i \in DOMAIN Log |-> TLCEval([d \in DOMAIN Log[i].docs |-> TLCEval([j \in DOMAIN Log[i].es |-> Full(Log[i].es[j], Log[i].docs[d])])])])

VARIABLES nr, dn, ctl, slots, data, stall, coll, over, runs
vars == <<nr, dn, ctl, slots, data, stall, coll, over, runs>>

D == Defs[nr]
Tree == D.tree
Doc == Log[nr].docs[dn]
Want == Wants[nr][dn]
Empty == [t |-> "empty"]

Top == ctl[Len(ctl)]
Popped == SubSeq(ctl, 1, Len(ctl) - 1)
With(f) == [ctl EXCEPT ![Len(ctl)] = f]
NodeFrame(n, v, env) == [k |-> "node", n |-> n, v |-> v, env |-> env, st |-> "scan", i |-> 1]
LoopFrame(lp, v, env) == [k |-> "loop", lp |-> lp, v |-> v, env |-> env, st |-> "next", i |-> 1, res |-> lp.m = "every", sv |-> stall]

Slots0(d) == [s \in 1..d.slots |-> Empty]
Data0(d) == [b \in DOMAIN d.tree |-> "U"]
Begin(d, v) == IF d.nodes = <<>> THEN <<>> ELSE <<NodeFrame(1, v, RootEnv(v))>>
Init == /\ nr \in DOMAIN Log /\ dn \in DOMAIN Log[nr].docs
        /\ slots = Slots0(D) /\ data = Data0(D) /\ stall = 1 /\ coll = FALSE /\ over = FALSE /\ runs = 1
        /\ ctl = Begin(D, Doc)

Running(k, st) == ~over /\ ctl # <<>> /\ Top.k = k /\ Top.st = st
Known == data[1] # "U"
Nd(n) == D.nodes[n]
(* Members: [k, v] *)
Size(v) == IF v.t = "obj" THEN Len(v.m) ELSE IF v.t = "arr" THEN Len(v.e) ELSE 0
Member(v, i) == IF v.t = "obj" THEN [k |-> v.m[i].k, v |-> v.m[i].v] ELSE [k |-> IdxName(i - 1), v |-> v.e[i]]
ElemOf(n, k) == LET S == {j \in DOMAIN Nd(n).elems : Nd(n).elems[j].k = k} IN IF S = {} THEN 0 ELSE Nd(n).elems[CHOOSE j \in S : TRUE].n
Go(st) == ctl' = With([Top EXCEPT !.st = st, !.i = 1])
NextI == [Top EXCEPT !.i = @ + 1]
Steady == UNCHANGED <<nr, dn, over, runs>>

(* ---- a value is reached ---- *)
Scan == /\ Running("node", "scan")
        /\ Go(IF Top.v.t = "arr" /\ Nd(Top.n).loops # <<>> THEN "loops" ELSE IF Nd(Top.n).elems = <<>> THEN "ops" ELSE "elems")
        /\ UNCHANGED <<slots, data, stall, coll>> /\ Steady
(* The verdict is known: the rest is left unread *)
Return == /\ ~over /\ ctl # <<>> /\ Top.k = "node" /\ Top.st # "scan" /\ Known
          /\ ctl' = Popped /\ UNCHANGED <<slots, data, stall, coll>> /\ Steady
Elem == /\ Running("node", "elems") /\ ~Known
        /\ IF Top.i > Size(Top.v) THEN Go("ops")
           ELSE LET m == Member(Top.v, Top.i)
                    n == ElemOf(Top.n, m.k)
                IN ctl' = IF n = 0 THEN With(NextI) ELSE Append(With(NextI), NodeFrame(n, m.v, Top.env))
        /\ UNCHANGED <<slots, data, stall, coll>> /\ Steady
Keep == /\ Running("node", "store") /\ ~Known
        /\ slots' = IF Nd(Top.n).store = 0 THEN slots ELSE [slots EXCEPT ![Nd(Top.n).store] = Top.v]
        /\ Go(IF Fault = "late" THEN "pop" ELSE "aloops")
        /\ UNCHANGED <<data, stall, coll>> /\ Steady
Leave == /\ Running("node", "pop") /\ ~Known
         /\ ctl' = Popped /\ UNCHANGED <<slots, data, stall, coll>> /\ Steady

(* ---- operators ---- *)
RECURSIVE Value(_, _)
Value(r, act) ==
  CASE r.k = "act" -> act
    [] r.k = "slot" -> slots[r.s]
    [] r.k = "fn" -> Apply(r.e.o, [i \in DOMAIN r.a |-> Value(r.a[i], act)])
    [] OTHER -> Val(r.e, <<>>)
RECURSIVE Lacks(_)
Lacks(r) == CASE r.k = "slot" -> slots[r.s] = Empty [] r.k = "fn" -> \E i \in DOMAIN r.a : Lacks(r.a[i]) [] OTHER -> FALSE
LacksAny(op) == Lacks(op.l) \/ Lacks(op.r)
(* What it can be, with whether it was decided by collation *)
Outcomes(op, act) ==
  IF LacksAny(op) THEN {[x |-> "F", c |-> FALSE]}
  ELSE CASE op.e.o = "ex" -> {[x |-> "T", c |-> FALSE]}
         [] op.e.o = "like" -> LET v == Value(op.l, act) IN IF v.t = "str" THEN {[x |-> IF Contains(op.e.r.r, v.c) THEN "T" ELSE "F", c |-> FALSE]} ELSE {[x |-> "F", c |-> TRUE]}
         [] OTHER -> LET r == Compare(Value(op.l, act), Value(op.r, act), op.l.k = "const", op.r.k = "const")
                     IN {[x |-> x, c |-> c] : x \in Verdicts(OpRes(op.e.o, r)), c \in CASE r.ok = "y" -> {FALSE} [] r.ok = "n" -> {TRUE} [] OTHER -> {TRUE, FALSE}}
Op(op, act) == IF data[op.b] # "U" THEN UNCHANGED <<data, coll>>
               ELSE \E o \in Outcomes(op, act) : data' = MarkA(Tree, data, stall, op.b, o.x) /\ coll' = (coll \/ o.c)
Pending == CASE Top.st = "ops" -> Nd(Top.n).ops [] Top.st = "aops" -> Nd(Top.n).aops [] OTHER -> <<>>
Operate(st, after) ==
  /\ Running("node", st) /\ ~Known
  /\ IF Top.i > Len(Pending) THEN Go(after) /\ UNCHANGED <<data, coll>>
     ELSE Op(Pending[Top.i], Top.v) /\ ctl' = With(NextI)
  /\ UNCHANGED <<slots, stall>> /\ Steady

(* ---- loops ---- *)
Enter(lp, v) ==
  IF v.t # "arr" \/ data[lp.b] # "U" THEN ctl' = With(NextI) /\ UNCHANGED stall
  ELSE ctl' = Append(With(NextI), LoopFrame(lp, v, Top.env)) /\ stall' = IF Fault = "stall" THEN stall ELSE lp.b
Loops == /\ Running("node", "loops") /\ ~Known
         /\ IF Top.i > Len(Nd(Top.n).loops) THEN Go("elems") /\ UNCHANGED stall ELSE Enter(Nd(Top.n).loops[Top.i], Top.v)
         /\ UNCHANGED <<slots, data, coll>> /\ Steady
AfterLoops == /\ Running("node", "aloops") /\ ~Known
              /\ IF Top.i > Len(Nd(Top.n).aloops) THEN Go("aops") /\ UNCHANGED stall
                 ELSE Enter(Nd(Top.n).aloops[Top.i], slots[Nd(Top.n).aloops[Top.i].t.s])
              /\ UNCHANGED <<slots, data, coll>> /\ Steady
(* The slots which are filled while a node is run, those of loops within excepted *)
RECURSIVE Filled(_)
Filled(n) == {Nd(n).store} \cup UNION {Filled(Nd(n).elems[i].n) : i \in DOMAIN Nd(n).elems}
Element == /\ Running("loop", "next") /\ Top.i <= Len(Top.v.e)
           /\ data' = ResetA(Tree, data, Top.lp.b)
           /\ slots' = IF Fault = "slots" THEN slots ELSE [s \in DOMAIN slots |-> IF s \in Filled(Top.lp.n) THEN Empty ELSE slots[s]]
           /\ ctl' = Append(With([Top EXCEPT !.st = "judge"]), NodeFrame(Top.lp.n, Top.v.e[Top.i], Append(Top.env, [v |-> Top.lp.v, x |-> Top.v.e[Top.i]])))
           /\ UNCHANGED <<stall, coll>> /\ Steady
Judge == /\ Running("loop", "judge")
         /\ data' = IF Fault = "unresolved" THEN data ELSE ResolveA(Tree, data, stall, Top.lp.b)
         /\ LET x == data'[Top.lp.b] = "T"
                end == x = (Top.lp.m = "any")
            IN ctl' = With([Top EXCEPT !.i = @ + 1, !.res = x, !.st = IF end THEN "end" ELSE "next"])
         /\ UNCHANGED <<slots, stall, coll>> /\ Steady
Exit == /\ ~over /\ ctl # <<>> /\ Top.k = "loop" /\ (Top.st = "end" \/ (Top.st = "next" /\ Top.i > Len(Top.v.e)))
        /\ data' = MarkA(Tree, ResetA(Tree, data, Top.lp.b), Top.sv, Top.lp.b, IF Top.res THEN "T" ELSE "F")
        /\ stall' = Top.sv /\ ctl' = Popped
        /\ UNCHANGED <<slots, coll>> /\ Steady

(* ---- the end, and the next document ---- *)
Finish == /\ ~over /\ ctl = <<>> /\ over' = TRUE
          /\ data' = IF Tree = <<>> THEN data ELSE ResolveA(Tree, data, stall, 1)
          /\ UNCHANGED <<nr, dn, runs, ctl, slots, stall, coll>>
(* The document turns out to be malformed at any time *)
Broken == /\ Again /\ ~over /\ ctl # <<>> /\ runs = 1 /\ over' = TRUE /\ ctl' = <<>>
          /\ runs' = 0 /\ UNCHANGED <<nr, dn, slots, data, stall, coll>>
Reset == /\ Again /\ over /\ runs < 2 /\ runs' = 2 /\ over' = FALSE
         /\ dn' \in DOMAIN Log[nr].docs
         /\ slots' = (IF Fault = "reset" THEN slots ELSE Slots0(D)) /\ data' = Data0(D) /\ stall' = (IF Fault = "stuck" THEN stall ELSE 1) /\ coll' = FALSE
         /\ ctl' = Begin(D, Log[nr].docs[dn'])
         /\ UNCHANGED nr
Next == Scan \/ Return \/ Elem \/ Operate("ops", "store") \/ Keep \/ Loops \/ AfterLoops \/ Operate("aops", "pop") \/ Leave
        \/ Element \/ Judge \/ Exit \/ Finish \/ Broken \/ Reset
Spec == Init /\ [][Next]_vars

(* ---- what is checked ---- *)
RootIs(i) == IF D.roots[i] = 0 THEN "T" ELSE IF D.roots[i] = -1 THEN "F" ELSE data[D.roots[i]]
Sound == \A i \in DOMAIN Want : RootIs(i) \in {"T", "F"} => RootIs(i) \in Verdicts(Want[i].x)
NoPanic == \A b \in DOMAIN data : data[b] # "PANIC"
Operands == (~over /\ ctl # <<>> /\ Top.k = "node" /\ Top.i <= Len(Pending) /\ ~Known) =>
              LET op == Pending[Top.i]
              IN data[op.b] = "U" =>
                   /\ LacksAny(op) = (HasMissing(op.e.l, Top.env) \/ (op.e.o # "ex" /\ HasMissing(op.e.r, Top.env)))
                   /\ ~LacksAny(op) => /\ Value(op.l, Top.v) = Val(op.e.l, Top.env)
                                       /\ op.e.o \notin {"ex", "like"} => Value(op.r, Top.v) = Val(op.e.r, Top.env)
Stalled == (~over /\ \E i \in DOMAIN ctl : ctl[i].k = "loop") => ~Known
Refines == (over /\ runs > 0) =>
             /\ \A i \in DOMAIN Want : (RootIs(i) = "T") => "T" \in Verdicts(Want[i].x)
             /\ \A i \in DOMAIN Want : (RootIs(i) # "T") => "F" \in Verdicts(Want[i].x)
             /\ (IF coll THEN 1 ELSE 0) \in Statuses(Want)
Formed == WellFormed(D)
Fresh == [][Reset => slots' = Slots0(D) /\ data' = Data0(D) /\ stall' = 1 /\ coll' = FALSE]_vars
=============================================================================
