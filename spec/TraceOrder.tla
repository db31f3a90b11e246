----------------------------- MODULE TraceOrder ----------------------------
(* How the outcomes of the comparison operators on the same values have to fit together, whatever the order is.         *)
EXTENDS Values, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.VERIF_LOG)

(* x is cut into blocks of the outcomes of =, !=, <, <=, >, >= *)
Blk(x, k) == [eq |-> x[6 * k + 1] = "T", ne |-> x[6 * k + 2] = "T", lt |-> x[6 * k + 3] = "T",
              le |-> x[6 * k + 4] = "T", gt |-> x[6 * k + 5] = "T", ge |-> x[6 * k + 6] = "T"]

Fits(b) ==
  /\ b.ne = ~b.eq
  /\ b.le = ~b.gt
  /\ b.ge = ~b.lt
  /\ ~(b.lt /\ b.gt)
  /\ b.eq => b.le /\ b.ge
Mirrored(b, r) == b.eq = r.eq /\ b.lt = r.gt /\ b.gt = r.lt /\ b.le = r.ge /\ b.ge = r.le

OneKind(vs) ==
  \/ \A i \in 1..3 : vs[i].t = "num"
  \/ \A i \in 1..3 : vs[i].t = "str"
  \/ \A i \in 1..3 : vs[i].t = "bool"
  \/ \A i \in 1..3 : vs[i].t = "arr"
  \/ \A i \in 1..3 : vs[i].t = "obj"
SameKind(a, b) == a.t = b.t /\ a.t \in {"num", "str", "bool", "arr", "obj"}
Related(b) == b.lt \/ b.eq \/ b.gt
(* Floats within the tolerance of each other *)
NearFlt(a, b) == a.t = "num" /\ b.t = "num" /\ (a.k = "f" \/ b.k = "f") /\ FloatCmp(a, b) \in {0, 9} /\ Cmp(a, b) # 0
Total(vs) == OneKind(vs) /\ \A i, j \in 1..3 : ~NearFlt(vs[i], vs[j])

Ordered(ab, bc, ac) ==
  /\ \A b \in {ab, bc, ac} : b.lt \/ b.eq \/ b.gt
  /\ (ab.lt \/ ab.eq) /\ (bc.lt \/ bc.eq) => ac.lt \/ ac.eq
  /\ (ab.gt \/ ab.eq) /\ (bc.gt \/ bc.eq) => ac.gt \/ ac.eq
  /\ ab.eq /\ bc.eq => ac.eq
  /\ (ab.lt /\ (bc.lt \/ bc.eq)) \/ (ab.eq /\ bc.lt) => ac.lt

Okay(ev) ==
  /\ ev.c = "ok" /\ Len(ev.x) = 60
  /\ \A k \in 0..9 : Fits(Blk(ev.x, k))
  /\ \A k \in 0..4 : Mirrored(Blk(ev.x, 2 * k), Blk(ev.x, 2 * k + 1))
  /\ SameKind(ev.vals[1], ev.vals[2]) => Related(Blk(ev.x, 0))
  /\ SameKind(ev.vals[2], ev.vals[3]) => Related(Blk(ev.x, 2))
  /\ SameKind(ev.vals[1], ev.vals[3]) => Related(Blk(ev.x, 4))
  /\ Total(ev.vals) => Ordered(Blk(ev.x, 0), Blk(ev.x, 2), Blk(ev.x, 4))

VARIABLE l
Init == l = 1 /\ TLCSet(1, 0)
Next == /\ l <= Len(Log)
        /\ (~Okay(Log[l]) => PrintT(<<"REJECT", Log[l].id, "order">>))
        /\ (Total(Log[l].vals) => TLCSet(1, TLCGet(1) + 1))
        /\ (l = Len(Log) => PrintT(<<"STAT", "totally_ordered_triples", TLCGet(1)>>))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
