-------------------------------- MODULE Conc --------------------------------
(* Matchers of one definition side by side: each has slots, tree state and position of its own, the definition is only  *)
(* read.  An operator takes several steps (fetch the operands, convert one of them into a buffer, compare), so that      *)
(* anything shared would show.  Shared = TRUE is the same system with one buffer for all, which has to be refuted.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Shared, Procs, Runs

(* The definition: field k is compared with Def[k]; the verdict is true if all hold *)
Def == <<1, 2>>
Docs == {<<1, 2>>, <<1, 1>>, <<2, 2>>}
Mean(d) == \A k \in DOMAIN Def : d[k] = Def[k]

VARIABLES pc, doc, k, ok, buf, done, def
vars == <<pc, doc, k, ok, buf, done, def>>
B(p) == IF Shared THEN 0 ELSE p

Init == /\ pc = [p \in Procs |-> "idle"] /\ doc = [p \in Procs |-> <<>>] /\ k = [p \in Procs |-> 1] /\ ok = [p \in Procs |-> TRUE]
        /\ buf = [p \in Procs \cup {0} |-> 0] /\ done = [p \in Procs |-> <<>>] /\ def = Def
(* Reset and begin a document *)
Begin(p, d) == /\ pc[p] = "idle" /\ Len(done[p]) < Runs
               /\ pc' = [pc EXCEPT ![p] = "convert"] /\ doc' = [doc EXCEPT ![p] = d] /\ k' = [k EXCEPT ![p] = 1] /\ ok' = [ok EXCEPT ![p] = TRUE]
               /\ UNCHANGED <<buf, done, def>>
Convert(p) == /\ pc[p] = "convert"
              /\ buf' = [buf EXCEPT ![B(p)] = doc[p][k[p]]]
              /\ pc' = [pc EXCEPT ![p] = "compare"] /\ UNCHANGED <<doc, k, ok, done, def>>
Compare(p) == /\ pc[p] = "compare"
              /\ ok' = [ok EXCEPT ![p] = @ /\ buf[B(p)] = def[k[p]]]
              /\ k' = [k EXCEPT ![p] = @ + 1]
              /\ pc' = [pc EXCEPT ![p] = IF k[p] = Len(def) \/ ~ok'[p] THEN "end" ELSE "convert"]
              /\ UNCHANGED <<doc, buf, done, def>>
End(p) == /\ pc[p] = "end"
          /\ done' = [done EXCEPT ![p] = Append(@, <<doc[p], ok[p]>>)]
          /\ pc' = [pc EXCEPT ![p] = "idle"] /\ UNCHANGED <<doc, k, ok, buf, def>>
Next == \E p \in Procs : (\E d \in Docs : Begin(p, d)) \/ Convert(p) \/ Compare(p) \/ End(p)
Spec == Init /\ [][Next]_vars

Correct == \A p \in Procs : \A i \in DOMAIN done[p] : done[p][i][2] = Mean(done[p][i][1])
ReadOnly == def = Def
=============================================================================
