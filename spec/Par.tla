--------------------------------- MODULE Par --------------------------------
(***************************************************************************)
(* What may happen at the same time.  The footprint of an action on an     *)
(* expression object is what it may read and write of the leaves; the rest *)
(* of what it touches belongs to the object.  Actions on different objects *)
(* whose footprints do not conflict are independent: they may overlap in   *)
(* any way and behave as if taken one after the other, in any order.       *)
(* (ParMC checks exactly this on the operational model, over all           *)
(* interleavings of its memory accesses.)                                  *)
(***************************************************************************)
EXTENDS Session

\* values read; values written; adjoints read and written
ReadsV(P, c) == P.lvs[c.e]
WritesV(P, c) == P.asg[c.e]
TouchesA(P, c) == IF c.op = "fwd" THEN {} ELSE {i \in P.lvs[c.e] : IsVar(P.leaves[i])}
Footprint(P, c) == WritesV(P, c) \cup TouchesA(P, c)        \* leaves that may be different afterwards
Independent(P, c1, c2) ==
  /\ <<c1.e, c1.q>> # <<c2.e, c2.q>>
  /\ WritesV(P, c1) \cap (ReadsV(P, c2) \cup WritesV(P, c2)) = {}
  /\ WritesV(P, c2) \cap ReadsV(P, c1) = {}
  /\ TouchesA(P, c1) \cap TouchesA(P, c2) = {}
\* the state after independent actions from s, given the state after each alone
Merge(P, s, t, c) == \* add the effect t of c (taken alone in s) to a state of the others
  LET W == WritesV(P, c)
      A == TouchesA(P, c)
  IN [s EXCEPT !.val = TLCEval([i \in 1..Len(@) |-> IF i \in W THEN t.val[i] ELSE @[i]]),
               !.adj = TLCEval([i \in 1..Len(@) |-> IF i \in A THEN t.adj[i] ELSE @[i]]),
               !.sl[c.e][c.q] = t.sl[c.e][c.q]]
=============================================================================
