------------------------------- MODULE VarHeap ------------------------------
(***************************************************************************)
(* How variables are stored: heap blocks, owning objects and pointers.     *)
(* A vector or matrix variable owns a block and additionally keeps a       *)
(* pointer through which it is read and written; a scalar variable owns    *)
(* cells inside the object.  Moving hands the block over, assigning        *)
(* re-points.  Checked: this design refines VarLife (the refinement        *)
(* mapping reads every object through its pointer), so after every action  *)
(* each usable object sees exactly its own cells.                          *)
(*                                                                         *)
(* heap  : block id -> [val, adj] or <<>> when released                    *)
(* object: [k, sh, r, c, own (block, 0 none), ptr (block), off]            *)
(***************************************************************************)
EXTENDS VarLife
CONSTANTS NS, NB, MaxLen, Vals, Depth

VARIABLES a, heap, ob, lastcmd
vars == <<a, heap, ob, lastcmd>>

Nob == [k |-> "none", sh |-> "s", r |-> 0, c |-> 0, own |-> 0, ptr |-> 0, off |-> 0]
FreeBlk == CHOOSE b \in 1..NB : heap[b] = <<>> /\ \A z \in 1..NB : heap[z] = <<>> => b <= z
HasBlk(n) == Cardinality({b \in 1..NB : heap[b] = <<>>}) >= n
ExtBlk(j) == NB + j          \* external buffers are blocks that are never released

Read(hp, o) == [val |-> SubSeq(hp[o.ptr].val, o.off + 1, o.off + o.r * o.c),
                adj |-> SubSeq(hp[o.ptr].adj, o.off + 1, o.off + o.r * o.c)]
LooksAt(hp, o) == [sh |-> o.sh, r |-> o.r, c |-> o.c, val |-> Read(hp, o).val, adj |-> Read(hp, o).adj]

Cmds ==
  LET Q == 1..NS
      dims == {<<"s", 1>>} \cup {<<"v", n>> : n \in 1..MaxLen}
      new == {[Cmd0 EXCEPT !.op = "new", !.q = q, !.sh = d[1], !.r = d[2]] : q \in Q, d \in dims}
      ext == {[Cmd0 EXCEPT !.op = "ext", !.q = q, !.sh = d[1], !.r = d[2], !.n = n] : q \in Q, d \in dims, n \in 0..1}
      two(op) == {[Cmd0 EXCEPT !.op = op, !.q = q, !.q2 = p] : q \in Q, p \in Q}
      sub == {[Cmd0 EXCEPT !.op = "sub", !.q = q, !.q2 = p, !.how = h, !.n = n] : q \in Q, p \in Q, h \in {0, 2, 3}, n \in 0..MaxLen}
      kill == {[Cmd0 EXCEPT !.op = "kill", !.q = q] : q \in Q}
      set(op) == {[Cmd0 EXCEPT !.op = op, !.q = q, !.x = [j \in 1..n |-> v]] : q \in Q, n \in 1..MaxLen, v \in Vals}
  IN new \cup ext \cup two("copy") \cup two("move") \cup two("assign") \cup two("massign") \cup two("view")
     \cup sub \cup kill \cup set("set") \cup set("seta")
Write(hp, o, m) ==
  IF m.op = "set" THEN [hp EXCEPT ![o.ptr].val = Put(@, o.off, m.x)]
  ELSE [hp EXCEPT ![o.ptr].adj = Put(@, o.off, m.x)]

\* copying q's cells into block b
Fill(hp, b, o) == [hp EXCEPT ![b] = Read(hp, o)]
Step(m) ==
  LET o == ob[m.q]
      o2 == ob[m.q2]
  IN CASE m.op = "new" -> /\ HasBlk(1)
                          /\ heap' = [heap EXCEPT ![FreeBlk] = [val |-> Zeros(m.r), adj |-> Zeros(m.r)]]
                          /\ ob' = [ob EXCEPT ![m.q] = [k |-> "var", sh |-> m.sh, r |-> m.r, c |-> 1, own |-> FreeBlk, ptr |-> FreeBlk, off |-> 0]]
       [] m.op = "ext" -> /\ ob' = [ob EXCEPT ![m.q] = [k |-> "view", sh |-> m.sh, r |-> m.r, c |-> 1, own |-> 0, ptr |-> ExtBlk(m.q2), off |-> m.n]]
                          /\ UNCHANGED heap
       [] m.op = "copy" -> \* new block, copy the contents of the owned block, re-point
            /\ HasBlk(1)
            /\ heap' = [heap EXCEPT ![FreeBlk] = heap[o.own]]
            /\ ob' = [ob EXCEPT ![m.q2] = [o EXCEPT !.own = FreeBlk, !.ptr = FreeBlk]]
       [] m.op = "move" ->
            IF o.sh = "s" THEN /\ HasBlk(1)
                               /\ heap' = [heap EXCEPT ![FreeBlk] = heap[o.own]]
                               /\ ob' = [ob EXCEPT ![m.q2] = [o EXCEPT !.own = FreeBlk, !.ptr = FreeBlk]]
            ELSE /\ UNCHANGED heap     \* the block changes hands; the source keeps its stale pointer
                 /\ ob' = [ob EXCEPT ![m.q2] = o, ![m.q] = [o EXCEPT !.own = 0]]
       [] m.op = "assign" ->
            IF m.q = m.q2 THEN UNCHANGED <<heap, ob>>
            ELSE IF o2.own = 0 THEN /\ HasBlk(1)
                                    /\ heap' = [heap EXCEPT ![FreeBlk] = heap[o.own]]
                                    /\ ob' = [ob EXCEPT ![m.q2].own = FreeBlk, ![m.q2].ptr = FreeBlk]
            ELSE /\ heap' = [heap EXCEPT ![o2.own] = heap[o.own]]
                 /\ ob' = [ob EXCEPT ![m.q2].ptr = o2.own]
       [] m.op = "massign" ->
            IF m.q = m.q2 THEN UNCHANGED <<heap, ob>>
            ELSE IF o.sh = "s" THEN /\ heap' = [heap EXCEPT ![o2.own] = heap[o.own]] /\ UNCHANGED ob
            ELSE /\ UNCHANGED heap     \* the blocks are exchanged
                 /\ ob' = [ob EXCEPT ![m.q2].own = o.own, ![m.q2].ptr = o.own, ![m.q].own = o2.own]
       [] m.op = "view" -> UNCHANGED heap /\ ob' = [ob EXCEPT ![m.q2] = [o EXCEPT !.k = "view", !.own = 0]]
       [] m.op = "sub" -> LET g == SubRegion(o, m.how, m.n)
                          IN UNCHANGED heap /\ ob' = [ob EXCEPT ![m.q2] = [o EXCEPT !.k = "view", !.own = 0, !.sh = g.sh, !.r = g.r, !.off = o.off + g.off]]
       [] m.op = "kill" -> /\ heap' = IF o.own # 0 THEN [heap EXCEPT ![o.own] = <<>>] ELSE heap
                           /\ ob' = [ob EXCEPT ![m.q] = Nob]
       [] m.op \in {"set", "seta"} -> heap' = Write(heap, o, m) /\ UNCHANGED ob

Init == /\ a = Init0(NS, 1, MaxLen + 1)
        /\ heap = [b \in 1..(NB + 1) |-> IF b <= NB THEN <<>> ELSE [val |-> Zeros(MaxLen + 1), adj |-> Zeros(MaxLen + 1)]]
        /\ ob = [q \in 1..NS |-> Nob]
        /\ lastcmd = <<>>
Next == \E m \in Cmds :
          /\ Guard(a, m)
          /\ Step(m)
          /\ a' = Apply(a, m)
          /\ lastcmd' = m
Spec == Init /\ [][Next]_vars
ViewNoCmd == <<a, heap, ob>>
Shallow == TLCGet("level") <= Depth

Inv == WellFormed(a)
\* no released or re-used block is reachable through a usable object
Refines == \A q \in 1..NS : Usable(a, q) =>
             /\ ob[q].ptr # 0 /\ heap[ob[q].ptr] # <<>>
             /\ LooksAt(heap, ob[q]) = Look(a, q)
Owned == \A q \in 1..NS, p \in 1..NS : q # p /\ ob[q].own # 0 => ob[q].own # ob[p].own
StepProps == [][Independent(a, lastcmd', a') /\ Equal(a, lastcmd', a')]_vars
=============================================================================
