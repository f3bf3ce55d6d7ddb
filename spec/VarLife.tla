------------------------------ MODULE VarLife ------------------------------
(***************************************************************************)
(* Variables and views as the user sees them.  A variable owns its cells   *)
(* (value and adjoint, column-major); a view designates a range of cells   *)
(* of a variable or of an external buffer.  Cells hold integers (every     *)
(* value used is exactly representable).                                   *)
(*                                                                         *)
(* state [sl |-> slots, ext |-> external buffers [val, adj]]               *)
(* slot  [k |-> "none"] | [k |-> "var", sh, r, c, val, adj]                *)
(*     | [k |-> "moved", sh, r, c]  (may only be assigned to or destroyed) *)
(*     | [k |-> "view", sh, r, c, o, lo]  (cells lo.. of slot o > 0 or of  *)
(*        external buffer -o; o = 0: detached, may only be destroyed)      *)
(* command [op, q, q2, q3, how, n, r, c, sh, x]                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == [k |-> "none"]
Zeros(n) == [j \in 1..n |-> 0]
Init0(nslots, nexts, extlen) ==
  [sl |-> [q \in 1..nslots |-> None],
   ext |-> [j \in 1..nexts |-> [val |-> Zeros(extlen), adj |-> Zeros(extlen)]]]
Cmd0 == [op |-> "", q |-> 1, q2 |-> 1, q3 |-> 1, how |-> 0, n |-> 0, r |-> 1, c |-> 1, sh |-> "s", x |-> <<>>]

Size(o) == o.r * o.c
IsVar(s, q) == s.sl[q].k = "var"
IsView(s, q) == s.sl[q].k = "view"
Usable(s, q) == IsVar(s, q) \/ (IsView(s, q) /\ s.sl[q].o # 0)
IsFree(s, q) == s.sl[q].k = "none"
SameShape(a, b) == a.sh = b.sh /\ a.r = b.r /\ a.c = b.c

\* where the cells of a usable slot live: owner and offset (0-based)
Owner(s, q) == IF IsVar(s, q) THEN q ELSE s.sl[q].o
Base(s, q) == IF IsVar(s, q) THEN 0 ELSE s.sl[q].lo - 1
Store(s, o) == IF o > 0 THEN [val |-> s.sl[o].val, adj |-> s.sl[o].adj] ELSE s.ext[-o]
Val(s, q) == LET st == Store(s, Owner(s, q)) IN SubSeq(st.val, Base(s, q) + 1, Base(s, q) + Size(s.sl[q]))
Adj(s, q) == LET st == Store(s, Owner(s, q)) IN SubSeq(st.adj, Base(s, q) + 1, Base(s, q) + Size(s.sl[q]))
Cells(s, q) == {<<Owner(s, q), Base(s, q) + j>> : j \in 1..Size(s.sl[q])}

Put(old, b, x) == [j \in 1..Len(old) |-> IF j > b /\ j <= b + Len(x) THEN x[j - b] ELSE old[j]]
SetVal(s, q, x) ==
  LET o == Owner(s, q)
      b == Base(s, q)
  IN IF o > 0 THEN [s EXCEPT !.sl[o].val = Put(@, b, x)] ELSE [s EXCEPT !.ext[-o].val = Put(@, b, x)]
SetAdj(s, q, x) ==
  LET o == Owner(s, q)
      b == Base(s, q)
  IN IF o > 0 THEN [s EXCEPT !.sl[o].adj = Put(@, b, x)] ELSE [s EXCEPT !.ext[-o].adj = Put(@, b, x)]
AddAdj(s, q, x) == SetAdj(s, q, [j \in 1..Len(x) |-> Adj(s, q)[j] + x[j]])
\* views of q lose their cells
Detach(s, q) == [s EXCEPT !.sl = [p \in 1..Len(s.sl) |->
                   IF s.sl[p].k = "view" /\ s.sl[p].o = q THEN [s.sl[p] EXCEPT !.o = 0, !.lo = 1] ELSE s.sl[p]]]

(* ---- products, to see that expressions refer to the right cells --------- *)
Bc(xs, j) == IF Len(xs) = 1 THEN xs[1] ELSE xs[j]
Conform(a, b) == a.sh = "s" \/ b.sh = "s" \/ SameShape(a, b)
RECURSIVE SumTo(_, _)
SumTo(xs, j) == IF j = 0 THEN 0 ELSE xs[j] + SumTo(xs, j - 1)
Max2(a, b) == IF a > b THEN a ELSE b
Products(xs, ys) == [j \in 1..Max2(Len(xs), Len(ys)) |-> Bc(xs, j) * Bc(ys, j)]
\* what operand xs receives from sum(xs*ys) with seed w
Share(xs, ys, w) ==
  IF Len(xs) = 1 THEN <<w * SumTo(ys, Len(ys))>> ELSE [j \in 1..Len(xs) |-> w * Bc(ys, j)]

SubRegion(o, how, n) ==   \* 0 element n (0-based) by (), 1 by [], 2 head(n), 3 tail(n)
  CASE how \in {0, 1} -> [sh |-> "s", r |-> 1, off |-> n]
    [] how = 2 -> [sh |-> "v", r |-> n, off |-> 0]
    [] how = 3 -> [sh |-> "v", r |-> n, off |-> o.r - n]

(* ---- the actions ---------------------------------------------------------- *)
Bounded(xs) == \A j \in 1..Len(xs) : xs[j] > -2000 /\ xs[j] < 2000
Guard(s, m) ==
  CASE m.op = "new" -> IsFree(s, m.q)
    [] m.op = "ext" -> IsFree(s, m.q) /\ m.q2 <= Len(s.ext) /\ m.n >= 0 /\ m.n + m.r * m.c <= Len(s.ext[m.q2].val)
    [] m.op \in {"copy", "bag"} -> IsVar(s, m.q) /\ IsFree(s, m.q2)
    [] m.op = "move" -> IsVar(s, m.q) /\ IsFree(s, m.q2)
    [] m.op \in {"assign", "massign"} ->
         IsVar(s, m.q) /\ s.sl[m.q2].k \in {"var", "moved"} /\ SameShape(s.sl[m.q], s.sl[m.q2])
    [] m.op = "view" -> Usable(s, m.q) /\ IsFree(s, m.q2)
    [] m.op = "sub" -> Usable(s, m.q) /\ IsFree(s, m.q2) /\ s.sl[m.q].sh = "v"
                       /\ (IF m.how \in {0, 1} THEN m.n < s.sl[m.q].r ELSE m.n > 0 /\ m.n <= s.sl[m.q].r)
    [] m.op = "rebind" ->  \* an existing view is made to view external cells
         IsView(s, m.q) /\ m.q2 <= Len(s.ext) /\ m.n >= 0 /\ m.n + Size(s.sl[m.q]) <= Len(s.ext[m.q2].val)
    [] m.op = "kill" -> ~IsFree(s, m.q)
    [] m.op \in {"set", "seta"} -> Usable(s, m.q) /\ Len(m.x) = Size(s.sl[m.q])
    [] m.op = "fill" -> Usable(s, m.q)
    [] m.op = "mul" -> Usable(s, m.q) /\ Usable(s, m.q2) /\ Conform(s.sl[m.q], s.sl[m.q2])
                       /\ Bounded(Val(s, m.q)) /\ Bounded(Val(s, m.q2)) /\ Len(m.x) = 1
    [] m.op = "eq" -> /\ Usable(s, m.q) /\ Usable(s, m.q2) /\ Usable(s, m.q3)
                      /\ SameShape(s.sl[m.q3], IF s.sl[m.q].sh = "s" THEN s.sl[m.q2] ELSE s.sl[m.q])
                      /\ Conform(s.sl[m.q], s.sl[m.q2])
                      /\ Bounded(Val(s, m.q)) /\ Bounded(Val(s, m.q2))
                      /\ Cells(s, m.q3) \cap (Cells(s, m.q) \cup Cells(s, m.q2)) = {}
    [] OTHER -> FALSE

View(o, lo, sh, r, c) == [k |-> "view", sh |-> sh, r |-> r, c |-> c, o |-> o, lo |-> lo]
Const(s, q, z) == [j \in 1..Size(s.sl[q]) |-> z]
Apply(s, m) ==
  CASE m.op = "new" ->
         [s EXCEPT !.sl[m.q] = [k |-> "var", sh |-> m.sh, r |-> m.r, c |-> m.c,
             val |-> IF m.how = 1 THEN m.x ELSE Zeros(m.r * m.c), adj |-> Zeros(m.r * m.c)]]
    [] m.op = "ext" -> [s EXCEPT !.sl[m.q] = View(-m.q2, m.n + 1, m.sh, m.r, m.c)]
    [] m.op \in {"copy", "bag"} -> [s EXCEPT !.sl[m.q2] = s.sl[m.q]]
    [] m.op = "move" ->
         LET o == s.sl[m.q]
         IN [Detach(s, m.q) EXCEPT !.sl[m.q2] = o, !.sl[m.q] = [k |-> "moved", sh |-> o.sh, r |-> o.r, c |-> o.c]]
    [] m.op = "assign" ->
         IF m.q = m.q2 THEN s
         \* assigning to a variable keeps its views; a moved-from one gets new cells
         ELSE [s EXCEPT !.sl[m.q2] = s.sl[m.q]]
    [] m.op = "massign" ->
         IF m.q = m.q2 THEN s
         ELSE LET o == s.sl[m.q]
              IN [Detach(Detach(s, m.q), m.q2) EXCEPT !.sl[m.q2] = o,
                     !.sl[m.q] = [k |-> "moved", sh |-> o.sh, r |-> o.r, c |-> o.c]]
    [] m.op = "view" -> LET o == s.sl[m.q] IN [s EXCEPT !.sl[m.q2] = View(Owner(s, m.q), Base(s, m.q) + 1, o.sh, o.r, o.c)]
    [] m.op = "sub" -> LET g == SubRegion(s.sl[m.q], m.how, m.n)
                       IN [s EXCEPT !.sl[m.q2] = View(Owner(s, m.q), Base(s, m.q) + g.off + 1, g.sh, g.r, 1)]
    [] m.op = "rebind" -> [s EXCEPT !.sl[m.q].o = -m.q2, !.sl[m.q].lo = m.n + 1]
    [] m.op = "kill" -> [Detach(s, m.q) EXCEPT !.sl[m.q] = None]
    [] m.op = "set" -> SetVal(s, m.q, m.x)
    [] m.op = "seta" -> SetAdj(s, m.q, m.x)
    [] m.op = "fill" ->  \* zero, ones, zero_adj, ones_adj, reset_adj
         (CASE m.how = 0 -> SetVal(s, m.q, Const(s, m.q, 0)) [] m.how = 1 -> SetVal(s, m.q, Const(s, m.q, 1))
            [] m.how = 2 -> SetAdj(s, m.q, Const(s, m.q, 0)) [] m.how = 3 -> SetAdj(s, m.q, Const(s, m.q, 1))
            [] m.how = 4 -> SetAdj(s, m.q, Const(s, m.q, 0)))
    [] m.op = "mul" ->
         LET xs == Val(s, m.q)
             ys == Val(s, m.q2)
             s1 == AddAdj(s, m.q, Share(xs, ys, m.x[1]))
         IN AddAdj(s1, m.q2, Share(ys, xs, m.x[1]))
    [] m.op = "eq" -> SetVal(s, m.q3, Products(Val(s, m.q), Val(s, m.q2)))
Ret(s, m) == IF m.op = "mul" THEN <<SumTo(Products(Val(s, m.q), Val(s, m.q2)), Max2(Size(s.sl[m.q]), Size(s.sl[m.q2])))>>
             ELSE IF m.op = "eq" THEN Products(Val(s, m.q), Val(s, m.q2)) ELSE <<>>

(* ---- what the user can read in a state ------------------------------------ *)
Look(s, q) == IF Usable(s, q) THEN [sh |-> s.sl[q].sh, r |-> s.sl[q].r, c |-> s.sl[q].c, val |-> Val(s, q), adj |-> Adj(s, q)]
              ELSE [sh |-> "", r |-> 0, c |-> 0, val |-> <<>>, adj |-> <<>>]
Observe(s) == [sl |-> [q \in 1..Len(s.sl) |-> Look(s, q)], ext |-> s.ext]

(* ---- properties ------------------------------------------------------------ *)
WellFormed(s) ==
  \A q \in 1..Len(s.sl) :
    CASE s.sl[q].k = "var" -> Len(s.sl[q].val) = Size(s.sl[q]) /\ Len(s.sl[q].adj) = Size(s.sl[q])
      [] IsView(s, q) /\ s.sl[q].o > 0 -> IsVar(s, s.sl[q].o) /\ s.sl[q].lo >= 1
                                          /\ s.sl[q].lo - 1 + Size(s.sl[q]) <= Size(s.sl[s.sl[q].o])
      [] IsView(s, q) /\ s.sl[q].o < 0 -> s.sl[q].lo >= 1 /\ s.sl[q].lo - 1 + Size(s.sl[q]) <= Len(s.ext[-s.sl[q].o].val)
      [] OTHER -> TRUE
\* a command changes what can be read through a slot only if it names the slot, or the
\* slot shares cells with one it writes
Written(s, m) ==
  CASE m.op \in {"set", "seta", "fill"} -> Cells(s, m.q)
    [] m.op = "mul" -> Cells(s, m.q) \cup Cells(s, m.q2)
    [] m.op = "eq" -> Cells(s, m.q3)
    [] m.op \in {"assign", "massign"} -> IF IsVar(s, m.q2) THEN Cells(s, m.q2) ELSE {}
    [] OTHER -> {}
Named(m) == {m.q, m.q2}
Independent(s, m, t) ==
  \A p \in 1..Len(s.sl) :
     (Usable(s, p) /\ Usable(t, p) /\ Look(s, p) # Look(t, p))
        => (Cells(s, p) \cap Written(s, m) # {} \/ (p = m.q /\ m.op = "rebind"))
Equal(s, m, t) ==
  m.op \in {"copy", "move", "bag", "assign", "massign"} /\ m.q # m.q2
     => Look(t, m.q2) = Look(s, m.q)
=============================================================================
