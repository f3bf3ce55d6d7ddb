-------------------------------- MODULE Small --------------------------------
(***************************************************************************)
(* All small statement sequences: assignments of two placeholders z, w,    *)
(* compound assignments and conditional compound assignments over two      *)
(* variables x, y and the placeholders assigned so far, and a final        *)
(* expression.  Used exhaustively by MachineMC (design against Session)    *)
(* and by Gen (replayed into the library).                                 *)
(*                                                                         *)
(* An abstract statement is <<kind, f, target, a, b>>; kind is             *)
(*   "="  target = a f b            "o" target f= a                        *)
(*   "i"  if (x < y) target f= a else target        "n"  a * b, dropped    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
LOCAL Pairs(A) == A \X A
\* statements possible when the placeholders in A are assigned
StmtsAt(A) ==
  LET av == {"x", "y"} \cup A
      free == IF "z" \notin A THEN {"z"} ELSE {"w"} \ A
  IN {<<"=", f, t, ab[1], ab[2]>> : f \in {"*", "-"}, t \in free, ab \in Pairs(av)}
     \cup {<<"o", f, t, a, "">> : f \in {"+", "-", "*", "/"}, t \in av \ {"y"}, a \in av}
     \cup {<<"i", f, t, a, "">> : f \in {"+", "*"}, t \in av \ {"y"}, a \in av}
     \cup {<<"n", "*", "", a, "y">> : a \in av}
Assigns(st) == IF st[1] = "=" THEN {st[3]} ELSE {}
RECURSIVE SeqsFrom(_, _)
SeqsFrom(k, A) == IF k = 0 THEN {<<>>}
  ELSE UNION {{<<st>> \o q : q \in SeqsFrom(k - 1, A \cup Assigns(st))} : st \in StmtsAt(A)}
AssignedBy(q) == UNION {Assigns(q[j]) : j \in 1..Len(q)}
Finals == <<"last", "prod", "z", "x">>      \* the last statement itself, a product of everything, a leaf
\* the sequences of k statements that assign or update something
Useful(q) == \E j \in 1..Len(q) : q[j][1] # "n"
SmallSeqs(k) == {q \in SeqsFrom(k, {}) : Useful(q) /\ q[k][1] # "n"}

\* the expression tree; V(name) gives the node of a variable
StmtNode(st, V(_)) ==
  LET bin(f, a, b) == [k |-> "b", f |-> f, a |-> <<a, b>>]
      op == [k |-> "op", f |-> st[2], w |-> V(st[3]), a |-> <<V(st[4])>>]
  IN CASE st[1] = "=" -> [k |-> "eq", w |-> V(st[3]), a |-> <<bin(st[2], V(st[4]), V(st[5]))>>]
       [] st[1] = "o" -> op
       [] st[1] = "n" -> bin("*", V(st[4]), V(st[5]))
RECURSIVE ProdOf(_, _)
ProdOf(xs, j) == IF j = 1 THEN xs[1] ELSE [k |-> "b", f |-> "*", a |-> <<ProdOf(xs, j - 1), xs[j]>>]
\* S: x and y as scalars, for the condition
SmallNode(q, fin, V(_), S(_)) ==
  LET node(st) == IF st[1] = "i"
                  THEN [k |-> "ife", a |-> <<[k |-> "b", f |-> "<", a |-> <<S("x"), S("y")>>],
                                             [k |-> "op", f |-> st[2], w |-> V(st[3]), a |-> <<V(st[4])>>], V(st[3])>>]
                  ELSE StmtNode(st, V)
      A == AssignedBy(q)
      all == <<"x", "y">> \o (IF "z" \in A THEN <<"z">> ELSE <<>>) \o (IF "w" \in A THEN <<"w">> ELSE <<>>)
      ns == [j \in 1..Len(q) |-> node(q[j])]
      last == CASE fin = "last" -> <<>> [] fin = "prod" -> <<ProdOf([j \in 1..Len(all) |-> V(all[j])], Len(all))>>
                [] fin = "x" -> <<V("x")>>
                [] fin = "z" -> <<V(all[Len(all)])>>
      full == ns \o last
  IN IF Len(full) = 1 THEN full[1] ELSE [k |-> "glue", a |-> full]
==============================================================================
