-------------------------------- MODULE ParMC --------------------------------
(***************************************************************************)
(* Two evaluations at the same time, step by step: every access that       *)
(* writes memory (a value or adjoint cell, in a cache or in a leaf) is one *)
(* step, and the steps of the two threads interleave in every way.  When   *)
(* the two are Independent (Par), whatever the interleaving                 *)
(*   - memory ends up as Machine says it does when one is taken after the  *)
(*     other, in either order (Serial), and                                *)
(*   - no step of one touches a cell the other writes (Isolated), that is, *)
(*     there is no data race.                                              *)
(* All pairs of small programs (Small) over leaves of which the second     *)
(* shares some with the first, each taken forward, or forward and backward.*)
(* With IOEnv.MC_SHARE = "cache" the second object takes its cells from    *)
(* the first one's cache, as a copy that does not rebind would: the check  *)
(* must then fail.                                                         *)
(***************************************************************************)
EXTENDS Machine, Par, Small, SequencesExt, IOUtils
K == atoi(IOEnv.MC_STMTS)
Part == atoi(IOEnv.MC_PART)
Parts == atoi(IOEnv.MC_PARTS)
SharedCache == IOEnv.MC_SHARE = "cache"
Leaf(k) == [k |-> k, sh |-> "s", r |-> 1, c |-> 1]
VN1(n) == [k |-> "v", i |-> CASE n = "x" -> 1 [] n = "y" -> 2 [] n = "z" -> 3 [] n = "w" -> 4]
\* the second program: x, y, z, w are its own (5..8) or the first one's
VN2(m, n) == [k |-> "v", i |-> CASE n = "x" -> m[1] [] n = "y" -> m[2] [] n = "z" -> m[3] [] n = "w" -> 8]
Maps == {1, 2, 5} \X {1, 2, 6} \X {3, 7}
Seqs == SetToSeq(SmallSeqs(K))
ProgOf(q1, f1, q2, f2, m) ==
  LET V2(n) == VN2(m, n)
  IN Prep([leaves |-> <<Leaf("var"), Leaf("view"), Leaf("var"), Leaf("view"), Leaf("view"), Leaf("var"), Leaf("view"), Leaf("var")>>,
           ex |-> <<SmallNode(q1, f1, VN1, VN1), SmallNode(q2, f2, V2, V2)>>])
Val0 == <<<<ROf(3)>>, <<ROf(-2)>>, <<ROf(7)>>, <<ROf(7)>>, <<ROf(-5)>>, <<ROf(2)>>, <<ROf(9)>>, <<ROf(9)>>>>
Adj0 == [j \in 1..8 |-> <<ROf(j)>>]
Cmd(op, e) == [op |-> op, e |-> e, q |-> 1]
Seed == <<ROf(2)>>

(* ---- one thread: an agenda of tasks, first first ------------------------------ *)
\* [t |-> task, b |-> bound node, s |-> seed]
Tk(t, b, s) == [t |-> t, b |-> b, s |-> s]
F(b) == Tk("F", b, <<>>)
\* tasks that only unfold, without touching memory
RECURSIVE Unfold(_)
Unfold(g) ==
  IF g = <<>> THEN g
  ELSE LET h == Head(g)
           b == h.b
           r == Tail(g)
       IN CASE h.t = "F" ->
                 Unfold((CASE b.k \in {"var", "con"} -> <<>>
                           [] b.k = "b" -> <<F(b.x[1]), F(b.x[2]), Tk("put", b, <<>>)>>
                           [] b.k = "eq" -> <<F(b.x[1]), Tk("copy", b, <<>>)>>
                           [] b.k = "op" -> <<Tk("save", b, <<>>), F(b.x[1]), Tk("update", b, <<>>)>>
                           [] b.k = "ife" -> <<F(b.x[1]), Tk("branch", b, <<>>)>>
                           [] b.k = "glue" -> [k \in 1..Len(b.x) |-> F(b.x[k])]) \o r)
            [] h.t = "B" /\ b.k = "con" -> Unfold(r)
            [] h.t = "B" /\ b.k = "glue" ->
                 LET L == Len(b.x)
                 IN Unfold([k \in 1..L |-> Tk("B", b.x[L + 1 - k], IF k = 1 THEN h.s ELSE <<R0>>)] \o r)
            [] OTHER -> g
\* one step: the new memory, the tasks it leaves, and the places it reads and writes (of values, of adjoints)
St(m, g, rv, wv, ra, wa) == [m |-> m, g |-> g, rv |-> rv, wv |-> wv, ra |-> ra, wa |-> wa]
Do(h, m) ==
  LET b == h.b
      s == Fill(h.s, 1)
      xa(j) == b.x[j].va
      xv(j) == GetV(m, b.x[j].va)
      op(x, y) == VBin(b.f, x, y)
      w == b.w[1]
  IN CASE h.t = "put" -> St(PutV(m, b.va, Map2(op, xv(1), xv(2))), <<>>, {xa(1), xa(2)}, {b.va}, {}, {})
       [] h.t = "copy" -> St(PutV(m, w, xv(1)), <<>>, {xa(1)}, {w}, {}, {})
       [] h.t = "save" -> St(PutV(m, b.o[1], GetV(m, w)), <<>>, {w}, {b.o[1]}, {}, {})
       [] h.t = "update" -> St(PutV(m, w, Map2(op, GetV(m, w), xv(1))), <<>>, {w, xa(1)}, {w}, {}, {})
       [] h.t = "branch" -> LET y == b.x[IF REq(xv(1)[1], R0) THEN 3 ELSE 2]
                            IN St(m, <<F(y), Tk("take", [b EXCEPT !.x = <<y>>], <<>>)>>, {xa(1)}, {}, {}, {})
       [] h.t = "take" -> St(PutV(m, b.va, xv(1)), <<>>, {xa(1)}, {b.va}, {}, {})
       [] h.t = "add" -> St(AddTo(m, b.aa, s), <<>>, {}, {}, {b.aa}, {b.aa})
       [] h.t = "B" ->
            (CASE b.k = "var" -> St(AddTo(m, b.aa, s), <<>>, {}, {}, {b.aa}, {b.aa})
               [] b.k = "b" /\ Compares(b.f) -> St(m, <<>>, {}, {}, {}, {})
               [] b.k = "b" -> St(PutA(m, b.aa, s), <<Tk("split", b, s)>>, {}, {}, {}, {b.aa})
               [] b.k = "ife" -> St(m, <<Tk("B", b.x[IF REq(xv(1)[1], R0) THEN 3 ELSE 2], s)>>, {xa(1)}, {}, {}, {})
               [] b.k = "eq" -> St(AddTo(m, w, s), <<Tk("hand", b, s)>>, {}, {}, {w}, {w})
               [] b.k = "op" -> St(AddTo(m, w, s), <<Tk("undo", b, s)>>, {}, {}, {w}, {w}))
       [] h.t = "split" -> \* the seeds of both operands, before either is taken
            St(m, <<Tk("B", b.x[2], RSeed(b.f, s, xv(1), xv(2), GetV(m, b.va))), Tk("B", b.x[1], LSeed(b.f, s, xv(1), xv(2)))>>,
               {xa(1), xa(2), b.va}, {}, {}, {})
       [] h.t = "hand" -> St(m, <<Tk("B", b.x[1], GetA(m, w))>>, {}, {}, {w}, {})
       [] h.t = "undo" -> St(PutV(m, w, GetV(m, b.o[1])), <<Tk("keep", b, s)>>, {b.o[1]}, {w}, {}, {})
       [] h.t = "keep" -> St(PutA(m, b.o[2], GetA(m, w)), <<Tk("clear", b, s)>>, {}, {}, {w}, {b.o[2]})
       [] h.t = "clear" -> St(PutA(m, w, <<R0>>), <<Tk("pass", b, s)>>, {}, {}, {}, {w})
       [] h.t = "pass" ->
            LET sd == GetA(m, b.o[2])
                x == GetV(m, w)
                y == xv(1)
            IN St(m, <<Tk("B", b.x[1], RSeed(b.f, sd, x, y, Map2(RDiv, x, y))), Tk("add", [b EXCEPT !.aa = w], LSeed(b.f, sd, x, y))>>,
                  {w, xa(1)}, {}, {b.o[2]}, {})

(* ---- two threads ----------------------------------------------------------------- *)
VARIABLES P0, cmd, obs, mem, ag, rd, wr, when
vars == <<P0, cmd, obs, mem, ag, rd, wr, when>>
\* both objects' cells lie in one cache; the second one's behind the first one's, unless shared
Shift(d, pl) == IF pl.sp = "C" THEN [pl EXCEPT !.lo = @ + d] ELSE pl
RECURSIVE Move(_, _, _)
Move(b, dv, da) == [b EXCEPT !.va = IF b.k = "con" THEN @ ELSE Shift(dv, @), !.aa = Shift(da, @),
                             !.o = IF Len(@) = 2 THEN <<Shift(dv, @[1]), Shift(da, @[2])>> ELSE @,
                             !.x = TLCEval([j \in 1..Len(@) |-> Move(@[j], dv, da)])]
Objs(P) == LET o1 == MakeObj(P, 1, Val0)
               o2 == MakeObj(P, 2, Val0)
               dv == IF SharedCache THEN 0 ELSE o1.nv
               da == IF SharedCache THEN 0 ELSE o1.na
           IN [b |-> <<o1.b, Move(o2.b, dv, da)>>, nv |-> o1.nv + o2.nv, na |-> o1.na + o2.na]
Mem0(o) == [lv |-> Val0, la |-> Adj0, cv |-> [k \in 1..o.nv |-> Garbage], ca |-> [k \in 1..o.na |-> Garbage]]
Agenda(o, c) == <<F(o.b[c.e])>> \o (IF c.op = "ad" THEN <<Tk("B", o.b[c.e], Seed)>> ELSE <<>>)
Init == \E n \in {k \in 1..Len(Seqs) : k % Parts = Part}, f1 \in {"last", "prod"} :
        \E q2 \in SmallSeqs(K), f2 \in {"last", "prod"}, m \in Maps :
        \E op1, op2 \in {"fwd", "ad"} :
          /\ P0 = ProgOf(Seqs[n], f1, q2, f2, m)
          /\ cmd = <<Cmd(op1, 1), Cmd(op2, 2)>>
          /\ Independent(P0, cmd[1], cmd[2])
          /\ obs = Objs(P0)
          /\ mem = Mem0(obs)
          /\ ag = [t \in 1..2 |-> Unfold(Agenda(obs, cmd[t]))]
          /\ rd = <<{}, {}>> /\ wr = <<{}, {}>> /\ when = <<0, 0>>
Cell(side, pl) == IF pl.sp = "K" \/ pl.n = 0 THEN <<"K">> ELSE <<side, pl.sp, pl.i, pl.lo>>
CellsOf(v, a) == {Cell("v", pl) : pl \in v} \cup {Cell("a", pl) : pl \in a}
Step(t) ==
  /\ ag[t] # <<>>
  /\ \E d \in {Do(Head(ag[t]), mem)} :
       /\ mem' = TLCEval(d.m)
       /\ ag' = [ag EXCEPT ![t] = TLCEval(Unfold(d.g \o Tail(ag[t])))]
       /\ rd' = [rd EXCEPT ![t] = @ \cup (CellsOf(d.rv, d.ra) \ {<<"K">>})]
       /\ wr' = [wr EXCEPT ![t] = @ \cup (CellsOf(d.wv, d.wa) \ {<<"K">>})]
       /\ when' = [when EXCEPT ![t] = @ + 1]
  /\ UNCHANGED <<P0, cmd, obs>>
Next == \E t \in 1..2 : Step(t)
Spec == Init /\ [][Next]_vars

(* ---- what must hold ----------------------------------------------------------------- *)
Take(m, c) == LET f == Fwd(obs.b[c.e], m) IN IF c.op = "ad" THEN Bwd(obs.b[c.e], Seed, f) ELSE f
Same(m1, m2) == \A a \in {"lv", "la"} : \A i \in 1..Len(m1[a]) : RSame(m1[a][i][1], m2[a][i][1])
SameC(m1, m2) == \A a \in {"cv", "ca"} : \A i \in 1..Len(m1[a]) : RSame(m1[a][i], m2[a][i])
Done == ag = <<<<>>, <<>>>>
Serial == Done => LET a == Take(Take(Mem0(obs), cmd[1]), cmd[2])
                      b == Take(Take(Mem0(obs), cmd[2]), cmd[1])
                  IN Same(mem, a) /\ Same(mem, b) /\ SameC(mem, a) /\ SameC(mem, b)
Isolated == /\ wr[1] \cap (rd[2] \cup wr[2]) = {}
            /\ wr[2] \cap rd[1] = {}
==============================================================================
