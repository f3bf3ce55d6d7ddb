------------------------------ MODULE MachineMC ------------------------------
(***************************************************************************)
(* Exhaustive: every small statement sequence (Small), under every history *)
(* of at most IOEnv.MC_DEPTH commands.  Machine must behave as Session     *)
(* says: every step meets Session's expectation (Refines), objects use     *)
(* their caches exactly (Layout), and a forward evaluation undone by the   *)
(* matching backward evaluation leaves every leaf that is only updated     *)
(* with its old value (Restores).                                          *)
(***************************************************************************)
EXTENDS Machine, Small, SequencesExt, IOUtils
Depth == atoi(IOEnv.MC_DEPTH)
K == atoi(IOEnv.MC_STMTS)
Part == atoi(IOEnv.MC_PART)       \* this share of the sequences
Parts == atoi(IOEnv.MC_PARTS)
Leaf(k) == [k |-> k, sh |-> "s", r |-> 1, c |-> 1]
Ix(n) == CASE n = "x" -> 1 [] n = "y" -> 2 [] n = "z" -> 3 [] n = "w" -> 4
VN(n) == [k |-> "v", i |-> Ix(n)]
AllSeqs == SetToSeq(SmallSeqs(K))
ProgOf(q, fin) == Prep([leaves |-> <<Leaf("var"), Leaf("view"), Leaf("var"), Leaf("view")>>, ex |-> <<SmallNode(q, fin, VN, VN)>>])

VARIABLES n, fin, P0, s, ob, hist, ok, lay
vars == <<n, fin, P0, s, ob, hist, ok, lay>>
Start(Q) == [InitSession(Q) EXCEPT !.val = <<<<ROf(3)>>, <<ROf(-2)>>, <<ROf(7)>>, <<ROf(7)>>>>, !.sl[1][1] = NewSlot]
Init == /\ n \in {m \in 1..Len(AllSeqs) : m % Parts = Part}
        /\ fin \in {Finals[j] : j \in 1..Len(Finals)}
        /\ P0 = ProgOf(AllSeqs[n], fin)
        /\ s = Start(P0)
        /\ ob = MakeObj(P0, 1, s.val)
        /\ hist = <<>> /\ ok = TRUE /\ lay = LayoutOK(ob)
C(op, i, x) == [op |-> op, e |-> 1, q |-> 1, q2 |-> 0, i |-> i, tmp |-> FALSE, x |-> x]
Commands == {C("set", 1, <<R0>>), C("set", 2, <<ROf(5)>>), C("rst", 0, <<>>), C("fwd", 0, <<>>), C("bwd", 0, <<ROf(2)>>), C("ad", 0, <<R1>>)}
keep(o, m) == [o EXCEPT !.cv = m.cv, !.ca = m.ca]
Exec(c) ==
  CASE c.op = "set" -> [ret |-> <<>>, val |-> [s.val EXCEPT ![c.i] = c.x], adj |-> s.adj, ob |-> ob]
    [] c.op = "rst" -> [ret |-> <<>>, val |-> s.val, adj |-> [j \in 1..4 |-> <<R0>>], ob |-> ob]
    [] c.op = "fwd" -> LET f == ObjFwd(ob, s.val, s.adj) IN [ret |-> f.ret, val |-> f.m.lv, adj |-> f.m.la, ob |-> keep(ob, f.m)]
    [] c.op = "bwd" -> LET m == ObjBwd(ob, c.x, s.val, s.adj) IN [ret |-> <<>>, val |-> m.lv, adj |-> m.la, ob |-> keep(ob, m)]
    [] c.op = "ad" -> LET f == ObjFwd(ob, s.val, s.adj)
                          m == ObjBwd(keep(ob, f.m), c.x, f.m.lv, f.m.la)
                      IN [ret |-> f.ret, val |-> m.lv, adj |-> m.la, ob |-> keep(ob, m)]
Do(c) ==
  /\ Guard(P0, s, c)
  /\ \E d \in {Exec(c)} :
     \E ev \in {[op |-> c.op, e |-> 1, q |-> 1, q2 |-> 0, i |-> c.i, tmp |-> FALSE, x |-> c.x, ret |-> d.ret, val |-> d.val, adj |-> d.adj]} :
     \E r \in {RunOf(P0, s, ev)} :
     \E x \in {Exp(P0, s, ev, r)} :
        /\ ok' = (SeqMeets(x.ret, d.ret) /\ AllMeets(x.val, d.val) /\ AllMeets(x.adj, d.adj))
        /\ s' = After(P0, s, ev, r)
        /\ ob' = d.ob
  /\ hist' = Append(hist, <<c.op, c.i>>)
  /\ UNCHANGED <<n, fin, P0, lay>>
Next == Len(hist) < Depth /\ \E c \in Commands : Do(c)
Spec == Init /\ [][Next]_vars
View == <<n, fin, hist>>
Refines == ok
Layout == lay
==============================================================================
