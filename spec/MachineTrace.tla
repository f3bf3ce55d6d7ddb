---------------------------- MODULE MachineTrace ----------------------------
(***************************************************************************)
(* Does the design (Machine) behave as Session says?  The generated        *)
(* programs and command sequences that are replayed into the real library  *)
(* are executed here by Machine, and every step is judged exactly as a     *)
(* recorded step of the library is: Session's guard, expectation and       *)
(* successor.  Objects are also checked to use their caches exactly.       *)
(*                                                                         *)
(* Input: files IOEnv.TRACE_DIR/<p>.json, p = 1..IOEnv.TRACE_N, each       *)
(*   [id, prog, runs |-> sequence of sequences of commands]                *)
(***************************************************************************)
EXTENDS Machine, Json, IOUtils

TDir == IOEnv.TRACE_DIR
TN == atoi(IOEnv.TRACE_N)

VARIABLES p, u, id, P0, Cmds, l, s, ob, status
vars == <<p, u, id, P0, Cmds, l, s, ob, status>>

Init == /\ p \in 1..TN
        /\ u = 0 /\ l = 0 /\ status = "load"
        /\ id = "" /\ P0 = <<>> /\ Cmds = <<>> /\ s = <<>> /\ ob = <<>>
InModel(Q) == \A e \in 1..Len(Q.ex) : InMachine(Q.ex[e])
Load == /\ status = "load"
        /\ \E D \in {JsonDeserialize(TDir \o "/" \o ToString(p) \o ".json")} :
           \E Q \in {Prep(D.prog)} :
           \E v \in 1..Len(D.runs) :
              /\ u' = v /\ id' = D.id /\ P0' = Q /\ Cmds' = D.runs[v]
              /\ s' = InitSession(Q)
              /\ ob' = [e \in 1..Len(Q.ex) |-> [q \in 1..3 |-> <<>>]]
              /\ status' = IF InModel(Q) THEN "run" ELSE "out"
        /\ l' = 1
        /\ UNCHANGED p

\* execute command c: [ev |-> the event it produces, ob |-> objects, lay |-> layout is right]
Exec(c) ==
  LET new == MakeObj(P0, c.e, s.val)
      ev(ret, val, adj) == [op |-> c.op, e |-> c.e, q |-> c.q, q2 |-> c.q2, i |-> c.i, tmp |-> c.tmp, x |-> c.x, ret |-> ret, val |-> val, adj |-> adj]
      quiet == ev(<<>>, s.val, s.adj)
      keep(o, m) == [o EXCEPT !.cv = m.cv, !.ca = m.ca]
  IN CASE c.op = "set" -> [ev |-> ev(<<>>, [s.val EXCEPT ![c.i] = c.x], s.adj), ob |-> ob, lay |-> TRUE]
       [] c.op = "seta" -> [ev |-> ev(<<>>, s.val, [s.adj EXCEPT ![c.i] = c.x]), ob |-> ob, lay |-> TRUE]
       [] c.op = "rst" -> [ev |-> ev(<<>>, s.val, TLCEval([j \in 1..Len(s.adj) |-> IF c.i \in {0, j} THEN TLCEval([k \in 1..Len(s.adj[j]) |-> R0]) ELSE s.adj[j]])),
                           ob |-> ob, lay |-> TRUE]
       [] c.op \in {"bind", "bag"} -> [ev |-> quiet, ob |-> [ob EXCEPT ![c.e][c.q] = new], lay |-> LayoutOK(new)]
       \* a copied or moved object is bound to caches of its own
       [] c.op \in {"copy", "assign"} -> [ev |-> quiet, ob |-> [ob EXCEPT ![c.e][c.q2] = new], lay |-> LayoutOK(new)]
       [] c.op \in {"move", "massign"} -> [ev |-> quiet, ob |-> IF c.q = c.q2 THEN ob ELSE [ob EXCEPT ![c.e][c.q2] = new, ![c.e][c.q] = <<>>], lay |-> TRUE]
       [] c.op = "kill" -> [ev |-> quiet, ob |-> [ob EXCEPT ![c.e][c.q] = <<>>], lay |-> TRUE]
       [] c.op = "fwd" ->
            LET o == ob[c.e][c.q]
                f == ObjFwd(o, s.val, s.adj)
            IN [ev |-> ev(f.ret, f.m.lv, f.m.la), ob |-> [ob EXCEPT ![c.e][c.q] = keep(o, f.m)], lay |-> TRUE]
       [] c.op = "bwd" ->
            LET o == ob[c.e][c.q]
                m == ObjBwd(o, c.x, s.val, s.adj)
            IN [ev |-> ev(<<>>, m.lv, m.la), ob |-> [ob EXCEPT ![c.e][c.q] = keep(o, m)], lay |-> TRUE]
       [] c.op = "ad" ->
            LET o == IF c.tmp THEN new ELSE ob[c.e][c.q]
                f == ObjFwd(o, s.val, s.adj)
                m == ObjBwd(keep(o, f.m), c.x, f.m.lv, f.m.la)
            IN [ev |-> ev(f.ret, m.lv, m.la), ob |-> IF c.tmp THEN ob ELSE [ob EXCEPT ![c.e][c.q] = keep(o, m)], lay |-> TRUE]

BadAt(exp, obs) ==
  {<<i, k, RShow(exp[i][k].v), RShow(obs[i][k]), RShow(exp[i][k].tol)>> :
      <<i, k>> \in {<<i, k>> \in (1..Len(exp)) \X (1..64) : k <= Len(exp[i]) /\ ~Meets(exp[i][k], obs[i][k])}}
Judge(c) ==
  \* the preconditions come first: outside them nothing is claimed
  IF ~Guard(P0, s, c) THEN [st |-> "skipped", s |-> s, ob |-> ob, msg |-> <<"SKIP", id, u, l, c.op>>]
  ELSE LET d == Exec(c)
           ev == d.ev
           r == RunOf(P0, s, ev)
           x == Exp(P0, s, ev, r)
       IN IF d.lay /\ SeqMeets(x.ret, ev.ret) /\ AllMeets(x.val, ev.val) /\ AllMeets(x.adj, ev.adj)
          THEN [st |-> "run", s |-> After(P0, s, ev, r), ob |-> d.ob, msg |-> <<>>]
          ELSE [st |-> "rejected", s |-> s, ob |-> ob,
                msg |-> <<"REJECT", id, u, l, ev.op, ev.e,
                          IF ~d.lay THEN {<<"LAYOUT">>}
                          ELSE {<<"RESULT", [k \in 1..Len(x.ret) |-> RShow(x.ret[k].v)], [k \in 1..Len(ev.ret) |-> RShow(ev.ret[k])],
                                  BadAt(x.val, ev.val), BadAt(x.adj, ev.adj)>>}>>]
Step ==
  /\ status = "run"
  /\ IF l > Len(Cmds)
     THEN /\ status' = "ok" /\ PrintT(<<"ACCEPT", id, u, l - 1>>)
          /\ UNCHANGED <<p, u, id, P0, Cmds, l, s, ob>>
     ELSE \E o \in {Judge(Cmds[l])} :
            /\ status' = o.st /\ s' = o.s /\ ob' = o.ob
            /\ l' = IF o.st = "run" THEN l + 1 ELSE l
            /\ (IF o.msg = <<>> THEN TRUE ELSE PrintT(o.msg))
            /\ UNCHANGED <<p, u, id, P0, Cmds>>
Next == Load \/ Step
Spec == Init /\ [][Next]_vars
View == <<p, u, l, status>>
Refines == status # "rejected"
=============================================================================
