-------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation: is every recorded execution of the real library a     *)
(* behaviour of Session?  One initial state per recorded run; each step    *)
(* consumes one event, whose logged results must meet the expectations of  *)
(* the corresponding Session action.  A run that does not is marked        *)
(* rejected, with the event and the first few discrepancies printed.       *)
(*                                                                         *)
(* Input: files IOEnv.TRACE_DIR/<p>.json, p = 1..IOEnv.TRACE_N, each       *)
(*   [id, prog, runs |-> sequence of sequences of events]                  *)
(* event [op, e, q, (arguments), ret, val, adj, ok, note]                  *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

TDir == IOEnv.TRACE_DIR
TN == atoi(IOEnv.TRACE_N)

VARIABLES p, u, id, P0, Evs, l, s, status
vars == <<p, u, id, P0, Evs, l, s, status>>

Init == /\ p \in 1..TN
        /\ u = 0 /\ l = 0 /\ status = "load"
        /\ id = "" /\ P0 = <<>> /\ Evs = <<>> /\ s = <<>>
Load == /\ status = "load"
        /\ \E D \in {JsonDeserialize(TDir \o "/" \o ToString(p) \o ".json")} :
           \E Q \in {Prep(D.prog)} :
           \E v \in 1..Len(D.runs) :
              /\ u' = v /\ id' = D.id /\ P0' = Q /\ Evs' = D.runs[v]
              /\ s' = InitSession(Q)
        /\ l' = 1 /\ status' = "run"
        /\ UNCHANGED p

\* diagnostics: where an expectation is not met
BadAt(exp, obs) ==
  {<<"leaf", i, k, RShow(exp[i][k].v), RShow(obs[i][k]), RShow(exp[i][k].tol)>> :
      <<i, k>> \in {<<i, k>> \in (1..Len(exp)) \X (1..64) :
          k <= Len(exp[i]) /\ i <= Len(obs) /\ k <= Len(obs[i]) /\ ~Meets(exp[i][k], obs[i][k])}}
BadSeq(exp, obs) ==
  IF Len(exp) # Len(obs) THEN {<<"length", Len(exp), Len(obs)>>}
  ELSE {<<"elem", k, RShow(exp[k].v), RShow(obs[k]), RShow(exp[k].tol)>> :
          k \in {k \in 1..Len(exp) : ~Meets(exp[k], obs[k])}}

\* A guard that fails on the recorded state means the run left the documented
\* preconditions (the generator's prediction and the record differ by rounding):
\* nothing is claimed about the rest of it.
Judge(ev) ==
  IF ~Guard(P0, s, ev) THEN [st |-> "skipped", s |-> s, msg |-> <<"SKIP", id, u, l, ev.op>>]
  ELSE LET r == RunOf(P0, s, ev)
           x == Exp(P0, s, ev, r)
       IN IF ev.ok /\ SeqMeets(x.ret, ev.ret) /\ AllMeets(x.val, ev.val) /\ AllMeets(x.adj, ev.adj)
          THEN [st |-> "run", s |-> After(P0, s, ev, r), msg |-> <<>>]
          ELSE [st |-> "rejected", s |-> s,
                msg |-> <<"REJECT", id, u, l, ev.op, ev.e,
                          IF ~ev.ok THEN {<<"MEMORY", ev.note>>}
                          ELSE {<<"RESULT", BadSeq(x.ret, ev.ret), BadAt(x.val, ev.val), BadAt(x.adj, ev.adj)>>}>>]
Step ==
  /\ status = "run"
  /\ IF l > Len(Evs)
     THEN /\ status' = "ok" /\ PrintT(<<"ACCEPT", id, u, l - 1>>)
          /\ UNCHANGED <<p, u, id, P0, Evs, l, s>>
     ELSE \E o \in {Judge(Evs[l])} :       \* evaluated once
            /\ status' = o.st /\ s' = o.s
            /\ l' = IF o.st = "run" THEN l + 1 ELSE l
            /\ (IF o.msg = <<>> THEN TRUE ELSE PrintT(o.msg))
            /\ UNCHANGED <<p, u, id, P0, Evs>>
Next == Load \/ Step
Spec == Init /\ [][Next]_vars
View == <<p, u, l, status>>
=============================================================================
