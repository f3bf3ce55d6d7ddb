------------------------------- MODULE Session ------------------------------
(***************************************************************************)
(* The abstract FastAD session: a program (leaves and expressions) plus    *)
(* the mutable state a user can observe - values and adjoints of every     *)
(* leaf - and, per expression object ("slot"), what its last forward       *)
(* evaluation computed.  Every public call is one action: a guard (the     *)
(* documented preconditions) and an effect.  Effects are given as          *)
(* expectations with error bounds (a value v and a tolerance), because     *)
(* results are floating-point; where nothing may change, the expectation   *)
(* is bitwise equality.                                                    *)
(*                                                                         *)
(* state  [val, adj : per leaf a sequence of doubles,                      *)
(*         sl : per expression, per slot, a slot record]                   *)
(* slot   [st |-> "none" (no object) | "new" (bound, not evaluated)        *)
(*               | "fwd" (evaluated),                                      *)
(*         t |-> result tensor, pre |-> restore information,               *)
(*         seen |-> leaf values just after the forward evaluation,         *)
(*         wild |-> the gradient is unspecified]                           *)
(***************************************************************************)
EXTENDS Denote

(* ---- state --------------------------------------------------------------- *)
NoSlot == [st |-> "none", t |-> <<>>, pre |-> <<>>, seen |-> <<>>, wild |-> FALSE]
NewSlot == [NoSlot EXCEPT !.st = "new"]
ZeroOf(l) == [k \in 1..NElem(l) |-> R0]
InitSession(P) ==
  [val |-> TLCEval([i \in 1..Len(P.leaves) |-> TLCEval(ZeroOf(P.leaves[i]))]),
   adj |-> TLCEval([i \in 1..Len(P.leaves) |-> IF IsVar(P.leaves[i]) THEN TLCEval(ZeroOf(P.leaves[i])) ELSE <<>>]),
   sl  |-> [e \in 1..Len(P.ex) |-> [q \in 1..3 |-> NoSlot]]]

(* ---- expectations -------------------------------------------------------- *)
Exact(x) == [v |-> x, x |-> "same", tol |-> R0]
Kept(x) == [v |-> x, x |-> "bits", tol |-> R0]          \* even the sign of a zero
About(x, err) == [v |-> x, x |-> "close", tol |-> RAdd(Tiny, RMul(KTol, err))]
Meets(z, y) == CASE z.x = "same" -> RSame(y, z.v) [] z.x = "bits" -> RBits(y, z.v) [] z.x = "close" -> RClose(y, z.v, z.tol)
KeptAll(vs) == TLCEval([i \in 1..Len(vs) |-> TLCEval([k \in 1..Len(vs[i]) |-> Kept(vs[i][k])])])
ExactAll(vs) == TLCEval([i \in 1..Len(vs) |-> TLCEval([k \in 1..Len(vs[i]) |-> Exact(vs[i][k])])])
TensorExp(t) == [k \in 1..Len(t.x) |-> About(t.x[k].v, t.x[k].e)]

(* ---- guards --------------------------------------------------------------- *)
AdjZero(s, L) == \A i \in L : \A k \in 1..Len(s.adj[i]) : REq(s.adj[i][k], R0)
SameVals(v1, v2, L) == \A i \in L : \A k \in 1..Len(v1[i]) : RSame(v1[i][k], v2[i][k])
CanFwd(P, s, e, q) == s.sl[e][q].st \in {"new", "fwd"}
CanBwd(P, s, e, q) ==
  LET o == s.sl[e][q] IN
  /\ o.st = "fwd"
  /\ SameVals(o.seen, s.val, P.lvs[e])
  /\ AdjZero(s, P.asg[e])
CanAd(P, s, e, q) == CanFwd(P, s, e, q) /\ AdjZero(s, P.asg[e])

(* ---- forward evaluation ---------------------------------------------------- *)
Run(P, s, e) == Ev(P, P.ex[e], InitStore(P, s.val))
\* expected values of every leaf after evaluating e, given the run r
FwdVals(P, s, e, r) ==
  LET A == P.asg[e]
  IN TLCEval([i \in 1..Len(P.leaves) |->
       IF i \in A THEN TLCEval([k \in 1..Len(s.val[i]) |-> About(r.s.lv[i][k].v, r.s.lv[i][k].e)])
       ELSE TLCEval([k \in 1..Len(s.val[i]) |-> Kept(s.val[i][k])])])
FwdExp(P, s, e, r) == [ret |-> TensorExp(r.t), val |-> FwdVals(P, s, e, r), adj |-> ExactAll(s.adj)]

(* ---- backward evaluation --------------------------------------------------- *)
\* sum over the elements of t of seed times gradient, and its error
RECURSIVE Pull(_, _, _), PullErr(_, _, _)
Pull(t, seed, j) ==
  IF j = 0 THEN <<>> ELSE IF j = 1 THEN RVLin(seed[1], t.x[1].g, R0, <<>>)
  ELSE RVLin(R1, Pull(t, seed, j - 1), seed[j], t.x[j].g)
PullErr(t, seed, j) ==
  IF j = 0 THEN R0
  ELSE Add3(PullErr(t, seed, j - 1),
            Amp(RAbs(seed[j]), SafeH(t.x[j].h)),
            RMul(U, RMulZ(RAbs(seed[j]), RVMax(t.x[j].g))))
NoGradient(t) == \A j \in 1..Len(t.x) : t.x[j].g = <<>>
\* expected adjoints after seeding result t: unchanged bit for bit where the
\* result does not depend on the leaf
BwdAdj(P, s, e, t, seed, wild) ==
  LET L == P.lvs[e]
      n == Len(t.x)
      none == NoGradient(t)
      c == Pull(t, seed, n)
      err == IF wild THEN RInf ELSE PullErr(t, seed, n)
  IN TLCEval([i \in 1..Len(P.leaves) |->
       IF ~IsVar(P.leaves[i]) THEN <<>>
       ELSE IF i \notin L \/ (none /\ ~wild) THEN TLCEval([k \in 1..Len(s.adj[i]) |-> Exact(s.adj[i][k])])
       ELSE TLCEval([k \in 1..Len(s.adj[i]) |->
              LET y == RAdd(s.adj[i][k], RVAt(c, P.off[i] + k))
              IN About(y, Add3(err, RMul(U, RAbs(s.adj[i][k])), RMul(U, RAbs(y))))])])
Restored(P, e, i, d) == IF i \notin P.eqs[e] THEN Kept(d.v) ELSE IF REq(d.e, R0) THEN Exact(d.v) ELSE About(d.v, d.e)
\* a placeholder keeps its value; it may be recomputed, so up to rounding
BwdVals(P, s, e, pre) ==
  TLCEval([i \in 1..Len(P.leaves) |-> TLCEval([k \in 1..Len(s.val[i]) |->
     IF pre[i][k] # <<>> THEN Restored(P, e, i, pre[i][k][1])
     ELSE IF i \in P.eqs[e] THEN About(s.val[i][k], Ulp(s.val[i][k]))
     ELSE Kept(s.val[i][k])])])
BwdExp(P, s, e, q, seed) ==
  LET o == s.sl[e][q]
  IN [ret |-> <<>>, val |-> BwdVals(P, s, e, o.pre), adj |-> BwdAdj(P, s, e, o.t, seed, o.wild)]

\* a compound assignment in a non-scalar result makes the returned view stale
AdRetSpecified(P, e, t) == t.sh = "s" \/ ~P.hop[e]
AdExp(P, s, e, r, seed) ==
  LET fv == FwdVals(P, s, e, r)
  IN [ret |-> TensorExp(r.t),
      val |-> TLCEval([i \in 1..Len(P.leaves) |-> TLCEval([k \in 1..Len(s.val[i]) |->
                 IF r.s.pre[i][k] = <<>> THEN fv[i][k]
                 ELSE Restored(P, e, i, r.s.pre[i][k][1])])]),
      adj |-> BwdAdj(P, s, e, r.t, seed, r.s.wild)]

(* ---- successors, given the observed values -------------------------------- *)
SlotAfterFwd(r, vals) == [st |-> "fwd", t |-> r.t, pre |-> r.s.pre, seen |-> vals, wild |-> r.s.wild]
AfterAd(P, s, e, q, r, fvals) ==
  [s EXCEPT !.sl[e][q] = [SlotAfterFwd(r, fvals) EXCEPT !.st = IF P.hop[e] THEN "new" ELSE "fwd"]]
AfterBwd(P, s, e, q, vals, adjs) ==
  [s EXCEPT !.val = vals, !.adj = adjs,
            !.sl[e][q].seen = TLCEval([i \in 1..Len(vals) |-> IF i \in P.eqs[e] THEN vals[i] ELSE @[i]]),
            !.sl[e][q].st = IF P.hop[e] THEN "new" ELSE "fwd"]
(* ---- events ---------------------------------------------------------------- *)
(* ev = [op, e, q, q2, i, x, tmp] with observations ret, val, adj: the expectation *)
(* of an event, and the successor if it is met                                     *)
SeqMeets(exp, obs) == Len(exp) = Len(obs) /\ \A k \in 1..Len(exp) : Meets(exp[k], obs[k])
AllMeets(exp, obs) == Len(exp) = Len(obs) /\ \A i \in 1..Len(exp) : SeqMeets(exp[i], obs[i])
\* r: the forward evaluation, for the events that contain one
RunOf(P, s, ev) == IF ev.op \in {"fwd", "ad"} THEN Run(P, s, ev.e) ELSE <<>>
Exp(P, s, ev, r) ==
  CASE ev.op = "set" ->     \* write a leaf's value through the public API
         [ret |-> <<>>, val |-> [KeptAll(s.val) EXCEPT ![ev.i] = TLCEval([k \in 1..Len(ev.x) |-> Kept(ev.x[k])])],
          adj |-> ExactAll(s.adj)]
    [] ev.op = "seta" ->
         [ret |-> <<>>, val |-> KeptAll(s.val),
          adj |-> [ExactAll(s.adj) EXCEPT ![ev.i] = TLCEval([k \in 1..Len(ev.x) |-> Exact(ev.x[k])])]]
    [] ev.op = "rst" ->     \* reset_adj of leaf i, or of all leaves (i = 0)
         [ret |-> <<>>, val |-> KeptAll(s.val),
          adj |-> TLCEval([i \in 1..Len(s.adj) |-> IF ev.i \in {0, i} THEN [k \in 1..Len(s.adj[i]) |-> Exact(R0)]
                                                   ELSE TLCEval([k \in 1..Len(s.adj[i]) |-> Exact(s.adj[i][k])])])]
    [] ev.op \in {"bind", "copy", "move", "assign", "massign", "kill", "bag"} ->
         [ret |-> <<>>, val |-> KeptAll(s.val), adj |-> ExactAll(s.adj)]
    [] ev.op = "fwd" -> FwdExp(P, s, ev.e, r)
    [] ev.op = "bwd" -> BwdExp(P, s, ev.e, ev.q, ev.x)
    [] ev.op = "ad"  -> LET x == AdExp(P, s, ev.e, r, ev.x)
                        IN IF AdRetSpecified(P, ev.e, r.t) THEN x
                           ELSE [x EXCEPT !.ret = [k \in 1..Len(x.ret) |-> About(R0, RInf)]]

Guard(P, s, ev) ==
  CASE ev.op = "fwd" -> CanFwd(P, s, ev.e, ev.q)
    [] ev.op = "bwd" -> CanBwd(P, s, ev.e, ev.q)
    [] ev.op = "ad"  -> CanAd(P, s, ev.e, ev.q)
    [] ev.op \in {"copy", "move", "assign", "massign", "bag"} -> s.sl[ev.e][ev.q].st # "none"
    [] OTHER -> TRUE

After(P, s, ev, r) ==
  LET s1 == [s EXCEPT !.val = ev.val, !.adj = ev.adj] IN
  CASE ev.op \in {"bind", "bag"} -> [s1 EXCEPT !.sl[ev.e][ev.q] = NewSlot]
    [] ev.op \in {"copy", "assign"} -> [s1 EXCEPT !.sl[ev.e][ev.q2] = NewSlot]
    [] ev.op \in {"move", "massign"} ->
         IF ev.q = ev.q2 THEN s1
         ELSE [s1 EXCEPT !.sl[ev.e][ev.q2] = NewSlot, !.sl[ev.e][ev.q] = NoSlot]
    [] ev.op = "kill" -> [s1 EXCEPT !.sl[ev.e][ev.q] = NoSlot]
    [] ev.op = "fwd" -> [s1 EXCEPT !.sl[ev.e][ev.q] = SlotAfterFwd(r, ev.val)]
    [] ev.op = "bwd" -> AfterBwd(P, s, ev.e, ev.q, ev.val, ev.adj)
    [] ev.op = "ad" /\ ev.tmp -> s1            \* a temporary object: no slot is involved
    [] ev.op = "ad"  -> AfterAd(P, s1, ev.e, ev.q, r, ev.val)
    [] OTHER -> s1
=============================================================================
