------------------------------- MODULE Denote -------------------------------
(***************************************************************************)
(* The meaning of FastAD expressions: a big-step semantics on tensors of   *)
(* Dual elements.  Ev(P, n, s) evaluates expression n in store s and gives *)
(* the resulting tensor and store; gradients ride along, so the gradient   *)
(* of every result with respect to every variable element, and with        *)
(* respect to every placeholder at its assignment, is part of the meaning. *)
(*                                                                         *)
(* Expressions are records [k |-> kind, ...]:                              *)
(*   v (leaf i), sub (part of vector leaf i), hole (iteration variable),   *)
(*   chole (iteration variable over plain numbers),                        *)
(*   con (constant), u, b, pow, ife, eq, op, glue, sum, prod, norm, it     *)
(*   (iterator-range sum/prod/for_each), dot, tr, det, logdet, stat.       *)
(* P is the program: P.leaves[i] = [k, sh, r, c, ...]; k is "var", "view"  *)
(* (variables) or "cview" (externally owned constant data).                *)
(*                                                                         *)
(* A tensor is [sh |-> "s"|"v"|"m", r, c, x |-> elements column-major].    *)
(* A store is [lv |-> contents of every leaf, pre |-> for every leaf       *)
(* element the contents before its first compound assignment, hole, ch     *)
(* |-> what the variables of the enclosing iterations stand for,           *)
(* wild: a statement whose value is not used had no finite derivative].     *)
(***************************************************************************)
EXTENDS Dual, FiniteSets

T(sh, r, c, x) == [sh |-> sh, r |-> r, c |-> c, x |-> x]
Scl(d) == T("s", 1, 1, <<d>>)
NElem(l) == l.r * l.c
At(t, i, j) == t.x[(j - 1) * t.r + i]
MkMat(sh, r, c, F(_, _)) ==
  T(sh, r, c, TLCEval([k \in 1..(r * c) |-> F(((k - 1) % r) + 1, ((k - 1) \div r) + 1)]))

(* directions: one per element of every variable leaf, in order *)
IsVar(l) == l.k # "cview"
RECURSIVE DirOff(_, _)
DirOff(leaves, i) == IF i = 1 THEN 0
                     ELSE DirOff(leaves, i - 1) + (IF IsVar(leaves[i - 1]) THEN NElem(leaves[i - 1]) ELSE 0)
NDir(leaves) == DirOff(leaves, Len(leaves) + 1)

(* ---- static facts about expressions ------------------------------------ *)
RangeOf(q) == {q[k] : k \in 1..Len(q)}
\* leaves occurring in n
RECURSIVE LeavesIn(_)
LeavesIn(n) == (IF n.k \in {"v", "sub"} THEN {n.i} ELSE {})
          \cup (IF "a" \in DOMAIN n THEN UNION {LeavesIn(n.a[j]) : j \in 1..Len(n.a)} ELSE {})
          \cup (IF "w" \in DOMAIN n THEN LeavesIn(n.w) ELSE {})
          \cup (IF "ls" \in DOMAIN n THEN UNION {RangeOf(n.ls[j]) : j \in 1..Len(n.ls)} ELSE {})
\* leaves written by an assignment of kind ks in n (stk: the lists of the enclosing iterations)
RECURSIVE AssignedIn(_, _, _)
AssignedIn(n, stk, ks) ==
  (IF n.k \in ks THEN IF n.w.k = "hole" THEN RangeOf(stk[n.w.lv][n.w.j]) ELSE {n.w.i} ELSE {})
  \cup (IF "a" \in DOMAIN n
          THEN LET st2 == IF n.k = "it" THEN Append(stk, n.ls) ELSE stk
               IN UNION {AssignedIn(n.a[j], st2, ks) : j \in 1..Len(n.a)}
          ELSE {})
RECURSIVE HasOpIn(_)
HasOpIn(n) == n.k = "op" \/ ("a" \in DOMAIN n /\ \E j \in 1..Len(n.a) : HasOpIn(n.a[j]))
\* constant-only subexpressions are folded when the expression is built
RECURSIVE IsConstIn(_, _)
IsConstIn(leaves, n) ==
  CASE n.k = "con" -> TRUE
    [] n.k = "chole" -> TRUE
    [] n.k \in {"v", "sub"} -> ~IsVar(leaves[n.i])
    [] n.k \in {"hole", "eq", "op"} -> FALSE
    [] OTHER -> \A j \in 1..Len(n.a) : IsConstIn(leaves, n.a[j])
\* leaves (constant views) read when the expression is built
RECURSIVE FoldedIn(_, _)
FoldedIn(leaves, n) ==
  IF n.k \in {"con", "v", "sub", "hole", "chole"} THEN {}
  ELSE IF IsConstIn(leaves, n) THEN LeavesIn(n)
  ELSE IF n.k = "stat"       \* precomputes what depends on constant arguments only
    THEN UNION {IF IsConstIn(leaves, n.a[j]) THEN LeavesIn(n.a[j]) ELSE FoldedIn(leaves, n.a[j]) : j \in 1..Len(n.a)}
  ELSE UNION {FoldedIn(leaves, n.a[j]) : j \in 1..Len(n.a)}

(* P with direction offsets and the static facts of every expression attached *)
PerExpr(P, F(_)) == TLCEval([e \in 1..Len(P.ex) |-> TLCEval(F(P.ex[e]))])
Prep(P) == [leaves |-> P.leaves, ex |-> P.ex, D |-> NDir(P.leaves),
            off |-> TLCEval([i \in 1..Len(P.leaves) |-> DirOff(P.leaves, i)]),
            lvs |-> PerExpr(P, LeavesIn),
            asg |-> PerExpr(P, LAMBDA n : AssignedIn(n, <<>>, {"eq", "op"})),
            eqs |-> PerExpr(P, LAMBDA n : AssignedIn(n, <<>>, {"eq"})),
            hop |-> PerExpr(P, HasOpIn),
            fold |-> PerExpr(P, LAMBDA n : FoldedIn(P.leaves, n))]

LeafDuals(P, i, val) ==
  IF IsVar(P.leaves[i])
    THEN TLCEval([k \in 1..NElem(P.leaves[i]) |-> DVar(val[k], P.D, P.off[i] + k)])
    ELSE TLCEval([k \in 1..NElem(P.leaves[i]) |-> DCon(val[k])])

InitStore(P, vals) ==
  [lv   |-> TLCEval([i \in 1..Len(P.leaves) |-> LeafDuals(P, i, vals[i])]),
   pre  |-> TLCEval([i \in 1..Len(P.leaves) |-> [k \in 1..NElem(P.leaves[i]) |-> <<>>]]),
   hole |-> <<>>, ch |-> <<>>, wild |-> FALSE]

(* ---- which part of which leaf a leaf-like node denotes ----------------- *)
LeafOf(n, s) == IF n.k = "hole" THEN s.hole[n.lv][n.j] ELSE n.i
Region(P, n, s) ==
  LET i == LeafOf(n, s)
      l == P.leaves[i]
      N == NElem(l)
  IN IF n.k \in {"v", "hole"} THEN [i |-> i, lo |-> 1, n |-> N, sh |-> l.sh, r |-> l.r, c |-> l.c]
     ELSE CASE n.how \in {"idx", "call"} -> [i |-> i, lo |-> n.n + 1, n |-> 1, sh |-> "s", r |-> 1, c |-> 1]
            [] n.how = "head" -> [i |-> i, lo |-> 1, n |-> n.n, sh |-> "v", r |-> n.n, c |-> 1]
            [] n.how = "tail" -> [i |-> i, lo |-> N - n.n + 1, n |-> n.n, sh |-> "v", r |-> n.n, c |-> 1]
            \* a part of a part: tail(n) of head(m)
            [] n.how = "headtail" -> [i |-> i, lo |-> n.m - n.n + 1, n |-> n.n, sh |-> "v", r |-> n.n, c |-> 1]
ReadRegion(g, s) == T(g.sh, g.r, g.c, SubSeq(s.lv[g.i], g.lo, g.lo + g.n - 1))
WriteRegion(g, s, x) ==
  [s EXCEPT !.lv[g.i] = TLCEval([k \in 1..Len(s.lv[g.i]) |->
      IF k >= g.lo /\ k < g.lo + g.n THEN x[k - g.lo + 1] ELSE s.lv[g.i][k]])]
SaveRegion(g, s) ==
  [s EXCEPT !.pre[g.i] = TLCEval([k \in 1..Len(s.lv[g.i]) |->
      IF k >= g.lo /\ k < g.lo + g.n /\ s.pre[g.i][k] = <<>> THEN <<s.lv[g.i][k]>> ELSE s.pre[g.i][k]])]

(* ---- elementwise ------------------------------------------------------- *)
TUn(f, t) == T(t.sh, t.r, t.c, TLCEval([k \in 1..Len(t.x) |-> DUn(f, t.x[k])]))
TBin(f, a, b) ==
  IF a.sh = "s" /\ b.sh # "s"
    THEN T(b.sh, b.r, b.c, TLCEval([k \in 1..Len(b.x) |-> DBin(f, a.x[1], b.x[k])]))
  ELSE IF b.sh = "s" /\ a.sh # "s"
    THEN T(a.sh, a.r, a.c, TLCEval([k \in 1..Len(a.x) |-> DBin(f, a.x[k], b.x[1])]))
  ELSE T(a.sh, a.r, a.c, TLCEval([k \in 1..Len(a.x) |-> DBin(f, a.x[k], b.x[k])]))
TPow(n, t) == T(t.sh, t.r, t.c, TLCEval([k \in 1..Len(t.x) |-> DPow(n, t.x[k])]))
TPoison(t) == T(t.sh, t.r, t.c, TLCEval([k \in 1..Len(t.x) |-> DPoison(t.x[k])]))
TTrans(t) == MkMat("m", t.c, t.r, LAMBDA i, j : At(t, j, i))
RECURSIVE RowCol(_, _, _, _, _)
RowCol(a, b, i, j, k) ==
  IF k = 1 THEN DMul(At(a, i, 1), At(b, 1, j))
  ELSE DAdd(RowCol(a, b, i, j, k - 1), DMul(At(a, i, k), At(b, k, j)))
TDot(a, b) == MkMat(b.sh, a.r, b.c, LAMBDA i, j : RowCol(a, b, i, j, a.c))

(* ---- linear algebra by elimination on Dual elements --------------------- *)
ExactZero(d) == REq(d.v, R0) /\ REq(d.e, R0)
NearZero(d) == ~RLt(RMul(KTol, d.e), RAbs(d.v))        \* not provably non-zero
Minor(t, p, q) == \* Schur complement of entry (p, q)
  LET piv == At(t, p, q)
      ii(i) == IF i < p THEN i ELSE i + 1
      jj(j) == IF j < q THEN j ELSE j + 1
  IN MkMat("m", t.r - 1, t.c - 1,
        LAMBDA i, j : DSub(At(t, ii(i), jj(j)),
                           DMul(DDiv(At(t, ii(i), q), piv), At(t, p, jj(j)))))
\* row of the largest entry in column 1
PivRow(t) == CHOOSE p \in 1..t.r : \A q \in 1..t.r : ~RLt(RAbs(At(t, p, 1).v), RAbs(At(t, q, 1).v))
RECURSIVE TDet(_)
TDet(t) ==
  IF t.r = 1 THEN At(t, 1, 1)
  ELSE LET p == PivRow(t)
           piv == At(t, p, 1)
       IN IF ExactZero(piv) THEN DInt(0)
          ELSE IF NearZero(piv) THEN DPoison(piv)
          ELSE LET d == DMul(piv, TDet(Minor(t, p, 1)))
               IN IF p % 2 = 0 THEN DNeg(d) ELSE d
\* the same pivots, not multiplied: [sing: "no", "yes" or "amb"; piv]
RECURSIVE TPivs(_)
TPivs(t) ==
  IF t.r = 0 THEN [sing |-> "no", piv |-> <<>>]
  ELSE LET p == PivRow(t)
           piv == At(t, p, 1)
       IN IF ExactZero(piv) THEN [sing |-> "yes", piv |-> <<>>]
          ELSE IF NearZero(piv) THEN [sing |-> "amb", piv |-> <<>>]
          ELSE IF t.r = 1 THEN [sing |-> "no", piv |-> <<piv>>]
          ELSE LET rest == TPivs(Minor(t, p, 1)) IN [rest EXCEPT !.piv = <<piv>> \o @]
\* Eliminate k leading rows/columns without pivoting:
\* [ok: all pivots positive; amb: undecidable; piv; m: what remains]
RECURSIVE Elim(_, _)
Elim(t, k) ==
  IF k = 0 THEN [ok |-> TRUE, amb |-> FALSE, piv |-> <<>>, m |-> t]
  ELSE LET p == At(t, 1, 1)
       IN IF ~RLt(R0, p.v) \/ NearZero(p)
            THEN [ok |-> FALSE, amb |-> NearZero(p) /\ ~ExactZero(p), piv |-> <<>>, m |-> t]
            ELSE LET rest == Elim(Minor(t, 1, 1), k - 1)
                 IN [rest EXCEPT !.piv = <<p>> \o @]
\* a decomposition rounds even where elimination is exact (square roots)
Rounded(d) == [d EXCEPT !.e = RAdd(@, RMul(R2, Ulp(d.v))), !.h = RAdd(@, RMul(U, RVMax(d.g)))]
DLogSum(ds) == DSum([k \in 1..Len(ds) |-> DUn("log", Rounded(ds[k]))])

(* pol = "lu": any matrix; "ldlt": symmetric definite; "llt": positive     *)
(* definite.  Outside the policy's domain nothing is specified but that no *)
(* gradient is propagated (value poisoned).                                *)
\* A decomposition counts pivots that are very small relative to the entries as
\* zero: such a matrix may be treated as singular, which leaves its gradient open.
NumRank(piv, t, d) ==
  IF \E k \in 1..Len(piv) : \E j \in 1..Len(t.x) : ~RLt(RMul(RDec("1e-11"), RAbs(t.x[j].v)), RAbs(piv[k].v))
    THEN DNoGrad(d) ELSE d
DAbs(d) == IF RLt(d.v, R0) THEN DNeg(d) ELSE d
\* products of n entries may leave the range of the numbers
RECURSIVE PowBig(_, _)
PowBig(x, n) == IF n = 0 THEN R1 ELSE RMul(x, PowBig(x, n - 1))
Overflows(t) == \E k \in 1..Len(t.x) : ~RIsFin(PowBig(RMul(R2, RAbs(t.x[k].v)), t.r))
Det(log, pol, t) ==
  LET d == TDet(t)
      q == TPivs(t)
      \* rejected: value unspecified, no gradient
      Reject == [DCon(d.v) EXCEPT !.e = RInf]
  IN IF log       \* defined even where the determinant leaves the range of the numbers
       THEN CASE q.sing = "yes" -> DCon(RNInf)
              [] q.sing = "amb" -> DPoison(d)
              [] pol = "llt" /\ ~Elim(t, t.r).ok -> Reject
              [] OTHER -> NumRank(q.piv, t, DLogSum([k \in 1..Len(q.piv) |-> DAbs(q.piv[k])]))
     ELSE IF Overflows(t) THEN DPoison(d)
     ELSE IF REq(d.v, R0) /\ REq(d.e, R0) THEN DCon(R0)
     ELSE IF NearZero(d) THEN DPoison(d)
     ELSE IF pol = "llt" /\ ~Elim(t, t.r).ok THEN Reject
     ELSE NumRank(q.piv, t, Rounded(d))

(* ---- log densities (up to their additive constants) --------------------- *)
Bc(t, k) == IF t.sh = "s" THEN t.x[1] ELSE t.x[k]       \* broadcast
MaxLen(ts) == LET S == {Len(ts[j].x) : j \in 1..Len(ts)}
              IN CHOOSE m \in S : \A q \in S : q <= m
OutOfSupport == DCon(RNInf)
\* value of a case split that is decided only up to rounding
Decide(amb, ok, d) == IF amb THEN DPoison(OutOfSupport) ELSE IF ok THEN d ELSE OutOfSupport
PosAmb(d) == RLt(R0, d.e) /\ NearZero(d)
PosOk(d) == RLt(R0, d.v)

Normal(x, m, s) ==
  IF s.sh # "m"
  THEN LET n == Len(x.x)
           \* exact up to a rounding of the observation and the mean
           off(k) == RAdd(Ulp(Bc(x, k).v), Ulp(Bc(m, k).v))
           diff(k) == [DSub(Bc(x, k), Bc(m, k)) EXCEPT !.e = RAdd(@, off(k))]
           one(k) == LET z == DDiv(diff(k), Bc(s, k))
                     IN DNeg(DAdd(DMul(DCon(RHalf), DMul(z, z)), DUn("log", Bc(s, k))))
       IN Decide(\E k \in 1..Len(s.x) : PosAmb(s.x[k]),
                 \A k \in 1..Len(s.x) : PosOk(s.x[k]),
                 DSum(TLCEval([k \in 1..n |-> one(k)])))
  ELSE LET n == s.r
           z == TLCEval([k \in 1..n |-> DSub(x.x[k], Bc(m, k))])
           aug == MkMat("m", n + 1, n + 1, LAMBDA i, j :
                    IF i <= n /\ j <= n THEN At(s, i, j)
                    ELSE IF i = n + 1 /\ j = n + 1 THEN DInt(0)
                    ELSE IF i = n + 1 THEN z[j] ELSE z[i])
           el == Elim(aug, n)                       \* Schur complement = - z' s^-1 z
       IN Decide(el.amb, el.ok,
            DMul(DCon(RHalf), DSub(At(el.m, 1, 1), DLogSum(el.piv))))

Cauchy(x, l, s) ==
  LET n == MaxLen(<<x, l, s>>)
      one(k) == LET d == DSub(Bc(x, k), Bc(l, k))
                IN DNeg(DUn("log", DAdd(Bc(s, k), DDiv(DMul(d, d), Bc(s, k)))))
  IN Decide(\E k \in 1..Len(s.x) : PosAmb(s.x[k]),
            \A k \in 1..Len(s.x) : PosOk(s.x[k]),
            DSum(TLCEval([k \in 1..n |-> one(k)])))

Uniform(x, a, b) ==
  LET n == MaxLen(<<x, a, b>>)
      one(k) == DNeg(DUn("log", DSub(Bc(b, k), Bc(a, k))))
      d == DSum(TLCEval([k \in 1..n |-> one(k)]))
  IN Decide(\E k \in 1..n : Near(Bc(a, k), Bc(x, k)) \/ Near(Bc(x, k), Bc(b, k)),
            \A k \in 1..n : RLt(Bc(a, k).v, Bc(x, k).v) /\ RLt(Bc(x, k).v, Bc(b, k).v),
            d)

Bernoulli(x, p) ==
  LET n == MaxLen(<<x, p>>)
      q(k) == Bc(p, k)
      zero(k) == REq(Bc(x, k).v, R0)
      one(k) == REq(Bc(x, k).v, R1)
      below(k) == RLe(q(k).v, R0)
      above(k) == RLe(R1, q(k).v)
      imposs(k) == (below(k) /\ one(k)) \/ (above(k) /\ zero(k))
      term(k) == IF below(k) \/ above(k) THEN DInt(0)
                 ELSE IF one(k) THEN DUn("log", q(k)) ELSE DUn("log", DSub(DInt(1), q(k)))
      \* a probability on or beyond the boundary has no derivative
      \* an impossible observation makes the density zero; the probabilities strictly
      \* between 0 and 1 still receive the derivative of their own term
      d == DSum(TLCEval([k \in 1..n |-> term(k)]))
  IN Decide(\E k \in 1..n : Near(q(k), DInt(0)) \/ Near(q(k), DInt(1)),
            \A k \in 1..n : zero(k) \/ one(k),
            IF \E k \in 1..n : imposs(k) THEN [d EXCEPT !.v = RNInf, !.e = R0] ELSE d)

Wishart(X, V, dof) ==
  LET p == X.r
      ex == Elim(X, p)
      \* [V I; X 0]: eliminating V leaves -X V^-1
      aug == MkMat("m", 2 * p, 2 * p, LAMBDA i, j :
               IF i <= p /\ j <= p THEN At(V, i, j)
               ELSE IF i <= p THEN (IF i = j - p THEN DInt(1) ELSE DInt(0))
               ELSE IF j <= p THEN At(X, i - p, j)
               ELSE DInt(0))
      ev == Elim(aug, p)
      negTr == DSum(TLCEval([k \in 1..p |-> At(ev.m, k, k)]))
      n == dof.x[1]
      c1 == DCon(RMul(RHalf, RSub(n.v, ROf(p + 1))))
      c2 == DCon(RMul(RHalf, n.v))
  IN Decide(ex.amb \/ ev.amb,
            ex.ok /\ ev.ok /\ RLt(ROf(p - 1), n.v),
            DSub(DAdd(DMul(c1, DLogSum(ex.piv)), DMul(DCon(RHalf), negTr)),
                 DMul(c2, DLogSum(ev.piv))))

\* x, and the other arguments for which the density defines no derivative
Stop(t) == T(t.sh, t.r, t.c, TLCEval([k \in 1..Len(t.x) |-> [t.x[k] EXCEPT !.g = <<>>, !.h = R0]]))
AnyNaN(a) == \E j \in 1..Len(a) : \E k \in 1..Len(a[j].x) : RIsNaN(a[j].x[k].v)
Stat(f, a) ==
  Scl(IF AnyNaN(a) THEN DPoison(OutOfSupport) ELSE
      CASE f = "normal"  -> Normal(a[1], a[2], a[3])
        [] f = "cauchy"  -> Cauchy(a[1], a[2], a[3])
        [] f = "uniform" -> Uniform(Stop(a[1]), a[2], a[3])
        [] f = "bernoulli" -> Bernoulli(Stop(a[1]), a[2])
        [] f = "wishart" -> Wishart(a[1], a[2], a[3]))

(* ---- evaluation --------------------------------------------------------- *)
TSum(ts) == IF ts = <<>> THEN Scl(DInt(0)) ELSE
            LET t1 == ts[1]
            IN T(t1.sh, t1.r, t1.c, TLCEval([k \in 1..Len(t1.x) |-> DSum([j \in 1..Len(ts) |-> ts[j].x[k]])]))
TProd(ts) == IF ts = <<>> THEN Scl(DInt(1)) ELSE
             LET t1 == ts[1]
             IN T(t1.sh, t1.r, t1.c, TLCEval([k \in 1..Len(t1.x) |-> DProd([j \in 1..Len(ts) |-> ts[j].x[k]])]))

UnitAt(P, g, x) == \* inject the direction of each written cell
  TLCEval([k \in 1..Len(x) |->
     [x[k] EXCEPT !.g = RVLin(R1, @, R1, RVUnit(P.D, P.off[g.i] + g.lo + k - 1))]])

\* A statement is back-propagated even if its value is not used: where it has no
\* finite derivative, nothing is specified about the gradient of the sequence.
WildT(t) == \E k \in 1..Len(t.x) : t.x[k].g # <<>> /\ ~(RIsFin(t.x[k].v) /\ RIsFin(RVMax(t.x[k].g)))
Mark(s, ts) == IF s.wild \/ \A j \in 1..Len(ts) : ~WildT(ts[j]) THEN s ELSE [s EXCEPT !.wild = TRUE]

RECURSIVE Ev(_, _, _), EvSeq(_, _, _, _), EvIt(_, _, _, _)
\* evaluate children left to right from child k on: tensors and final store
EvSeq(P, as, k, s) ==
  IF k > Len(as) THEN [ts |-> <<>>, s |-> s]
  ELSE LET one  == Ev(P, as[k], s)
           rest == EvSeq(P, as, k + 1, one.s)
       IN [ts |-> <<one.t>> \o rest.ts, s |-> rest.s]
ItLen(n) == IF Len(n.ls) > 0 THEN Len(n.ls[1]) ELSE Len(n.cs[1])
EvIt(P, n, k, s) ==
  IF k > ItLen(n) THEN [ts |-> <<>>, s |-> s]
  ELSE LET sk   == [s EXCEPT !.hole = Append(s.hole, [j \in 1..Len(n.ls) |-> n.ls[j][k]]),
                             !.ch = Append(s.ch, [j \in 1..Len(n.cs) |-> n.cs[j][k]])]
           one  == Ev(P, n.a[1], sk)
           rest == EvIt(P, n, k + 1, [one.s EXCEPT !.hole = s.hole, !.ch = s.ch])
       IN [ts |-> <<one.t>> \o rest.ts, s |-> rest.s]

Ev(P, n, s) ==
  IF n.k \in {"v", "sub", "hole"} THEN [t |-> ReadRegion(Region(P, n, s), s), s |-> s]
  ELSE IF n.k = "con" THEN [t |-> T(n.sh, n.r, n.c, TLCEval([k \in 1..Len(n.d) |-> DCon(n.d[k])])), s |-> s]
  ELSE IF n.k = "chole" THEN [t |-> Scl(DCon(s.ch[n.lv][n.j])), s |-> s]
  ELSE IF n.k = "ife" THEN
    LET c == Ev(P, n.a[1], s)
        b == Ev(P, n.a[IF DTrue(c.t.x[1]) THEN 2 ELSE 3], c.s)
    IN IF Undecided(c.t.x[1]) THEN [b EXCEPT !.t = TPoison(b.t)] ELSE b
  ELSE IF n.k = "it" THEN
    LET r == EvIt(P, n, 1, s)
    IN [t |-> CASE n.f = "sum" -> TSum(r.ts) [] n.f = "prod" -> TProd(r.ts)
                [] n.f = "each" -> IF r.ts = <<>> THEN Scl(DPoison(DInt(0))) ELSE r.ts[Len(r.ts)],
        s |-> Mark(r.s, r.ts)]
  ELSE
    LET r == EvSeq(P, n.a, 1, s)
        a == r.ts
        out(t) == [t |-> t, s |-> r.s]
    IN CASE n.k = "u" -> out(TUn(n.f, a[1]))
         [] n.k = "b" -> LET t == TBin(n.f, a[1], a[2])      \* a scalar with an empty vector is not used at all
                         IN [t |-> t, s |-> IF t.x = <<>> THEN Mark(r.s, a) ELSE r.s]
         [] n.k = "pow" -> out(TPow(n.n, a[1]))
         [] n.k = "glue" -> [t |-> a[Len(a)], s |-> Mark(r.s, SubSeq(a, 1, Len(a) - 1))]
         [] n.k = "sum" -> out(Scl(DSum(a[1].x)))
         [] n.k = "prod" -> out(Scl(DProd(a[1].x)))
         [] n.k = "norm" -> out(Scl(DSum([k \in 1..Len(a[1].x) |-> DMul(a[1].x[k], a[1].x[k])])))
         [] n.k = "tr" -> out(TTrans(a[1]))
         [] n.k = "dot" -> out(TDot(a[1], a[2]))
         [] n.k = "det" -> out(Scl(Det(FALSE, n.pol, a[1])))
         [] n.k = "logdet" -> out(Scl(Det(TRUE, n.pol, a[1])))
         [] n.k = "stat" -> out(Stat(n.f, a))
         [] n.k = "eq" ->
              LET g == Region(P, n.w, s)
                  x == UnitAt(P, g, a[1].x)
              IN [t |-> T(g.sh, g.r, g.c, x), s |-> Mark(WriteRegion(g, r.s, x), a)]
         [] n.k = "op" ->
              LET g == Region(P, n.w, s)
                  \* the old value is the one before the right-hand side is evaluated
                  new == TBin(n.f, ReadRegion(g, r.s), a[1])
              IN [t |-> new, s |-> Mark(WriteRegion(g, SaveRegion(g, r.s), new.x), <<a[1], new>>)]
=============================================================================
