-------------------------------- MODULE Machine -------------------------------
(***************************************************************************)
(* How FastAD evaluates: an operational model of the expression templates. *)
(* Binding lays the nodes of an expression out in a value cache and an     *)
(* adjoint cache (places); a placeholder assignment lends the variable's   *)
(* own memory to the root of its right-hand side; a compound assignment    *)
(* keeps the old value and the incoming adjoint in places of its own; the  *)
(* forward sweep writes values through the places, the backward sweep      *)
(* pushes seeds down the tree, accumulates them in the adjoints of the     *)
(* variables and lets statements pick up what has been accumulated.        *)
(*                                                                         *)
(* Nothing of Denote's tangent semantics is used here (except to fold      *)
(* constants): MachineTrace and MachineMC check that this design behaves   *)
(* as Session says, on generated and on all small programs.                *)
(* Not modelled: det, log_det, densities (leaf algorithms).                *)
(***************************************************************************)
EXTENDS Session

(* ---- memory --------------------------------------------------------------- *)
(* memory  [lv, la : per leaf values, adjoints; cv, ca : the caches]        *)
(* place   [sp |-> "L" leaf i | "C" cache | "K" constant data d, lo, n]     *)
PL(i, lo, n) == [sp |-> "L", i |-> i, lo |-> lo, n |-> n, d |-> <<>>]
PC(lo, n) == [sp |-> "C", i |-> 0, lo |-> lo, n |-> n, d |-> <<>>]
PK(d) == [sp |-> "K", i |-> 0, lo |-> 1, n |-> Len(d), d |-> d]
Upd(q, lo, x) == TLCEval([k \in 1..Len(q) |-> IF k >= lo /\ k < lo + Len(x) THEN x[k - lo + 1] ELSE q[k]])
GetV(m, a) == CASE a.sp = "L" -> SubSeq(m.lv[a.i], a.lo, a.lo + a.n - 1)
                [] a.sp = "C" -> SubSeq(m.cv, a.lo, a.lo + a.n - 1)
                [] a.sp = "K" -> a.d
GetA(m, a) == IF a.sp = "L" THEN SubSeq(m.la[a.i], a.lo, a.lo + a.n - 1) ELSE SubSeq(m.ca, a.lo, a.lo + a.n - 1)
PutV(m, a, x) == IF a.sp = "L" THEN [m EXCEPT !.lv[a.i] = Upd(@, a.lo, x)] ELSE [m EXCEPT !.cv = Upd(@, a.lo, x)]
PutA(m, a, x) == IF a.sp = "L" THEN [m EXCEPT !.la[a.i] = Upd(@, a.lo, x)] ELSE [m EXCEPT !.ca = Upd(@, a.lo, x)]

(* ---- values ---------------------------------------------------------------- *)
Bc1(x, k) == IF Len(x) = 1 THEN x[1] ELSE x[k]
Fill(x, n) == TLCEval([k \in 1..n |-> Bc1(x, k)])
Map2(F(_, _), x, y) == TLCEval([k \in 1..(IF Len(x) = 1 THEN Len(y) ELSE Len(x)) |-> F(Bc1(x, k), Bc1(y, k))])
RECURSIVE SumTo(_, _), ProdTo(_, _)
SumTo(x, k) == IF k = 0 THEN R0 ELSE IF k = 1 THEN x[1] ELSE RAdd(SumTo(x, k - 1), x[k])
ProdTo(x, k) == IF k = 0 THEN R1 ELSE IF k = 1 THEN x[1] ELSE RMul(ProdTo(x, k - 1), x[k])
RSum(x) == SumTo(x, Len(x))
RProd(x) == ProdTo(x, Len(x))
\* a seed for an operand of n elements
Reduce(x, n) == IF n = 1 /\ Len(x) # 1 THEN <<RSum(x)>> ELSE x
RBool(b) == IF b THEN R1 ELSE R0
VBin(f, x, y) ==
  CASE f = "+" -> RAdd(x, y) [] f = "-" -> RSub(x, y) [] f = "*" -> RMul(x, y) [] f = "/" -> RDiv(x, y)
    [] f = "<" -> RBool(RLt(x, y)) [] f = "<=" -> RBool(RLe(x, y))
    [] f = ">" -> RBool(RLt(y, x)) [] f = ">=" -> RBool(RLe(y, x))
    [] f = "==" -> RBool(REq(x, y)) [] f = "!=" -> RBool(~REq(x, y))
    [] f = "&&" -> RBool(~REq(x, R0) /\ ~REq(y, R0)) [] f = "||" -> RBool(~REq(x, R0) \/ ~REq(y, R0))
Compares(f) == f \notin {"+", "-", "*", "/"}
LSeed(f, s, x, y) == CASE f \in {"+", "-"} -> s [] f = "*" -> Map2(RMul, s, y) [] f = "/" -> Map2(RDiv, s, y)
RSeed(f, s, x, y, v) ==
  CASE f = "+" -> s
    [] f = "-" -> [k \in 1..Len(s) |-> RNeg(s[k])]
    [] f = "*" -> Map2(RMul, s, x)
    [] f = "/" -> TLCEval([k \in 1..Len(s) |-> RNeg(RDiv(RMul(s[k], Bc1(v, k)), Bc1(y, k)))])
USeed(f, s, x, v) ==     \* seed times the derivative at x, where the value is v
  CASE f = "tan" -> LET c == RFun("cos", x) IN RDiv(s, RMul(c, c))
    [] f = "tanh" -> RMul(s, RSub(R1, RMul(v, v)))
    [] f = "sigmoid" -> RMul(s, RMul(v, RSub(R1, v)))
    [] OTHER -> RMul(s, UD1(f, x, v))
RECURSIVE RPowN(_, _)
RPowN(n, x) == IF n = 0 THEN R1 ELSE RMul(RPowN(n - 1, x), x)
VPow(n, x) == IF n >= 0 THEN RPowN(n, x) ELSE RDiv(R1, RPowN(-n, x))
RECURSIVE MSum(_, _, _, _)
MSum(x, y, i, k) == \* row i of x times ... : sum over k terms; x, y given as functions of the inner index
  IF k = 0 THEN R0 ELSE IF k = 1 THEN RMul(x[1], y[1]) ELSE RAdd(MSum(x, y, i, k - 1), RMul(x[k], y[k]))
\* matrix product of column-major data: (r x q) (q x c)
MMul(x, y, r, q, c) ==
  TLCEval([k \in 1..(r * c) |->
     LET i == ((k - 1) % r) + 1
         j == (k - 1) \div r
     IN MSum([z \in 1..q |-> x[(z - 1) * r + i]], [z \in 1..q |-> y[j * q + z]], 0, q)])
MTrans(x, r, c) == \* of an r x c matrix
  TLCEval([k \in 1..(r * c) |-> x[(((k - 1) % c)) * r + ((k - 1) \div c) + 1]])

(* ---- binding ---------------------------------------------------------------- *)
(* A bound node: [k, f, sh, r, c, n |-> number of elements, va, ca |-> places   *)
(* of value and adjoint (ca.n = 0: none), sv, sa |-> what the root itself takes *)
(* from the caches ("single" size), x |-> bound operands, w |-> assigned        *)
(* variable, o |-> the compound assignment's own places]                        *)
NoPlace == PC(1, 0)
Bn(k, f, sh, r, c) == [k |-> k, f |-> f, sh |-> sh, r |-> r, c |-> c, n |-> r * c,
                       va |-> NoPlace, aa |-> NoPlace, sv |-> 0, sa |-> 0, x |-> <<>>, w |-> <<>>, o |-> <<>>]
\* give b places at the current positions: val, and adjoint if adj
Own(b, pos, adj) ==
  [b |-> [b EXCEPT !.va = PC(pos.v, b.n), !.aa = IF adj THEN PC(pos.a, b.n) ELSE NoPlace,
                   !.sv = b.n, !.sa = IF adj THEN b.n ELSE 0],
   pos |-> [v |-> pos.v + b.n, a |-> pos.a + IF adj THEN b.n ELSE 0]]
Modelled == {"v", "sub", "hole", "chole", "con", "u", "b", "pow", "ife", "eq", "op", "glue", "sum", "prod", "norm", "it", "dot", "tr"}
RECURSIVE InMachine(_)
InMachine(n) == n.k \in Modelled /\ ("a" \in DOMAIN n => \A j \in 1..Len(n.a) : InMachine(n.a[j]))

RECURSIVE Bind(_, _, _, _), BindAll(_, _, _, _), BindIt(_, _, _, _)
\* s: the store while binding (values of constants, iteration variables); pos: next free cells
BindAll(P, ns, s, pos) ==
  IF ns = <<>> THEN [x |-> <<>>, pos |-> pos]
  ELSE LET one == Bind(P, Head(ns), s, pos)
           rest == BindAll(P, Tail(ns), s, one.pos)
       IN [x |-> <<one.b>> \o rest.x, pos |-> rest.pos]
BindIt(P, n, k, q) == \* q = [s, pos]
  IF k > ItLen(n) THEN [x |-> <<>>, pos |-> q.pos]
  ELSE LET sk == [q.s EXCEPT !.hole = Append(@, [j \in 1..Len(n.ls) |-> n.ls[j][k]]),
                             !.ch = Append(@, [j \in 1..Len(n.cs) |-> n.cs[j][k]])]
           one == Bind(P, n.a[1], sk, q.pos)
           rest == BindIt(P, n, k + 1, [q EXCEPT !.pos = one.pos])
       IN [x |-> <<one.b>> \o rest.x, pos |-> rest.pos]
Bind(P, n, s, pos) ==
  IF IsConstIn(P.leaves, n) /\ n.k \notin {"v", "sub"} THEN
    LET t == Ev(P, n, s).t
    IN [b |-> [Bn("con", "", t.sh, t.r, t.c) EXCEPT !.va = PK(TLCEval([k \in 1..Len(t.x) |-> t.x[k].v]))], pos |-> pos]
  ELSE IF n.k \in {"v", "sub", "hole"} THEN
    LET g == Region(P, n, s)
        b == Bn(IF IsVar(P.leaves[g.i]) THEN "var" ELSE "con", "", g.sh, g.r, g.c)
    IN [b |-> [b EXCEPT !.va = PL(g.i, g.lo, g.n), !.aa = IF IsVar(P.leaves[g.i]) THEN PL(g.i, g.lo, g.n) ELSE NoPlace], pos |-> pos]
  ELSE IF n.k = "it" THEN
    LET q == BindIt(P, n, 1, [s |-> s, pos |-> pos])
        l == IF q.x = <<>> THEN Bn("con", "", "s", 1, 1) ELSE q.x[Len(q.x)]
        b == [Bn(n.f, "", l.sh, l.r, l.c) EXCEPT !.x = q.x]
    IN IF n.f = "each" THEN [b |-> [b EXCEPT !.va = l.va, !.aa = l.aa], pos |-> q.pos]
       ELSE Own([b EXCEPT !.k = IF n.f = "sum" THEN "sumI" ELSE "prodI"], q.pos, TRUE)
  ELSE
    LET q == BindAll(P, n.a, s, pos)
        x == q.x
        b0 == [Bn(n.k, IF "f" \in DOMAIN n THEN n.f ELSE "", "s", 1, 1) EXCEPT !.x = x]
        like(y) == [b0 EXCEPT !.sh = y.sh, !.r = y.r, !.c = y.c, !.n = y.n]
    IN CASE n.k = "u" -> Own(like(x[1]), q.pos, TRUE)
         [] n.k = "b" -> Own(like(IF x[1].sh = "s" THEN x[2] ELSE x[1]), q.pos, ~Compares(n.f))
         [] n.k = "pow" -> Own([like(x[1]) EXCEPT !.f = n.n], q.pos, n.n \notin {0, 1})
         [] n.k \in {"sum", "norm"} -> Own(b0, q.pos, FALSE)
         [] n.k = "prod" -> \* its adjoint scratch is bound before it, and is not part of the root
              LET p2 == [q.pos EXCEPT !.a = @ + x[1].n]
              IN Own([b0 EXCEPT !.o = <<PC(q.pos.a, x[1].n)>>], p2, FALSE)
         [] n.k = "ife" -> Own(like(x[2]), q.pos, FALSE)
         [] n.k = "tr" -> Own([b0 EXCEPT !.sh = "m", !.r = x[1].c, !.c = x[1].r, !.n = x[1].n], q.pos, TRUE)
         [] n.k = "dot" -> Own([b0 EXCEPT !.sh = x[2].sh, !.r = x[1].r, !.c = x[2].c, !.n = x[1].r * x[2].c], q.pos, TRUE)
         [] n.k = "glue" -> LET l == x[Len(x)] IN [b |-> [like(l) EXCEPT !.va = l.va, !.aa = l.aa], pos |-> q.pos]
         [] n.k = "eq" ->
              LET g == Region(P, n.w, s)
                  pl == PL(g.i, g.lo, g.n)
                  \* the root of the right-hand side gives its cells back and uses the variable's
                  root == IF x[1].k = "con" THEN x[1] ELSE [x[1] EXCEPT !.va = pl, !.aa = pl]
              IN [b |-> [like(x[1]) EXCEPT !.va = pl, !.aa = pl, !.w = <<pl>>, !.x = <<root>>],
                  pos |-> [v |-> q.pos.v - x[1].sv, a |-> q.pos.a - x[1].sa]]
         [] n.k = "op" ->
              LET g == Region(P, n.w, s)
                  pl == PL(g.i, g.lo, g.n)
              IN [b |-> [b0 EXCEPT !.sh = g.sh, !.r = g.r, !.c = g.c, !.n = g.n, !.va = pl, !.aa = pl, !.w = <<pl>>,
                                   !.o = <<PC(q.pos.v, g.n), PC(q.pos.a, g.n)>>],
                  pos |-> [v |-> q.pos.v + g.n, a |-> q.pos.a + g.n]]

(* ---- forward sweep: memory to memory; the value is at b.va ---------------------- *)
RECURSIVE Fwd(_, _), FwdSeq(_, _, _), Acc(_, _, _, _, _)
FwdSeq(xs, k, m) == IF k > Len(xs) THEN m ELSE FwdSeq(xs, k + 1, Fwd(xs[k], m))
\* accumulate the value of every operand in turn into b (sum and prod over ranges)
Acc(b, F(_, _), k, m, dummy) ==
  IF k > Len(b.x) THEN m
  ELSE LET m1 == Fwd(b.x[k], m)
       IN Acc(b, F, k + 1, PutV(m1, b.va, Map2(F, GetV(m1, b.va), GetV(m1, b.x[k].va))), dummy)
Fwd(b, m) ==
  CASE b.k \in {"var", "con"} -> m
    [] b.k = "u" -> LET m1 == Fwd(b.x[1], m)
                        x == GetV(m1, b.x[1].va)
                    IN PutV(m1, b.va, TLCEval([k \in 1..Len(x) |-> UVal(b.f, x[k])]))
    [] b.k = "b" -> LET m1 == FwdSeq(b.x, 1, m)
                        op(x, y) == VBin(b.f, x, y)
                    IN PutV(m1, b.va, Map2(op, GetV(m1, b.x[1].va), GetV(m1, b.x[2].va)))
    [] b.k = "pow" -> LET m1 == Fwd(b.x[1], m)
                          x == GetV(m1, b.x[1].va)
                      IN PutV(m1, b.va, TLCEval([k \in 1..Len(x) |-> VPow(b.f, x[k])]))
    [] b.k \in {"sum", "prod", "norm"} ->
         LET m1 == Fwd(b.x[1], m)
             x == GetV(m1, b.x[1].va)
         IN PutV(m1, b.va, <<CASE b.k = "sum" -> RSum(x) [] b.k = "prod" -> RProd(x) [] b.k = "norm" -> RSum(Map2(RMul, x, x))>>)
    [] b.k = "sumI" -> Acc(b, RAdd, 1, PutV(m, b.va, Fill(<<R0>>, b.n)), 0)
    [] b.k = "prodI" -> Acc(b, RMul, 1, PutV(m, b.va, Fill(<<R1>>, b.n)), 0)
    [] b.k = "tr" -> LET m1 == Fwd(b.x[1], m) IN PutV(m1, b.va, MTrans(GetV(m1, b.x[1].va), b.x[1].r, b.x[1].c))
    [] b.k = "dot" -> LET m1 == FwdSeq(b.x, 1, m)
                      IN PutV(m1, b.va, MMul(GetV(m1, b.x[1].va), GetV(m1, b.x[2].va), b.x[1].r, b.x[1].c, b.x[2].c))
    [] b.k = "ife" -> LET m1 == Fwd(b.x[1], m)
                          y == b.x[IF REq(GetV(m1, b.x[1].va)[1], R0) THEN 3 ELSE 2]
                          m2 == Fwd(y, m1)
                      IN PutV(m2, b.va, GetV(m2, y.va))
    [] b.k \in {"glue", "each"} -> FwdSeq(b.x, 1, m)       \* no statement: nothing
    [] b.k = "eq" -> LET m1 == Fwd(b.x[1], m) IN PutV(m1, b.w[1], GetV(m1, b.x[1].va))
    [] b.k = "op" -> LET m0 == PutV(m, b.o[1], GetV(m, b.w[1]))
                         m1 == Fwd(b.x[1], m0)
                         op(x, y) == VBin(b.f, x, y)
                     IN PutV(m1, b.w[1], Map2(op, GetV(m1, b.w[1]), GetV(m1, b.x[1].va)))

(* ---- backward sweep -------------------------------------------------------------- *)
AddTo(m, a, s) == PutA(m, a, Map2(RAdd, GetA(m, a), Fill(s, a.n)))
RECURSIVE Bwd(_, _, _), BwdSeq(_, _, _, _), BwdProd(_, _, _)
\* operands k, k-1, ..., 1 with the same seed
BwdSeq(xs, k, s, m) == IF k = 0 THEN m ELSE BwdSeq(xs, k - 1, s, Bwd(xs[k], Reduce(s, xs[k].n), m))
\* prod over a range, from the last factor on: the others' product, recomputed where a factor has a zero
BwdProd(b, k, m) ==
  IF k = 0 THEN m
  ELSE LET s == GetA(m, b.aa)
           x == GetV(m, b.x[k].va)
           others(z) == LET fs == [j \in 1..Len(b.x) |-> IF j = k THEN R1 ELSE GetV(m, b.x[j].va)[z]] IN RProd(fs)
           zero == \E z \in 1..Len(x) : REq(x[z], R0)
           o == IF zero THEN TLCEval([z \in 1..b.n |-> others(z)]) ELSE <<>>
       IN IF zero
            THEN LET m1 == Bwd(b.x[k], Map2(RMul, s, o), PutV(m, b.va, o))
                 IN BwdProd(b, k - 1, PutV(m1, b.va, Map2(RMul, o, x)))
          ELSE BwdProd(b, k - 1, Bwd(b.x[k], Map2(RDiv, Map2(RMul, s, GetV(m, b.va)), x), m))
\* s: one seed for every element, or one per element
Bwd(b, s0, m) ==
  LET s == Fill(s0, b.n)
      m1 == IF b.sa > 0 THEN PutA(m, b.aa, s) ELSE m      \* keep the seed
      xv(j) == GetV(m1, b.x[j].va)
      v == GetV(m1, b.va)
  IN CASE b.k = "con" -> m
       [] b.k = "var" -> AddTo(m, b.aa, s)
       [] b.k = "u" -> LET x == xv(1) IN Bwd(b.x[1], TLCEval([k \in 1..b.n |-> USeed(b.f, s[k], x[k], v[k])]), m1)
       [] b.k = "b" ->
            IF Compares(b.f) THEN m
            ELSE LET r == Reduce(RSeed(b.f, s, xv(1), xv(2), v), b.x[2].n)
                     l == Reduce(LSeed(b.f, s, xv(1), xv(2)), b.x[1].n)
                 IN Bwd(b.x[1], l, Bwd(b.x[2], r, m1))
       [] b.k = "pow" ->
            LET x == xv(1)
                d(k) == IF b.f = 0 THEN R0 ELSE IF b.f = 1 THEN R1
                        ELSE IF b.f > 1 THEN RMul(ROf(b.f), IF REq(x[k], R0) THEN R0 ELSE RDiv(v[k], x[k]))
                        ELSE RMul(ROf(b.f), RDiv(v[k], x[k]))
            IN Bwd(b.x[1], TLCEval([k \in 1..b.n |-> RMul(s[k], d(k))]), m1)
       [] b.k = "sum" -> Bwd(b.x[1], s, m1)
       [] b.k = "norm" -> LET x == xv(1) IN Bwd(b.x[1], TLCEval([k \in 1..Len(x) |-> RMul(RMul(s[1], R2), x[k])]), m1)
       [] b.k = "prod" ->
            LET x == xv(1)
                others(z) == LET fs == [j \in 1..Len(x) |-> IF j = z THEN R1 ELSE x[j]] IN RProd(fs)
                t == TLCEval([z \in 1..Len(x) |-> RMul(s[1], IF REq(x[z], R0) THEN others(z) ELSE RDiv(v[1], x[z]))])
            IN Bwd(b.x[1], t, PutA(m1, b.o[1], t))
       [] b.k = "sumI" -> BwdSeq(b.x, Len(b.x), s, m1)
       [] b.k = "prodI" -> BwdProd(b, Len(b.x), m1)
       [] b.k = "tr" -> Bwd(b.x[1], MTrans(s, b.r, b.c), m1)
       [] b.k = "dot" ->
            LET r == MMul(MTrans(xv(1), b.x[1].r, b.x[1].c), s, b.x[1].c, b.x[1].r, b.x[2].c)
                l == MMul(s, MTrans(xv(2), b.x[2].r, b.x[2].c), b.x[1].r, b.x[2].c, b.x[1].c)
            IN Bwd(b.x[1], l, Bwd(b.x[2], r, m1))
       [] b.k = "ife" -> Bwd(b.x[IF REq(xv(1)[1], R0) THEN 3 ELSE 2], s, m)
       [] b.k = "each" /\ b.x = <<>> -> m
       [] b.k \in {"glue", "each"} -> BwdSeq(b.x, Len(b.x) - 1, <<R0>>, Bwd(b.x[Len(b.x)], s, m))
       [] b.k = "eq" -> \* what all uses have accumulated, plus the own seed
            LET m2 == AddTo(m, b.w[1], s) IN Bwd(b.x[1], GetA(m2, b.w[1]), m2)
       [] b.k = "op" ->
            LET m2 == AddTo(m, b.w[1], s)
                m3 == PutV(m2, b.w[1], GetV(m2, b.o[1]))              \* back to the old value
                m4 == PutA(PutA(m3, b.o[2], GetA(m3, b.w[1])), b.w[1], Fill(<<R0>>, b.n))
                sd == GetA(m4, b.o[2])
                x == GetV(m4, b.w[1])
                y == GetV(m4, b.x[1].va)
                rs == Reduce(RSeed(b.f, sd, x, y, Map2(RDiv, x, y)), b.x[1].n)
                ls == LSeed(b.f, sd, x, y)
            IN AddTo(Bwd(b.x[1], rs, m4), b.w[1], ls)

(* ---- objects ------------------------------------------------------------------- *)
(* A bound object [b |-> bound root, nv, na |-> cells taken]; its caches are  *)
(* filled with garbage.                                                       *)
Garbage == RNaN
MakeObj(P, e, val) ==
  LET q == Bind(P, P.ex[e], InitStore(P, val), [v |-> 1, a |-> 1])
      nv == q.pos.v - 1
      na == q.pos.a - 1
  IN [b |-> q.b, nv |-> nv, na |-> na,
      cv |-> TLCEval([k \in 1..nv |-> Garbage]), ca |-> TLCEval([k \in 1..na |-> Garbage])]
Mem(val, adj, o) == [lv |-> val, la |-> adj, cv |-> o.cv, ca |-> o.ca]
ObjFwd(o, val, adj) == LET m == Fwd(o.b, Mem(val, adj, o)) IN [m |-> m, ret |-> GetV(m, o.b.va)]
ObjBwd(o, seed, val, adj) == Bwd(o.b, seed, Mem(val, adj, o))

(* ---- the layout ------------------------------------------------------------------ *)
\* advertised sizes, as each kind of node adds them up
RECURSIVE Adv(_, _), AdvSum(_, _, _)
AdvSum(xs, k, side) == IF k = 0 THEN 0 ELSE AdvSum(xs, k - 1, side) + Adv(xs[k], side)
Adv(b, side) ==
  LET kids == AdvSum(b.x, Len(b.x), side)
  IN CASE b.k = "eq" -> kids - (IF side = "v" THEN b.x[1].sv ELSE b.x[1].sa)
       [] b.k = "op" -> kids + b.n
       [] b.k = "prod" /\ side = "a" -> kids + b.x[1].n
       [] OTHER -> kids + (IF side = "v" THEN b.sv ELSE b.sa)
\* every cell of the caches any node uses
RECURSIVE Cells(_, _)
PlaceCells(a) == IF a.sp = "C" THEN a.lo..(a.lo + a.n - 1) ELSE {}
OwnCells(b, side) ==
  LET a == IF side = "v" THEN b.va ELSE b.aa
      own == IF b.k \in {"glue", "each"} THEN {} ELSE PlaceCells(a)
  IN own \cup (IF b.k = "op" THEN PlaceCells(b.o[IF side = "v" THEN 1 ELSE 2])
               ELSE IF b.k = "prod" /\ side = "a" THEN PlaceCells(b.o[1]) ELSE {})
Cells(b, side) == OwnCells(b, side) \cup UNION {Cells(b.x[j], side) : j \in 1..Len(b.x)}
\* no two nodes share a cell
RECURSIVE Apart(_, _)
Apart(b, side) ==
  /\ \A j \in 1..Len(b.x) : Apart(b.x[j], side) /\ Cells(b.x[j], side) \cap OwnCells(b, side) = {}
  /\ \A i, j \in 1..Len(b.x) : i # j => Cells(b.x[i], side) \cap Cells(b.x[j], side) = {}
LayoutOK(o) ==
  /\ Adv(o.b, "v") = o.nv /\ Adv(o.b, "a") = o.na                 \* consumed is advertised
  /\ Cells(o.b, "v") = 1..o.nv /\ Cells(o.b, "a") = 1..o.na       \* all of it is used, nothing else
  /\ Apart(o.b, "v") /\ Apart(o.b, "a")
=============================================================================
