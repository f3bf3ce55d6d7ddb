------------------------------- MODULE Forward ------------------------------
(***************************************************************************)
(* Forward-mode variables: a register machine.  Register j holds a value   *)
(* and an adjoint (the directional derivative carried along).  Commands    *)
(* construct, overwrite, copy and combine registers; the meaning of a      *)
(* combination is Dual's, with one direction.                              *)
(*                                                                         *)
(* state: sequence of [v, d]                                               *)
(* command [op, f, a, b, t, x, how, tree]                                  *)
(*   tree: [k |-> "r", j] | [k |-> "c", x] | [k |-> "u", f, a] | [k |-> "b", f, a] *)
(***************************************************************************)
EXTENDS Dual
\* magnitudes between FLow and 1/FLow may be cubed without leaving the range of the value type
FLow == IF IsFloat THEN RDec("1e-11") ELSE RDec("1e-90")

FInit(n) == TLCEval([j \in 1..n |-> [v |-> R0, d |-> R0]])
Cmd0 == [op |-> "", f |-> "", a |-> 1, b |-> 1, t |-> 1, x |-> <<>>, how |-> 0, tree |-> [k |-> "r", j |-> 1]]
DOf(r) == [v |-> r.v, e |-> R0, g |-> <<r.d>>, h |-> R0]

(* A value outside the domain leaves the derivative unspecified; magnitudes close to underflow or
   overflow (the code may square or cube them) leave everything that follows unspecified.          *)
InRange(x) == REq(x, R0) \/ (RLt(FLow, RAbs(x)) /\ RLt(RAbs(x), RDiv(R1, FLow)))
FDual(d) == IF ~(RIsFin(d.v) /\ d.g # <<>> /\ RIsFin(d.g[1])) THEN [d EXCEPT !.h = RInf]
            ELSE IF InRange(d.v) /\ InRange(d.g[1]) THEN d ELSE [d EXCEPT !.h = RInf, !.e = RInf]
RECURSIVE FEv(_, _)
FEv(s, n) ==
  CASE n.k = "r" -> FDual(DOf(s[n.j]))
    [] n.k = "c" -> [DOf([v |-> n.x, d |-> R0]) EXCEPT !.h = R0]
    [] n.k = "u" -> FDual(DUn(n.f, FEv(s, n.a[1])))
    [] n.k = "b" -> FDual(DBin(n.f, FEv(s, n.a[1]), FEv(s, n.a[2])))
Reg(j) == [k |-> "r", j |-> j]
TreeOf(m) ==
  CASE m.op = "un" -> [k |-> "u", f |-> m.f, a |-> <<Reg(m.a)>>]
    [] m.op = "bin" -> [k |-> "b", f |-> m.f, a |-> <<Reg(m.a), Reg(m.b)>>]
    [] m.op = "inc" -> [k |-> "b", f |-> "+", a |-> <<Reg(m.t), Reg(m.a)>>]
    [] m.op = "incx" -> [k |-> "b", f |-> "+", a |-> <<Reg(m.t), m.tree>>]
    [] m.op = "expr" -> m.tree

(* expectations, as in Session *)
Exact(x) == [v |-> x, x |-> TRUE, tol |-> R0]
\* where rounding could change the result beyond recognition, nothing is claimed
About(x, err) == LET t == RAdd(Tiny, RMul(KTol, err))
                 IN [v |-> x, x |-> FALSE, tol |-> IF RLt(t, RMul(RDec("0.001"), RMax(R1, RAbs(x)))) THEN t ELSE RInf]
Meets(z, y) == IF z.x THEN RSame(y, z.v) ELSE RClose(y, z.v, z.tol)
ExactReg(r) == [v |-> Exact(r.v), d |-> Exact(r.d)]
AboutReg(d) == [v |-> About(d.v, IF RIsFin(d.v) THEN d.e ELSE RInf), d |-> About(RVAt(d.g, 1), d.h)]

Combines == {"un", "bin", "inc", "incx", "expr"}
\* expected contents of the target register
Target(s, m) ==
  CASE m.op = "default" -> ExactReg([v |-> R0, d |-> R0])
    [] m.op = "new" -> ExactReg([v |-> m.x[1], d |-> R0])
    [] m.op = "new2" -> ExactReg([v |-> m.x[1], d |-> m.x[2]])
    [] m.op = "setv" -> ExactReg([v |-> m.x[1], d |-> s[m.t].d])
    [] m.op = "setd" -> ExactReg([v |-> s[m.t].v, d |-> m.x[1]])
    [] m.op \in {"copy", "assign"} -> ExactReg(s[m.a])
    [] m.op \in Combines -> AboutReg(FEv(s, TreeOf(m)))
\* everything but the target keeps its contents
Expect(s, m) == LET t == Target(s, m) IN TLCEval([j \in 1..Len(s) |-> IF j = m.t THEN t ELSE ExactReg(s[j])])
Accepts(x, obs) == Len(x) = Len(obs) /\ \A j \in 1..Len(x) : Meets(x[j].v, obs[j].v) /\ Meets(x[j].d, obs[j].d)
\* the predicted successor
FNext(s, m) ==
  TLCEval([j \in 1..Len(s) |-> IF j # m.t THEN s[j]
     ELSE LET z == Target(s, m) IN [v |-> z.v.v, d |-> z.d.v]])
FSane(s, m) == LET z == Target(s, m)
               IN /\ RIsFin(z.v.v) /\ RIsFin(z.d.v) /\ RLt(RAbs(z.v.v), RDec("1e8")) /\ RLt(RAbs(z.d.v), RDec("1e8"))
                  /\ RIsFin(z.v.tol) /\ RIsFin(z.d.tol) /\ RLt(z.d.tol, RMul(RDec("1e-5"), RMax(R1, RAbs(z.d.v))))
=============================================================================
