------------------------------ MODULE DualCheck -----------------------------
(***************************************************************************)
(* Sanity of the specification's own definition of derivative: the rules   *)
(* of Dual agree with difference quotients of Dual's value functions, and  *)
(* the second-derivative bounds used for error propagation with difference *)
(* quotients of the derivatives.  One state per function and point.        *)
(***************************************************************************)
EXTENDS Dual, TLCExt
Fs == <<"neg", "sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "sqrt", "erf", "sigmoid", "sinh", "cosh", "tanh">>
Domain(f, x) == CASE f \in {"asin", "acos"} -> RLt(RAbs(x), RDec("0.98"))
                  [] f \in {"log", "sqrt"} -> RLt(RDec("0.05"), x)
                  [] f = "tan" -> RLt(RDec("0.1"), RAbs(RFun("cos", x)))
                  [] OTHER -> TRUE
Hs == RDec("1e-5")
Diff(F(_), x) == RDiv(RSub(F(RAdd(x, Hs)), F(RSub(x, Hs))), RMul(R2, Hs))
CloseTo(a, b, scale) == RLe(RAbs(RSub(a, b)), RMul(RDec("3e-5"), RMax(R1, scale)))
UnaryOk(f, x) ==
  LET y == UVal(f, x)
      d == UD1(f, x, y)
      d2 == UD2(f, x, y, d)
  IN /\ CloseTo(Diff(LAMBDA z : UVal(f, z), x), d, RAbs(d))
     \* UD2 only has to bound the second derivative
     /\ RLe(RAbs(Diff(LAMBDA z : UD1(f, z, UVal(f, z)), x)), RMul(RDec("1.00003"), RAdd(RDec("3e-5"), d2)))
\* Dual's gradient in direction 1 against the difference quotient of its value
GradOk(F(_), x) == LET d == F(DVar(x, 1, 1)) IN CloseTo(Diff(LAMBDA z : F(DCon(z)).v, x), RVAt(d.g, 1), RAbs(RVAt(d.g, 1)))
Points == [k \in 1..81 |-> RDiv(ROf(k - 41), ROf(8))]
C == DDec("1.7")
VARIABLES f, k
vars == <<f, k>>
Init == f \in 1..(Len(Fs) + 12) /\ k \in 1..Len(Points)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
X == Points[k]
NZ == ~REq(X, R0)
Ok ==
  IF f <= Len(Fs) THEN Domain(Fs[f], X) => UnaryOk(Fs[f], X)
  ELSE CASE f = Len(Fs) + 1 -> GradOk(LAMBDA d : DAdd(d, DMul(C, d)), X)
         [] f = Len(Fs) + 2 -> GradOk(LAMBDA d : DSub(C, DMul(d, d)), X)
         [] f = Len(Fs) + 3 -> NZ => GradOk(LAMBDA d : DDiv(C, d), X)
         [] f = Len(Fs) + 4 -> GradOk(LAMBDA d : DDiv(d, C), X)
         [] f = Len(Fs) + 5 -> GradOk(LAMBDA d : DPow(3, d), X)
         [] f = Len(Fs) + 6 -> NZ => GradOk(LAMBDA d : DPow(-2, d), X)
         [] f = Len(Fs) + 7 -> GradOk(LAMBDA d : DPow(0, d), X)
         [] f = Len(Fs) + 8 -> GradOk(LAMBDA d : DNeg(d), X)
         [] f = Len(Fs) + 9 -> GradOk(LAMBDA d : DSum(<<d, DMul(d, d), C>>), X)
         [] f = Len(Fs) + 10 -> GradOk(LAMBDA d : DProd(<<d, DAdd(d, C), C>>), X)
         [] f = Len(Fs) + 11 -> NZ => GradOk(LAMBDA d : DDiv(DMul(d, C), DMul(d, d)), X)
         [] f = Len(Fs) + 12 -> GradOk(LAMBDA d : DUn("exp", DMul(DUn("sin", d), d)), X)
=============================================================================
