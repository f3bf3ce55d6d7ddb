-------------------------------- MODULE Dual --------------------------------
(***************************************************************************)
(* Differentiable real numbers.  An element is                             *)
(*     [v |-> value, e |-> error bound of v in units of rounding,          *)
(*      g |-> gradient (a vector over all directions, <<>> if constant),   *)
(*      h |-> error bound of g (max norm)]                                 *)
(* The rules for v and g are the definition of derivative used by every    *)
(* property; e and h are a first-order running error analysis, so that     *)
(* "equal" has a meaning for floating-point results: the implementation    *)
(* may use any formula and any order of summation, and is still accepted.  *)
(***************************************************************************)
EXTENDS Flt, TLC, IOUtils

\* value type of the implementation: double unless ROUND = "float"
IsFloat == "ROUND" \in DOMAIN IOEnv /\ IOEnv.ROUND = "float"
U    == IF IsFloat THEN RDec("1.1920928955078125e-7") ELSE RDec("2.220446049250313e-16")
R0   == ROf(0)
R1   == ROf(1)
RInf == RDec("inf")
RNInf == RDec("-inf")
RNaN == RDec("nan")
R2   == ROf(2)
RHalf == RDec("0.5")
KTol == ROf(1000)          \* computed values may differ by this multiple of their error bound

Add3(a, b, c) == RAdd(RAdd(a, b), c)
SafeH(h) == IF RIsNaN(h) THEN RInf ELSE h
\* relative rounding of a result; an infinity is exact
Ulp(v) == IF RIsFin(v) THEN RMul(U, RAbs(v)) ELSE R0
\* below the smallest normal number only the absolute error is bounded (gradual
\* underflow; vectorised elementary functions that never return less than MinN)
MinN == IF IsFloat THEN RDec("1.2e-38") ELSE RDec("2.3e-308")
Under(v, exact) == IF ~exact /\ RLe(RAbs(v), MinN) THEN MinN ELSE R0
Tiny == IF IsFloat THEN RDec("1e-35") ELSE RDec("1e-290")
\* amplify an error by a factor: what is unspecified stays unspecified
Amp(x, err) == IF RIsFin(err) THEN RMulZ(x, err) ELSE RInf
Safe(v, e) == IF RIsNaN(e) THEN IF RIsFin(v) THEN RInf ELSE R0 ELSE e

DCon(x)     == [v |-> x, e |-> R0, g |-> <<>>, h |-> R0]
DInt(n)     == DCon(ROf(n))
DDec(s)     == DCon(RDec(s))
DVar(x, n, i) == [v |-> x, e |-> R0, g |-> RVUnit(n, i), h |-> R0]
\* a value that is known but whose derivative is not specified
DNoGrad(a)  == [a EXCEPT !.h = RInf]
\* neither value nor derivative is specified (an ambiguous case split)
DPoison(a)  == [a EXCEPT !.e = RInf, !.h = RInf]

DAdd(a, b) ==
  LET v == RAdd(a.v, b.v)
      g == RVLin(R1, a.g, R1, b.g)
  IN [v |-> v, e |-> Safe(v, Add3(a.e, b.e, Ulp(v))), g |-> g,
      h |-> SafeH(Add3(a.h, b.h, RMul(U, RAdd(RVMax(a.g), RVMax(b.g)))))]

DNeg(a) == [v |-> RNeg(a.v), e |-> a.e, g |-> RVLin(RNeg(R1), a.g, R0, <<>>), h |-> a.h]

DSub(a, b) ==
  LET v == RSub(a.v, b.v)
      g == RVLin(R1, a.g, RNeg(R1), b.g)
  IN [v |-> v, e |-> Safe(v, Add3(a.e, b.e, Ulp(v))), g |-> g,
      h |-> SafeH(Add3(a.h, b.h, RMul(U, RAdd(RVMax(a.g), RVMax(b.g)))))]

\* a product or quotient involving an infinity or NaN has no specified derivative
HFin(fin, g, h) == IF g = <<>> THEN R0 ELSE IF fin THEN SafeH(h) ELSE RInf
DMul(a, b) ==
  LET v  == RMul(a.v, b.v)
      aa == RAbs(a.v)
      bb == RAbs(b.v)
      ga == RVMax(a.g)
      gb == RVMax(b.g)
  IN [v |-> v,
      e |-> Safe(v, RAdd(Add3(Amp(aa, b.e), Amp(bb, a.e), Ulp(v)), Under(v, REq(aa, R0) \/ REq(bb, R0)))),
      g |-> RVLin(b.v, a.g, a.v, b.g),
      h |-> HFin(RIsFin(a.v) /\ RIsFin(b.v), IF a.g = <<>> THEN b.g ELSE a.g,
                 Add3(Add3(Amp(bb, a.h), Amp(aa, b.h), MinN),
                 RMulZ(RAdd(b.e, RMul(U, bb)), ga),
                 RMulZ(RAdd(a.e, RMul(U, aa)), gb)))]

\* rounding may make the divisor zero: nothing is specified
MaybeZero(b) == RLt(R0, b.e) /\ ~RLt(RMul(KTol, b.e), RAbs(b.v))
DDiv(a, b) ==
  LET q  == RDiv(a.v, b.v)
      ib == RAbs(RDiv(R1, b.v))
      qq == RAbs(q)
      e  == Safe(q, Add3(Amp(ib, RAdd(a.e, Amp(qq, b.e))), Ulp(q), Under(q, REq(a.v, R0))))
      ga == RVMax(a.g)
      gb == RVMax(b.g)
      eb == Amp(RMul(ib, ib), b.e)
  IN [v |-> q, e |-> IF MaybeZero(b) THEN RInf ELSE e,
      g |-> RVLin(RDiv(R1, b.v), a.g, RNeg(RDiv(q, b.v)), b.g),
      h |-> HFin(RIsFin(a.v) /\ RIsFin(b.v) /\ RIsFin(ib) /\ ~MaybeZero(b), IF a.g = <<>> THEN b.g ELSE a.g,
                 Add3(Amp(ib, RAdd(a.h, Amp(qq, b.h))),
                 RMulZ(Add3(eb, RMul(U, ib), MinN), ga),
                 RMulZ(Add3(RAdd(Amp(ib, e), MinN), Amp(qq, eb), RMul(U, RMul(qq, ib))), gb)))]

(* unary functions: value, first derivative, bound on the second ********** *)
TwoOverSqrtPi == RDec("1.1283791670955126")

UVal(f, x) ==
  CASE f = "neg" -> RNeg(x)
    [] f = "sigmoid" -> RDiv(R1, RAdd(R1, RFun("exp", RNeg(x))))
    [] OTHER -> RFun(f, x)

UD1(f, x, y) ==
  CASE f = "neg"  -> RNeg(R1)
    [] f = "sin"  -> RFun("cos", x)
    [] f = "cos"  -> RNeg(RFun("sin", x))
    [] f = "tan"  -> RAdd(R1, RMul(y, y))
    [] f = "asin" -> RDiv(R1, RFun("sqrt", RSub(R1, RMul(x, x))))
    [] f = "acos" -> RNeg(RDiv(R1, RFun("sqrt", RSub(R1, RMul(x, x)))))
    [] f = "atan" -> RDiv(R1, RAdd(R1, RMul(x, x)))
    [] f = "exp"  -> y
    [] f = "log"  -> RDiv(R1, x)
    [] f = "sqrt" -> RDiv(RHalf, y)
    [] f = "erf"  -> RMul(TwoOverSqrtPi, RFun("exp", RNeg(RMul(x, x))))
    [] f = "sigmoid" -> LET t == RFun("exp", RNeg(RAbs(x)))
                        IN RDiv(t, RMul(RAdd(R1, t), RAdd(R1, t)))
    [] f = "sinh" -> RFun("cosh", x)
    [] f = "cosh" -> RFun("sinh", x)
    [] f = "tanh" -> LET c == RFun("cosh", x) IN RDiv(R1, RMul(c, c))

UD2(f, x, y, d) ==
  CASE f = "neg"  -> R0
    [] f = "sin"  -> RAbs(y)
    [] f = "cos"  -> RAbs(y)
    [] f = "tan"  -> RAbs(RMul(R2, RMul(y, d)))
    [] f \in {"asin", "acos"} -> RAbs(RMul(x, RMul(d, RMul(d, d))))
    [] f = "atan" -> RAbs(RMul(R2, RMul(x, RMul(d, d))))
    [] f = "exp"  -> y
    [] f = "log"  -> RMul(d, d)
    [] f = "sqrt" -> RAbs(RDiv(d, RMul(R2, x)))
    [] f = "erf"  -> RAbs(RMul(R2, RMul(x, d)))
    [] f = "sigmoid" -> d
    [] f = "sinh" -> RAbs(y)
    [] f = "cosh" -> y
    [] f = "tanh" -> RAbs(RMul(R2, RMul(y, d)))

\* rounding slack of the derivative itself (1-x^2 and 1-f^2 cancel)
UAmp(f, x, d) ==
  CASE f \in {"asin", "acos"} -> RMul(RAbs(d), RMul(d, d))
    [] f \in {"tanh", "sigmoid"} -> R1
    [] OTHER -> RAbs(d)

\* rounding may carry the argument across the boundary of the domain
Defined(f, x) == LET y == UVal(f, x) IN RIsFin(y) /\ RIsFin(UD1(f, x, y))
AtEdge(f, a) == /\ f \in {"asin", "acos", "log", "sqrt"} /\ RLt(R0, a.e) /\ RIsFin(a.v)
                /\ LET t == RMul(KTol, a.e) IN Defined(f, RSub(a.v, t)) # Defined(f, RAdd(a.v, t))
DUn(f, a) ==
  LET y == UVal(f, a.v)
      d == UD1(f, a.v, y)
      e == IF AtEdge(f, a) THEN RInf ELSE Safe(y, Add3(Amp(RAbs(d), a.e), Ulp(y), Under(y, f \notin {"exp", "sigmoid"})))
  IN IF a.g = <<>> THEN [v |-> y, e |-> e, g |-> <<>>, h |-> R0]
     ELSE LET ga == RVMax(a.g)
              h  == RAdd(Amp(RAbs(d), a.h),
                         RMulZ(Add3(Amp(UD2(f, a.v, y, d), a.e), RMul(U, UAmp(f, a.v, d)), MinN), ga))
          IN [v |-> y, e |-> e, g |-> RVLin(d, a.g, R0, <<>>),
              h |-> IF RIsFin(y) /\ RIsFin(d) /\ ~(AtEdge(f, a)) THEN SafeH(h) ELSE RInf]

RECURSIVE DPowN(_, _)
DPowN(n, a) == IF n = 0 THEN DInt(1) ELSE IF n = 1 THEN a ELSE DMul(a, DPowN(n - 1, a))
\* the result does not depend on a: derivative zero, unspecified where a has none
DFlat(x, a) == IF a.g = <<>> THEN DCon(x)
               ELSE [DCon(x) EXCEPT !.g = RVLin(R0, a.g, R0, <<>>),
                                    !.h = IF RIsFin(a.v) /\ RIsFin(a.h) /\ RIsFin(RVMax(a.g)) THEN R0 ELSE RInf]
DPow(n, a) ==
  IF n = 0 THEN DFlat(R1, a)
  ELSE IF n > 0 THEN DPowN(n, a)
  ELSE DDiv(DInt(1), DPowN(-n, a))

(* comparisons of computed values: ambiguous when closer than the error    *)
Near(a, b) == LET t == RMul(KTol, RAdd(a.e, b.e))
              IN RLt(R0, t) /\ ~RLt(t, RAbs(RSub(a.v, b.v)))
RelHolds(f, a, b) ==
  CASE f = "<"  -> RLt(a.v, b.v)  [] f = "<=" -> RLe(a.v, b.v)
    [] f = ">"  -> RLt(b.v, a.v)  [] f = ">=" -> RLe(b.v, a.v)
    [] f = "==" -> REq(a.v, b.v)  [] f = "!=" -> ~REq(a.v, b.v)
DCmp(f, a, b) ==
  LET r == DInt(IF RelHolds(f, a, b) THEN 1 ELSE 0)
  IN IF Near(a, b) \/ ~RIsFin(a.v) \/ ~RIsFin(b.v) THEN DPoison(r) ELSE r
DTrue(a) == ~REq(a.v, R0)
Undecided(a) == ~RIsFin(a.v) \/ Near(a, DInt(0))
DLogic(f, a, b) ==
  LET r == DInt(IF (IF f = "&&" THEN DTrue(a) /\ DTrue(b) ELSE DTrue(a) \/ DTrue(b)) THEN 1 ELSE 0)
  IN IF Undecided(a) \/ Undecided(b) THEN DPoison(r) ELSE r

DBin(f, a, b) ==
  CASE f = "+" -> DAdd(a, b) [] f = "-" -> DSub(a, b)
    [] f = "*" -> DMul(a, b) [] f = "/" -> DDiv(a, b)
    [] f \in {"<", "<=", ">", ">=", "==", "!="} -> DCmp(f, a, b)
    [] f \in {"&&", "||"} -> DLogic(f, a, b)

RECURSIVE DSumTo(_, _)
DSumTo(x, k) == IF k = 0 THEN DInt(0) ELSE IF k = 1 THEN x[1] ELSE DAdd(DSumTo(x, k - 1), x[k])
RECURSIVE DProdTo(_, _)
DProdTo(x, k) == IF k = 0 THEN DInt(1) ELSE IF k = 1 THEN x[1] ELSE DMul(DProdTo(x, k - 1), x[k])
DSum(x) == DSumTo(x, Len(x))
DProd(x) == DProdTo(x, Len(x))
=============================================================================
