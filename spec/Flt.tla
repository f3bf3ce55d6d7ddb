-------------------------------- MODULE Flt --------------------------------
(***************************************************************************)
(* IEEE-754 doubles for TLC.  A double is the pair <<hi, lo>> of its two   *)
(* 32-bit halves (TLC integers are 32-bit).  The operators are evaluated   *)
(* by the Java class Flt (java/Flt.java); the definitions below only fix   *)
(* their arity.  Nothing here knows about automatic differentiation.       *)
(***************************************************************************)
EXTENDS Integers, Sequences

RAdd(a, b) == CHOOSE x \in {} : TRUE
RSub(a, b) == CHOOSE x \in {} : TRUE
RMul(a, b) == CHOOSE x \in {} : TRUE
RMulZ(a, b) == CHOOSE x \in {} : TRUE    \* 0 if either factor is 0
RDiv(a, b) == CHOOSE x \in {} : TRUE
RNeg(a)    == CHOOSE x \in {} : TRUE
RAbs(a)    == CHOOSE x \in {} : TRUE
RMax(a, b) == CHOOSE x \in {} : TRUE     \* NaN if either is NaN
RFun(f, a) == CHOOSE x \in {} : TRUE     \* "sin", "cos", ..., "erf"
RLt(a, b)  == CHOOSE x \in {} : TRUE     \* IEEE comparisons
RLe(a, b)  == CHOOSE x \in {} : TRUE
REq(a, b)  == CHOOSE x \in {} : TRUE
RIsNaN(a)  == CHOOSE x \in {} : TRUE
RIsFin(a)  == CHOOSE x \in {} : TRUE
ROf(n)     == CHOOSE x \in {} : TRUE     \* integer to double
RDec(s)    == CHOOSE x \in {} : TRUE     \* decimal string to double
RShow(a)   == CHOOSE x \in {} : TRUE     \* double to string
RSame(a, b) == CHOOSE x \in {} : TRUE    \* same bits (zeros alike), or both NaN
RBits(a, b) == CHOOSE x \in {} : TRUE    \* same bits, or both NaN
RClose(a, b, tol) == CHOOSE x \in {} : TRUE \* same, both NaN, or |a-b| <= tol (tol NaN: FALSE)
(* vectors: sequences of doubles; <<>> stands for the zero vector          *)
RVLin(a, u, b, v) == CHOOSE x \in {} : TRUE \* a*u + b*v, a zero component stays zero
RVMax(u)    == CHOOSE x \in {} : TRUE    \* max norm
RVUnit(n, i) == CHOOSE x \in {} : TRUE
RVAt(u, i)  == CHOOSE x \in {} : TRUE    \* component i, zero if u = <<>>
RVZero(u)   == CHOOSE x \in {} : TRUE    \* TRUE iff <<>> or all components zero
(* hashing, for reproducible pseudo-random choices                          *)
Mix(h, k)  == CHOOSE x \in {} : TRUE     \* integers to a non-negative integer
RRnd(h, lo, hi) == CHOOSE x \in {} : TRUE \* multiple of 2^-10 in [lo, hi] (decimal strings) chosen by h
=============================================================================
