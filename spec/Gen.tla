--------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Behaviours of Session, to be replayed into the real library: a state of *)
(* this specification is (program, run number, session state, the actions  *)
(* taken so far); its steps are Session actions taken under their guards   *)
(* with predicted results.  Programs come from the abstract syntax of      *)
(* Denote: every family first walks through a systematic list of forms     *)
(* (rule x shapes x operand kinds) and fills them with pseudo-random       *)
(* subexpressions.  All choices are functions of IOEnv.GEN_SEED.           *)
(*                                                                         *)
(* When all runs of a program are complete it is written to                *)
(* IOEnv.GEN_OUT/<name>.json.                                              *)
(***************************************************************************)
EXTENDS Session, Par, Small, SequencesExt, Json, IOUtils

GFam   == IOEnv.GEN_FAMILY
GSeed  == atoi(IOEnv.GEN_SEED)
\* families with the same grammar walk through different programs
FamSeed == LET f == IOEnv.GEN_FAMILY IN CASE f = "C21" -> 21 [] f = "C20" -> 20 [] f = "C07" -> 7 [] f = "C19" -> 19 [] OTHER -> 0
GN     == atoi(IOEnv.GEN_N)
GFirst == atoi(IOEnv.GEN_FIRST)
GThorough == IOEnv.GEN_TIER = "thorough"
GOut   == IOEnv.GEN_OUT

(* ---- choices ------------------------------------------------------------ *)
One(h, xs) == xs[(h % Len(xs)) + 1]
Chance(h, k, n) == (h % n) < k
RECURSIVE Total(_, _), PickW(_, _, _)
Total(ws, j) == IF j = 0 THEN 0 ELSE ws[j][1] + Total(ws, j - 1)
PickW(r, ws, j) == IF r < ws[j][1] THEN ws[j][2] ELSE PickW(r - ws[j][1], ws, j + 1)
Pick(h, ws) == PickW(h % Total(ws, Len(ws)), ws, 1)
Of(f, n, a) == [k |-> f, f |-> n, a |-> a]

(* ---- data --------------------------------------------------------------- *)
Ints(h) == ROf((h % 5) - 2)
Num(h, prof) ==
  CASE prof = "unit" -> RRnd(h, "0.15", "0.95")
    [] prof = "pos"  -> RRnd(h, "0.3", "3")
    [] prof = "wide" -> RRnd(h, "-2.5", "2.5")
    [] prof = "int"  -> Ints(h)
    [] prof = "tie"  -> CASE h % 16 = 3 -> RDec("1.0000000000000002") [] h % 16 = 5 -> RDec("0.99999999999999989")
                          [] h % 16 = 4 -> RDec("0.50000000000000011") [] h % 2 = 0 -> RHalf [] OTHER -> R1
    [] prof = "off"  -> RAdd(RDec("3e5"), RRnd(h, "-2", "2"))
    [] prof = "big"  -> RRnd(h, "-40", "40")
    [] prof = "huge" -> RRnd(h, "-800", "800")
    [] prof = "ext" -> One(h, <<RDec("-745.25"), RDec("-720.5"), RDec("712.5"), RDec("-37.5"), RDec("37.5"), RDec("1e-9"), RDec("-1e-9"), RDec("12345.5"), RDec("-98765.25"), RDec("-718"), RDec("-800"), RDec("19.5")>>)
    [] prof = "zero" -> IF h % 2 = 0 THEN IF h % 8 = 0 THEN RNeg(R0) ELSE R0 ELSE RRnd(Mix(h, 3), "-2.5", "2.5")
    [] prof = "spec" -> One(h, <<R0, R0, R1, RNeg(R1), RHalf, RNeg(RHalf), ROf(2), RRnd(Mix(h, 3), "-0.9", "0.9")>>)
SymAt(h, i, j, off) ==
  IF i = j THEN RRnd(Mix(h, i), "1.5", "3")
  ELSE RRnd(Mix(h, 100 + 10 * (IF i < j THEN i ELSE j) + (IF i < j THEN j ELSE i)), "-0.45", off)
MatOf(r, c, F(_, _)) == TLCEval([k \in 1..(r * c) |-> F(((k - 1) % r) + 1, ((k - 1) \div r) + 1)])
ElemOf(h, r, c, F(_)) == TLCEval([k \in 1..(r * c) |-> F(Mix(h, k))])
\* numbers at, and next to, one another
Edge(h, tg) ==
  CASE tg = "lo"  -> RDec(One(h, <<"-1", "-1", "-0.99999999999999989", "-1.0000000000000002", "-0", "-1e-300">>))
    [] tg = "hi"  -> RDec(One(h, <<"1", "1", "0.99999999999999989", "1.0000000000000002", "0.5", "1">>))
    [] tg = "obs" -> RDec(One(h, <<"-1", "-0.99999999999999989", "0", "1e-300", "0.25", "0.99999999999999989", "1", "0.5", "-0.25", "0.75">>))
MScale(h) == CASE h % 13 = 1 -> RDec("1e-4") [] h % 13 = 2 -> RDec("1e-110") [] h % 13 = 3 -> RDec("1e90") [] h % 13 = 4 -> RDec("1e-7") [] h % 13 = 5 -> RDec("1e210") [] OTHER -> R1
MatTags == {"spd", "spdx", "def", "sq"}
\* values for a leaf or a constant: tg says what its role requires
Data0(h, prof, r, c, tg) ==
  CASE tg = "bin"  -> ElemOf(h, r, c, LAMBDA z : IF z % 29 = 0 THEN RHalf ELSE ROf((z \div 31) % 2))
    [] tg = "prob" /\ h % 13 \in {1, 2} -> ElemOf(h, r, c, LAMBDA z : RMul(RRnd(z, "0.5", "1"), RDec(IF h % 13 = 1 THEN "1e-60" ELSE "1e-9")))
    [] tg = "prob" /\ h % 13 = 3 -> ElemOf(h, r, c, LAMBDA z : RSub(R1, RMul(RRnd(z, "0.5", "1"), RDec("1e-9"))))
    [] tg = "prob" -> ElemOf(h, r, c, LAMBDA z :
                        IF z % (IF h % 3 = 0 THEN 3 ELSE 29) = 0 THEN One(Mix(z, 1), <<R0, R1, RNeg(RHalf), RDec("1.5")>>)
                        ELSE RRnd(z, "0.08", "0.92"))
    [] tg = "pos" /\ h % 11 \in {2, 3, 4, 5} -> ElemOf(h, r, c, LAMBDA z : RMul(RRnd(z, "0.3", "3"), RDec(One(h % 11, <<"1e40", "1e4", "1e-9", "1e-60">>))))
    [] tg = "pos"  -> ElemOf(h, r, c, LAMBDA z :
                        IF h % 11 = 0 /\ z % 2 = 0 THEN RRnd(z, "-1.5", "-0.25")
                        ELSE IF h % 11 = 1 /\ z % 3 = 0 THEN R0 ELSE RRnd(z, "0.3", "3"))
    [] tg \in {"obs", "lo", "hi"} /\ h % 4 = 1 -> ElemOf(h, r, c, LAMBDA z : Edge(z, tg))
    [] tg \in {"lo", "hi"} /\ h % 8 = 2 -> ElemOf(h, r, c, LAMBDA z : RMul(RRnd(z, "1", "3"), RDec(IF tg = "lo" THEN "-1e40" ELSE "1e40")))
    [] tg = "obs"  -> ElemOf(h, r, c, LAMBDA z :
                        IF h % 7 = 0 /\ z % 3 = 0 THEN RRnd(z, "-5", "5") ELSE RRnd(z, "-0.95", "0.95"))
    [] tg = "lo"   -> ElemOf(h, r, c, LAMBDA z : IF h % 17 = 0 /\ z % 3 = 0 THEN RRnd(z, "0", "4") ELSE RRnd(z, "-3", "-1"))
    [] tg = "hi"   -> ElemOf(h, r, c, LAMBDA z : IF h % 17 = 0 /\ z % 3 = 0 THEN RRnd(z, "-4", "0") ELSE RRnd(z, "1", "3"))
    [] tg = "far"  -> ElemOf(h, r, c, LAMBDA z : Num(z, IF h % 8 = 0 THEN "wide" ELSE "off"))
    [] tg = "oz" /\ r * c = 0 -> <<>>
    [] tg = "oz"   -> \* factors: one zero, sometimes two or none
                      LET k1 == (Mix(h, 91) % (r * c)) + 1
                          k2 == (Mix(h, 92) % (r * c)) + 1
                          x == ElemOf(h, r, c, LAMBDA z : RRnd(z, "0.5", "2.5"))
                      IN CASE h % 8 = 4 -> [x EXCEPT ![k1] = RMul(@, RDec(One(Mix(h, 93), <<"1e-9", "-1e-20", "1e-80", "1e-300">>)))] [] h % 4 = 0 -> x [] h % 16 = 2 -> [x EXCEPT ![k1] = RNeg(R0)] [] h % 4 = 1 -> [x EXCEPT ![k1] = R0, ![k2] = R0] [] OTHER -> [x EXCEPT ![k1] = R0]
    [] tg = "spd"  -> IF h % 9 = 0 THEN \* indefinite
                        MatOf(r, c, LAMBDA i, j : IF i = j /\ i = r THEN RNeg(SymAt(h, i, j, "0.45")) ELSE SymAt(h, i, j, "0.45"))
                      ELSE MatOf(r, c, LAMBDA i, j : SymAt(h, i, j, "0.45"))
    [] tg = "spdx" -> IF h % 9 = 0 THEN \* singular: a zero row and column
                        MatOf(r, c, LAMBDA i, j : IF i = r \/ j = r THEN R0 ELSE SymAt(h, i, j, "0.45"))
                      ELSE MatOf(r, c, LAMBDA i, j : SymAt(h, i, j, "0.45"))
    [] tg = "def"  -> IF h % 9 = 0 THEN MatOf(r, c, LAMBDA i, j : IF i = r \/ j = r THEN R0 ELSE SymAt(h, i, j, "0.45"))
                      ELSE IF h % 2 = 0 THEN MatOf(r, c, LAMBDA i, j : RNeg(SymAt(h, i, j, "0.45")))
                      ELSE MatOf(r, c, LAMBDA i, j : SymAt(h, i, j, "0.45"))
    [] tg = "sq"   -> IF h % 9 = 0 THEN MatOf(r, c, LAMBDA i, j : IF i = (h % r) + 1 THEN R0 ELSE Num(Mix(h, i * 8 + j), "wide"))
                      ELSE IF h % 9 = 1 THEN MatOf(r, c, LAMBDA i, j : IF i + j = r + 1 THEN RRnd(Mix(h, i), "1", "3") ELSE R0)
                      ELSE MatOf(r, c, LAMBDA i, j : Num(Mix(h, i * 8 + j), "wide"))
    [] OTHER -> ElemOf(h, r, c, LAMBDA z : Num(z, prof))

DataFor(h, prof, r, c, tg) ==
  LET x == Data0(h, prof, r, c, tg)
      f == MScale(Mix(h, 77))
  IN IF tg \in MatTags /\ ~REq(f, R1) THEN TLCEval([k \in 1..Len(x) |-> RMul(f, x[k])]) ELSE x

(* ---- leaves ------------------------------------------------------------- *)
(* While a program is being generated a leaf is named by a description;    *)
(* Resolve replaces descriptions by positions in the leaf table.           *)
ShNo(sh) == CASE sh = "s" -> 1 [] sh = "v" -> 2 [] sh = "m" -> 3
Ref(cx, sh, r, c, id, tg) ==
  [sh |-> sh, r |-> r, c |-> c, id |-> id + cx.base, tg |-> tg,
   kd |-> IF Mix(cx.seed, 7 * id + ShNo(sh)) % 4 = 0 THEN "view" ELSE "var"]
CRef(cx, sh, r, c, id, tg) == [Ref([cx EXCEPT !.base = 0], sh, r, c, id, tg) EXCEPT !.kd = "cview"]
V(ref) == [k |-> "v", ref |-> ref]
Con(h, sh, r, c, d) == [k |-> "con", sh |-> sh, r |-> r, c |-> c, d |-> d, how |-> h % 4]
ConProf(h) == One(h, <<"unit", "unit", "pos", "wide", "int">>)
ConTag(h, sh, r, c, tg) == Con(Mix(h, 1), sh, r, c, DataFor(Mix(h, 2), ConProf(Mix(h, 3)), r, c, tg))

Size(h) == IF Mix(h, 9) % 50 = 7 THEN 0 ELSE IF GThorough THEN One(h, <<1, 1, 2, 2, 3, 3, 4, 5, 7, 8, 9, 16, 17>>)
           ELSE IF Mix(h, 7) % 16 = 0 THEN One(Mix(h, 8), <<7, 8, 12, 16, 17, 33, 65>>)
           ELSE One(h, <<1, 2, 2, 3, 3, 4, 5, 9>>)
Small(h) == IF Mix(h, 7) % 16 = 0 THEN One(Mix(h, 8), <<4, 5, 4, 5, 8>>) ELSE One(h, <<1, 2, 2, 3, 3>>)
SmallD(h) == IF Mix(h, 7) % 16 = 0 THEN One(Mix(h, 8), <<4, 4, 5, 6>>) ELSE One(h, <<1, 2, 2, 3, 3>>)     \* matrices that are decomposed

PhsFor(cx, sh, r, c) == SelectSeq(cx.ph, LAMBDA p : p.sh = sh /\ p.r = r /\ p.c = c)
PhVecs(cx, r) == SelectSeq(cx.ph, LAMBDA p : p.sh = "v" /\ p.r > r)
HolesFor(cx, sh, r, c) ==
  LET n == Len(cx.hole)
      all == [q \in 1..(n * 2) |-> <<((q - 1) \div 2) + 1, ((q - 1) % 2) + 1>>]
  IN SelectSeq(all, LAMBDA q : q[2] <= Len(cx.hole[q[1]]) /\
        cx.hole[q[1]][q[2]].sh = sh /\ cx.hole[q[1]][q[2]].r = r /\ cx.hole[q[1]][q[2]].c = c)
Hole(lv, j) == [k |-> "hole", lv |-> lv, j |-> j]
CHole(h, q) == [k |-> "chole", lv |-> q[1], j |-> q[2], how |-> h % 2]

Sub(h, cx, sh, r) ==
  IF sh = "s"
    THEN LET vs == PhVecs(cx, 0)
             L == One(Mix(h, 1), <<1, 2, 3, 5>>)
             ref == IF vs # <<>> /\ h % 2 = 0 THEN One(Mix(h, 2), vs) ELSE Ref(cx, "v", L, 1, (Mix(h, 3) % 2) + 1, "")
         IN [k |-> "sub", how |-> One(Mix(h, 4), <<"idx", "call">>), n |-> Mix(h, 5) % ref.r, m |-> 0, ref |-> ref]
  ELSE LET vs == PhVecs(cx, r)
           L == r + 1 + (Mix(h, 1) % 2)
           ref == IF vs # <<>> /\ h % 2 = 0 THEN One(Mix(h, 2), vs) ELSE Ref(cx, "v", L, 1, (Mix(h, 3) % 2) + 1, "")
           how == One(Mix(h, 4), <<"head", "tail", "headtail">>)
       IN [k |-> "sub", how |-> how, n |-> r, m |-> r + (Mix(h, 5) % (ref.r - r + 1)), ref |-> ref]

Leaf(h, sh, r, c, cx) ==
  LET hs == HolesFor(cx, sh, r, c)
      ps == PhsFor(cx, sh, r, c)
      k == Pick(Mix(h, 1), <<<<12, "v">>, <<IF sh = "m" THEN 0 ELSE 3, "sub">>, <<cx.fam.con, "con">>, <<IF sh = "s" THEN 0 ELSE 1, "cview">>,
                             <<IF hs = <<>> THEN 0 ELSE 15, "hole">>, <<IF sh = "s" /\ cx.ch # <<>> THEN 15 ELSE 0, "chole">>, <<IF ps = <<>> THEN 0 ELSE 15, "ph">>>>)
  IN CASE k = "v" -> V(Ref(cx, sh, r, c, (Mix(h, 2) % 2) + 1, ""))
       [] k = "sub" -> Sub(Mix(h, 3), cx, sh, r)
       [] k = "con" -> ConTag(Mix(h, 4), sh, r, c, "")
       [] k = "cview" -> V(CRef(cx, sh, r, c, 51, ""))
       [] k = "hole" -> LET q == One(Mix(h, 5), hs) IN Hole(q[1], q[2])
       [] k = "ph" -> V(One(Mix(h, 6), ps))
       [] k = "chole" -> CHole(Mix(h, 7), One(Mix(h, 8), cx.ch))
Var(h, sh, r, c, cx) == V(Ref(cx, sh, r, c, (h % 2) + 1, ""))
\* a leaf with a role
TLeaf(h, sh, r, c, cx, tg) ==
  CASE h % 5 = 0 -> ConTag(Mix(h, 1), sh, r, c, tg)
    [] h % 23 = 1 /\ sh # "s" -> V(CRef(cx, sh, r, c, 60, tg))
    [] OTHER -> V(Ref(cx, sh, r, c, (Mix(h, 2) % 2) + 1, tg))

(* ---- expressions --------------------------------------------------------- *)
Unaries == <<"neg", "sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "sqrt", "erf",
             "sigmoid", "sinh", "cosh", "tanh">>
Arith == <<"+", "-", "*", "/">>
Rels == <<"<", "<=", ">", ">=", "==", "!=">>
Limited == {"asin", "acos", "log", "sqrt", "tan"}
U1(f, x) == [k |-> "u", f |-> f, a |-> <<x>>]
B2(f, x, y) == [k |-> "b", f |-> f, a |-> <<x, y>>]
IsLeafNode(n) == n.k \in {"v", "sub", "hole", "chole", "con"}
Wrap(h, f, x) == IF f \in Limited /\ ~IsLeafNode(x) /\ h % 3 # 0 THEN U1(f, U1("sigmoid", x)) ELSE U1(f, x)

\* statements and comparisons used as operands must contain a variable
RECURSIVE ConstOnly(_)
ConstOnly(n) == CASE n.k \in {"con", "chole"} -> TRUE
                  [] n.k \in {"v", "sub"} -> n.ref.kd = "cview"
                  [] n.k \in {"hole", "eq", "op"} -> FALSE
                  [] OTHER -> \A j \in 1..Len(n.a) : ConstOnly(n.a[j])
Live(h, x, cx) == IF ConstOnly(x) THEN B2("*", x, Var(h, "s", 1, 1, cx)) ELSE x

RECURSIVE G(_, _, _, _, _, _), GStat(_, _, _, _), GStmts(_, _, _, _, _), GStmt(_, _, _), GIter(_, _, _, _, _, _, _)

\* two operands of a binary operator with result shape sh: broadcasting pattern
Pattern(h, sh) == IF sh = "s" THEN "ss" ELSE One(h, <<"==", "==", "==", "s=", "=s">>)
GBin(h, f, pat, sh, r, c, d, cx) ==
  CASE pat \in {"ss", "=="} -> B2(f, G(Mix(h, 1), sh, r, c, d, cx), G(Mix(h, 2), sh, r, c, d, cx))
    [] pat = "s=" -> B2(f, G(Mix(h, 1), "s", 1, 1, d, cx), G(Mix(h, 2), sh, r, c, d, cx))
    [] pat = "=s" -> B2(f, G(Mix(h, 1), sh, r, c, d, cx), G(Mix(h, 2), "s", 1, 1, d, cx))
\* a condition
GCond(h, d, cx) ==
  LET cmp(z) == B2(One(Mix(z, 1), Rels), Live(z, G(Mix(z, 2), "s", 1, 1, d, cx), cx), G(Mix(z, 3), "s", 1, 1, d, cx))
  IN IF h % 4 = 0 THEN B2(One(Mix(h, 1), <<"&&", "||">>), cmp(Mix(h, 2)), cmp(Mix(h, 3)))
     ELSE IF h % 8 = 1 THEN B2(One(Mix(h, 1), <<"-", "*">>), Var(Mix(h, 5), "s", 1, 1, cx), G(Mix(h, 3), "s", 1, 1, d, cx))   \* any number is a condition
     ELSE cmp(Mix(h, 4))
IfE(c, x, y) == [k |-> "ife", a |-> <<c, x, y>>]
Pow(n, x) == [k |-> "pow", n |-> n, a |-> <<x>>]
Exponents == <<2, 3, -1, 0, 1, -2, 4, 5, -3, 7, 6, 9, -5, 8, -4, 11, 13, 12, -6, 10, 15, -7, 14, 16, 17, 31, -8>>
\* a matrix that is symmetric positive definite (or has the role tg)
GMat(h, p, d, cx, tg) ==
  LET A == TLeaf(Mix(h, 1), "m", p, p, cx, tg)
      Bm == TLeaf(Mix(h, 2), "m", p, p, cx, tg)
      M == Var(Mix(h, 3), "m", p, p, cx)
      sc == [ConTag(Mix(h, 4), "s", 1, 1, "") EXCEPT !.d = <<RRnd(Mix(h, 5), "0.5", "2")>>]
  IN IF d = 0 THEN A
     ELSE CASE h % 6 = 0 -> B2("+", A, Bm)
            [] h % 6 = 1 -> B2("*", sc, A)
            [] h % 6 = 2 /\ tg # "def" -> B2("+", [k |-> "dot", a |-> <<M, [k |-> "tr", a |-> <<M>>]>>], A)
            [] h % 6 = 3 -> B2("/", A, U1("exp", Var(Mix(h, 6), "s", 1, 1, cx)))
            [] h % 6 = 4 -> [k |-> "tr", a |-> <<A>>]
            [] OTHER -> A
GDet(h, log, d, cx) ==
  LET p == SmallD(Mix(h, 1))
      pol == One(Mix(h, 2), <<"lu", "ldlt", "llt">>)
      tg == CASE pol = "lu" -> One(Mix(h, 3), <<"sq", "sq", "spd">>) [] pol = "ldlt" -> "def" [] pol = "llt" -> "spdx"
      A == IF pol = "lu" /\ d > 0 /\ h % 2 = 0 THEN G(Mix(h, 4), "m", p, p, d - 1, cx) ELSE GMat(Mix(h, 4), p, d, cx, tg)
  IN [k |-> IF log THEN "logdet" ELSE "det", pol |-> pol, a |-> <<A>>]

G(h, sh, r, c, d, cx) ==
  IF d <= 0 THEN Leaf(h, sh, r, c, cx)
  ELSE LET ws == CASE sh = "s" -> cx.fam.s [] sh = "v" -> cx.fam.v [] sh = "m" -> cx.fam.m
           w == Pick(Mix(h, 1), ws)
           sub(z, sh2, r2, c2) == G(Mix(h, z), sh2, r2, c2, d - 1, cx)
           big == IF h % 3 = 0 THEN <<"m", Small(Mix(h, 11)), Small(Mix(h, 12))>> ELSE <<"v", Size(Mix(h, 13)), 1>>
       IN CASE w = "leaf" -> Leaf(Mix(h, 2), sh, r, c, cx)
            [] w = "un" -> LET f == One(Mix(h, 2), Unaries) IN Wrap(Mix(h, 3), f, sub(4, sh, r, c))
            [] w = "bin" -> GBin(Mix(h, 2), One(Mix(h, 3), Arith), Pattern(Mix(h, 4), sh), sh, r, c, d - 1, cx)
            [] w = "cmp" -> LET x == GBin(Mix(h, 2), One(Mix(h, 3), Rels), Pattern(Mix(h, 4), sh), sh, r, c, d - 1, cx)
                            IN [x EXCEPT !.a[1] = IF ConstOnly(x.a[2]) THEN Live(Mix(h, 5), @, cx) ELSE @]
            [] w = "pow" -> Pow(One(Mix(h, 2), Exponents), sub(4, sh, r, c))
            [] w = "ife" -> IfE(GCond(Mix(h, 2), d - 1, cx), sub(4, sh, r, c), sub(5, sh, r, c))
            [] w = "sumE" -> [k |-> "sum", a |-> <<sub(4, big[1], big[2], big[3])>>]
            [] w = "prodE" -> LET n1 == IF big[2] > 5 THEN 4 ELSE big[2]
                              IN [k |-> "prod", a |-> <<IF Mix(h, 14) % 3 = 0 THEN V(Ref(cx, big[1], n1, big[3], 7, "oz")) ELSE sub(4, big[1], n1, big[3])>>]
            [] w = "norm" -> [k |-> "norm", a |-> <<sub(4, big[1], big[2], big[3])>>]
            [] w = "sumI" -> GIter(Mix(h, 2), "sum", sh, r, c, d, cx)
            [] w = "prodI" -> GIter(Mix(h, 2), "prod", sh, r, c, d, cx)
            [] w = "det" -> GDet(Mix(h, 2), FALSE, d - 1, cx)
            [] w = "logdet" -> GDet(Mix(h, 2), TRUE, d - 1, cx)
            [] w = "stat" -> GStat(Mix(h, 2), One(Mix(h, 3), cx.fam.stat), d - 1, cx)
            [] w = "dot" -> LET q == Small(Mix(h, 6)) IN
                 [k |-> "dot", a |-> <<sub(4, "m", r, q), sub(5, IF sh = "v" THEN "v" ELSE "m", q, c)>>]
            [] w = "tr" -> [k |-> "tr", a |-> <<IF r = 1 /\ h % 2 = 0 THEN sub(4, "v", c, 1) ELSE sub(5, "m", c, r)>>]

\* lists of plain numbers walked along with an iteration (or none)
Nums(h, L) == IF h % 4 # 0 THEN <<>> ELSE <<TLCEval([k \in 1..L |-> RRnd(Mix(h, k), "-1.5", "2")])>>
\* sum / prod over a range of leaves (one or two lists walked in step)
GIter(h, f, sh, r, c, d, cx) ==
  LET L == IF Mix(h, 71) % 20 = 3 /\ sh = "s" THEN 0
           ELSE IF Mix(h, 71) % 10 = 0 THEN IF f = "prod" THEN 6 ELSE One(Mix(h, 78), <<11, 11, 11, 17, 33>>)
           ELSE IF f = "prod" THEN One(Mix(h, 1), <<1, 2, 3, 4>>) ELSE One(Mix(h, 1), <<1, 2, 3, 4, 6>>)
      nl == (Mix(h, 2) % 2) + 1
      lv == Len(cx.hole) + 1
      esh == IF L = 0 THEN <<"s", 1, 1>> ELSE IF sh = "s" THEN One(Mix(h, 3), <<<<"s", 1, 1>>, <<"s", 1, 1>>, <<"v", 2, 1>>>>) ELSE <<sh, r, c>>
      refs(j) == [q \in 1..L |-> Ref(cx, IF j = 1 THEN esh[1] ELSE "s", IF j = 1 THEN esh[2] ELSE 1, IF j = 1 THEN esh[3] ELSE 1,
                                     IF Mix(h, 40 + j) % 5 = 0 THEN (Mix(h, 50 + 8 * j + q) % 3) + 1 ELSE 10 + 8 * j + q, "")]
      ls == [j \in 1..nl |-> refs(j)]
      cs == Nums(Mix(h, 72), L)
      cx2 == [cx EXCEPT !.hole = Append(@, [j \in 1..nl |-> IF j = 1 THEN [sh |-> esh[1], r |-> esh[2], c |-> esh[3]] ELSE [sh |-> "s", r |-> 1, c |-> 1]]),
                        !.ch = IF cs = <<>> THEN @ ELSE Append(@, <<lv, 1>>)]
      h1 == Hole(lv, 1)
      rest == G(Mix(h, 4), sh, r, c, IF d > 1 THEN d - 2 ELSE 0, cx2)
      body == IF sh = "s" /\ esh[1] = "v"
                THEN [k |-> One(Mix(h, 5), <<"sum", "prod", "norm">>), a |-> <<h1>>]
              ELSE IF nl = 2 THEN B2(One(Mix(h, 5), Arith), h1, IF sh = "s" \/ h % 2 = 0 THEN Hole(lv, 2) ELSE rest)
              ELSE CASE Mix(h, 6) % 4 = 0 -> h1
                     [] Mix(h, 6) % 4 = 1 -> U1(One(Mix(h, 7), <<"sin", "exp", "neg", "cos", "tanh">>), h1)
                     [] Mix(h, 6) % 4 = 2 -> B2(One(Mix(h, 7), <<"*", "+", "-">>), h1, rest)
                     [] OTHER -> B2(One(Mix(h, 7), <<"*", "+", "-">>), rest, h1)
      \* a range of plain numbers only
      cx3 == [cx EXCEPT !.hole = Append(@, <<>>), !.ch = Append(@, <<lv, 1>>)]
      z == CHole(Mix(h, 73), <<lv, 1>>)
      x3 == G(Mix(h, 74), sh, r, c, IF d > 1 THEN d - 2 ELSE 0, cx3)
      body3 == B2(One(Mix(h, 75), <<"*", "+", "-">>), x3, IF ConstOnly(x3) THEN B2("*", z, Var(Mix(h, 76), "s", 1, 1, cx)) ELSE z)
  IN IF cs # <<>> /\ Mix(h, 77) % 2 = 0 THEN [k |-> "it", f |-> f, ls |-> <<>>, cs |-> cs, a |-> <<body3>>]
     ELSE [k |-> "it", f |-> f, ls |-> ls, cs |-> cs, a |-> <<IF cs = <<>> \/ sh # "s" THEN body ELSE B2("*", body, z)>>]

\* an argument with a role: a leaf of that role, or an expression over one
GArg(h, sh, r, c, d, cx, tg) ==
  LET l == TLeaf(Mix(h, 1), sh, r, c, cx, tg)
  IN IF d <= 0 \/ h % 2 = 0 THEN l
     ELSE CASE tg = "pos" -> One(Mix(h, 2), <<U1("exp", G(Mix(h, 3), sh, r, c, d - 1, cx)), B2("*", l, l), U1("sqrt", l)>>)
            [] tg = "prob" -> One(Mix(h, 2), <<U1("sigmoid", G(Mix(h, 3), sh, r, c, d - 1, cx)), l, l>>)
            [] tg = "bin" -> l
            [] tg = "lo" -> B2("-", l, U1("exp", Var(Mix(h, 3), sh, r, c, cx)))
            [] tg = "hi" -> B2("+", l, U1("exp", Var(Mix(h, 3), sh, r, c, cx)))
            [] tg = "obs" -> B2("*", l, U1("sin", Var(Mix(h, 3), sh, r, c, cx)))
            [] OTHER -> G(Mix(h, 3), sh, r, c, d, cx)
StatShapes(f) ==
  CASE f = "normal" -> <<"sss", "vss", "vvs", "vsv", "vvv", "vsm", "vvm">>
    [] f \in {"cauchy", "uniform"} -> <<"sss", "vss", "vsv", "vvs", "vvv">>
    [] f = "bernoulli" -> <<"ss", "vs", "vv">>
    [] f = "wishart" -> <<"mms">>
StatTags(f) ==
  CASE f \in {"normal", "cauchy"} -> <<"", "", "pos">>
    [] f = "uniform" -> <<"obs", "lo", "hi">>
    [] f = "bernoulli" -> <<"bin", "prob">>
    [] f = "wishart" -> <<"spd", "spd", "">>
ArgShape(shs, j) == CASE SubSeq(shs, j, j) = "s" -> "s" [] SubSeq(shs, j, j) = "v" -> "v" [] SubSeq(shs, j, j) = "m" -> "m"
Dof(h, p) == [ConTag(h, "s", 1, 1, "") EXCEPT !.d = <<IF h % 10 = 0 THEN ROf(p - 1) ELSE IF h % 10 = 1 THEN RSub(ROf(p - 1), RHalf)
                                                     ELSE RAdd(ROf(p), RRnd(h, "-0.75", "4"))>>]
\* kinds: for each argument "v" leaf variable, "e" expression, "c" constant, "w" view of constant data,
\* "f" / "g" constant / variable far from 0, "?" any
StatOf(h, f, shs, kinds, d, cx) ==
  LET n0 == Size(Mix(h, 1))
      n == IF n0 = 0 THEN 1 ELSE n0          \* at least one observation
      p == SmallD(Mix(h, 2))
      hasM == \E j \in 1..Len(StatTags(f)) : ArgShape(shs, j) = "m"
      N == IF hasM THEN p ELSE n
      arg(j) ==
        LET sh == ArgShape(shs, j)
            z == Mix(h, 10 + j)
            r == IF sh = "s" THEN 1 ELSE N
            c == IF sh = "m" THEN N ELSE 1
            tg == IF sh = "m" THEN "spd" ELSE StatTags(f)[j]
        IN IF f = "wishart" /\ j = 3 THEN Dof(z, N)
           ELSE CASE SubSeq(kinds, j, j) = "c" -> ConTag(z, sh, r, c, tg)
                  [] SubSeq(kinds, j, j) = "f" -> IF sh = "s" \/ z % 2 = 0 THEN ConTag(z, sh, r, c, "far") ELSE V(CRef(cx, sh, r, c, 60 + j, "far"))
                  [] SubSeq(kinds, j, j) = "g" -> V(Ref(cx, sh, r, c, 1 + j, "far"))
                  [] SubSeq(kinds, j, j) = "w" /\ sh # "s" -> V(CRef(cx, sh, r, c, 60 + j, tg))
                  [] SubSeq(kinds, j, j) = "v" -> V(Ref(cx, sh, r, c, IF z % 3 = 0 THEN 1 ELSE 1 + j, tg))
                  [] sh = "m" -> GMat(z, N, IF SubSeq(kinds, j, j) = "e" THEN 1 ELSE d, cx, tg)
                  [] SubSeq(kinds, j, j) = "e" -> GArg((Mix(z, 1) % 1000000) * 2 + 1, sh, r, c, IF d > 0 THEN d ELSE 1, cx, tg)
                  [] OTHER -> GArg(z, sh, r, c, d, cx, tg)
  IN [k |-> "stat", f |-> f, a |-> [j \in 1..Len(StatTags(f)) |-> arg(j)]]
GStat(h, f, d, cx) ==
  StatOf(Mix(h, 1), f, One(Mix(h, 2), StatShapes(f)), "???", d, cx)

(* ---- statements ----------------------------------------------------------- *)
Glue(ns) == [k |-> "glue", a |-> ns]
Eq(w, x) == [k |-> "eq", w |-> w, a |-> <<x>>]
Op(f, w, x) == [k |-> "op", f |-> f, w |-> w, a |-> <<x>>]
\* a right-hand side: anything but a bare variable
GRhs(h, sh, r, c, d, cx) ==
  LET x == G(h, sh, r, c, IF d < 1 THEN 1 ELSE d, cx)
  IN IF x.k \in {"v", "sub", "hole", "chole"} THEN B2("*", x, ConTag(Mix(h, 7), "s", 1, 1, "")) ELSE x
AnyShape(h) == One(h, <<<<"s", 1, 1>>, <<"s", 1, 1>>, <<"v", Size(Mix(h, 1)), 1>>, <<"v", 2, 1>>, <<"m", Small(Mix(h, 2)), Small(Mix(h, 3))>>>>)
NewPh(cx, sh, r, c) == Ref(cx, sh, r, c, 100 + cx.np, "")

\* one statement: [n |-> node, cx |-> context afterwards]
GStmt(h, d, cx) ==
  LET w == Pick(Mix(h, 1), cx.fam.stm)
      s == AnyShape(Mix(h, 2))
  IN CASE w = "eq" ->
            LET p == NewPh(cx, s[1], s[2], s[3])
                x == GRhs(Mix(h, 3), s[1], s[2], s[3], d, cx)
            IN [n |-> Eq(V(p), x), cx |-> [cx EXCEPT !.np = @ + 1, !.ph = Append(@, p)]]
       [] w = "eqparts" ->  \* a vector placeholder filled through its subviews
            LET p == NewPh(cx, "v", 3, 1)
                e1 == Eq([k |-> "sub", how |-> One(Mix(h, 4), <<"head", "tail">>), n |-> 2, m |-> 0, ref |-> p], GRhs(Mix(h, 5), "v", 2, 1, d, cx))
                e2 == Eq([k |-> "sub", how |-> "idx", n |-> IF e1.w.how = "head" THEN 2 ELSE 0, m |-> 0, ref |-> p], GRhs(Mix(h, 6), "s", 1, 1, d, cx))
            IN [n |-> Glue(<<e1, e2>>), cx |-> [cx EXCEPT !.np = @ + 1, !.ph = Append(@, p)]]
       [] w = "op" ->
            LET f == One(Mix(h, 3), Arith)
                ps == cx.ph
                t == IF ps # <<>> /\ Mix(h, 4) % 3 = 0 THEN V(One(Mix(h, 5), ps)) ELSE Var(Mix(h, 5), s[1], s[2], s[3], cx)
                tr == t.ref
                part == tr.sh = "v" /\ tr.r > 0 /\ Mix(h, 6) % 3 = 0
                vpart == part /\ tr.r > 1 /\ Mix(h, 11) % 2 = 0      \* a vector part
                pn == (Mix(h, 12) % (tr.r - 1)) + 1
                w1 == IF vpart THEN [k |-> "sub", how |-> One(Mix(h, 13), <<"head", "tail", "headtail">>), n |-> pn,
                                     m |-> pn + (Mix(h, 14) % (tr.r - pn + 1)), ref |-> tr]
                      ELSE IF part THEN [k |-> "sub", how |-> "idx", n |-> Mix(h, 7) % tr.r, m |-> 0, ref |-> tr] ELSE t
                xs == IF (part /\ ~vpart) \/ Mix(h, 8) % 3 = 0 THEN <<"s", 1, 1>> ELSE IF vpart THEN <<"v", pn, 1>> ELSE <<tr.sh, tr.r, tr.c>>
                x == IF Mix(h, 9) % 8 = 0 THEN t ELSE G(Mix(h, 10), xs[1], xs[2], xs[3], d, cx)
                xx == IF part /\ x = t THEN w1 ELSE x
            IN [n |-> Op(f, w1, xx), cx |-> [cx EXCEPT !.ops = Append(@, tr)]]
       [] w = "each" ->  \* w_i = expr(x_i), possibly chained to w_(i-1)
            LET L == IF Mix(h, 71) % 20 = 3 THEN 0 ELSE IF Mix(h, 71) % 10 = 0 THEN 9 ELSE One(Mix(h, 3), <<1, 2, 3, 4>>)
                ws == [q \in 1..L |-> Ref([cx EXCEPT !.seed = Mix(cx.seed, 5)], "s", 1, 1, 100 + cx.np + q - 1, "")]
                ws2 == [q \in 1..L |-> [ws[q] EXCEPT !.kd = ws[1].kd]]
                x0 == Ref(cx, "s", 1, 1, 1, "")
                chained == Mix(h, 4) % 2 = 0
                xs == [q \in 1..L |-> IF chained THEN (IF q = 1 THEN x0 ELSE ws2[q - 1]) ELSE Ref(cx, "s", 1, 1, 30 + q, "")]
                lv == Len(cx.hole) + 1
                cs == Nums(Mix(h, 72), L)
                cx2 == [cx EXCEPT !.hole = Append(@, <<[sh |-> "n", r |-> 0, c |-> 0], [sh |-> "s", r |-> 1, c |-> 1]>>),
                                  !.ch = IF cs = <<>> THEN @ ELSE Append(@, <<lv, 1>>)]
                g == G(Mix(h, 5), "s", 1, 1, IF d > 1 THEN 1 ELSE 0, cx2)
                rhs == B2(One(Mix(h, 6), <<"+", "*", "-">>), Hole(lv, 2), g)
                body == IF Mix(h, 7) % 4 = 0 THEN Glue(<<Eq(Hole(lv, 1), rhs), Op(One(Mix(h, 8), <<"+", "*">>), Hole(lv, 1), Hole(lv, 2))>>)
                        ELSE Eq(Hole(lv, 1), rhs)
            IN [n |-> [k |-> "it", f |-> "each", ls |-> <<ws2, xs>>, cs |-> cs, a |-> <<body>>],
                cx |-> [cx EXCEPT !.np = @ + L, !.ph = @ \o ws2]]
       [] w = "eachop" -> \* x += e_i for every i
            LET L == IF Mix(h, 71) % 20 = 3 THEN 0 ELSE IF Mix(h, 71) % 10 = 0 THEN 9 ELSE One(Mix(h, 3), <<1, 2, 3, 4>>)
                xs == [q \in 1..L |-> Ref(cx, "s", 1, 1, 30 + q, "")]
                t == Var(Mix(h, 5), s[1], s[2], s[3], cx)
                lv == Len(cx.hole) + 1
                cs == Nums(Mix(h, 72), L)
                cx2 == [cx EXCEPT !.hole = Append(@, <<[sh |-> "s", r |-> 1, c |-> 1]>>), !.ch = IF cs = <<>> THEN @ ELSE Append(@, <<lv, 1>>)]
                x == IF Mix(h, 7) % 2 = 0 THEN Hole(lv, 1) ELSE B2("*", Hole(lv, 1), G(Mix(h, 6), "s", 1, 1, 0, cx2))
            IN [n |-> [k |-> "it", f |-> "each", ls |-> <<xs>>, cs |-> cs, a |-> <<Op(One(Mix(h, 8), Arith), t, x)>>],
                cx |-> [cx EXCEPT !.ops = Append(@, t.ref)]]
       [] w = "ife" -> \* both branches assign the same placeholder
            LET p == NewPh(cx, s[1], s[2], s[3])
                x == GRhs(Mix(h, 3), s[1], s[2], s[3], d - 1, cx)
                y == GRhs(Mix(h, 4), s[1], s[2], s[3], d - 1, cx)
            IN [n |-> IfE(GCond(Mix(h, 5), 0, cx), Eq(V(p), x), Eq(V(p), y)),
                cx |-> [cx EXCEPT !.np = @ + 1, !.ph = Append(@, p)]]
       [] w = "ifop" -> \* an update in one branch, the plain variable in the other
            LET t == Var(Mix(h, 5), s[1], s[2], s[3], cx)
                x == G(Mix(h, 6), s[1], s[2], s[3], d - 1, cx)
                u == Op(One(Mix(h, 7), Arith), t, x)
            IN [n |-> IF h % 2 = 0 THEN IfE(GCond(Mix(h, 8), 0, cx), u, t) ELSE IfE(GCond(Mix(h, 8), 0, cx), t, u),
                cx |-> [cx EXCEPT !.ops = Append(@, t.ref)]]
       [] w = "nest" ->
            LET g == GStmts(Mix(h, 3), (Mix(h, 4) % 2) + 2, d - 1, cx, <<>>)
            IN [n |-> Glue(g.ns), cx |-> g.cx]
       [] w = "noop" -> \* a statement whose value is dropped
            [n |-> Live(Mix(h, 4), GRhs(Mix(h, 3), s[1], s[2], s[3], d - 1, cx), cx), cx |-> cx]
GStmts(h, k, d, cx, acc) ==
  IF k = 0 THEN [ns |-> acc, cx |-> cx]
  ELSE LET one == GStmt(Mix(h, k), d, cx)
       IN GStmts(h, k - 1, d, one.cx, Append(acc, one.n))
\* nest a flat list of statements differently
Regroup(h, ns) ==
  IF Len(ns) < 3 \/ h % 3 # 0 THEN Glue(ns)
  ELSE LET j == (Mix(h, 1) % (Len(ns) - 2)) + 1
       IN IF h % 2 = 0 THEN Glue(SubSeq(ns, 1, j) \o <<Glue(SubSeq(ns, j + 1, Len(ns)))>>)
          ELSE Glue(<<Glue(SubSeq(ns, 1, j + 1))>> \o SubSeq(ns, j + 2, Len(ns)))
GSeqOf(h, k, d, cx, s) ==
  LET g == GStmts(Mix(h, 1), k, d, cx, <<>>)
      uses == IF g.cx.ph # <<>> THEN V(One(Mix(h, 2), g.cx.ph)) ELSE IF g.cx.ops # <<>> THEN V(One(Mix(h, 2), g.cx.ops)) ELSE Var(h, "s", 1, 1, cx)
      scal == LET u == uses IN IF u.ref.sh = "s" THEN u ELSE [k |-> One(Mix(h, 3), <<"sum", "norm">>), a |-> <<u>>]
      fin == CASE Mix(h, 4) % 4 = 0 -> uses                                   \* the value is a variable
               [] Mix(h, 4) % 4 = 1 -> B2("*", scal, scal)
               [] OTHER -> B2(One(Mix(h, 5), Arith), G(Mix(h, 6), s[1], s[2], s[3], d, g.cx), scal)
      last == IF Mix(h, 7) % 6 = 0 /\ g.ns[Len(g.ns)].k \in {"eq", "op"} THEN <<>> ELSE <<fin>>
      ns == g.ns \o last
  IN IF Len(ns) = 1 THEN ns[1] ELSE Regroup(Mix(h, 8), ns)
GSeq(h, d, cx) == GSeqOf(h, (Mix(h, 20) % 4) + 1, d, cx, AnyShape(Mix(h, 21)))

(* ---- families: weights of the productions, systematic forms ---------------- *)
Base == [con |-> 2, stat |-> <<"normal", "cauchy", "uniform", "bernoulli", "wishart">>, stmts |-> 0,
         s |-> <<<<2, "leaf">>, <<6, "un">>, <<8, "bin">>>>,
         v |-> <<<<2, "leaf">>, <<6, "un">>, <<8, "bin">>>>,
         m |-> <<<<2, "leaf">>, <<6, "un">>, <<8, "bin">>>>,
         stm |-> <<<<5, "eq">>>>]
Mixed == [Base EXCEPT
  !.s = <<<<3, "leaf">>, <<5, "un">>, <<8, "bin">>, <<1, "cmp">>, <<1, "pow">>, <<2, "ife">>, <<2, "sumE">>, <<1, "prodE">>, <<1, "norm">>,
          <<2, "sumI">>, <<1, "prodI">>, <<1, "det">>, <<1, "logdet">>, <<2, "stat">>>>,
  !.v = <<<<3, "leaf">>, <<5, "un">>, <<7, "bin">>, <<1, "cmp">>, <<1, "pow">>, <<1, "ife">>, <<1, "sumI">>, <<1, "prodI">>, <<2, "dot">>>>,
  !.m = <<<<3, "leaf">>, <<4, "un">>, <<6, "bin">>, <<1, "cmp">>, <<1, "pow">>, <<1, "ife">>, <<1, "sumI">>, <<3, "dot">>, <<3, "tr">>>>,
  !.stm = <<<<6, "eq">>, <<2, "eqparts">>, <<6, "op">>, <<2, "each">>, <<2, "eachop">>, <<2, "ife">>, <<1, "ifop">>, <<2, "nest">>, <<1, "noop">>>>]
FamOf(f) ==
  CASE f = "C01" -> Base
    [] f = "C03" -> [Mixed EXCEPT !.stm = <<<<8, "eq">>, <<3, "eqparts">>, <<3, "each">>, <<2, "ife">>, <<1, "nest">>, <<1, "noop">>>>, !.stmts = 100]
    [] f = "C04" -> [Base EXCEPT !.stm = <<<<3, "eq">>, <<9, "op">>, <<4, "eachop">>, <<2, "ifop">>, <<1, "nest">>>>, !.stmts = 100]
    [] f = "C05" -> [Base EXCEPT !.stm = <<<<5, "eq">>, <<3, "op">>, <<3, "each">>, <<2, "eachop">>, <<2, "ife">>, <<4, "nest">>, <<3, "noop">>>>, !.stmts = 100]
    [] f \in {"C06", "C07", "C19", "C20", "C21"} -> [Mixed EXCEPT !.stmts = 50]
    [] f = "C08" -> [Base EXCEPT !.s = <<<<2, "leaf">>, <<2, "un">>, <<4, "bin">>, <<4, "sumE">>, <<5, "prodE">>, <<3, "norm">>, <<4, "sumI">>, <<4, "prodI">>>>,
                                 !.v = <<<<2, "leaf">>, <<2, "un">>, <<4, "bin">>, <<3, "sumI">>, <<4, "prodI">>>>,
                                 !.m = <<<<2, "leaf">>, <<2, "un">>, <<4, "bin">>, <<3, "sumI">>, <<3, "prodI">>>>]
    [] f = "C09" -> [Base EXCEPT !.con = 4,
                                 !.s = <<<<2, "leaf">>, <<1, "un">>, <<2, "bin">>, <<4, "sumE">>, <<1, "norm">>>>,
                                 !.v = <<<<2, "leaf">>, <<1, "un">>, <<2, "bin">>, <<6, "dot">>>>,
                                 !.m = <<<<2, "leaf">>, <<1, "un">>, <<2, "bin">>, <<6, "dot">>, <<5, "tr">>>>]
    [] f = "C10" -> [Base EXCEPT !.s = <<<<2, "leaf">>, <<1, "un">>, <<3, "bin">>, <<4, "det">>, <<4, "logdet">>>>,
                                 !.m = <<<<3, "leaf">>, <<1, "un">>, <<3, "bin">>, <<2, "dot">>, <<2, "tr">>>>]
    [] f = "C11" -> [Base EXCEPT !.s = <<<<2, "leaf">>, <<2, "un">>, <<3, "bin">>, <<2, "cmp">>, <<6, "ife">>, <<1, "sumE">>>>,
                                 !.v = <<<<2, "leaf">>, <<2, "un">>, <<3, "bin">>, <<1, "cmp">>, <<5, "ife">>>>,
                                 !.m = <<<<2, "leaf">>, <<2, "un">>, <<3, "bin">>, <<5, "ife">>>>,
                                 !.stm = <<<<3, "eq">>, <<5, "ife">>, <<4, "ifop">>>>, !.stmts = 25]
    [] f = "C12" -> [Mixed EXCEPT !.con = 18]
    [] f = "C14" -> [Base EXCEPT !.s = <<<<2, "leaf">>, <<2, "un">>, <<3, "bin">>, <<6, "pow">>>>,
                                 !.v = <<<<2, "leaf">>, <<2, "un">>, <<3, "bin">>, <<6, "pow">>>>,
                                 !.m = <<<<2, "leaf">>, <<2, "un">>, <<3, "bin">>, <<6, "pow">>>>]
    [] f \in {"C15", "C16", "C17", "C18"} ->
         [Base EXCEPT !.stat = CASE f = "C15" -> <<"normal">> [] f = "C16" -> <<"cauchy">>
                                 [] f = "C17" -> <<"uniform", "bernoulli">> [] f = "C18" -> <<"wishart">>,
                      !.s = <<<<2, "leaf">>, <<2, "un">>, <<4, "bin">>, <<6, "stat">>>>]
    [] OTHER -> Mixed

\* a sequence enumerating a product of choices: item i (0-based) of the product of lists
RECURSIVE Coord(_, _, _)
Coord(i, ls, j) == IF j > Len(ls) THEN <<>> ELSE <<ls[j][(i % Len(ls[j])) + 1]>> \o Coord(i \div Len(ls[j]), ls, j + 1)
RECURSIVE Size2(_, _)
Size2(ls, j) == IF j > Len(ls) THEN 1 ELSE Len(ls[j]) * Size2(ls, j + 1)
\* form number i of a list of blocks <<name, lists>>: <<name, coordinates>>
RECURSIVE FormAt(_, _, _)
FormAt(i, bs, b) == IF b > Len(bs) THEN <<"random", <<>>>>
                    ELSE IF i < Size2(bs[b][2], 1) THEN <<bs[b][1], Coord(i, bs[b][2], 1)>>
                    ELSE FormAt(i - Size2(bs[b][2], 1), bs, b + 1)
RECURSIVE NForms(_, _)
NForms(bs, b) == IF b > Len(bs) THEN 0 ELSE Size2(bs[b][2], 1) + NForms(bs, b + 1)

Kinds == <<"v", "e", "c", "p">>            \* variable, expression, constant, part (subview)
Kinds2 == <<"vv", "ve", "ev", "vc", "cv", "ec", "ce", "pe", "vw", "wv", "xx">>  \* w: constant view, xx: the same variable twice
Shapes3 == <<"s", "v", "m">>
Pats == <<"ss", "sv", "vs", "vv", "sm", "ms", "mm">>
StatKinds3 == <<"vvv", "eee", "vvc", "vcv", "cvv", "vcc", "cvc", "ccv", "eve", "wvv", "vew", "vve", "ccc", "wvw", "wvc">>
StatFar == <<"vsv", "vvv", "vss", "vvs">>
StatKinds2 == <<"vv", "ve", "cv", "ce", "vc", "wv", "cc">>
Blocks(f) ==
  CASE f = "C01" -> <<<<"un", <<Shapes3, Unaries, Kinds>>>>, <<"bin", <<Arith, Pats, Kinds2>>>>>>
    [] f = "C08" -> <<<<"red", <<<<"sum", "prod", "norm">>, <<"v", "m">>, <<"v", "e", "c">>>>>>, <<"red", <<<<"sum", "prod">>, <<"s">>, <<"v", "e">>>>>>,
                      <<"red", <<<<"prod">>, <<"v", "m">>, <<"z", "y", "z", "y", "z">>>>>>,
                      <<"iter", <<<<"sum", "prod">>, Shapes3, <<1, 2, 3, 5>>, <<"h", "e", "c", "2">>>>>>>>
    [] f = "C09" -> <<<<"dot", <<<<"m", "v">>, Kinds2, <<1, 2, 3>>>>>>, <<"tr", <<<<"m", "v">>, <<"v", "e", "c">>>>>>>>
    [] f = "C10" -> <<<<"det", <<<<"det", "logdet">>, <<"lu", "ldlt", "llt">>, <<1, 2, 3, 4>>, <<"v", "e", "c">>>>>>>>
    [] f = "C11" -> <<<<"ife", <<Shapes3, Rels \o <<"&&", "||", "v", "c", "n", "m">>, <<"vv", "ev", "vc", "cv", "ce", "cc", "ww">>>>>>,
                      <<"cmp", <<Rels, Pats>>>>, <<"log", <<<<"&&", "||">>, Pats>>>>>>
    [] f = "C12" -> <<<<"bin", <<Arith \o Rels, Pats, <<"cv", "vc", "cc", "wv", "vw", "ww", "cw">>>>>>,
                      <<"un", <<Shapes3, Unaries, <<"c", "w">>>>>>,
                      <<"red", <<<<"sum", "prod", "norm">>, <<"v", "m">>, <<"c", "w">>>>>>,
                      <<"iter", <<<<"sum", "prod">>, Shapes3, <<2>>, <<"c">>>>>>,
                      <<"pow", <<Shapes3, <<2, -1, 0>>, <<"c", "w">>>>>>,
                      <<"dot", <<<<"m", "v">>, <<"cv", "vc", "cc", "wv", "vw">>, <<2>>>>>>,
                      <<"tr", <<<<"m", "v">>, <<"c", "w">>>>>>,
                      <<"det", <<<<"det", "logdet">>, <<"lu">>, <<2>>, <<"c">>>>>>,
                      <<"asg", <<<<"=", "+", "-", "*", "/">>, Shapes3, <<"c", "w">>>>>>>>
    [] f = "C14" -> <<<<"pow", <<Shapes3, Exponents, <<"v", "e", "c", "p">>>>>>>>
    [] f = "C15" -> <<<<"stat", <<<<"normal">>, StatShapes("normal"), StatKinds3>>>>, <<"stat", <<<<"normal">>, StatFar, <<"fgc", "fgc", "ggv", "fgv", "fgw">>>>>>>>
    [] f = "C16" -> <<<<"stat", <<<<"cauchy">>, StatShapes("cauchy"), StatKinds3>>>>, <<"stat", <<<<"cauchy">>, StatFar, <<"fgc", "fgv">>>>>>>>
    [] f = "C17" -> <<<<"stat", <<<<"uniform">>, StatShapes("uniform"), StatKinds3>>>>,
                      <<"stat", <<<<"bernoulli">>, StatShapes("bernoulli"), StatKinds2>>>>>>
    [] f = "C18" -> <<<<"stat", <<<<"wishart">>, <<"mms">>, <<"vvc", "vcc", "cvc", "eec", "ecc", "cec", "ccc", "wvc", "vwc">>>>>>>>
    [] f \in {"C06", "C07", "C20", "C21"} ->
          <<<<"stat", <<<<"normal">>, StatShapes("normal"), <<"vvv">>>>>>, <<"stat", <<<<"cauchy">>, StatShapes("cauchy"), <<"vvv">>>>>>,
            <<"stat", <<<<"uniform">>, StatShapes("uniform"), <<"vvv">>>>>>, <<"stat", <<<<"bernoulli">>, StatShapes("bernoulli"), <<"vv">>>>>>,
            <<"stat", <<<<"wishart">>, <<"mms">>, <<"vvc", "eec">>>>>>,
            <<"det", <<<<"det", "logdet">>, <<"lu", "ldlt", "llt">>, <<2, 3>>, <<"v">>>>>>,
            <<"red", <<<<"prod", "sum", "norm">>, <<"v", "m">>, <<"z", "e">>>>>>,
            <<"iter", <<<<"sum", "prod">>, Shapes3, <<3>>, <<"h", "e">>>>>>,
            <<"dot", <<<<"m", "v">>, <<"vv", "ee">>, <<2>>>>>>, <<"tr", <<<<"m", "v">>, <<"e">>>>>>,
            <<"ife", <<Shapes3, <<"<", "n">>, <<"ee", "vc">>>>>>, <<"pow", <<Shapes3, <<2, -1>>, <<"e">>>>>>,
            <<"un", <<Shapes3, <<"tanh", "sqrt">>, <<"e">>>>>>, <<"bin", <<<<"*", "/">>, <<"sv", "vs", "mm">>, <<"ee">>>>>>,
            <<"asg", <<<<"=", "+", "-", "*", "/">>, Shapes3, <<"e">>>>>>>>
    [] f = "C03" -> <<<<"asg", <<<<"=">>, Shapes3, <<"v", "e", "c", "r">>>>>>>>
    [] f = "C04" -> <<<<"asg", <<Arith, Shapes3, <<"v", "e", "c", "x", "s", "p">>>>>>>>
    [] OTHER -> <<>>

Dims(h, sh) == CASE sh = "s" -> <<1, 1>> [] sh = "v" -> <<Size(Mix(h, 1)), 1>> [] sh = "m" -> <<Small(Mix(h, 2)), Small(Mix(h, 3))>>
\* an operand of a given kind
Opnd(h, kd, sh, r, c, cx) ==
  CASE kd = "v" -> Var(h, sh, r, c, cx)
    [] kd = "x" -> V(Ref(cx, sh, r, c, 1, ""))
    [] kd = "c" -> ConTag(h, sh, r, c, "")
    [] kd = "w" -> IF sh = "s" THEN ConTag(h, sh, r, c, "") ELSE V(CRef(cx, sh, r, c, 51 + (h % 2), ""))
    [] kd = "p" -> IF sh = "m" THEN Var(h, sh, r, c, cx) ELSE Sub(h, cx, sh, r)
    [] kd = "e" -> LET x == G(h, sh, r, c, 2, cx) IN IF IsLeafNode(x) THEN U1("sin", x) ELSE x
KindAt(ks, j) == SubSeq(ks, j, j)
FormExpr(h, fm, cx) ==
  LET q == fm[2]
  IN CASE fm[1] = "un" ->
            LET dm == Dims(h, q[1]) IN Wrap(Mix(h, 4), q[2], Opnd(Mix(h, 5), q[3], q[1], dm[1], dm[2], cx))
       [] fm[1] \in {"bin", "cmp"} ->
            LET s1 == KindAt(q[2], 1)
                s2 == KindAt(q[2], 2)
                dm == Dims(h, IF s1 = "s" THEN s2 ELSE s1)
                ks == IF fm[1] = "cmp" THEN "vv" ELSE q[3]
                opd(j, s) == Opnd(Mix(h, 4 + j), KindAt(ks, j), s, IF s = "s" THEN 1 ELSE dm[1], IF s = "s" THEN 1 ELSE dm[2], cx)
            IN B2(q[1], opd(1, s1), opd(2, s2))
       [] fm[1] = "log" ->     \* logic on comparisons, elementwise
            LET s1 == KindAt(q[2], 1)
                s2 == KindAt(q[2], 2)
                dm == Dims(h, IF s1 = "s" THEN s2 ELSE s1)
                side(j, s) == LET r == IF s = "s" THEN 1 ELSE dm[1]
                                  c == IF s = "s" THEN 1 ELSE dm[2]
                                  x(z) == Opnd(Mix(h, z), One(Mix(h, z + 1), <<"v", "e", "p">>), s, r, c, cx)
                              IN B2(One(Mix(h, 60 + j), Rels), Live(Mix(h, 64 + j), x(10 * j), cx), Opnd(Mix(h, 10 * j + 2), One(Mix(h, 10 * j + 3), <<"v", "c">>), s, r, c, cx))
                l == B2(q[1], side(1, s1), side(2, s2))
            IN IF h % 3 = 0 THEN B2("*", l, Var(Mix(h, 50), "s", 1, 1, cx)) ELSE l
       [] fm[1] = "red" ->
            LET dm == Dims(h, q[2]) IN [k |-> q[1], a |-> <<IF q[3] = "z" THEN V(Ref(cx, q[2], dm[1], dm[2], 7, "oz"))
                                                           ELSE IF q[3] = "y" THEN B2(One(Mix(h, 6), <<"*", "/">>), V(Ref(cx, q[2], dm[1], dm[2], 7, "oz")), Var(Mix(h, 5), "s", 1, 1, cx))
                                                           ELSE Opnd(Mix(h, 5), q[3], q[2], dm[1], dm[2], cx)>>]
       [] fm[1] = "iter" ->
            LET dm == Dims(h, q[2])
                ls(j) == [z \in 1..q[3] |-> Ref(cx, q[2], dm[1], dm[2], 10 + 8 * j + z, "")]
                cx2 == [cx EXCEPT !.hole = Append(@, <<[sh |-> q[2], r |-> dm[1], c |-> dm[2]]>>)]
            IN (CASE q[4] = "h" -> [k |-> "it", f |-> q[1], ls |-> <<ls(1)>>, cs |-> <<>>, a |-> <<Hole(1, 1)>>]
                 [] q[4] = "e" -> [k |-> "it", f |-> q[1], ls |-> <<ls(1)>>, cs |-> <<>>, a |-> <<B2("*", Opnd(Mix(h, 5), "e", q[2], dm[1], dm[2], cx2), Hole(1, 1))>>]
                 [] q[4] = "c" -> [k |-> "it", f |-> q[1], ls |-> <<ls(1)>>, cs |-> <<>>, a |-> <<ConTag(Mix(h, 5), q[2], dm[1], dm[2], "")>>]
                 [] q[4] = "2" -> [k |-> "it", f |-> q[1], ls |-> <<ls(1), ls(2)>>, cs |-> <<>>, a |-> <<B2(One(Mix(h, 6), Arith), Hole(1, 1), Hole(1, 2))>>])
       [] fm[1] = "dot" ->
            LET r == Small(Mix(h, 1))
                c == IF q[1] = "v" THEN 1 ELSE Small(Mix(h, 2))
                ks == IF q[2] = "xx" THEN "vv" ELSE q[2]
            IN IF q[2] = "xx" THEN LET x == Opnd(Mix(h, 3), "v", "m", q[3], q[3], cx) IN [k |-> "dot", a |-> <<x, x>>]
               ELSE [k |-> "dot", a |-> <<Opnd(Mix(h, 3), KindAt(ks, 1), "m", r, q[3], cx), Opnd(Mix(h, 4), KindAt(ks, 2), q[1], q[3], c, cx)>>]
       [] fm[1] = "tr" -> LET dm == Dims(h, q[1]) IN [k |-> "tr", a |-> <<Opnd(Mix(h, 5), q[2], q[1], dm[1], dm[2], cx)>>]
       [] fm[1] = "det" ->
            LET tg == CASE q[2] = "lu" -> "sq" [] q[2] = "ldlt" -> "def" [] q[2] = "llt" -> "spdx"
                A == CASE q[4] = "v" -> V(Ref(cx, "m", q[3], q[3], 1, tg))
                       [] q[4] = "e" -> GMat(h, q[3], 1, cx, tg)
                       [] q[4] = "c" -> Con(1, "m", q[3], q[3], DataFor(9 * (Mix(h, 5) % 1000000) + 2, "", q[3], q[3], tg))
            IN [k |-> q[1], pol |-> q[2], a |-> <<A>>]
       [] fm[1] = "ife" ->
            LET dm == Dims(h, q[1])
                cnd == CASE q[2] \in {"&&", "||"} -> B2(q[2], B2(One(Mix(h, 6), Rels), Var(Mix(h, 7), "s", 1, 1, cx), Var(Mix(h, 8), "s", 1, 1, cx)),
                                                        B2(One(Mix(h, 9), Rels), Var(Mix(h, 10), "s", 1, 1, cx), ConTag(Mix(h, 11), "s", 1, 1, "")))
                         [] q[2] = "v" -> V(Ref(cx, "s", 1, 1, 5, "bin"))
                         [] q[2] = "c" -> Con(1, "s", 1, 1, <<ROf(h % 2)>>)
                         [] q[2] = "n" -> B2("-", Opnd(Mix(h, 6), One(Mix(h, 7), <<"v", "e", "p">>), "s", 1, 1, cx), Opnd(Mix(h, 8), One(Mix(h, 9), <<"v", "c">>), "s", 1, 1, cx))
                         [] q[2] = "m" -> V(Ref(cx, "s", 1, 1, 5, ""))
                         [] OTHER -> B2(q[2], Opnd(Mix(h, 6), One(Mix(h, 7), <<"v", "e", "p">>), "s", 1, 1, cx), Opnd(Mix(h, 8), One(Mix(h, 9), <<"v", "c">>), "s", 1, 1, cx))
                opd(j) == Opnd(Mix(h, 20 + j), KindAt(q[3], j), q[1], dm[1], dm[2], cx)
            IN IfE(cnd, opd(1), opd(2))
       [] fm[1] = "pow" -> LET dm == Dims(h, q[1]) IN Pow(q[2], Opnd(Mix(h, 5), q[3], q[1], dm[1], dm[2], cx))
       [] fm[1] = "stat" -> StatOf(h, q[1], q[2], q[3], 1, cx)
       [] fm[1] = "asg" ->
            LET dm == Dims(h, q[2])
                w == IF q[1] = "=" THEN V(Ref(cx, q[2], dm[1], dm[2], 100, "")) ELSE V(Ref(cx, q[2], dm[1], dm[2], 1, ""))
                x == CASE q[3] = "r" -> [k |-> "it", f |-> One(Mix(h, 6), <<"sum", "prod">>),
                                         ls |-> <<[z \in 1..3 |-> Ref(cx, q[2], dm[1], dm[2], 18 + z, "")]>>, cs |-> <<>>, a |-> <<B2("*", Hole(1, 1), Hole(1, 1))>>]
                       [] q[3] = "s" -> G(Mix(h, 5), "s", 1, 1, 1, cx)
                       [] q[1] = "=" /\ q[3] = "v" -> U1("neg", Var(Mix(h, 5), q[2], dm[1], dm[2], cx))
                       [] OTHER -> Opnd(Mix(h, 5), q[3], q[2], dm[1], dm[2], cx)
                st == IF q[1] = "=" THEN Eq(w, x) ELSE Op(q[1], w, x)
                u == IF q[2] = "s" THEN w ELSE [k |-> "sum", a |-> <<w>>]
                v0 == Var(Mix(h, 8), "s", 1, 1, cx)
            IN CASE h % 4 = 0 -> Glue(<<st, B2("*", w, w)>>)
                 [] h % 4 = 1 -> IF q[1] = "=" THEN Glue(<<st, B2("+", U1("sin", u), v0)>>) ELSE Glue(<<Eq(V(Ref(cx, "s", 1, 1, 101, "")), U1("cos", u)), st, B2("*", u, V(Ref(cx, "s", 1, 1, 101, "")))>>)
                 [] h % 4 = 2 -> st
                 [] OTHER -> Glue(<<st, B2("/", w, U1("exp", v0))>>)

\* every sequence of two small statements (module Small), in its turn
AllSmall == SetToSeq(SmallSeqs(2))
SmallEq == SelectSeq(AllSmall, LAMBDA q : \E j \in 1..2 : q[j][1] = "=")
SmallOp == SelectSeq(AllSmall, LAMBDA q : \E j \in 1..2 : q[j][1] \in {"o", "i"})
SmallForms == CASE GFam = "C03" -> SmallEq [] GFam = "C04" -> SmallOp [] OTHER -> AllSmall
IsSmallSlot(e) == CASE GFam \in {"C03", "C04"} -> e = 2 [] GFam = "C05" -> e = 1 \/ (GThorough /\ e = 2) [] OTHER -> FALSE
SmallExpr(h, i, cx) ==
  LET n == Len(SmallForms)
      q == SmallForms[(i % n) + 1]
      fin == One(i \div n, Finals)
      s == One(h, <<<<"s", 1, 1>>, <<"s", 1, 1>>, <<"v", (Mix(h, 1) % 3) + 1, 1>>, <<"m", 2, (Mix(h, 1) % 2) + 1>>>>)
      id(nm) == CASE nm = "x" -> 1 [] nm = "y" -> 2 [] nm = "z" -> 100 + cx.np [] nm = "w" -> 101 + cx.np
      vn(nm) == V(Ref(cx, s[1], s[2], s[3], id(nm), ""))
      sn(nm) == V(Ref(cx, "s", 1, 1, IF s[1] = "s" /\ Mix(h, 2) % 2 = 0 THEN id(nm) ELSE id(nm) + 2, ""))
  IN SmallNode(q, fin, vn, sn)

RandomExpr(h, cx) ==
  LET s == AnyShape(Mix(h, 1))
      d == IF GThorough THEN 2 + (Mix(h, 2) % 4) ELSE 2 + (Mix(h, 2) % 3)
  IN IF (Mix(h, 3) % 100) < cx.fam.stmts THEN GSeq(Mix(h, 4), (Mix(h, 2) % 2) + 1, cx)
     ELSE LET s2 == IF GFam \in {"C15", "C16", "C17", "C18", "C10"} THEN <<"s", 1, 1>> ELSE s
              x == G(Mix(h, 5), s2[1], s2[2], s2[3], d, cx) IN x

(* ---- leaf resolution ------------------------------------------------------ *)
RECURSIVE Refs(_)
Refs(n) == (IF "ref" \in DOMAIN n THEN {n.ref} ELSE {})
      \cup (IF "a" \in DOMAIN n THEN UNION {Refs(n.a[j]) : j \in 1..Len(n.a)} ELSE {})
      \cup (IF "w" \in DOMAIN n THEN Refs(n.w) ELSE {})
      \cup (IF "ls" \in DOMAIN n THEN UNION {{n.ls[j][q] : q \in 1..Len(n.ls[j])} : j \in 1..Len(n.ls)} ELSE {})
RECURSIVE Resolve(_, _)
Resolve(n, ix) ==
  LET a == IF "a" \in DOMAIN n THEN TLCEval([j \in 1..Len(n.a) |-> Resolve(n.a[j], ix)]) ELSE <<>>
  IN CASE n.k = "v" -> [k |-> "v", i |-> ix[n.ref]]
       [] n.k = "sub" -> [k |-> "sub", how |-> n.how, n |-> n.n, m |-> n.m, i |-> ix[n.ref]]
       [] n.k \in {"con", "hole", "chole"} -> n
       [] n.k = "it" -> [n EXCEPT !.a = a, !.ls = TLCEval([j \in 1..Len(n.ls) |-> TLCEval([q \in 1..Len(n.ls[j]) |-> ix[n.ls[j][q]]])])]
       [] n.k \in {"eq", "op"} -> [n EXCEPT !.a = a, !.w = Resolve(n.w, ix)]
       [] OTHER -> [n EXCEPT !.a = a]
RefKey(r) == <<ShNo(r.sh), r.id, r.r, r.c>>

NExpr(h) == CASE GFam = "C21" -> 3 + (h % 2) [] GFam \in {"C06", "C20"} -> 2 + (h % 2) [] GFam = "C19" -> 2 [] OTHER -> 3
MakeProg(p) ==
  LET seed == Mix(Mix(GSeed, FamSeed), Mix(p, 991))
      fam == FamOf(GFam)
      cx0 == [seed |-> seed, fam |-> fam, ph |-> <<>>, hole |-> <<>>, ch |-> <<>>, np |-> 0, ops |-> <<>>, base |-> 0]
      ne == NExpr(Mix(seed, 1))
      bs == Blocks(GFam)
      expr(e) ==
        LET i == (p - 1) * ne + e - 1
            fm == FormAt(i, bs, 1)
            \* expressions of a concurrent program often have variables of their own
            cx == [cx0 EXCEPT !.np = 20 * e, !.base = IF GFam = "C21" /\ Mix(seed, 44) % 3 # 0 THEN 1000 * e ELSE 0]
            h == Mix(seed, 100 + e)
        IN IF IsSmallSlot(e)
             THEN SmallExpr(h, IF GThorough THEN (p - 1) * 2 + e ELSE p * 37 + (GSeed % 1000) * 1009 + (Mix(seed, 300) % 4) * 1201, cx)
           ELSE IF fm[1] = "random" THEN RandomExpr(h, cx) ELSE FormExpr(h, fm, cx)
      raw == TLCEval([e \in 1..ne |-> expr(e)])
      bys == Ref(cx0, "v", 2, 1, 999, "")
      refs == SetToSeq(UNION {Refs(raw[e]) : e \in 1..ne} \cup {bys})
      ix == TLCEval([r \in {refs[j] : j \in 1..Len(refs)} |-> CHOOSE j \in 1..Len(refs) : refs[j] = r])
  IN [leaves |-> TLCEval([j \in 1..Len(refs) |-> [k |-> refs[j].kd, sh |-> refs[j].sh, r |-> refs[j].r, c |-> refs[j].c, tg |-> refs[j].tg]]),
      ex |-> TLCEval([e \in 1..ne |-> Resolve(raw[e], ix)]),
      how |-> TLCEval([e \in 1..ne |-> IF (GFam = "C07" /\ Mix(seed, 200 + e) % 4 # 0) \/ (GFam # "C19" /\ Mix(seed, 200 + e) % 4 = 0) THEN "raw" ELSE "bound"])]

(* ---- the walk --------------------------------------------------------------- *)
VARIABLES p, P, run, s, cmds, runs, h, left
vars == <<p, P, run, s, cmds, runs, h, left>>

SmallErr(e, v) == LET b == RAbs(v) IN RLe(RMul(KTol, e), RMul(RDec("1e-6"), RMax(R1, b)))
SaneMax == IF GFam \in {"C10", "C15", "C16", "C17", "C18"} THEN RDec("1e250") ELSE RDec("1e12")
SaneElem(d) ==
  \/ RIsFin(d.v) /\ SmallErr(d.e, d.v) /\ RIsFin(RVMax(d.g)) /\ SmallErr(d.h, RVMax(d.g)) /\ RLt(RAbs(d.v), SaneMax)
  \/ REq(d.v, RNInf) /\ REq(d.e, R0) /\ RIsFin(RVMax(d.g)) /\ SmallErr(d.h, RVMax(d.g))
SaneRun(Q, e, r) ==
  /\ ~r.s.wild
  /\ \A k \in 1..Len(r.t.x) : SaneElem(r.t.x[k])
  /\ \A i \in Q.asg[e] : \A k \in 1..Len(r.s.lv[i]) : SaneElem(r.s.lv[i][k])

NRuns == IF GThorough THEN 4 ELSE IF GFam \in {"C06", "C19", "C20", "C21"} THEN 3 ELSE 2
Steps == CASE GFam = "C21" -> IF GThorough THEN 24 ELSE 14
           [] GFam \in {"C06", "C19", "C20"} -> IF GThorough THEN 30 ELSE 18
           [] GFam \in {"C10", "C15", "C16", "C17", "C18"} -> IF GThorough THEN 24 ELSE 15
           [] GFam = "C01" -> IF GThorough THEN 30 ELSE 20
           [] OTHER -> IF GThorough THEN 16 ELSE 9

Prof(z) == CASE GFam = "C08" -> One(z, <<"zero", "zero", "int", "unit", "wide", "tie">>)
             [] GFam = "C11" -> One(z, <<"tie", "tie", "int", "unit", "wide">>)
             [] GFam = "C14" -> One(z, <<"int", "wide", "zero", "pos", "unit">>)
             [] GFam = "C01" -> One(z, <<"unit", "unit", "pos", "wide", "wide", "big", "huge", "spec", "spec", "ext", "ext", "ext">>)
             [] GFam \in {"C15", "C16"} -> One(z, <<"unit", "unit", "pos", "wide", "wide", "int", "zero", "spec", "off", "off", "big">>)
             [] OTHER -> One(z, <<"unit", "unit", "pos", "wide", "wide", "int", "zero", "spec">>)
Dataset(Q, z) == TLCEval([i \in 1..Len(Q.leaves) |->
   DataFor(Mix(z, i), IF Mix(z, 50 + i) % 6 = 0 THEN Prof(Mix(z, 70 + i)) ELSE Prof(Mix(z, 90)), Q.leaves[i].r, Q.leaves[i].c, Q.leaves[i].tg)])
Bound(Q, st, e) == \E q \in 1..3 : st.sl[e][q].st # "none"
\* constant data that expression objects have already folded must not change
Frozen(Q, st) == UNION {Q.fold[e] : e \in {e \in 1..Len(Q.ex) : Bound(Q, st, e)}}
KeepFrozen(Q, st, vals) == TLCEval([i \in 1..Len(vals) |-> IF i \in Frozen(Q, st) THEN st.val[i] ELSE vals[i]])
NSane(Q, st, vals) == Cardinality({e \in 1..Len(Q.ex) : SaneRun(Q, e, Ev(Q, Q.ex[e], InitStore(Q, vals)))})
RECURSIVE BestData(_, _, _, _, _)
BestData(Q, st, z, t, best) ==
  IF t = 0 THEN best
  ELSE LET vals == KeepFrozen(Q, st, Dataset(Q, Mix(z, t)))
           n == NSane(Q, st, vals)
       IN IF n = Len(Q.ex) THEN [n |-> n, vals |-> vals]
          ELSE BestData(Q, st, z, t - 1, IF n > best.n THEN [n |-> n, vals |-> vals] ELSE best)

NoCmd == [op |-> "", e |-> 0, q |-> 0, q2 |-> 0, i |-> 0, rv |-> 0, tmp |-> FALSE, x |-> <<>>,
          par |-> 0, w |-> <<>>]      \* par: number of actions that overlap, from this one on; w: leaves it may change
Cmd(op) == [NoCmd EXCEPT !.op = op]
VarsOf(Q) == {i \in 1..Len(Q.leaves) : IsVar(Q.leaves[i])}

\* each proposal: [cmds, s] (possibly empty)
Nothing == [c |-> <<>>, s |-> s]
SetLeaf(st, i, x) == [st EXCEPT !.val[i] = x]
DoData(z) ==
  LET b == BestData(P, s, z, 5, [n |-> -1, vals |-> s.val])
      ch == SelectSeq([i \in 1..Len(P.leaves) |-> i], LAMBDA i : b.vals[i] # s.val[i])
  IN [c |-> [j \in 1..Len(ch) |-> [Cmd("set") EXCEPT !.i = ch[j], !.x = b.vals[ch[j]]]], s |-> [s EXCEPT !.val = b.vals]]
\* change one leaf only
DoSetOf(z, i) ==
  LET l == P.leaves[i]
      x0 == DataFor(Mix(z, 2), IF GFam = "C01" /\ Mix(z, 10) % 3 # 0 THEN One(Mix(z, 11), <<"ext", "ext", "spec">>) ELSE Prof(Mix(z, 3)), l.r, l.c, l.tg)
      n == NElem(l)
      \* only one element, or only one off-diagonal pair of a symmetric matrix
      one == (Mix(z, 4) % n) + 1
      a == ((one - 1) % l.r) + 1
      b == ((one - 1) \div l.r) + 1
      sym == l.tg \in {"spd", "spdx", "def"}
      off == RMul(RRnd(Mix(z, 5), "-0.45", "0.45"), RDiv(RAbs(s.val[i][1]), ROf(3)))
      regular == \A k \in 1..l.r : ~REq(s.val[i][(k - 1) * l.r + k], R0)
      out == CASE l.tg = "pos" -> One(Mix(z, 7), <<R0, RDec("-0.75")>>) [] l.tg = "obs" -> RDec("7") [] l.tg = "lo" -> RDec("5") [] l.tg = "hi" -> RDec("-5")
               [] l.tg = "prob" -> One(Mix(z, 7), <<R0, R1, RDec("-0.5"), RDec("1.5")>>) [] l.tg = "bin" -> RHalf
               [] l.tg = "spd" -> RDec("-2") [] OTHER -> RNaN
      \* matrices of different magnitude are not mixed
      OtherScale == l.tg \in MatTags /\ LET q == RDiv(RVMax(x0), RVMax(s.val[i])) IN ~(RLt(RDec("1e-5"), q) /\ RLt(q, RDec("1e5")))
      \* leave the support of a density
      x == IF Mix(z, 9) % 4 = 0 /\ ~RIsNaN(out) /\ (l.tg = "spd" => a = b) THEN [s.val[i] EXCEPT ![one] = out]
           ELSE IF Mix(z, 6) % 2 = 0 \/ OtherScale THEN x0
           ELSE IF ~sym THEN [s.val[i] EXCEPT ![one] = x0[one]]
           ELSE IF a = b \/ ~regular THEN x0
           ELSE [s.val[i] EXCEPT ![one] = off, ![(a - 1) * l.r + b] = off]
  IN IF i \in Frozen(P, s) \/ n = 0 THEN Nothing
     ELSE [c |-> <<[Cmd("set") EXCEPT !.i = i, !.x = x]>>, s |-> SetLeaf(s, i, x)]
DoSet(z) == DoSetOf(z, (Mix(z, 1) % Len(P.leaves)) + 1)
DoSetA(z) ==
  LET i == (Mix(z, 1) % Len(P.leaves)) + 1
      x == ElemOf(Mix(z, 2), P.leaves[i].r, P.leaves[i].c, LAMBDA w : Num(w, "wide"))
  IN IF ~IsVar(P.leaves[i]) THEN Nothing
     ELSE [c |-> <<[Cmd("seta") EXCEPT !.i = i, !.x = x]>>, s |-> [s EXCEPT !.adj[i] = x]]
DoRst(i) ==
  [c |-> <<[Cmd("rst") EXCEPT !.i = i]>>,
   s |-> [s EXCEPT !.adj = TLCEval([j \in 1..Len(s.adj) |-> IF i \in {0, j} THEN TLCEval([k \in 1..Len(s.adj[j]) |-> R0]) ELSE s.adj[j]])]]
DoBind(e, q, z) ==
  [c |-> <<[Cmd("bind") EXCEPT !.e = e, !.q = q,
              !.x = <<One(Mix(z, 1), <<RNaN, RDec("1e300"), R0, RInf, RDec("-7.25")>>), ROf(Mix(z, 2) % 5), ROf(Mix(z, 3) % 5)>>]>>,
   s |-> [s EXCEPT !.sl[e][q] = NewSlot]]
Vals(ex) == TLCEval([i \in 1..Len(ex) |-> TLCEval([k \in 1..Len(ex[i]) |-> ex[i][k].v])])
\* seeds of a backward evaluation: generic, sparse, one element only, all
\* zero, equal elements, and elements that cancel exactly
SeedFor(z, n, dflt) == IF dflt THEN <<R1>> ELSE
  LET m == One(Mix(z, 400), <<"wide", "wide", "wide", "zero", "cancel", "cancel", "one", "same", "int", "none">>)
      a == Num(Mix(z, 401), "wide")
      one == (Mix(z, 402) % n) + 1
  IN TLCEval([k \in 1..n |->
       CASE m = "cancel" -> IF k % 2 = 0 THEN RNeg(a) ELSE IF k = n THEN R0 ELSE a
         [] m = "one" -> IF k = one THEN a ELSE R0
         [] m = "same" -> a
         [] m = "none" -> IF Mix(z, 403) % 2 = 0 THEN R0 ELSE a
         [] OTHER -> Num(Mix(z, k), m)])
DoFwd(e, q, z) ==
  LET r == Run(P, s, e)
      x == FwdExp(P, s, e, r)
  IN IF ~CanFwd(P, s, e, q) \/ ~SaneRun(P, e, r) THEN Nothing
     ELSE [c |-> <<[Cmd("fwd") EXCEPT !.e = e, !.q = q, !.rv = z % 2]>>,
           s |-> LET v == Vals(x.val) IN [s EXCEPT !.val = v, !.sl[e][q] = SlotAfterFwd(r, v)]]
DoBwd(e, q, z) ==
  IF ~CanBwd(P, s, e, q)
    THEN IF s.sl[e][q].st = "fwd" /\ ~AdjZero(s, P.asg[e]) THEN DoRst(0) ELSE Nothing
  ELSE LET t == s.sl[e][q].t
           rv == IF t.sh = "s" THEN z % 3 ELSE z % 2
           seed == SeedFor(Mix(z, 1), Len(t.x), rv = 2)
           x == BwdExp(P, s, e, q, seed)
       IN [c |-> <<[Cmd("bwd") EXCEPT !.e = e, !.q = q, !.rv = rv, !.x = seed]>>,
           s |-> AfterBwd(P, s, e, q, Vals(x.val), Vals(x.adj))]
DoAd(e, q, z) ==
  IF ~CanFwd(P, s, e, q) THEN Nothing
  ELSE IF ~CanAd(P, s, e, q) THEN DoRst(0)
  ELSE LET r == Run(P, s, e)
           rv == IF r.t.sh = "s" THEN z % 3 ELSE z % 2
           seed == SeedFor(Mix(z, 1), Len(r.t.x), rv = 2)
           x == AdExp(P, s, e, r, seed)
           tmp == P.how[e] = "bound" /\ Mix(z, 2) % 6 = 0 /\ rv # 2
           v == Vals(x.val)
           s1 == [s EXCEPT !.val = v, !.adj = Vals(x.adj)]
       IN IF ~SaneRun(P, e, r) THEN Nothing
          ELSE [c |-> <<[Cmd("ad") EXCEPT !.e = e, !.q = q, !.rv = rv, !.x = seed, !.tmp = tmp]>>,
                s |-> IF tmp THEN s1 ELSE AfterAd(P, s1, e, q, r, Vals(FwdVals(P, s, e, r)))]
DoLife(e, z) ==
  LET q == (Mix(z, 1) % 3) + 1
      q2 == (Mix(z, 2) % 3) + 1
      has(j) == s.sl[e][j].st # "none"
      k == One(Mix(z, 3), <<"copy", "move", "assign", "massign", "kill", "bind", "assign", "copy", "bag">>)
      cm == <<[Cmd(k) EXCEPT !.e = e, !.q = q, !.q2 = q2]>>
  IN CASE P.how[e] = "raw" \/ k = "bind" -> DoBind(e, q, z)
       [] k = "kill" -> IF has(q) /\ \E j \in 1..3 : j # q /\ has(j) THEN [c |-> cm, s |-> [s EXCEPT !.sl[e][q] = NoSlot]] ELSE Nothing
       [] k = "bag" -> IF has(q) THEN [c |-> cm, s |-> [s EXCEPT !.sl[e][q] = NewSlot]] ELSE Nothing
       [] k = "copy" -> IF has(q) /\ q # q2 THEN [c |-> cm, s |-> [s EXCEPT !.sl[e][q2] = NewSlot]] ELSE Nothing
       [] k = "move" -> IF has(q) /\ q # q2 THEN [c |-> cm, s |-> [s EXCEPT !.sl[e][q2] = NewSlot, !.sl[e][q] = NoSlot]] ELSE Nothing
       [] k = "assign" -> IF has(q) /\ has(q2) THEN [c |-> cm, s |-> [s EXCEPT !.sl[e][q2] = NewSlot]] ELSE Nothing
       [] k = "massign" -> IF has(q) /\ has(q2) /\ q # q2 THEN [c |-> cm, s |-> [s EXCEPT !.sl[e][q2] = NewSlot, !.sl[e][q] = NoSlot]] ELSE Nothing
RECURSIVE LeavesOf(_)
LeavesOf(n) == (IF "i" \in DOMAIN n THEN {n.i} ELSE {})
      \cup (IF "a" \in DOMAIN n THEN UNION {LeavesOf(n.a[j]) : j \in 1..Len(n.a)} ELSE {})
      \cup (IF "w" \in DOMAIN n THEN LeavesOf(n.w) ELSE {})
      \cup (IF "ls" \in DOMAIN n THEN UNION {{n.ls[j][q] : q \in 1..Len(n.ls[j])} : j \in 1..Len(n.ls)} ELSE {})
\* several independent actions at once
RECURSIVE ParFrom(_, _, _, _)
ParFrom(z, k, cs, t) ==
  IF k = 0 THEN [c |-> cs, s |-> t]
  ELSE LET e == (Mix(z, 10 * k) % Len(P.ex)) + 1
           L == SelectSeq(<<1, 2, 3>>, LAMBDA q : s.sl[e][q].st # "none")
           q == IF L = <<>> THEN 1 ELSE One(Mix(z, 10 * k + 1), L)
           y == Mix(z, 10 * k + 2)
           o == CASE y % 5 \in {0, 1} -> DoFwd(e, q, Mix(y, 1)) [] y % 5 \in {2, 3} -> DoBwd(e, q, Mix(y, 1)) [] OTHER -> DoAd(e, q, Mix(y, 1))
           ok == /\ Len(o.c) = 1 /\ o.c[1].op \in {"fwd", "bwd", "ad"}
                 /\ \A j \in 1..Len(cs) : Independent(P, cs[j], o.c[1])
       IN IF ok THEN ParFrom(z, k - 1, Append(cs, [o.c[1] EXCEPT !.w = SetToSeq(Footprint(P, o.c[1]))]), Merge(P, t, o.s, o.c[1]))
          ELSE ParFrom(z, k - 1, cs, t)
DoPar(z) ==
  LET g == ParFrom(z, 6, <<>>, s)
  IN [g EXCEPT !.c = TLCEval([j \in 1..Len(@) |-> [@[j] EXCEPT !.par = IF j = 1 THEN Len(g.c) ELSE 0]])]
SlotOf(e, z) == LET L == SelectSeq(<<1, 2, 3>>, LAMBDA q : s.sl[e][q].st # "none")
                IN IF L = <<>> THEN 1 ELSE One(z, L)
\* the next proposal of a random walk
Propose(z) ==
  LET e == (Mix(z, 1) % Len(P.ex)) + 1
      q == SlotOf(e, Mix(z, 2))
      y == Mix(z, 3)
      k == CASE GFam \in {"C06", "C20"} -> Pick(Mix(z, 4), <<<<4, "set">>, <<2, "data">>, <<2, "seta">>, <<2, "rst">>, <<7, "fwd">>, <<7, "bwd">>, <<5, "ad">>, <<1, "life">>>>)
             [] GFam = "C19" -> Pick(Mix(z, 4), <<<<1, "set">>, <<1, "data">>, <<1, "rst">>, <<5, "fwd">>, <<5, "bwd">>, <<4, "ad">>, <<9, "life">>>>)
             [] GFam = "C21" -> Pick(Mix(z, 4), <<<<1, "set">>, <<1, "data">>, <<2, "rst">>, <<10, "par">>, <<3, "life">>>>)
             [] GFam = "C07" -> Pick(Mix(z, 4), <<<<1, "set">>, <<2, "data">>, <<1, "rst">>, <<4, "fwd">>, <<4, "bwd">>, <<4, "ad">>, <<4, "life">>>>)
             [] OTHER -> Pick(Mix(z, 4), <<<<1, "set">>, <<2, "data">>, <<1, "seta">>, <<1, "rst">>, <<3, "fwd">>, <<4, "bwd">>, <<3, "ad">>>>)
  IN CASE k = "set" -> DoSet(y) [] k = "data" -> DoData(y) [] k = "seta" -> DoSetA(y)
       [] k = "rst" -> DoRst(IF y % 2 = 0 THEN 0 ELSE (Mix(y, 1) % Len(P.leaves)) + 1)
       [] k = "fwd" -> DoFwd(e, q, y) [] k = "bwd" -> DoBwd(e, q, y) [] k = "ad" -> DoAd(e, q, y)
       [] k = "life" -> DoLife(e, y) [] k = "par" -> DoPar(y)
\* the last run of a program re-evaluates: change a leaf of an expression, forward, backward, again
Cycle(z) ==
  LET g == Mix(Mix(Mix(GSeed, FamSeed), p), 7000 + left \div 4)
      e == (g % Len(P.ex)) + 1
      q == SlotOf(e, Mix(g, 2))
      ls == SetToSeq(LeavesOf(P.ex[e]) \ P.asg[e])
  IN CASE left % 4 = 3 -> IF AdjZero(s, P.asg[e]) THEN DoSet(z) ELSE DoRst(0)
       [] left % 4 = 2 -> IF ls = <<>> THEN Nothing ELSE DoSetOf(z, One(Mix(z, 8), ls))
       [] left % 4 = 1 -> DoFwd(e, q, z)
       [] left % 4 = 0 -> DoBwd(e, q, z)
\* the opening of every run: bind everything, data, then fwd/bwd of every expression
Opening(j) ==
  LET ne == Len(P.ex) IN
  IF j = 1 THEN DoData(Mix(h, 1))
  ELSE IF j <= 1 + ne THEN DoBind(j - 1, 1, Mix(h, 2))
  ELSE IF j <= 1 + 3 * ne
    THEN LET e == ((j - 2 - ne) \div 2) + 1
         IN IF (j - 2 - ne) % 2 = 0 THEN DoFwd(e, 1, Mix(h, 3)) ELSE DoBwd(e, 1, Mix(h, 4))
  ELSE IF run = NRuns /\ GFam # "C21" THEN Cycle(h)
  ELSE Propose(h)

Init == /\ p \in GFirst..(GFirst + GN - 1)
        /\ P = LET M == MakeProg(p) IN Prep(M) @@ [how |-> M.how]
        /\ run = 1
        /\ s = InitSession(P)
        /\ cmds = <<>> /\ runs = <<>>
        /\ h = Mix(Mix(GSeed, FamSeed), Mix(p, 12345))
        /\ left = Steps + 1 + 3 * Len(P.ex)
Total0 == Steps + 1 + 3 * Len(P.ex)
Walk ==
  /\ left > 0
  /\ \E o \in {Opening(Total0 - left + 1)} :     \* evaluated once
        /\ s' = o.s
        /\ cmds' = cmds \o o.c
  /\ h' = Mix(h, left)
  /\ left' = left - 1
  /\ UNCHANGED <<p, P, run, runs>>
NextRun ==
  /\ left = 0 /\ run <= NRuns
  /\ runs' = Append(runs, cmds)
  /\ run' = run + 1
  /\ s' = InitSession(P) /\ cmds' = <<>> /\ h' = Mix(h, 777)
  /\ left' = IF run = NRuns THEN -1 ELSE Total0
  /\ UNCHANGED <<p, P>>
Emit ==
  /\ left = -1
  /\ JsonSerialize(GOut \o "/" \o GFam \o "_" \o ToString(p) \o ".json",
        [id |-> GFam \o "_" \o ToString(p),
         prog |-> [leaves |-> P.leaves, ex |-> P.ex, how |-> P.how], runs |-> runs])
  /\ left' = -2
  /\ UNCHANGED <<p, P, run, s, cmds, runs, h>>
Next == Walk \/ NextRun \/ Emit
Spec == Init /\ [][Next]_vars
View == <<p, run, left>>
=============================================================================
