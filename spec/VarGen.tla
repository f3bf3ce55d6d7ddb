------------------------------- MODULE VarGen -------------------------------
(***************************************************************************)
(* Behaviours of VarLife to be replayed into the real classes: histories   *)
(* p = GEN_FIRST.., each GEN_STEPS actions, every choice a function of     *)
(* GEN_SEED.  Written to GEN_OUT/<p>.json as a sequence of commands.       *)
(***************************************************************************)
EXTENDS VarLife, Flt, Json, IOUtils
GSeed == atoi(IOEnv.GEN_SEED)
GN == atoi(IOEnv.GEN_N)
GFirst == atoi(IOEnv.GEN_FIRST)
GSteps == atoi(IOEnv.GEN_STEPS)
GOut == IOEnv.GEN_OUT
NSlots == 6
NExts == 2
ExtLen == 12

VARIABLES p, s, h, hist, tries
vars == <<p, s, h, hist, tries>>
One(z, xs) == xs[(z % Len(xs)) + 1]
Wide == (p % 5) = 0          \* some histories use larger objects
Dims(z, sh) == CASE sh = "s" -> <<1, 1>>
                 [] sh = "v" -> <<IF Wide THEN One(Mix(z, 1), <<1, 4, 7, 8, 9, 12>>) ELSE One(Mix(z, 1), <<1, 2, 2, 3, 5>>), 1>>
                 [] sh = "m" -> One(Mix(z, 2), <<<<1, 1>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<1, 4>>, <<2, 2>>>>)
Num(z) == (z % 19) - 9
Nums(z, n) == [j \in 1..n |-> Num(Mix(z, j))]
With(P(_)) == SelectSeq([q \in 1..NSlots |-> q], P)
Some(z, P(_)) == LET L == With(P) IN IF L = <<>> THEN 1 ELSE One(z, L)
Propose(z) ==
  LET op == One(Mix(z, 1), <<"new", "new", "ext", "copy", "copy", "move", "assign", "assign", "massign", "view", "sub", "sub",
                             "kill", "set", "set", "set", "seta", "seta", "fill", "mul", "mul", "eq", "bag", "rebind">>)
      free == Some(Mix(z, 2), LAMBDA q : IsFree(s, q))
      var == Some(Mix(z, 3), LAMBDA q : IsVar(s, q))
      use == Some(Mix(z, 4), LAMBDA q : Usable(s, q))
      use2 == Some(Mix(z, 5), LAMBDA q : Usable(s, q) /\ Usable(s, use) /\ Conform(s.sl[q], s.sl[use]))
      sh == One(Mix(z, 6), <<"s", "v", "v", "m">>)
      d == Dims(Mix(z, 7), sh)
      m == [Cmd0 EXCEPT !.op = op]
      n == Mix(z, 8)
  IN CASE op = "new" -> LET v == sh = "s" /\ n % 2 = 0 IN [m EXCEPT !.q = free, !.sh = sh, !.r = d[1], !.c = d[2],
                             !.how = IF v THEN 1 ELSE 0, !.x = IF v THEN Nums(Mix(z, 9), 1) ELSE <<>>]
       [] op = "ext" -> [m EXCEPT !.q = free, !.q2 = (n % NExts) + 1, !.sh = sh, !.r = d[1], !.c = d[2], !.how = Mix(n, 1) % 2,
                             !.n = Mix(n, 2) % (ExtLen - d[1] * d[2] + 1)]
       [] op \in {"copy", "move", "bag"} -> [m EXCEPT !.q = var, !.q2 = free, !.how = n % 3]
       [] op \in {"assign", "massign"} -> [m EXCEPT !.q = var, !.q2 = IF n % 12 = 0 THEN var ELSE
             Some(Mix(z, 10), LAMBDA q : q # var /\ s.sl[q].k \in {"var", "moved"} /\ IsVar(s, var) /\ SameShape(s.sl[q], s.sl[var]))]
       [] op = "view" -> [m EXCEPT !.q = use, !.q2 = free]
       [] op = "sub" -> LET v == Some(Mix(z, 11), LAMBDA q : Usable(s, q) /\ s.sl[q].sh = "v")
                            how == n % 4
                            r == IF Usable(s, v) THEN s.sl[v].r ELSE 1
                        IN [m EXCEPT !.q = v, !.q2 = free, !.how = how, !.n = IF how < 2 THEN Mix(n, 1) % r ELSE (Mix(n, 1) % r) + 1]
       [] op = "rebind" -> LET v == Some(Mix(z, 11), LAMBDA q : IsView(s, q))
                           IN [m EXCEPT !.q = v, !.q2 = (n % NExts) + 1, !.n = IF IsView(s, v) /\ Size(s.sl[v]) <= ExtLen THEN Mix(n, 2) % (ExtLen - Size(s.sl[v]) + 1) ELSE 0]
       [] op = "kill" -> [m EXCEPT !.q = Some(n, LAMBDA q : ~IsFree(s, q))]
       [] op \in {"set", "seta"} -> [m EXCEPT !.q = use, !.how = n % 4, !.x = IF Usable(s, use) THEN Nums(Mix(z, 9), Size(s.sl[use])) ELSE <<>>]
       [] op = "fill" -> [m EXCEPT !.q = use, !.how = n % 5]
       [] op = "mul" -> [m EXCEPT !.q = use, !.q2 = use2, !.x = <<(n % 5) - 2>>, !.how = Mix(n, 3) % 2]
       [] op = "eq" -> [m EXCEPT !.q = use, !.q2 = use2, !.how = Mix(n, 3) % 2,
                           !.q3 = Some(Mix(z, 12), LAMBDA q : Guard(s, [m EXCEPT !.q = use, !.q2 = use2, !.q3 = q]))]

Init == /\ p \in GFirst..(GFirst + GN - 1)
        /\ s = Init0(NSlots, NExts, ExtLen)
        /\ h = Mix(GSeed, Mix(p, 4711))
        /\ hist = <<>> /\ tries = 0
Walk == /\ Len(hist) < GSteps /\ tries < 6 * GSteps
        /\ \E m \in {Propose(h)} :
             IF Guard(s, m) THEN s' = Apply(s, m) /\ hist' = Append(hist, m) ELSE UNCHANGED <<s, hist>>
        /\ h' = Mix(h, 17) /\ tries' = tries + 1
        /\ UNCHANGED p
Emit == /\ Len(hist) = GSteps \/ tries = 6 * GSteps
        /\ tries # -1
        /\ JsonSerialize(GOut \o "/" \o ToString(p) \o ".json", hist)
        /\ tries' = -1
        /\ UNCHANGED <<p, s, h, hist>>
Next == (tries >= 0 /\ Walk) \/ Emit
Spec == Init /\ [][Next]_vars
Inv == WellFormed(s)
StepProps == [][\/ hist' = hist
                \/ LET m == hist'[Len(hist')] IN Independent(s, m, s') /\ Equal(s, m, s')]_vars
VView == <<p, tries, s>>
=============================================================================
