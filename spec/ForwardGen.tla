----------------------------- MODULE ForwardGen -----------------------------
EXTENDS Forward, Json, IOUtils
GSeed == atoi(IOEnv.GEN_SEED)
GN == atoi(IOEnv.GEN_N)
GFirst == atoi(IOEnv.GEN_FIRST)
GSteps == atoi(IOEnv.GEN_STEPS)
GOut == IOEnv.GEN_OUT
NReg == 6
VARIABLES p, s, h, hist, tries
vars == <<p, s, h, hist, tries>>
One(z, xs) == xs[(z % Len(xs)) + 1]
Unaries == <<"neg", "sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "sqrt", "erf">>
Arith == <<"+", "-", "*", "/">>
Num(z) == CASE z % 8 = 0 -> ROf((Mix(z, 1) % 5) - 2) [] z % 8 = 1 -> R0 [] z % 8 \in {2, 3} -> RRnd(Mix(z, 2), "-0.95", "0.95")
            [] z % 8 = 4 -> RRnd(Mix(z, 2), "0.1", "6") [] z % 8 = 5 -> RRnd(Mix(z, 2), "-30", "30") [] OTHER -> RRnd(Mix(z, 2), "-3", "3")
RECURSIVE Tree(_, _)
Tree(z, d) ==
  IF d = 0 THEN IF z % 6 = 0 THEN [k |-> "c", x |-> Num(Mix(z, 1))] ELSE Reg((Mix(z, 2) % NReg) + 1)
  ELSE IF z % 5 < 2 THEN [k |-> "u", f |-> One(Mix(z, 3), Unaries), a |-> <<Tree(Mix(z, 4), d - 1)>>]
  ELSE [k |-> "b", f |-> One(Mix(z, 3), Arith), a |-> <<Tree(Mix(z, 4), d - 1), Tree(Mix(z, 5), d - 1)>>]
\* the first histories walk through every operation with every operand pattern
NSys == Len(Unaries) + Len(Arith)
Propose(z) ==
  LET op == One(Mix(z, 1), <<"new", "new2", "new2", "setv", "setd", "copy", "assign", "un", "un", "un", "bin", "bin", "bin", "inc", "inc", "incx", "expr", "expr", "default">>)
      r(j) == (Mix(z, 10 + j) % NReg) + 1
      m == [Cmd0 EXCEPT !.op = op, !.t = IF Mix(z, 5) % 4 = 0 THEN r(1) ELSE r(3), !.a = r(1), !.b = IF Mix(z, 6) % 4 = 0 THEN r(1) ELSE r(2), !.how = Mix(z, 7) % 4]
  IN CASE op \in {"new", "setv", "setd"} -> [m EXCEPT !.x = <<Num(Mix(z, 20))>>]
       [] op = "new2" -> [m EXCEPT !.x = <<Num(Mix(z, 20)), Num(Mix(z, 21))>>]
       [] op = "un" -> [m EXCEPT !.f = One(Mix(z, 22), Unaries)]
       [] op = "bin" -> [m EXCEPT !.f = One(Mix(z, 22), Arith)]
       [] op \in {"expr", "incx"} -> [m EXCEPT !.tree = Tree(Mix(z, 23), (Mix(z, 24) % 3) + 1)]
       [] OTHER -> m
Init == /\ p \in GFirst..(GFirst + GN - 1)
        /\ s = FInit(NReg)
        /\ h = Mix(GSeed, Mix(p, 8123))
        /\ hist = <<>> /\ tries = 0
\* the opening of every history gives each register a value and a direction
Opening(z) == [Cmd0 EXCEPT !.op = "new2", !.t = Len(hist) + 1, !.x = <<Num(Mix(z, 1)), Num(Mix(z, 2))>>]
Walk == /\ Len(hist) < GSteps /\ tries < 4 * GSteps
        /\ \E m \in {IF Len(hist) < NReg THEN Opening(h) ELSE Propose(h)} :
             \* mostly steps whose result is well defined; now and then any step
             IF FSane(s, m) \/ (h % 29 = 0 /\ m.t = 6) THEN s' = FNext(s, m) /\ hist' = Append(hist, m) ELSE UNCHANGED <<s, hist>>
        /\ h' = Mix(h, 31) /\ tries' = tries + 1
        /\ UNCHANGED p
Emit == /\ Len(hist) = GSteps \/ tries = 4 * GSteps
        /\ tries # -1
        /\ JsonSerialize(GOut \o "/" \o ToString(p) \o ".json", hist)
        /\ tries' = -1
        /\ UNCHANGED <<p, s, h, hist>>
Next == (tries >= 0 /\ Walk) \/ Emit
Spec == Init /\ [][Next]_vars
FView == <<p, s, tries>>
=============================================================================
