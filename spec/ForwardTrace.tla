---------------------------- MODULE ForwardTrace ----------------------------
(***************************************************************************)
(* Every recorded step of real forward variables is a step of Forward.     *)
(* The next step starts from the recorded registers, so each step is       *)
(* judged against exactly the operands the library was given.              *)
(***************************************************************************)
EXTENDS Forward, Json, IOUtils
TDir == IOEnv.TRACE_DIR
TN == atoi(IOEnv.TRACE_N)
NReg == 6
VARIABLES p, id, evs, l, s, status
vars == <<p, id, evs, l, s, status>>
Init == /\ p \in 1..TN /\ id = "" /\ evs = <<>> /\ l = 0 /\ s = <<>> /\ status = "load"
Load == /\ status = "load"
        /\ \E D \in {JsonDeserialize(TDir \o "/" \o ToString(p) \o ".json")} : id' = D.id /\ evs' = D.events
        /\ s' = FInit(NReg)
        /\ l' = 1 /\ status' = "run" /\ UNCHANGED p
Judge(ev) ==
  LET x == Expect(s, ev.cmd)
  IN IF ev.ok /\ Accepts(x, ev.regs) THEN [st |-> "run", msg |-> <<>>]
     ELSE [st |-> "rejected", msg |-> <<"REJECT", id, l, ev.cmd.op, ev.cmd.f, ev.note,
             IF ~ev.ok THEN {} ELSE
             {<<j, RShow(x[j].v.v), RShow(ev.regs[j].v), RShow(x[j].d.v), RShow(ev.regs[j].d), RShow(x[j].d.tol)>> :
                j \in {j \in 1..Len(x) : ~(Meets(x[j].v, ev.regs[j].v) /\ Meets(x[j].d, ev.regs[j].d))}}>>]
Step == /\ status = "run"
        /\ IF l > Len(evs) THEN status' = "ok" /\ PrintT(<<"ACCEPT", id, l - 1>>) /\ UNCHANGED <<p, id, evs, l, s>>
           ELSE \E o \in {Judge(evs[l])} :
                  /\ status' = o.st
                  /\ s' = IF o.st = "run" THEN evs[l].regs ELSE s
                  /\ l' = IF o.st = "run" THEN l + 1 ELSE l
                  /\ (IF o.msg = <<>> THEN TRUE ELSE PrintT(o.msg))
                  /\ UNCHANGED <<p, id, evs>>
Next == Load \/ Step
Spec == Init /\ [][Next]_vars
FView == <<p, l, s, status>>
=============================================================================
