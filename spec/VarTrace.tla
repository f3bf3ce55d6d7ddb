------------------------------ MODULE VarTrace ------------------------------
(***************************************************************************)
(* Is every recorded history of the real variable classes a behaviour of   *)
(* VarLife?  After each command everything readable through every object,  *)
(* and the external buffers, must be what the specification says.          *)
(***************************************************************************)
EXTENDS VarLife, Json, IOUtils
TDir == IOEnv.TRACE_DIR
TN == atoi(IOEnv.TRACE_N)
NSlots == 6
NExts == 2
ExtLen == 12
VARIABLES p, id, evs, l, s, status
vars == <<p, id, evs, l, s, status>>
Init == /\ p \in 1..TN /\ id = "" /\ evs = <<>> /\ l = 0 /\ s = <<>> /\ status = "load"
Load == /\ status = "load"
        /\ \E D \in {JsonDeserialize(TDir \o "/" \o ToString(p) \o ".json")} : id' = D.id /\ evs' = D.events
        /\ s' = Init0(NSlots, NExts, ExtLen)
        /\ l' = 1 /\ status' = "run" /\ UNCHANGED p
Judge(ev) ==
  IF ~Guard(s, ev.cmd) THEN [st |-> "skipped", s |-> s, msg |-> <<"SKIP", id, l, ev.cmd.op>>]
  ELSE LET t == Apply(s, ev.cmd)
           want == Observe(t)
       IN IF ev.ok /\ ev.ret = Ret(s, ev.cmd) /\ ev.sl = want.sl /\ ev.ext = want.ext
          THEN [st |-> "run", s |-> t, msg |-> <<>>]
          ELSE [st |-> "rejected", s |-> s,
                msg |-> <<"REJECT", id, l, ev.cmd.op, ev.note, [cmd |-> ev.cmd, want |-> Ret(s, ev.cmd), got |-> ev.ret,
                          slots |-> IF ev.ok THEN {<<q, want.sl[q], ev.sl[q]>> : q \in {q \in 1..NSlots : want.sl[q] # ev.sl[q]}} ELSE {}]>>]
Step == /\ status = "run"
        /\ IF l > Len(evs) THEN status' = "ok" /\ PrintT(<<"ACCEPT", id, l - 1>>) /\ UNCHANGED <<p, id, evs, l, s>>
           ELSE \E o \in {Judge(evs[l])} :
                  /\ status' = o.st /\ s' = o.s
                  /\ l' = IF o.st = "run" THEN l + 1 ELSE l
                  /\ (IF o.msg = <<>> THEN TRUE ELSE PrintT(o.msg))
                  /\ UNCHANGED <<p, id, evs>>
Next == Load \/ Step
Spec == Init /\ [][Next]_vars
VView == <<p, l, status, s>>
=============================================================================
