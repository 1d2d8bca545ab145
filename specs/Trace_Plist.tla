---------------------------- MODULE Trace_Plist ----------------------------
EXTENDS Plist, TraceWalk
InitState(c) == 0
StepOf(c, s, e) == [st |-> 0, out |-> Read(e.doc)]
Agrees(o, e) ==
  CASE o[1] = "err" -> e.out.k = "err"
    [] o[1] = "open" -> e.out.k \in {"err", "none", "ok"}
    [] o[1] = "none" -> e.out.k \in {"err", "none"}
    [] o[1] = "ok" -> e.out.k = "ok" /\ Same(o[2], e.out.v)
Spec == WalkInit(InitState) /\ [][WalkNext(StepOf, Agrees)]_wvars
=============================================================================
