---------------------------- MODULE Trace_Info ----------------------------
EXTENDS Info, TraceWalk
InitState(c) == 0
StepOf(c, s, e) == [st |-> 0, out |-> [ok |-> Allowed(e), want |-> IF e.op \in {"missing", "hierarchy"} THEN <<>> ELSE Wanted(e)]]
Agrees(o, e) == o.ok
Spec == WalkInit(InitState) /\ [][WalkNext(StepOf, Agrees)]_wvars
=============================================================================
