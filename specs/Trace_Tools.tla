---- MODULE Trace_Tools ----
EXTENDS Tools, TraceWalk
Init0(c) == 0
Step(c, s, e) == LET x == ToolStep(c.world, e) IN [st |-> s, out |-> [x |-> x, ok |-> ToolAgrees(c.world, x, e)]]
Agrees(o, e) == o.ok
Spec == WalkInit(Init0) /\ [][WalkNext(Step, Agrees)]_wvars
====
