---- MODULE Trace_Vfs ----
EXTENDS Vfs, TraceWalk
Init0(c) == VfsInit
Step(c, s, e) == LET r == VfsStep(c.world, s, e) IN [st |-> r.st, out |-> [x |-> r.out, ok |-> VfsAgrees(c.world, r.out, e)]]
Agrees(o, e) == o.ok
Spec == WalkInit(Init0) /\ [][WalkNext(Step, Agrees)]_wvars
====
