---------------------------- MODULE Trace_Hash ----------------------------
EXTENDS Hash, LongMessages, TraceWalk
InitState(c) == IF c.kind = "long" THEN << >> ELSE Fresh(c.kind)
StepOf(c, s, e) == IF c.kind = "long" THEN [st |-> s, out |-> LongDigest(e.kind, e.n)] ELSE Apply(c.kind, s, e)
Agrees(o, e) == o = e.out
Spec == WalkInit(InitState) /\ [][WalkNext(StepOf, Agrees)]_wvars
=============================================================================
