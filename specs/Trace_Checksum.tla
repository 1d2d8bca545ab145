--------------------------- MODULE Trace_Checksum ---------------------------
EXTENDS Checksum, LongMessages, TraceWalk
InitState(c) == IF c.kind = "long" THEN << >> ELSE Start(c.cfg)
StepOf(c, s, e) == IF c.kind = "long" THEN [st |-> s, out |-> LongChecksum(e.cfg, e.n)] ELSE Apply(c.cfg, s, e)
Agrees(o, e) == o = e.out
Spec == WalkInit(InitState) /\ [][WalkNext(StepOf, Agrees)]_wvars
=============================================================================
