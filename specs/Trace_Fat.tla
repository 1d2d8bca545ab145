---- MODULE Trace_Fat ----
EXTENDS Fat, TraceWalk
Init0(c) == FatInit
Step(c, s, e) == FatStep(c.volume, s, e)
Spec == WalkInit(Init0) /\ [][WalkNext(Step, FatAgrees)]_wvars
====
