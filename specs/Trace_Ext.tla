---- MODULE Trace_Ext ----
EXTENDS Ext, TraceWalk
Init0(c) == ExtInit
Step(c, s, e) == ExtStep(c.volume, s, e)
Spec == WalkInit(Init0) /\ [][WalkNext(Step, ExtAgrees)]_wvars
====
