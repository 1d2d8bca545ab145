---- MODULE Trace_Ntfs ----
EXTENDS Ntfs, TraceWalk
Init0(c) == NtfsInit
Step(c, s, e) == NtfsStep(c.volume, s, e)
Spec == WalkInit(Init0) /\ [][WalkNext(Step, NtfsAgrees)]_wvars
====
