---- MODULE Trace_Mbr ----
EXTENDS Mbr, TraceWalk
Init0(c) == VolumeInit
Step(c, s, e) == IF e.op = "open" THEN VolumeOpen(s, Opened(c.disk, e)) ELSE VolumeStep(c.disk, s, e)
Spec == WalkInit(Init0) /\ [][WalkNext(Step, ImageAgrees)]_wvars
====
