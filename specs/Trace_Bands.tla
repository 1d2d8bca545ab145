---- MODULE Trace_Bands ----
EXTENDS Bands, TraceWalk
Init0(c) == ImageInit(1)
Step(c, s, e) == ImageStep(c.disk.sound, Meta(c.disk), LAMBDA k: c.disk.size,
  LAMBDA k, p, n: DiskBytes(LAMBDA x: Where(c.disk, x), p, n), s, e)
Spec == WalkInit(Init0) /\ [][WalkNext(Step, ImageAgrees)]_wvars
====
