---- MODULE Trace_Vhdx ----
EXTENDS Vhdx, TraceWalk
Init0(c) == ImageInit(Len(c.layers))
Step(c, s, e) == ImageStep(WellFormed(c.layers), Meta(c.layers), LAMBDA k: c.layers[k + 1].size,
  LAMBDA k, p, n: DiskBytes(LAMBDA x: Where(c.layers, k + 1, x), p, n), s, e)
Spec == WalkInit(Init0) /\ [][WalkNext(Step, ImageAgrees)]_wvars
====
