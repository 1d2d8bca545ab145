---- MODULE Trace_Udif ----
EXTENDS Udif, TraceWalk
Init0(c) == ImageInit(1)
Step(c, s, e) ==
  IF e.op = "open" THEN ImageStep(Verdict(c.disk) = "ok" \/ (Verdict(c.disk) = "may" /\ e.out.k = "ok"), Meta(c.disk), LAMBDA k: B0, LAMBDA k, p, n: <<>>, s, e)
  ELSE LET r == ImageStep(TRUE, <<>>, LAMBDA k: SizeOf(c.disk), LAMBDA k, p, n: DiskBytes(LAMBDA x: Where(c.disk, x), p, n), s, e)
           b == BrokenStep(LAMBDA x: Where(c.disk, x), s[0], [st |-> r.st[0], out |-> r.out], e)
       IN [st |-> [r.st EXCEPT ![0] = b.st], out |-> b.out]
Spec == WalkInit(Init0) /\ [][WalkNext(Step, ImageAgrees)]_wvars
====
