---- MODULE Trace_Ewf ----
EXTENDS Ewf, TraceWalk
Init0(c) == ImageInit(1)
Step(c, s, e) ==
  IF e.op = "open" THEN ImageStep(Verdict(c.disk) = "ok" \/ (Verdict(c.disk) = "may" /\ e.out.k = "ok"), c.disk, LAMBDA k: B0, LAMBDA k, p, n: <<>>, s, e)
  ELSE LET ch == Chunks(c.disk) per == PerChunk(c.disk)
           r == ImageStep(TRUE, <<>>, LAMBDA k: Volume(c.disk).size, LAMBDA k, p, n: DiskBytes(LAMBDA x: WhereIn(ch, per, x), p, n), s, e)
           b == BrokenStep(LAMBDA x: WhereIn(ch, per, x), s[0], [st |-> r.st[0], out |-> r.out], e)
       IN [st |-> [r.st EXCEPT ![0] = b.st], out |-> b.out]
Agrees(o, e) == IF e.op = "open" THEN o.k = e.out.k /\ (o.k = "ok" => MetaAgrees(o.meta, e.out.meta)) ELSE ImageAgrees(o, e)
Spec == WalkInit(Init0) /\ [][WalkNext(Step, Agrees)]_wvars
====
