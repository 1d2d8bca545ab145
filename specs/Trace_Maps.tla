---- MODULE Trace_Maps ----
EXTENDS Maps, TraceWalk
Init0(c) == IF c.kind = "tree" THEN TreeInit ELSE CacheInit(c.keys)
Step(c, s, e) == IF c.kind = "tree" THEN TreeStep(c.size, c.leaf, s, e) ELSE CacheStep(c.cap, s, e)
Same(o, e) == IF o = <<-1>> THEN e.out \in {<<0>>, <<1>>} ELSE o = e.out
Spec == WalkInit(Init0) /\ [][WalkNext(Step, Same)]_wvars
====
