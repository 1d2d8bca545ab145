----------------------------- MODULE Trace_Format -----------------------------
EXTENDS Format, TraceWalk
InitState(c) == "-"
Model(e) == CASE e.op = "dump" -> Dump(e.data, e.group)
              [] e.op = "string" -> AsString(e.data)
              [] e.op = "array" -> ArrayText(e.data)
StepOf(c, s, e) == [st |-> s, out |-> Model(e)]
Agrees(o, e) == o = e.out
Spec == WalkInit(InitState) /\ [][WalkNext(StepOf, Agrees)]_wvars
=============================================================================
